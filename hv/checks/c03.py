"""C03: saved objects come back equal, with shared references kept shared."""
import copy
import os, tempfile
from collections.abc import Mapping, Set as AbstractSet
from enum import Enum
import numbers
import numpy as np
import h5py
import sparse
from hv.runner import Family
from hv.ref import arr, cn, nd, pick, rint, seed
from hv import chan
from hv.checks import c08, c10, c11, c15, c21, c22, c24, c25
from hermespy.core import Factory, RandomNode, Serializable, Signal
from hermespy.core import AntennaMode, Transformation
from hermespy.core.signal_model import DenseSignal, SparseSignal, SignalBlock
from hermespy.fec import BlockInterleaver, EncoderManager, RepetitionEncoder
from hermespy.modem import (ChirpFSKCorrelationSynchronization, ChirpFSKSynchronization, CustomPilotSymbolSequence, GuardSection, NRFrame, NRSubframe, OFDMCorrelationSynchronization, OFDMWaveform, OrthogonalLeastSquaresChannelEstimation,
                            OrthogonalZeroForcingChannelEqualization, SchmidlCoxSynchronization, SingleCarrierCorrelationSynchronization, SingleCarrierLeastSquaresChannelEstimation, SingleCarrierZeroForcingChannelEqualization,
                            UniformPilotSymbolSequence)
from hermespy.beamforming import BeamformingReceiver, BeamformingTransmitter, CaponBeamformer, ConventionalBeamformer, CoordinateFocus, NullSteeringBeamformer, SphericalFocus
from hermespy.core import Direction, SignalReceiver, SignalTransmitter, SilentTransmitter
from hermespy.modem import (Alamouti, DFT, DuplexModem, Ganesan, MaximumRatioCombining, NRSlotLink, RandomBitsSource, ReceiveSymbolCoding, ReceivingModem, SimplexLink, SingleCarrier, TransmitSymbolCoding, TransmittingModem)
from hermespy.modem.precoding.dft import DFTNorm
from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, SimulationScenario
from hermespy.channel import (ConsistentBoolean, ConsistentGaussian, ConsistentGenerator, ConsistentUniform, CorrelationType, CustomAntennaCorrelation, DelayNormalization, FixedCrossSection, MultipathFadingChannel, MultiTargetRadarChannel,
                              PhysicalRadarTarget, StandardAntennaCorrelation, VirtualRadarTarget)
from hermespy.core import ChannelStateFormat, ChannelStateInformation
from hermespy.modem.tools.psk_qam_mapping import PskQamMapping
from hermespy.modem.waveform import ChannelEqualization, ChannelEstimation, Synchronization, ZeroForcingChannelEqualization
from hermespy.simulation.animation import LinearTrajectory, StaticTrajectory
from hermespy.simulation.rf.block import RFBlockPortType
from hermespy.simulation.rf.blocks.ad import ADC, AutomaticGainControl, DAC, Gain, GainControlType, QuantizerType
from hermespy.simulation.rf.blocks.ramp import RampGenerator
from hermespy.simulation.rf.chain import RFChain
from hermespy.simulation.rf.noise.level import N0, SNR, ThermalNoise
from hermespy.simulation.rf.noise.model import AWGN
from hermespy.simulation.rf.noise.phase_noise import NoPhaseNoise, OscillatorPhaseNoise
from hermespy.simulation.rf.signal import RFSignal

from hermespy.channel import RandomDelayChannel, SingleTargetRadarChannel
from hermespy.hardware_loop import DelayCalibration, NoDelayCalibration, NoLeakageCalibration, ScalarAntennaCalibration, SelectiveLeakageCalibration
from hermespy.jcas import MatchedFilterJcas, OFDMRadar
from hermespy.modem import StatedSymbols, Symbols
from hermespy.radar import FMCW, CFARDetector, DetectionProbEvaluator, MaxDetector, PointDetection, Radar, RadarCube, RadarPointCloud, ThresholdDetector
from hermespy.simulation import (ImpedanceCoupling, NormalTrigger, PerfectCoupling, PerfectIsolation, RandomTrigger, SampleOffsetTrigger, SelectiveLeakage, SpecificIsolation, StaticTrigger, TimeOffsetTrigger, TriggerRealization)

PROPERTY = "C03"
RULE = ("random object graphs with shared and temporary objects and arrays, and randomly configured instances of the serializable classes, are written to HDF5 files in random orders, next to other objects, and read back in other "
        "orders; all public properties are compared recursively and the behaviour (samples, bits, detections) of identically seeded originals and copies is compared; distinct = distinct (class, configuration) signatures")
ASSUMPTIONS = ["random generator states are not part of an object's configuration"]
_FACTORY = []


def factory():
    if not _FACTORY:
        _FACTORY.append(Factory())
    return _FACTORY[0]


# ------------------------------------------------------------------ recursive comparison
SKIP = {"random_mother", "random_root", "is_random_root", "seed", "scenario", "visualize", "attached", "log", "drop_duration_", "timestamp_", "operator", "frames_"}
SKIP_OF = {}


def props(o):
    out = []
    for n in sorted({n for c in type(o).__mro__ for n, v in vars(c).items() if isinstance(v, property)}):
        if not n.startswith("_") and n not in SKIP:
            out.append(n)
    return out


def get(o, n):
    try:
        return True, getattr(o, n)
    except Exception as e:
        return False, type(e).__name__


def diff(a, b, path="", memo=None, depth=0, out=None):
    """Differences between two objects, as (path, description)."""
    out = [] if out is None else out
    memo = {} if memo is None else memo
    if len(out) > 12 or depth > 8 or a is b:
        return out
    key = (id(a), id(b))
    if key in memo:
        return out
    memo[key] = (a, b)

    def bad(text):
        out.append((path, text))
        return out

    if isinstance(a, np.generic) and a.ndim == 0 and not isinstance(a, np.void):
        a = a.item()
    if isinstance(b, np.generic) and b.ndim == 0 and not isinstance(b, np.void):
        b = b.item()
    if isinstance(a, Enum) or isinstance(b, Enum):
        return out if a == b else bad(f"{a} -> {b}")
    if isinstance(a, sparse.SparseArray):
        a = a.todense()
    if isinstance(b, sparse.SparseArray):
        b = b.todense()
    if isinstance(a, (numbers.Number, str, type(None), bytes)) or isinstance(b, (numbers.Number, str, type(None), bytes)):
        if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
            same = a == b or (a != a and b != b)
        else:
            same = type(a) is type(b) and a == b
        return out if same else bad(f"{a!r} -> {b!r}"[:140])
    if isinstance(a, Signal):
        if type(a) is not type(b):
            return bad(f"{type(a).__name__} -> {type(b).__name__}")
        diff(nd(a), nd(b), path + ".samples", memo, depth + 1, out)
        for n in ("sampling_rate", "carrier_frequency", "noise_power", "delay", "block_offsets"):
            diff(getattr(a, n), getattr(b, n), f"{path}.{n}", memo, depth + 1, out)
        if hasattr(a, "carrier_frequencies"):
            diff(a.carrier_frequencies, b.carrier_frequencies, path + ".carrier_frequencies", memo, depth + 1, out)
        return out
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return bad(f"{type(a).__name__} -> {type(b).__name__}")
        x, y = a.view(np.ndarray), b.view(np.ndarray)
        if x.shape != y.shape:
            return bad(f"shape {x.shape} -> {y.shape}")
        if x.dtype == object:
            for i, (u, v) in enumerate(zip(x.ravel(), y.ravel())):
                diff(u, v, f"{path}[{i}]", memo, depth + 1, out)
            return out
        if not (np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True) if x.dtype.kind in "fc" and y.dtype.kind in "fc" else np.array_equal(x, y)):
            return bad(f"array differs: {x.ravel()[:4]} -> {y.ravel()[:4]}")
        return out
    if isinstance(a, Mapping):
        if not isinstance(b, Mapping) or len(a) != len(b):
            return bad("mapping differs")
        for i, (u, v) in enumerate(zip(a.values(), b.values())):
            diff(u, v, f"{path}[{i}]", memo, depth + 1, out)
        return out
    if isinstance(a, (list, tuple)) or (hasattr(a, "__getitem__") and hasattr(a, "__len__") and type(a).__module__.startswith("hermespy") and not isinstance(a, Serializable)):
        if len(a) != len(b):
            return bad(f"{len(a)} -> {len(b)} items")
        for i, (u, v) in enumerate(zip(a, b)):
            diff(u, v, f"{path}[{i}]", memo, depth + 1, out)
        return out
    if isinstance(a, (set, frozenset, AbstractSet)):
        if len(a) != len(b):
            return bad(f"{len(a)} -> {len(b)} elements")
        return out
    if callable(a) and not hasattr(a, "serialize"):
        return out
    if not type(a).__module__.startswith("hermespy"):
        return out
    if type(a) is not type(b):
        return bad(f"{type(a).__name__} -> {type(b).__name__}")
    for n in props(a):
        if n in SKIP_OF.get(type(a).__name__, ()):
            continue
        (ok, u), (ko, v) = get(a, n), get(b, n)
        if ok != ko:
            out.append((f"{path}.{n}", f"{u!r} -> {v!r}"[:140]))
        elif ok:
            diff(u, v, f"{path}.{n}", memo, depth + 1, out)
    return out


class Store:
    """A scratch file."""

    def __enter__(self):
        self.dir = tempfile.TemporaryDirectory(prefix="hv03")
        self.path = os.path.join(self.dir.name, "f.h5")
        return self

    def __exit__(self, *a):
        self.dir.cleanup()


def write(f, path, items, campaign=None):
    p = f.serialize(path, campaign)
    try:
        for n, o in items:
            p.serialize_object(o, n)
    finally:
        p.finalize()


def read(f, path, names, campaign=None):
    p = f.deserialize(path, campaign)
    try:
        return {n: p.deserialize_object(n) for n in names}
    finally:
        p.finalize()


def roundtrip(obs, o, name, how=0, others=()):
    """Write and read an object and compare every public property."""
    f = factory()
    with Store() as s:
        if how == 0:
            f.to_HDF(s.path, o)
            new = f.from_HDF(s.path, type(o))
        else:
            items = [("x", o)] + [(f"o{i}", v) for i, v in enumerate(others)]
            if how == 2:
                items = items[1:] + items[:1]
            write(f, s.path, items)
            new = read(f, s.path, [n for n, _ in (items if how == 1 else items[::-1])])["x"]
    obs.count("objects")
    obs.check(type(new) is type(o), "type", f"{name} is restored as {type(new).__name__}")
    for p, t in diff(o, new):
        obs.soft(False, f"{name}: {p_clean(p)}", f"{name}{p}: {t}")
    return new


def p_clean(p):
    import re
    return re.sub(r"\[\d+\]", "[]", p)


# ------------------------------------------------------------------ object graphs
class Node(Serializable):
    """An object referencing others, shared and temporary arrays and scalars; read in a different order than written."""
    order = 0

    def __init__(self, key, kids=(), arrays=(), temps=(), value=0., text="", cplx=0j, rng=None):
        self.key, self.kids, self.arrays, self.temps, self.value, self.text, self.cplx, self.rng = key, list(kids), list(arrays), list(temps), value, text, cplx, rng

    def fields(self):
        return ["i", "k", "a", "t", "s"]

    def serialize(self, process):
        process.serialize_integer(self.key, "key")
        process.serialize_integer(len(self.kids), "kids")
        process.serialize_integer(len(self.arrays), "arrays")
        process.serialize_integer(len(self.temps), "temps")
        process.serialize_floating(self.value, "value")
        process.serialize_complex(self.cplx, "cplx")
        process.serialize_string(self.text, "text")
        process.serialize_range(self.rng, "range")
        for i, a in enumerate(self.arrays):
            process.serialize_array(a, f"a{i}")
        for i, k in enumerate(self.kids):
            if i % 2:
                process.serialize_object(k, f"k{i}")
        for i, t in enumerate(self.temps):      # temporaries, freed immediately
            process.serialize_array(np.full(t[0], t[1], float), f"t{i}")
            process.serialize_object(Leaf(t[1]), f"l{i}")
        process.serialize_object_sequence([k for i, k in enumerate(self.kids) if not i % 2], "seq")
        process.serialize_object_sequence([Leaf(t[1] + 100) for t in self.temps], "leaves")

    @classmethod
    def Deserialize(cls, process):
        n = {k: process.deserialize_integer(k) for k in ("kids", "arrays", "temps")}
        kids = [None] * n["kids"]

        def direct():
            for i in range(1, n["kids"], 2):
                kids[i] = process.deserialize_object(f"k{i}", Node)

        def seq():
            for i, k in enumerate(process.deserialize_object_sequence("seq", Node)):
                kids[2 * i] = k
        for f in ((direct, seq) if Node.order % 2 else (seq, direct)):
            f()
        idx = range(n["arrays"]) if Node.order < 2 else range(n["arrays"] - 1, -1, -1)
        arrays = {i: process.deserialize_array(f"a{i}", np.float64) for i in idx}
        temps = []
        leaves = process.deserialize_object_sequence("leaves", Leaf)
        for i in range(n["temps"]):
            t = process.deserialize_array(f"t{i}", np.float64)
            temps.append([t.size, float(t.flat[0]), process.deserialize_object(f"l{i}", Leaf).value, leaves[i].value])
        return cls(process.deserialize_integer("key"), kids, [arrays[i] for i in range(n["arrays"])], temps, process.deserialize_floating("value"), process.deserialize_string("text"), process.deserialize_complex("cplx"),
                   process.deserialize_range("range", None))


class Leaf(Serializable):
    def __init__(self, value):
        self.value = value

    def serialize(self, process):
        process.serialize_floating(self.value, "value")

    @classmethod
    def Deserialize(cls, process):
        return cls(process.deserialize_floating("value"))


def gen_graph(rng):
    n = rint(rng, 1, 9)
    nodes = []
    for i in range(n):
        kids = [rint(rng, 0, i - 1) for _ in range(rint(rng, 0, 4))] if i else []
        nodes.append({"kids": kids, "arrays": [rint(rng, 0, 3) for _ in range(rint(rng, 0, 3))], "temps": [[rint(rng, 1, 4), float(rint(rng, 1, 50))] for _ in range(rint(rng, 0, 3))], "value": float(rng.standard_normal()),
                      "text": pick(rng, ["", "x", "ünï code", "a b"]), "rng": pick(rng, [None, 1.5, [0., 2.]])})
    roots = [rint(rng, 0, n - 1) for _ in range(rint(rng, 1, 4))]
    return {"nodes": nodes, "roots": roots, "arrays": [rint(rng, 1, 5) for _ in range(4)], "order": rint(rng, 0, 3), "perm": [int(v) for v in rng.permutation(len(roots))], "campaign": pick(rng, [None, "c", "second"]), "append": rint(rng, 0, 3), "again": bool(rng.random() < .4),
            "history": [[rint(rng, 0, n - 1), rint(rng, 0, 3), float(rint(rng, 60, 99))] for _ in range(rint(rng, 0, 4))]}


def run_graph(c, obs):
    arrays = [np.arange(float(n)) + 10 * i for i, n in enumerate(c["arrays"])]
    nodes = []
    for i, n in enumerate(c["nodes"]):
        nodes.append(Node(i, [nodes[k] for k in n["kids"]], [arrays[a] for a in n["arrays"]], n["temps"], n["value"], n["text"], complex(n["value"], i), tuple(n["rng"]) if isinstance(n["rng"], list) else n["rng"]))
    reg = {Node.serialization_tag(): Node, Leaf.serialization_tag(): Leaf}
    f = factory()
    f.tag_registry.update(reg)
    Node.order = c["order"]
    roots = [nodes[r] for r in c["roots"]]
    names = [f"r{i}" for i in range(len(roots))]
    with Store() as s:
        p = f.serialize(s.path, c["campaign"])
        for n, o in zip(names, roots):
            p.serialize_object(o, n)
        originals = copy.deepcopy(roots) if c["history"] else roots
        for k in range(c["append"]):
            p.serialize_object_sequence([nodes[0], Leaf(k)], "list", True)
        # the objects are modified while they are saved repeatedly as roots of their own, like recorded drops
        snapshots = []
        for m, kind_, v in c["history"]:
            snapshots.append(copy.deepcopy(roots))
            p.serialize_object_sequence(roots[:1], "history", True, True)
            p.serialize_object(roots[-1], f"h{len(snapshots)}", True)
            if kind_ == 0:
                nodes[m].value = v
            elif kind_ == 1:
                arrays[m % 4][0] = v
            elif kind_ == 2:
                nodes[m].arrays = nodes[m].arrays + [np.full(3, v)]
            elif m:
                nodes[m].kids = nodes[m].kids[::-1] + [nodes[0]]
        p.finalize()
        if c["again"]:                          # another session adds to the same file
            p = f.serialize(s.path, c["campaign"])
            p.serialize_object(nodes[-1], "later")
            p.serialize_object_sequence([nodes[-1]], "list", True)
            p.finalize()
        p = f.deserialize(s.path, c["campaign"])
        got = {}
        for i in c["perm"]:
            got[names[i]] = p.deserialize_object(names[i], Node)
        for i, snap in enumerate(snapshots):
            same(obs, {}, {}, snap[0], p.deserialize_object_sequence("history", Node, i, i + 1)[0], c)
            same(obs, {}, {}, snap[-1], p.deserialize_object(f"h{i + 1}", Node), c)
            obs.count("snapshots")
        lst = p.deserialize_object_sequence("list", Serializable)
        obs.equal(len(lst), 2 * c["append"] + c["again"], "sequence", "length of the appended sequence")
        obs.equal(p.sequence_length("list"), len(lst), "sequence", "announced length of the appended sequence")
        for k in range(c["append"]):
            obs.equal((lst[2 * k].key, lst[2 * k + 1].value), (0, float(k)), "sequence", f"item {k} of the appended sequence")
        if c["again"]:
            same(obs, {}, {}, nodes[-1], p.deserialize_object("later", Node), c)
        p.finalize()
    fwd, back = {}, {}
    for n, o in zip(names, originals):
        same(obs, fwd, back, o, got[n], c)
    obs.count("nodes", len(fwd))
    obs.count("shared", sum(1 for n in nodes for k in n.kids) + len(roots) - len(fwd))
    obs.sig("graph", len(nodes), tuple(c["roots"]), c["order"], sum(len(n["temps"]) for n in c["nodes"]))


def same(obs, fwd, back, a, b, c):
    if id(a) in fwd:
        obs.check(fwd[id(a)] is b, "shared", f"an object referenced repeatedly is restored as distinct objects (node {a.key})")
        return
    obs.check(id(b) not in back, "merged", "distinct objects are restored as a single one")
    fwd[id(a)], back[id(b)] = b, a
    obs.equal((b.key, b.value, b.text, b.cplx, b.rng), (a.key, a.value, a.text, a.cplx, a.rng), "content", f"scalars of node {a.key}")
    obs.equal([x.tolist() for x in b.arrays], [x.tolist() for x in a.arrays], "content", f"arrays of node {a.key}")
    obs.equal(b.temps, [[n, v, v, v + 100] for n, v in a.temps], "temporaries", f"temporary objects and arrays of node {a.key}")
    obs.equal(len(b.kids), len(a.kids), "content", "referenced objects")
    for x, y in zip(a.kids, b.kids):
        same(obs, fwd, back, x, y, c)


# ------------------------------------------------------------------ configured instances of the classes
GROUPS = {}


def kind(group, name=None, weight=1):
    def add(fn):
        GROUPS.setdefault(group, []).extend([(name or fn.__name__, fn)] * weight)
        return fn
    return add


def gen_obj(group):
    def gen(rng):
        i = int(rng.integers(len(GROUPS[group])))
        return {"group": group, "kind": GROUPS[group][i][0], "s": seed(rng), "how": rint(rng, 0, 2), "other": rint(rng, 0, 3)}
    return gen


def others_of(c, rng):
    return [[], [Leaf(3.)], [Node(1, [], [], [[2, 3.]])], [DenseSignal.FromNDArray(np.ones((1, 3), complex), 1.), Leaf(1.)]][c["other"]]


def behaviour(fn, o):
    try:
        return fn(o)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if not any("/hermespy/" in t.filename for t in tb):
            raise
        return f"{type(e).__name__}: {e}"[:120]


def run_obj(c, obs):
    f = factory()
    f.tag_registry.update({k.serialization_tag(): k for k in (Node, Leaf)})
    fn = dict(GROUPS[c["group"]])[c["kind"]]
    r = fn(np.random.Generator(np.random.PCG64(c["s"])))
    o, behave = r if isinstance(r, tuple) else (r, None)
    new = roundtrip(obs, o, type(o).__name__, c["how"], others_of(c, None))
    if behave is not None:
        obs.count("behaviour comparisons")
        for p, t in diff(behaviour(behave, o), behaviour(behave, new)):
            obs.soft(False, f"{type(o).__name__} behaves differently", f"{c['kind']} {p}: {t}")
    obs.sig(c["kind"], c["s"] % 100)


# ---- geometry
def T(rng, p=.2):
    return Transformation.No() if rng.random() < p else Transformation.From_RPY(rng.uniform(-3, 3, 3), rng.uniform(-5, 5, 3))


@kind("geometry")
def transformation(rng):
    return T(rng)


@kind("geometry", weight=3)
def antenna(rng):
    a = c10.make_ant(c10.gen_ant(rng), int(rng.random() < .5))
    return a, lambda o: [o.local_characteristics(.3, .7), o.global_characteristics(np.array([1., 2., 3.]) / 14 ** .5)]


@kind("geometry", weight=3)
def array(rng):
    case = c10.gen_array(rng)
    a = c10.build(case)[0]
    d = rng.standard_normal(3)

    def behave(o):
        st = o.state(Transformation.No())
        return [st.topology, o.characteristics(d, AntennaMode.DUPLEX), st.spherical_phase_response(1e9, .4, .8, AntennaMode.TX), st.spherical_phase_response(1e9, .4, .8, AntennaMode.RX)]
    return a, behave


@kind("geometry", weight=2)
def trajectory(rng):
    k = rint(rng, 0, 2)
    t = StaticTrajectory(T(rng), rng.standard_normal(3)) if k < 2 else LinearTrajectory(T(rng), T(rng), float(rng.uniform(.1, 3)), float(rng.uniform(0, 1)))
    return t, lambda o: [[v.pose, v.velocity] for v in (o.sample(x) for x in (0., .3, .9, 1.7))]


# ---- front-end
def noise_kw(rng):
    kw = {}
    if rng.random() < .5:
        kw["noise_level"] = pick(rng, [N0(float(rng.uniform(0, 2)) * 1e-6), ThermalNoise(float(rng.uniform(0, 900)))])
    if rng.random() < .3:
        kw["noise_model"] = AWGN()
    return kw


def run_block(o):
    if isinstance(o, RandomNode):
        o.seed = 5
        o.noise_model.seed = 6
    n = o.num_input_ports
    x = c21.arr(3, n, 25)
    sig = RFSignal(n, 25, c21.FS, np.full(n, 3e9), np.zeros(n), 0., x.tobytes())
    y = o.propagate(o.realize(c21.FS, 1, 1e9), sig)
    return [np.asarray(y), y.carrier_frequencies, y.noise_powers]


@kind("rf", weight=8)
def block(rng):
    p = c21.gen_block(rng, ("pa", "clip", "rapp", "saleh", "custom", "mem", "memct", "shift", "split", "sum", "x4", "mixer", "imixer", "hpf", "source"))
    kw = noise_kw(rng) if p["k"] not in ("split", "sum", "x4") else {}
    if p["k"] not in ("split", "sum", "x4") and rng.random() < .4:
        kw["seed"] = rint(rng, 1, 99)
    if p["k"] == "source" and rng.random() < .5:
        kw["phase_noise"] = OscillatorPhaseNoise(1e-9, 2., 30.)
    return c21.make_block(p, **kw), run_block


@kind("rf", weight=3)
def converter(rng):
    n, bits = rint(rng, 1, 3), pick(rng, [None, 1, 3, 8])
    if rng.random() < .4:
        return DAC(bits, n, **noise_kw(rng)), run_block
    g = pick(rng, [None, Gain(float(rng.uniform(.1, 3)), bool(rng.random() < .5)), AutomaticGainControl(pick(rng, list(GainControlType)), float(rng.uniform(.3, 2)), bool(rng.random() < .5))])
    return ADC(bits, g, pick(rng, list(QuantizerType)), n, **noise_kw(rng)), run_block


@kind("rf")
def ramp(rng):
    return RampGenerator(rint(rng, 1, 3), float(rng.uniform(1, 3)) * 1e5, 1e10, 5e-5, **noise_kw(rng)), run_block


@kind("rf")
def level(rng):
    return pick(rng, [N0(float(rng.random())), ThermalNoise(float(rng.uniform(0, 500)))]), lambda o: o.get_power(1e6) if hasattr(o, "get_power") else None


@kind("rf")
def phase_noise(rng):
    o = pick(rng, [NoPhaseNoise(), OscillatorPhaseNoise(*rng.uniform(1e-9, 1e-6, 3))])

    def behave(o):
        o.seed = 3
        return np.asarray(o.add_noise(DenseSignal.FromNDArray(np.ones((1, 20), complex), 1e6)))
    return o, behave


@kind("rf", weight=2)
def rf_signal(rng):
    n, m = rint(rng, 1, 3), rint(rng, 0, 9)
    return RFSignal(n, m, float(rng.uniform(1, 9)), rng.uniform(0, 9, n), rng.uniform(0, 9, n), float(rng.random()), c21.arr(5, n, m).tobytes())


def make_chain(c):
    chain = RFChain(seed=1)
    refs = []
    for nd_ in c["nodes"]:
        p = nd_["p"]
        refs.append(chain.add_block(DAC(num_ports=p["n"]) if p["k"] == "dac" else ADC(num_ports=p["n"]) if p["k"] == "adc" else c21.make_block(p)))
    for e in c["order"]:
        s, so, d, di = c["edges"][e]
        mix = c["nodes"][d]["p"]["k"] == "mixer"
        for a, b in ([(so, di)] if not mix else [([a], [b]) for a, b in zip(so, di)]):
            po = refs[s].port("o")
            pi = (refs[d].port("i") if b[0] == 0 else refs[d].port("lo")) if mix else refs[d].port("i")
            x, y = po[a[0]], pi if mix else pi[b[0]]
            chain.connect(x if len(a) == 1 else type(x)(refs[s], a, x.port_type), y if len(b) == 1 else type(y)(refs[d], b, y.port_type))
    return chain


@kind("rf", weight=4)
def chain(rng):
    c = c21.g_graph(rng)

    def behave(o):
        real = o.realize(c21.FS, 1, 1e9)
        n = o.num_digital_input_ports if not c["rx"] else len(o.open_input_ports(RFBlockPortType.RF)) if hasattr(o, "open_input_ports") else 0
        return [o.num_digital_input_ports, o.num_digital_output_ports] + [behaviour(lambda q: np.asarray((q.receive if c["rx"] else q.transmit)(DenseSignal.FromNDArray(arr(4, m, 9), c21.FS, 1e9), real)), o) for m in range(1, 6)]
    return make_chain(c), behave


# ---- error correction and waveforms
def make_encoder(e):
    return RepetitionEncoder(e["k"], e["r"]) if e["kind"] == "rep" else BlockInterleaver(e["k"], 1) if e["kind"] == "shift" else c11.make(e, None, None)


@kind("fec", weight=4)
def encoders(rng):
    c = c11.gen_chain(rng)
    m = EncoderManager(allow_padding=c["pad"], allow_truncating=c["trunc"])
    for e in c["enc"]:
        enc = make_encoder(e)
        enc.enabled = e["enabled"]
        m.add_encoder(enc)

    def behave(o):
        out = [behaviour(lambda o: [len(o.encoders), o.rate, o.code_block_size, o.bit_block_size], o)]
        o.seed = 3
        for e in o.encoders:
            if isinstance(e, RandomNode):
                e.seed = 3
        for n in (1, 7, 24):
            x = np.random.default_rng(n).integers(0, 2, n).astype(np.uint8)
            out.append(behaviour(lambda o: o.encode(x, o.required_num_code_bits(n) if hasattr(o, "required_num_code_bits") else None), o))
            out.append(behaviour(lambda o: o.decode(o.encode(x), n), o))
        return out
    return m, behave


@kind("fec", weight=2)
def encoder(rng):
    e = c11.gen_encoder(rng)
    while e["kind"] == "shift":
        e = c11.gen_encoder(rng)
    enc = make_encoder(e)
    enc.enabled = e["enabled"]

    def behave(o):
        if isinstance(o, RandomNode):
            o.seed = 3
        k = o.bit_block_size
        x = [np.random.default_rng(n).integers(0, 2, k).astype(np.uint8) for n in range(2)]
        return [o.enabled] + [behaviour(lambda o: [o.encode(v), o.decode(o.encode(v))], o) for v in x]
    return enc, behave


@kind("waves")
def mapping(rng):
    soft = bool(rng.random() < .5)
    cplx = bool(rng.random() < .7)
    order = pick(rng, [2, 4, 8, 16, 64, 256] if cplx else [2, 4, 8, 16])
    m = PskQamMapping(order, soft_output=soft, is_complex=cplx)

    def behave(o):
        b = np.random.default_rng(1).integers(0, 2, 12 * o.bits_per_symbol).astype(np.uint8)
        s = o.get_symbols(b)
        return [s, o.detect_bits(s + .05)]
    return m, behave


def wave_behaviour(c, seed_):
    def behave(w):
        B, osf = c["w"]["B"], c["w"]["osf"]
        r = np.random.default_rng(seed_)
        bits = r.integers(0, 2, w.bits_per_frame()).astype(np.uint8)
        p = w.place(w.map(bits))
        x = w.modulate(p, B, osf)
        out = [w.bits_per_frame(), w.symbols_per_frame if hasattr(w, "symbols_per_frame") else 0, w.samples_per_frame(B, osf), w.frame_duration(B), w.symbol_energy(B, osf), w.bit_energy(B, osf), p.raw, x]
        if hasattr(w, "pilot_signal"):
            out.append(behaviour(lambda w: w.pilot_signal(B, osf), w))
        y = np.concatenate((np.zeros(7), x)) + .05 * cn(r, x.size + 7)
        out.append(behaviour(lambda w: w.synchronization.synchronize(y[None, :], B, osf), w))
        d = w.demodulate(x + .05 * cn(r, *x.shape), B, osf)
        out.append(behaviour(lambda w: w.unmap(w.equalize_symbols(w.pick(w.estimate_channel(d, B, osf)))), w))
        return out
    return behave


def full_wave(rng):
    """A waveform with processing stages of all kinds."""
    c = c15.gen_wave(rng)
    w = c15.make_wave(c)
    k = c["wave"]
    if rng.random() < .6:
        th = dict(threshold=float(rng.uniform(.3, .95)), guard_ratio=float(rng.uniform(.1, .9)), peak_prominence=float(rng.uniform(.1, .5)))
        if k == "sc":
            w.channel_estimation = pick(rng, [SingleCarrierLeastSquaresChannelEstimation(), ChannelEstimation()])
            w.channel_equalization = pick(rng, [SingleCarrierZeroForcingChannelEqualization(), ZeroForcingChannelEqualization(), ChannelEqualization()])
            w.synchronization = pick(rng, [SingleCarrierCorrelationSynchronization(**th), Synchronization()])
        elif k == "fsk":
            w.synchronization = pick(rng, [ChirpFSKCorrelationSynchronization(**th), ChirpFSKSynchronization()])
        else:
            w.channel_estimation = pick(rng, [OrthogonalLeastSquaresChannelEstimation(), ChannelEstimation()])
            w.channel_equalization = pick(rng, [OrthogonalZeroForcingChannelEqualization(), ChannelEqualization()])
            if isinstance(w, OFDMWaveform) and w.pilot_section is not None:
                w.synchronization = pick(rng, [OFDMCorrelationSynchronization(**th), SchmidlCoxSynchronization()])
    if k in ("sc", "orth", "nr") and rng.random() < .4:
        w.pilot_symbol_sequence = pick(rng, [UniformPilotSymbolSequence(complex(*rng.standard_normal(2))), CustomPilotSymbolSequence(cn(rng, rint(rng, 1, 9)))])
        w.repeat_pilot_symbol_sequence = bool(rng.random() < .5)
    if k == "orth":
        for s in w.grid_structure:
            if not isinstance(s, GuardSection) and rng.random() < .2:
                s.sample_offset = rint(rng, -1, 1)
    if k == "nr" and rng.random() < .5:
        w = pick(rng, [NRSubframe, NRFrame])(rint(rng, 0, 2), c["w"]["rb"])
        w.modulation_order = c["w"]["order"]
    return c, w


@kind("waves", weight=8)
def waveform(rng):
    c, w = full_wave(rng)
    return w, wave_behaviour(c, seed(rng))


# ---- operators
def precoders(rng):
    return [pick(rng, [lambda: DFT(pick(rng, list(DFTNorm))), DFT, Alamouti, Ganesan])() for _ in range(rint(rng, 0, 2))]


def ports(rng):
    return None if rng.random() < .5 else [int(v) for v in rng.permutation(4)[:rint(rng, 1, 3)]]


def bit_source(rng):
    return RandomBitsSource(pick(rng, [None, rint(rng, 0, 99)]))


def modem_kw(rng, tx, rx):
    enc = c11.gen_chain(rng)["enc"][:2]
    m = EncoderManager(allow_padding=bool(rng.random() < .7), allow_truncating=bool(rng.random() < .7))
    for e in enc:
        m.add_encoder(make_encoder(e))
        m.encoders[-1].enabled = e["enabled"]
    c, w = full_wave(rng)
    kw = dict(encoding=m, waveform=w, carrier_frequency=pick(rng, [None, 0., 1e9]), seed=pick(rng, [None, 5]))
    if tx:
        kw.update(selected_transmit_ports=ports(rng), bits_source=bit_source(rng), transmit_symbol_coding=precoders(rng), transmit_signal_coding=[ConventionalBeamformer() for _ in range(int(rng.random() < .2))])
    if rx:
        kw.update(selected_receive_ports=ports(rng), receive_symbol_coding=precoders(rng) + [pick(rng, [SingleCarrier, MaximumRatioCombining])() for _ in range(int(rng.random() < .2))],
                  receive_signal_coding=[pick(rng, [ConventionalBeamformer(), CaponBeamformer(.3)]) for _ in range(int(rng.random() < .2))])
    return c, kw


def modem_behaviour(c, tx, rx, kinds=(0, 1, 2)):
    """Compares transmissions and receptions of a single device with four antennas."""
    w = c["w"]

    def behave(m):
        dev = SimulatedDevice(antennas=chan_array(4), carrier_frequency=1e9, bandwidth=w["B"], oversampling_factor=w["osf"], seed=1)
        out = []
        m.seed = 7
        if tx:
            m.bits_source.seed = 3
        m.encoder_manager.seed = 4

        def transmit(m):
            t = m.transmit(dev.state(0.), 0.)
            return [nd(t.signal), t.bits, t.symbols.raw, [f.encoded_bits for f in t.frames]]

        def receive(m):
            n = dev.state(0.).receive_state(m.selected_receive_ports).num_receive_dsp_ports
            r = m.receive(DenseSignal.FromNDArray(arr(5, n, m.waveform.samples_per_frame(w["B"], w["osf"]) + 11), w["B"] * w["osf"]), dev.state(0.))
            return [r.num_frames, r.bits, r.equalized_symbols.raw]
        if tx:
            out += [behaviour(transmit, m), behaviour(lambda m: m.num_transmit_input_streams if hasattr(m, "num_transmit_input_streams") else 0, m)]
        if rx:
            out.append(behaviour(receive, m))
        return out
    return behave


def chan_array(n):
    return SimulatedUniformArray(SimulatedIdealAntenna, .05, (n, 1, 1))


@kind("operators", weight=8)
def modem(rng):
    cls, tx, rx = pick(rng, [(TransmittingModem, 1, 0), (ReceivingModem, 0, 1), (DuplexModem, 1, 1), (SimplexLink, 1, 1)])
    c, kw = modem_kw(rng, tx, rx)
    return cls(**kw), modem_behaviour(c, tx, rx)


@kind("operators", weight=2)
def nr_link(rng):
    l = NRSlotLink(rint(rng, 24, 27), selected_transmit_ports=ports(rng), selected_receive_ports=ports(rng), carrier_frequency=pick(rng, [None, 1e9]), bits_source=bit_source(rng))
    l.waveform.modulation_order = pick(rng, [4, 16, 64])
    for e in c11.gen_chain(rng)["enc"][:1]:
        l.encoder_manager.add_encoder(make_encoder(e))
    for i, p in enumerate(precoders(rng)):
        l.transmit_symbol_coding[i] = p
    return l, modem_behaviour({"w": {"B": 15e3 * 12 * 25, "osf": 1}}, 1, 1)


@kind("operators")
def precoding(rng):
    kind_ = pick(rng, [0, 1])
    p = (TransmitSymbolCoding if kind_ else ReceiveSymbolCoding)()
    for i, c in enumerate(precoders(rng)):
        p[i] = c

    def behave(o):
        return [behaviour(lambda o: o.num_transmit_input_streams(n) if kind_ else o.num_receive_output_streams(n), o) for n in (1, 2, 3, 4)] + [q.precoding is o for q in o]
    return p, behave


@kind("operators", weight=4)
def static(rng):
    n = rint(rng, 1, 4)
    sig = DenseSignal.FromNDArray(cn(rng, n, rint(rng, 1, 30)), 1e6, float(rng.choice([0., 1e9])))
    p = None if rng.random() < .4 else [int(v) for v in rng.permutation(4)[:n]]
    k = rint(rng, 0, 4)
    if k == 0:
        o = SilentTransmitter(rint(rng, 0, 50), p)
    elif k == 1:
        o = SignalTransmitter(sig, selected_transmit_ports=p)
    elif k == 2:
        o = SignalReceiver(rint(rng, 0, 50), p, float(rng.uniform(0, 3)))
    elif k == 3:
        b = ConventionalBeamformer()
        b.transmit_focus = SphericalFocus(rng.uniform(-1, 1, 2))
        o = BeamformingTransmitter(DenseSignal.FromNDArray(cn(rng, 1, 9), 1e6), b)
        o.selected_transmit_ports = p
    else:
        o = BeamformingReceiver(pick(rng, [ConventionalBeamformer(), CaponBeamformer(float(rng.random()))]), rint(rng, 0, 50), p, float(rng.uniform(0, 3)))
    o.carrier_frequency = pick(rng, [None, 0., 2e9])

    def behave(o):
        dev = SimulatedDevice(antennas=chan_array(4), carrier_frequency=1e9, bandwidth=1e6)
        if k in (2, 4):
            m = len(p) if p else 4
            return behaviour(lambda o: nd(o.receive(DenseSignal.FromNDArray(arr(3, m, 12), 1e6, 1e9), dev.state(0.)).signal), o)
        return behaviour(lambda o: nd(o.transmit(dev.state(0.), 2e-5).signal), o)
    return o, behave


@kind("operators", weight=4)
def beamformer(rng):
    o = pick(rng, [ConventionalBeamformer, NullSteeringBeamformer, lambda: CaponBeamformer(float(rng.random()))])()
    grid = rng.uniform(-1, 1, (rint(rng, 1, 5), rint(rng, 1, 3), 2))

    def foc(n):
        f = [SphericalFocus(rng.uniform(-1, 1, 2)) if rng.random() < .6 else CoordinateFocus(rng.uniform(-5, 5, 3) + 6., pick(rng, ["local", "global"])) for _ in range(n)]
        return f[0] if n == 1 else f
    if rng.random() < .7:
        try:
            if hasattr(o, "transmit_focus"):
                o.transmit_focus = foc(max(1, o.num_transmit_focus_points))
            if hasattr(o, "receive_focus"):
                o.receive_focus = foc(max(1, o.num_receive_focus_points))
        except ValueError:
            pass
    if hasattr(o, "probe_focus_points") and rng.random() < .7:
        o.probe_focus_points = grid[:, :max(1, o.num_receive_focus_points)] if grid.shape[1] >= o.num_receive_focus_points else np.repeat(grid[:, :1], o.num_receive_focus_points, 1)

    def behave(o):
        dev = SimulatedDevice(antennas=chan_array(4), carrier_frequency=1e9, bandwidth=1e6)
        x = DenseSignal.FromNDArray(arr(3, 4, 12), 1e6, 1e9)
        st = dev.state(0.)
        out = [type(o).__name__]
        if hasattr(o, "encode_streams"):
            out.append(behaviour(lambda o: nd(o.encode_streams(x[:1, :] if not isinstance(x, np.ndarray) else x, 4, st.transmit_state())), o))
        if hasattr(o, "decode_streams"):
            out += [behaviour(lambda o: nd(o.decode_streams(x, 1, st.receive_state())), o), behaviour(lambda o: o.probe(x, st.receive_state()), o)]
        return out
    return o, behave


@kind("operators")
def focus(rng):
    return pick(rng, [SphericalFocus(rng.uniform(-1, 1, 2)), CoordinateFocus(rng.uniform(-5, 5, 3), pick(rng, ["local", "global"])), CoordinateFocus(Direction.From_Cartesian(rng.uniform(.1, 5, 3), normalize=True), pick(rng, ["local", "global"]))]), \
        lambda o: o.spherical_angles(SimulatedDevice(antennas=chan_array(4), carrier_frequency=1e9, pose=Transformation.From_RPY(np.array([.1, .2, .3]), np.array([1., 2., 3.]))).state(0.))


# ---- channels
def links(rng):
    return [(chan.gen_device(rng, duplex=True), chan.gen_device(rng, duplex=True), float(pick(rng, [0., .01]))) for _ in range(2)]


def sample_behaviour(ls):
    devs = [(chan.device(a, 1e9, 1e6), chan.device(b, 1e9, 1e6), t) for a, b, t in ls]

    def behave(real):
        out = []
        for a, b, t in devs:
            x = DenseSignal.FromNDArray(arr(3, a.num_transmit_antennas, 30), 1e6, 1e9)

            def run(real):
                smp = real.sample(a.state(t), b.state(t), t, 1e9, 1e6)
                y = smp.propagate(x)
                return [nd(y), getattr(smp, "gain", None), smp.state(30, 5).dense_state()]
            out.append(behaviour(run, real))
        return out
    return behave


def channel_behaviour(ls):
    inner = sample_behaviour(ls)

    def behave(ch):
        ch.seed = 9
        return [inner(ch.realize()), inner(ch.realize())]
    return behave


def gen_ch(rng, kinds):
    c = chan.gen_channel(rng, list(kinds))
    ch = chan.channel(c)
    if isinstance(ch, MultiTargetRadarChannel) and rng.random() < .5:
        ch.add_target(VirtualRadarTarget(FixedCrossSection(float(rng.uniform(.1, 3))), StaticTrajectory(Transformation.From_Translation(rng.uniform(5, 60, 3))), bool(rng.random() < .5)))
    if isinstance(ch, MultipathFadingChannel) and rng.random() < .3:
        ch.los_angle = float(rng.uniform(0, 3))
    if isinstance(ch, MultipathFadingChannel) and rng.random() < .4:
        ch.los_doppler_frequency = float(rng.uniform(0, 300))
    if isinstance(ch, MultipathFadingChannel) and rng.random() < .4:
        ch.antenna_correlation = pick(rng, [StandardAntennaCorrelation(pick(rng, list(CorrelationType))), CustomAntennaCorrelation(np.eye(6) + .2)])
    return ch


@kind("channels", weight=9)
def channel(rng):
    return gen_ch(rng, chan.CHEAP), channel_behaviour(links(rng))


@kind("channels", weight=9)
def realization(rng):
    return gen_ch(rng, chan.CHEAP).realize(), sample_behaviour(links(rng))


@kind("cdl", weight=2)
def cdl_channel(rng):
    ch = gen_ch(rng, chan.CDLS)
    if hasattr(ch, "delay_normalization") and rng.random() < .5:
        ch.delay_normalization = pick(rng, list(DelayNormalization))
    return ch, channel_behaviour(links(rng)[:1])


@kind("cdl", weight=2)
def cdl_realization(rng):
    return gen_ch(rng, chan.CDLS).realize(), sample_behaviour(links(rng))


@kind("channels", weight=3)
def target(rng):
    rcs = FixedCrossSection(float(rng.uniform(.1, 3)))
    pose = Transformation.From_Translation(rng.uniform(5, 60, 3))
    o = pick(rng, [VirtualRadarTarget(rcs, pick(rng, [StaticTrajectory(pose), LinearTrajectory(pose, Transformation.From_Translation(rng.uniform(-9, 9, 3)), 3.)]), bool(rng.random() < .5)),
                   PhysicalRadarTarget(rcs, SimulatedDevice(pose=pose, carrier_frequency=1e9), bool(rng.random() < .5))])
    return o, lambda o: [o.static, o.sample_cross_section(np.array([0., 0., 1.]), np.array([0., 0., 1.])), o.sample_trajectory(1.).pose if hasattr(o, "sample_trajectory") else None]


@kind("channels", weight=2)
def correlation(rng):
    k = rint(rng, 1, 4)
    a = cn(rng, k, k)
    o = CustomAntennaCorrelation(a @ a.conj().T + k * np.eye(k)) if rng.random() < .5 else StandardAntennaCorrelation(pick(rng, list(CorrelationType)))
    return o, lambda o: [behaviour(lambda o: o.sample_covariance(chan_array(k), AntennaMode.TX), o)]


@kind("channels", weight=2)
def csi(rng):
    d, f = rint(rng, 1, 4), rint(rng, 1, 6)
    fmt = pick(rng, [ChannelStateFormat.IMPULSE_RESPONSE, ChannelStateFormat.FREQUENCY_SELECTIVITY])
    st = cn(rng, rint(rng, 1, 3), rint(rng, 1, 3), f if fmt is ChannelStateFormat.IMPULSE_RESPONSE else 1, d if fmt is ChannelStateFormat.IMPULSE_RESPONSE else f)
    if rng.random() < .4:
        st = sparse.COO.from_numpy(st * (rng.random(st.shape) < .3))
    o = ChannelStateInformation(fmt, st, num_delay_taps=d, num_frequency_bins=f if fmt is ChannelStateFormat.FREQUENCY_SELECTIVITY and rng.random() < .7 else None)
    return o, lambda o: [behaviour(lambda o: o.to_impulse_response().dense_state(), o), behaviour(lambda o: o.to_frequency_selectivity().dense_state(), o)]


@kind("channels", weight=3)
def consistent(rng):
    g = ConsistentGenerator(pick(rng, [np.random.default_rng(3)]))
    shape = tuple(rint(rng, 1, 3) for _ in range(rint(rng, 1, 2)))
    cls = pick(rng, [ConsistentUniform, ConsistentGaussian, ConsistentBoolean])
    g.uniform((2,))
    v = {ConsistentUniform: g.uniform, ConsistentGaussian: g.gaussian, ConsistentBoolean: g.boolean}[cls](shape)
    w = g.gaussian((2,))
    static = bool(rng.random() < .3)
    real = g.realize(float("inf") if static else float(rng.uniform(1, 30)), 10)
    if rng.random() < .5:
        return v, lambda o: [o.sample(real.sample(np.array([1., 2., 3.]), np.array([3., 1., 0.]))), w.sample(real.sample(np.zeros(3), np.ones(3)))]
    return real, lambda o: [v.sample(o.sample(np.array([1., 2., 3.]), np.array([3., 1., 0.]))), w.sample(o.sample(np.zeros(3), np.ones(3)))]


# ---- devices
CF, B = c08.CF, c08.B


def dev_behaviour(o):
    o.seed = 5
    t = o.transmit(o.state(.01)) if False else o.transmit()
    x = DenseSignal.FromNDArray(arr(3, o.num_receive_antennas, 120), B, CF)
    r = o.receive(x)
    return [[s for s in t.emerging_signals], t.mixed_signal, t.trigger_realization.num_offset_samples, [getattr(q, "bits", None) for q in t.operator_transmissions], [s for s in r.operator_inputs], r.baseband_signal, o.state(.01).pose, o.state(.01).velocity]


def full_device(rng):
    c = c08.gen_dev(rng)
    w = c08.World(c)
    dev = w.devices[0]
    n, m = dev.num_transmit_antennas, dev.num_receive_antennas
    k = rint(rng, 0, 3)
    if k == 1:
        dev.isolation = SpecificIsolation(10 ** (2 * rng.random((m, n))))
    elif k == 2:
        dev.isolation = SelectiveLeakage(.1 * cn(rng, m, n, 4))
    if rng.random() < .4:
        dev.coupling = coupling_of(rng, n, m)
    if rng.random() < .3:
        dev.velocity = rng.standard_normal(3)
    dev.power = float(rng.uniform(.1, 4))
    dev.oversampling_factor = rint(rng, 1, 2)
    if rng.random() < .3:
        dev.pose = T(rng)
    dev.set_base(None)
    w.sc = None
    return dev


def coupling_of(rng, n, m):
    sq = lambda k: np.eye(k) * 2 + (.2 * rng.standard_normal((k, k)) + .2j * rng.standard_normal((k, k)))
    herm = lambda k: (lambda a: a @ a.conj().T + k * np.eye(k))(cn(rng, k, k))
    p = [herm(n), herm(m), sq(n), sq(m), sq(m)]
    if rng.random() < .3:
        p = [x.real for x in p]
    return ImpedanceCoupling(*[x if rng.random() < .6 else None for x in p])


@kind("devices", weight=6)
def device(rng):
    return full_device(rng), dev_behaviour


@kind("devices", weight=2)
def coupling(rng):
    return pick(rng, [PerfectCoupling(), coupling_of(rng, 2, 2), coupling_of(rng, 3, 3)])


@kind("devices", weight=2)
def isolation(rng):
    return pick(rng, [PerfectIsolation(), SpecificIsolation(10 ** rng.random((2, 3))), SpecificIsolation(), SelectiveLeakage(cn(rng, 2, 2, rint(rng, 1, 4)))])


@kind("devices", weight=2)
def trigger(rng):
    o = pick(rng, [StaticTrigger(), RandomTrigger(), NormalTrigger(float(rng.uniform(0, 9)), float(rng.uniform(.1, 3))), TimeOffsetTrigger(float(rng.uniform(0, 9))), SampleOffsetTrigger(rint(rng, 0, 99)), TriggerRealization(rint(rng, 0, 99), float(rng.uniform(1, 9)))])
    return o


@kind("devices", weight=2)
def calibration(rng):
    tp, rp = sorted(rng.choice(4, rint(rng, 1, 4), replace=False).tolist()), sorted(rng.choice(4, rint(rng, 1, 4), replace=False).tolist())
    sel = bool(rng.random() < .6)
    h = cn(rng, len(rp), len(tp), rint(rng, 1, 5)) if sel else cn(rng, 4, 4, 3)
    o = pick(rng, [SelectiveLeakageCalibration(h, B, 3 / B, transmit_ports=tp if sel else None, receive_ports=rp if sel else None), DelayCalibration(float(rng.uniform(0, 9))), ScalarAntennaCalibration(cn(rng, 3), cn(rng, 2)), NoDelayCalibration(), NoLeakageCalibration()])

    def behave(o):
        x = DenseSignal.FromNDArray(arr(3, 4, 20), B, CF)
        return [behaviour(lambda o: o.predict_leakage(x), o), behaviour(lambda o: o.remove_leakage(x, x), o)] if hasattr(o, "predict_leakage") else []
    return o, behave


# ---- sensing and evaluation
def radar_kw(rng):
    return dict(detector=detector_of(rng) if rng.random() < .6 else None, receive_beamformer=pick(rng, [None, ConventionalBeamformer(), CaponBeamformer(.3)]), min_range=float(rng.uniform(0, 5)), selected_transmit_ports=pick(rng, [None, [0]]), selected_receive_ports=pick(rng, [None, [0, 2]]),
                carrier_frequency=pick(rng, [None, 2.1e9]))


def detector_of(rng):
    return pick(rng, [MaxDetector(), ThresholdDetector(float(rng.uniform(0, 1)), bool(rng.random() < .5), bool(rng.random() < .5)), CFARDetector((rint(rng, 1, 3), rint(rng, 1, 3)), (rint(rng, 0, 1), rint(rng, 0, 1)), float(rng.uniform(.01, .3)))])


def cube_of(rng):
    A, V, R = rint(rng, 1, 3), rint(rng, 9, 12), rint(rng, 9, 14)
    data = np.random.default_rng(int(rng.integers(99))).exponential(size=(A, V, R))
    return RadarCube(data, rng.uniform(0, 3, (A, 2)) if rng.random() < .7 or A > 1 else None, np.sort(rng.standard_normal(V)) if rng.random() < .8 or V > 1 else None, np.sort(rng.uniform(0, 9, R)), pick(rng, [0., 1e9]))


def fmcw_of(rng):
    k = dict(adc_sampling_rate=float(pick(rng, [.5, .75, 1.]) * B)) if rng.random() < .5 else {}
    return FMCW(rint(rng, 1, 5), rint(rng, 16, 40) / B, rint(rng, 41, 60) / B, **k)


@kind("sensing", weight=2)
def detector(rng):
    c = cube_of(rng)
    return detector_of(rng), lambda o: [[(p.position, p.velocity, p.power) for p in o.detect(c).points]]


@kind("sensing", weight=2)
def cube(rng):
    return cube_of(rng), lambda o: [o.velocity_bins] if o.carrier_frequency else []


@kind("sensing", weight=2)
def cloud(rng):
    o = RadarPointCloud(pick(rng, [0., 30.]))
    for _ in range(rint(rng, 0, 4)):
        o.add_point(PointDetection(rng.standard_normal(3), rng.standard_normal(3), float(rng.uniform(.1, 3))))
    return o, lambda o: [[(p.position, p.velocity, p.power) for p in o.points]]


@kind("sensing", weight=2)
def fmcw(rng):
    return fmcw_of(rng), lambda o: [behaviour(lambda o: o.ping(B), o), o.frame_duration(B), o.range_bins(B)] if hasattr(o, "range_bins") else [o.frame_duration(B)]


def radar_behaviour(o):
    dev = SimulatedDevice(antennas=chan_array(4), carrier_frequency=CF, bandwidth=B)
    dev.transmitters.add(o)
    dev.receivers.add(o)
    dev.seed = 3
    t = dev.transmit()
    r = dev.receive(DenseSignal.FromNDArray(np.concatenate([arr(3, 4, 7), nd(t.mixed_signal)], 1), B, CF)).operator_receptions[0]
    return [t.mixed_signal, [getattr(q, "bits", None) for q in t.operator_transmissions], r.cube.data, r.cube.angle_bins, r.cube.range_bins, r.cube.doppler_bins, None if r.cloud is None else [(p.position, p.power) for p in r.cloud.points], getattr(r, "bits", None)]


def comm_kw(rng, op):
    if rng.random() < .6:
        op.encoder_manager.add_encoder(RepetitionEncoder(repetitions=3))
    if rng.random() < .4:
        op.transmit_symbol_coding[0] = DFT()
        op.receive_symbol_coding[0] = DFT()
    return op


@kind("sensing", weight=4)
def radar(rng):
    return Radar(waveform=fmcw_of(rng), **radar_kw(rng)), radar_behaviour


@kind("sensing", weight=4)
def matched_filter(rng):
    o = MatchedFilterJcas(float(rng.uniform(10, 90)), c24.mf_wave({"wave": pick(rng, ["ofdm", "rrc", "fsk"]), "len": rint(rng, 1, 2), "B": B}), max_velocity=float(rng.uniform(0, 3)), velocity_resolution=float(rng.uniform(.5, 1)), **radar_kw(rng))
    return comm_kw(rng, o), radar_behaviour


@kind("sensing", weight=4)
def ofdm_radar(rng):
    o = OFDMRadar(c24.ofdm({"null": 0, "ns": 32, "cp": .25, "words": rint(rng, 2, 5), "order": 4}), **radar_kw(rng))
    return comm_kw(rng, o), radar_behaviour


def setup_eval(rng, e):
    for n, v in (("confidence", float(rng.uniform(.5, .99))), ("tolerance", float(rng.uniform(.01, .4))), ("min_num_samples", rint(rng, 2, 900))):
        if hasattr(e, n) and rng.random() < .6:
            setattr(e, n, v)
    if hasattr(e, "plot_surface") and rng.random() < .5:
        e.plot_surface = bool(rng.random() < .5)
    return e


@kind("sensing", weight=5)
def comm_evaluator(rng):
    wave = lambda: c08.waveform({"scalars": 8})
    if rng.random() < .5:
        tx = rx = SimplexLink(waveform=wave(), seed=1)
    else:
        tx, rx = TransmittingModem(waveform=wave(), seed=1), ReceivingModem(waveform=wave(), seed=2)
    return setup_eval(rng, pick(rng, list(c25.evaluators(tx, rx).values())))


@kind("sensing", weight=4)
def radar_evaluator(rng):
    r = Radar(waveform=fmcw_of(rng), detector=MaxDetector())
    d = [SimulatedDevice(antennas=chan_array(1), carrier_frequency=CF, bandwidth=B) for _ in range(2)]
    d[0].transmitters.add(r)
    d[0].receivers.add(r)
    ch = SingleTargetRadarChannel(5., 1.)
    return setup_eval(rng, DetectionProbEvaluator(r))


# ---- records of executed simulations
def drop_of(rng):
    w = c08.World(c08.gen_sc(rng))
    for _ in range(rint(rng, 0, 1)):
        w.sc.drop()
    return w.sc.drop()


@kind("records", weight=4)
def drop(rng):
    return drop_of(rng), lambda o: [[str(v) for v in c08.digest(o)]]


@kind("records", weight=3)
def device_transmission(rng):
    return pick(rng, drop_of(rng).device_transmissions)


@kind("records", weight=3)
def device_reception(rng):
    return pick(rng, drop_of(rng).device_receptions)


@kind("records", weight=3)
def processing(rng):
    w = c08.World(c08.gen_sc(rng))
    dev = w.devices[0]
    st = dev.state(0.)
    o = dev.generate_output(dev.transmit_operators(st), st)
    i = dev.process_input(DenseSignal.FromNDArray(arr(3, dev.num_receive_antennas, 200), B, CF), st)
    return pick(rng, [o, i])


@kind("records", weight=3)
def operator_results(rng):
    d = drop_of(rng)
    a = [q for t in d.device_transmissions for q in t.operator_transmissions] + [q for t in d.device_receptions for q in t.operator_receptions]
    fr = [f for q in a for f in getattr(q, "frames", [])]
    return pick(rng, a + fr) if a else PointDetection(np.ones(3), np.zeros(3), 1.)


@kind("records", weight=3)
def signals(rng):
    c = c22.gen_signal(rng)
    x = c22.mk_signal(c, rint(rng, 0, 3), float(rng.uniform(0, 1e-6)))[0]
    x.noise_power = float(rng.uniform(0, 3))
    return x


@kind("records", weight=2)
def symbols(rng):
    x = cn(rng, rint(rng, 1, 3), rint(rng, 1, 4), rint(rng, 1, 5))
    if rng.random() < .5:
        return Symbols(x)
    st = cn(rng, x.shape[0], 2, x.shape[1], x.shape[2])
    return StatedSymbols(x, sparse.COO.from_numpy(st) if rng.random() < .5 else st)


# ---- known limits (see known_findings.json)
def run_limits(case, obs):
    obs.count("limits")
    dev = SimulatedDevice(antennas=chan_array(1), carrier_frequency=CF, bandwidth=B)
    if case["what"] == "lookat":
        t = LinearTrajectory(Transformation.From_Translation(np.array([1., 0., 0.])), Transformation.From_Translation(np.array([1., 5., 0.])), 2.)
        t.lookat(StaticTrajectory(Transformation.From_Translation(np.array([9., 9., 0.]))))
        new = roundtrip(obs, t, "LinearTrajectory", 0, [])
        obs.soft(np.allclose(t.sample(1.).pose, new.sample(1.).pose), "trajectory forgets the target it looks at", f"orientation {t.sample(1.).pose[:3, :3].ravel()[:3]} -> {new.sample(1.).pose[:3, :3].ravel()[:3]}")
    elif case["what"] == "snr":
        dev.noise_level = SNR(7., dev)
        new = roundtrip_device(dev)
        obs.soft(isinstance(new.noise_level, SNR) and new.noise_level.snr == 7., "device forgets a noise level referring to a device", f"{dev.noise_level!r} -> {new.noise_level!r}")
    else:
        other = SimulatedDevice(antennas=chan_array(1), carrier_frequency=CF, bandwidth=B)
        sc = SimulationScenario(noise_level=N0(.5))
        sc.add_device(dev)
        sc.add_device(other)
        sc.set_channel(dev, other, RandomDelayChannel(1e-6))
        new = roundtrip_device(sc)
        a, b = new.devices
        obs.soft(isinstance(new.channel(a, b), RandomDelayChannel) and new.noise_level is not None, "scenario forgets its channels and noise", f"{type(sc.channel(dev, other)).__name__} -> {type(new.channel(a, b)).__name__}, noise level {sc.noise_level!r} -> {new.noise_level!r}")


def roundtrip_device(o):
    h = h5py.File("limits.h5", "w", driver="core", backing_store=False)
    try:
        factory().to_HDF(h, o)
        return factory().from_HDF(h, type(o))
    finally:
        h.close()


FAMILIES = [Family("graphs", gen_graph, run_graph, quick=300, require=("nodes", "shared"))] + [Family(g, gen_obj(g), run_obj, quick=len(GROUPS[g]) * 40, require=("objects",)) for g in GROUPS] + [Family("limits", None, run_limits, quick=0, pinned=[{"what": w} for w in ("lookat", "snr", "scenario")], require=("limits",))]
