"""C27: rejected configurations never take effect, accepted ones are reported back."""
from enum import Enum
import numbers
import signal as sig_
import numpy as np
from hv.runner import Family
from hv.ref import arr, cn, pick, rint, seed
from hv.checks import c03
from hv.checks.c03 import GROUPS, behaviour, diff, get, props
from hermespy.channel import IdealChannel
from hermespy.core import ChannelStateFormat, ChannelStateInformation, ConsoleMode, GridDimension, Signal, Transformation
from hermespy.fec import BlockInterleaver, RepetitionEncoder
from hermespy.hardware_loop import DelayCalibration, NoDelayCalibration, NoLeakageCalibration, PhysicalDeviceDummy, ScalarAntennaCalibration, SelectiveLeakageCalibration
from hermespy.modem import Alamouti, DFT, Ganesan, MaximumRatioCombining, ReceivingModem, SimplexLink, Symbols, TransmittingModem
from hermespy.radar import PointDetection, RadarPointCloud
from hermespy.simulation import SimulatedCustomArray, SimulatedDevice, SimulatedDipole, SimulatedIdealAntenna, SimulatedUniformArray, Simulation, SimulationScenario, SpecificIsolation
from hermespy.simulation.rf.block import RFBlockPortType
from hermespy.simulation.rf.blocks.ad import DAC
from hermespy.simulation.rf.chain import RFBlockPortReference, RFChain

PROPERTY = "C27"
RULE = ("two identical twins of every configurable object are built; one of them receives random valid and invalid assignments at any settable property reachable from it, the other only the "
        "accepted ones; after every rejection all public properties of both must agree, finally their behaviour, and every accepted value must be reported back")
ASSUMPTIONS = ["values of a foreign type which a setter happens to accept are not judged", "random generator states are not part of an object's configuration"]

Z_KINDS = {}
#: Properties of which an accepted value is documented to be reported back in another form.
def rotation(v, w):
    return not np.all(np.isfinite(v)) or bool(np.allclose(Transformation.From_RPY(np.asarray(v, float), np.zeros(3))[:3, :3], Transformation.From_RPY(np.asarray(w, float), np.zeros(3))[:3, :3]))


def padded(v, w):
    return np.allclose(np.asarray(w)[:len(v)], v, equal_nan=True)


CONVERTED = {"orientation": rotation, "rotation_rpy": rotation, "position": padded, "rotation_quaternion": lambda v, w: not np.isclose(np.linalg.norm(v), 1.) or np.allclose(v, w) or np.allclose(v, -w),
             "isolation": lambda v, w: readback(v, w) if ours(v) else np.array_equal(np.asarray(v).reshape(np.asarray(w).shape), w, equal_nan=True), "translation": lambda v, w: np.array_equal(np.ravel(v)[:3], w, equal_nan=True),
             "dimensions": lambda v, w: tuple(w)[:np.size(v)] == tuple(np.ravel(v)), "num_quantization_bits": lambda v, w: v == (w or 0)}


def build(c, which="s"):
    r = dict(GROUPS[c["group"]])[c["kind"]](np.random.Generator(np.random.PCG64(c[which])))
    return r if isinstance(r, tuple) else (r, None)


def ours(o):
    return type(o).__module__.startswith("hermespy") and not isinstance(o, (Enum, Signal, np.ndarray, numbers.Number, str, Exception)) and not callable(o)


def settable(o):
    out = []
    for n in props(o):
        for k in type(o).__mro__:
            if n in vars(k):
                if isinstance(vars(k)[n], property) and vars(k)[n].fset is not None:
                    out.append(n)
                break
    return out


def sites(root, limit=60):
    """Paths of all objects reachable by public properties."""
    out, seen, queue = [], set(), [((), root)]
    while queue and len(out) < limit:
        path, o = queue.pop(0)
        if id(o) in seen:
            continue
        seen.add(id(o))
        out.append((path, o))
        if len(path) >= 3:
            continue
        for n in props(o):
            ok, v = get(o, n)
            if not ok:
                continue
            if isinstance(v, (list, tuple)):
                queue += [(path + (n, i), w) for i, w in enumerate(v[:3]) if ours(w)]
            elif ours(v):
                queue.append((path + (n,), v))
    return out, [o for _, o in out]


def walk(root, path):
    o = root
    for p in path:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o


def mutate(v, rng):
    """A value near the current one, valid or not, as (value, judged)."""
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return bool(rng.integers(2)), True
    if isinstance(v, Enum):
        return pick(rng, list(type(v))), True
    if isinstance(v, numbers.Integral):
        return [0, -1, 1, 2, 3, int(v) + 1, max(int(v) - 1, 0), -int(v), 2 * int(v)][int(rng.integers(9))], True
    if isinstance(v, numbers.Real):
        v = float(v)
        return [0., -1., -.5, .5, 1., 2., v * 1.25, -v, v / 2, float("nan"), float("inf"), 1.5, -1e-9][int(rng.integers(13))], True
    if isinstance(v, numbers.Complex):
        return [0., 1j, -1., v * 2][int(rng.integers(4))], True
    if isinstance(v, str):
        return "x" + v, True
    if isinstance(v, np.ndarray) and type(v) is np.ndarray and v.dtype.kind in "biufc":
        k = int(rng.integers(9))
        if k == 0:
            return v * 2 if v.dtype.kind != "b" else v, True
        if k == 1:
            return -v if v.dtype.kind != "b" else ~v, True
        if k == 2:
            return v[..., :-1] if v.ndim else v, True
        if k == 3:
            return np.concatenate((v, v), axis=-1) if v.ndim else v, True
        if k == 4:
            return v.ravel(), True
        if k == 5:
            return v[None], True
        if k == 6:
            return np.zeros_like(v), True
        if k == 7 and v.dtype.kind in "fc":
            return np.full_like(v, np.nan), True
        return (v + 1 if v.dtype.kind != "b" else v), True
    if isinstance(v, (list, tuple)) and len(v) and all(isinstance(x, numbers.Number) for x in v):
        k = int(rng.integers(6))
        w = [list(v[:-1]), list(v) * 2, [-x for x in v], [x * 2 for x in v], [0 for _ in v], list(v) + [-1]][k]
        return type(v)(w) if type(v) in (list, tuple) else w, True
    return None, False


def hint(o, n):
    """Declared type of the values a property accepts."""
    for k in type(o).__mro__:
        p = vars(k).get(n)
        if isinstance(p, property):
            return str(next((t for a, t in p.fset.__annotations__.items() if a != "return"), ""))
    return ""


def readback(v, w):
    """Whether a reported value is the value set."""
    if isinstance(v, numbers.Number) and isinstance(w, numbers.Number):
        return bool(v == w or (v != v and w != w) or (isinstance(v, float) and np.isclose(complex(v), complex(w), rtol=1e-9, atol=0)))
    if isinstance(v, Enum) or isinstance(v, str):
        return v == w
    if isinstance(v, (np.ndarray, list, tuple)) and isinstance(w, (np.ndarray, list, tuple, set)):
        v, w = np.asarray(v), np.asarray(w)
        return v.shape == w.shape and bool(np.allclose(v, w, rtol=1e-9, equal_nan=True)) if v.dtype.kind in "biufc" and w.dtype.kind in "biufc" else len(v) == len(w)
    return v is w or not diff(v, w)


def gen(group):
    def g(rng):
        i = int(rng.integers(len(GROUPS[group])))
        return {"group": group, "kind": GROUPS[group][i][0], "s": seed(rng), "z": seed(rng), "t": seed(rng), "n": rint(rng, 4, 12), "reject_only": bool(rng.random() < .4)}
    return g


class Slow(Exception):
    pass


def bounded(fn, o, seconds=20):
    def alarm(*a):
        raise Slow()
    old = sig_.signal(sig_.SIGALRM, alarm)
    rest = sig_.alarm(0)
    sig_.alarm(seconds)
    try:
        return behaviour(fn, o)
    finally:
        sig_.alarm(rest)
        sig_.signal(sig_.SIGALRM, old)


SKIP_VALUE = object()


def value_for(c, o, path, n, current, s):
    """A deterministic value: each call with identical arguments returns an equal but distinct value."""
    r = np.random.Generator(np.random.PCG64(s))
    u = r.random()
    if u < .55:
        v, judged = mutate(current, r)
        if judged:
            return v, True, "mutated"
    if u < .8:
        z, _ = build(c, "z")
        try:
            v = getattr(walk(z, path), n)
        except Exception:
            v = None
        if v is not None:
            return v, not ours(v) or True, "foreign instance"
    h = hint(o, n)
    if "None" in h and (current is not None or r.random() < .5):
        return None, False, "none"
    if "float" in h or "int" in h:
        v, judged = mutate(2. if "float" in h else 2, r)
        return v, judged, "mutated"
    return SKIP_VALUE, False, ""


def run(c, obs):
    rng = np.random.Generator(np.random.PCG64(c["t"]))
    x, behave = build(c)
    y, behave_y = build(c)
    first = [e for e in diff(x, y) if not e[0].endswith(".timestamp")]
    assert not first, f"twins differ: {first[:3]}"
    obs.count("objects")
    rejected = 0
    for k in range(c["n"]):
        places, keep = sites(x)
        options = [(p, n, o) for p, o in places for n in settable(o)]
        if not options:
            return
        # prefer sites close to the root
        w = np.array([1. / (1 + len(p)) for p, _, _ in options])
        path, n, o = options[int(rng.choice(len(options), p=w / w.sum()))]
        s = seed(rng)
        label = f"{type(o).__name__}.{n}"
        ok, current = get(o, n)
        if value_for(c, o, path, n, current, s)[0] is SKIP_VALUE:
            continue
        if c["reject_only"]:
            probe, _ = build(c)
            try:
                setattr(walk(probe, path), n, value_for(c, o, path, n, current, s)[0])
                continue
            except Exception:
                pass
        v, judged, origin = value_for(c, o, path, n, current, s)
        shown = repr(v)[:60] if not ours(v) else type(v).__name__
        try:
            setattr(o, n, v)
            accepted = True
        except Exception as e:
            accepted = False
            error = f"{type(e).__name__}: {e}"[:80]
        if accepted:
            obs.count("accepted")
            twin = walk(y, path)
            setattr(twin, n, value_for(c, twin, path, n, get(twin, n)[1], s)[0])
            if judged:
                have, new = get(o, n)
                if not have:
                    obs.check(False, f"{label} readable", f"{label} = {shown} accepted, then reading it fails with {new}")
                else:
                    obs.check(CONVERTED.get(n, readback)(v, new), f"{label} readback", f"{label} = {shown} accepted but reported as {repr(new)[:60]} ({origin})")
        else:
            rejected += 1
            obs.count("rejected")
            obs.sig(label)
            d = [e for e in diff(x, y) if not e[0].endswith(".timestamp")]
            obs.check(not d, f"{label} rejected", f"{label} = {shown} rejected with {error} but changed {d[:3]}")
            if d:
                return
    if c["reject_only"] and rejected and behave is not None:
        try:
            a, b = bounded(behave, x), bounded(behave_y, y)
        except Slow:
            return
        obs.count("behaviours")
        d = diff(a, b)
        obs.check(not d, f"{type(x).__name__} behaviour", f"{type(x).__name__} behaves differently after {rejected} rejected assignments: {d[:2]}")


# ------------------------------------------------------------------ configuration methods
WORLDS = {}


def world(fn):
    WORLDS[fn.__name__] = fn
    return fn


def g(seed_):
    return np.random.Generator(np.random.PCG64(seed_))


@world
def scenario(rng):
    """A scenario, a foreign scenario and floating components."""
    sc, other = SimulationScenario(seed=1), SimulationScenario(seed=2)
    mk = lambda: chan.device({"modes": [int(x) for x in rng.integers(0, 3, rint(rng, 1, 4))], "pos": [0., 0., 0.], "vel": [0., 0., 0.]}, 1e9, 1e8) if False else SimulatedDevice(carrier_frequency=1e9, bandwidth=1e8, antennas=c10_array(rng))
    devs = [mk() for _ in range(3)]
    for d in devs[:2]:
        sc.add_device(d)
    other.add_device(devs[2])
    floating = mk()
    # (0, 1) registered here, 2 registered elsewhere, 3 floating
    w = {"sc": sc, "other": other, "d": devs + [floating], "ch": [IdealChannel(gain=float(k + 1)) for k in range(3)], "modems": [TransmittingModem(), ReceivingModem(), SimplexLink()], "root": sc, "iso": [SpecificIsolation(np.ones((1, 1)))]}
    sc.set_channel(devs[0], devs[1], w["ch"][0])
    return w


def c10_array(rng):
    return SimulatedUniformArray(SimulatedIdealAntenna, 1., [rint(rng, 1, 3), rint(rng, 1, 3), 1])


def op_scenario(w, r):
    sc, d, k = w["sc"], w["d"], int(r.integers(16))
    i, j, c = int(r.integers(4)), int(r.integers(4)), w["ch"][int(r.integers(3))]
    if k in (0, 1):
        (sc if k == 0 or r.random() < .5 else w["other"]).add_device(d[i])
    elif k in (2, 3):
        sc.set_channel(d[i], d[j], c)
    elif k == 4:
        sc.new_device(carrier_frequency=pick(r, (-1., 1e9)), bandwidth=pick(r, (-1., 1e8)))
    elif k == 5:
        sc.noise_level = pick(r, (c03.N0(1.), c03.N0(2.)))
    elif k == 6:
        d[i].scenario = pick(r, (sc, w["other"]))
    elif k == 7:
        d[i].transmitters.add(pick(r, (w["modems"][0], w["modems"][2])))
    elif k == 8:
        d[i].receivers.add(pick(r, (w["modems"][1], w["modems"][2])))
    elif k == 9:
        w["modems"][2].connect(d[i], d[j])
    elif k == 10:
        d[i].add_dsp(pick(r, w["modems"]))
    elif k == 11:
        d[i].transmitters.remove(w["modems"][0])
    elif k == 12:
        sc.channel(d[i], d[j])
    elif k == 13:
        d[i].set_base(pick(r, (None, sc, sc)))
    elif k == 14:
        sc.set_base(pick(r, (w["other"], d[i])))
    else:
        d[i].add_link(pick(r, (sc, w["other"], d[j].antennas)))


def observe_scenario(w):
    sc = w["sc"]
    out = []
    for s_ in (sc, w["other"]):
        ids = [w["d"].index(x) if x in w["d"] else -1 for x in s_.devices]
        chs = [[w["ch"].index(s_.channel(a, b)) if s_.channel(a, b) in w["ch"] else -1 for b in s_.devices] for a in s_.devices]
        out += [ids, chs, s_.num_devices, len(s_.channels), len(s_.operators), len(s_.transmitters), len(s_.receivers)]
    for x in w["d"]:
        out += [None if x.scenario is None else x.scenario is sc, [w["modems"].index(m) for m in x.transmitters], [w["modems"].index(m) for m in x.receivers], None if x.random_mother is None else x.random_mother is sc, x.attached]
        out += [np.asarray(x.global_position), x.antennas.num_antennas, np.asarray(x.antennas.global_position), len(x.linked_frames) if hasattr(x, "linked_frames") else 0]
    for c in w["ch"]:
        out += [None if c.scenario is None else c.scenario is sc]
    out += [len(sc.linked_frames), len(w["other"].linked_frames)]
    return out


@world
def chain(rng):
    from hv.checks import c21
    c = c21.g_graph(rng)
    ch = c03.make_chain(c)
    foreign = RFChain(seed=3)
    fr = foreign.add_block(DAC(num_ports=2))
    return {"chain": ch, "foreign": fr, "c": c, "extra": []}


def op_chain(w, r):
    ch = w["chain"]
    refs = list(ch.block_references) if hasattr(ch, "block_references") else ch._RFChain__block_references
    a, b = refs[int(r.integers(len(refs)))], refs[int(r.integers(len(refs)))]
    t = [RFBlockPortType.OUT, RFBlockPortType.IN]
    ta, tb = (t[0], t[1]) if r.random() < .7 else (t[int(r.integers(2))], t[int(r.integers(2))])
    n = rint(r, 1, 2)
    pa, pb = [int(x) for x in r.integers(-1, 4, n)], [int(x) for x in r.integers(-1, 4, n if r.random() < .8 else n + 1)]
    k = int(r.integers(4))
    if k < 2:
        ch.connect(RFBlockPortReference(a, pa, ta), RFBlockPortReference(b, pb, tb))
    elif k == 2:
        ch.new_block(DAC, num_ports=rint(r, -1, 2))
    else:
        ch.connect(a.port("o"), b.port(pick(r, ("i", "lo", "nothing"))))


def observe_chain(w):
    ch = w["chain"]
    refs = ch._RFChain__block_references
    out = [ch.num_digital_input_ports, ch.num_digital_output_ports, len(refs)]
    for ref in refs:
        out += [ref.num_connected_input_ports, ref.num_connected_output_ports, [(refs.index(o), list(p[0]), list(p[1])) for o, p in ref.outgoing_connections.items()] if hasattr(ref, "outgoing_connections") else [], type(ref.block).__name__]

    def behave(q):
        real = q.realize(c03.c21.FS, 1, 1e9)
        return [behaviour(lambda q: np.asarray((q.receive if w["c"]["rx"] else q.transmit)(c03.DenseSignal.FromNDArray(arr(4, m, 9), c03.c21.FS, 1e9), real)), q) for m in (1, 2, 3)]
    return out + [behaviour(behave, ch)]


@world
def symbols(rng):
    mk = lambda: Symbols(cn(rng, rint(rng, 0, 3), rint(rng, 0, 3), rint(rng, 1, 3)))
    return {"s": mk(), "o": mk(), "csi": ChannelStateInformation(ChannelStateFormat.IMPULSE_RESPONSE, cn(rng, 1, 2, 3, 4)), "cloud": RadarPointCloud(10.), "cfg": 0}


def op_symbols(w, r):
    k = int(r.integers(7))
    shape = tuple(int(x) for x in r.integers(1, 4, rint(r, 1, 4)))
    if k == 0:
        w["s"].append_stream(pick(r, (w["o"], cn(r, *shape))))
    elif k == 1:
        w["s"].append_symbols(pick(r, (w["o"], cn(r, *shape))))
    elif k == 2:
        w["s"].raw = cn(r, *shape)
    elif k == 3:
        w["csi"].set_state(pick(r, list(ChannelStateFormat)), cn(r, *shape), num_delay_taps=pick(r, (None, shape[-1], 7)))
    elif k == 4:
        w["csi"].state = cn(r, *shape)
    elif k == 5:
        w["cloud"].add_point(PointDetection(r.normal(size=3) * pick(r, (1, 50)), np.zeros(3), pick(r, (-1., 1.))))
    else:
        w["cloud"].add_point(PointDetection(np.zeros(3), np.zeros(3), 2.))


def observe_symbols(w):
    return [np.asarray(w["s"].raw), w["s"].num_streams, w["s"].num_blocks, w["s"].num_symbols, w["csi"], np.asarray(w["csi"].state), len(w["cloud"].points), [p.position for p in w["cloud"].points], w["cloud"].max_range]


@world
def coding(rng):
    m = TransmittingModem(seed=1)
    m2 = ReceivingModem(seed=2)
    m.transmit_symbol_coding[0] = DFT()
    m2.receive_symbol_coding[0] = DFT()
    return {"m": m, "n": m2, "pre": [Alamouti(), DFT(), Ganesan(), MaximumRatioCombining()], "enc": [RepetitionEncoder(4, 3), RepetitionEncoder(6, 1), BlockInterleaver(12, 4)], "bad": [0]}


def op_coding(w, r):
    k = int(r.integers(9))
    e = w["enc"][int(r.integers(3))]
    t, x = w["m"].transmit_symbol_coding, w["n"].receive_symbol_coding
    if k == 0:
        t[int(r.integers(-1, 4))] = w["pre"][int(r.integers(3))]
    elif k == 1:
        x[int(r.integers(-1, 4))] = w["pre"][int(r.integers(4))]
    elif k == 2:
        pick(r, (t, x)).pop_precoder(int(r.integers(-3, 4)))
    elif k == 3:
        if e not in w["m"].encoder_manager.encoders:
            w["m"].encoder_manager.add_encoder(e)
    elif k == 4:
        w["enc"][0].bit_block_size = rint(r, -2, 13)
    elif k == 5:
        w["enc"][2].interleave_blocks = rint(r, -2, 13)
    elif k == 6:
        w["enc"][2].block_size = rint(r, -2, 13)
    elif k == 7:
        w["enc"][int(r.integers(2))].repetitions = rint(r, -2, 6)
    else:
        BlockInterleaver(rint(r, -1, 12), rint(r, -1, 5))


def observe_coding(w):
    out = []
    for p in (w["m"].transmit_symbol_coding, w["n"].receive_symbol_coding):
        out += [len(p), [w["pre"].index(q) if q in w["pre"] else -1 for q in p]]
    em = w["m"].encoder_manager
    return out + [[w["enc"].index(q) for q in em.encoders], behaviour(lambda m: m.rate, em), behaviour(lambda m: m.code_block_size, em), behaviour(lambda m: m.encode(np.ones(12, np.uint8)), em)] + list(w["enc"]) + [p.precoding is w["m"].transmit_symbol_coding for p in w["pre"]]


@world
def simulation(rng):
    sc = SimulationScenario(seed=1)
    dev = sc.new_device(carrier_frequency=1e9)
    alone = SimulatedDevice()
    sim = Simulation(sc, console_mode=ConsoleMode.SILENT, num_samples=3, seed=4)
    sim2 = [GridDimension(dev, "carrier_frequency", [1e9, 2e9])]
    return {"sim": sim, "sc": sc, "dev": dev, "dims": sim2, "alone": alone}


def op_simulation(w, r):
    sim, k = w["sim"], int(r.integers(12))
    if k == 0:
        sim.new_dimension(pick(r, ("drop_duration", "nothing", "seed", "devices", "snr", "campaign.x", "drop")), pick(r, ([1., 2.], [], [0.])), *pick(r, ((), (w["sc"],), (w["dev"],))))
    elif k == 1:
        sim.add_dimension(w["dims"][0])
    elif k == 2:
        sim.remove_dimension(w["dims"][0])
    elif k in (3, 4, 5):
        n = pick(r, ("num_samples", "min_num_samples", "num_actors", "section_block_size", "cpus_per_actor", "num_drops"))
        if hasattr(sim, n):
            setattr(sim, n, rint(r, -2, 6))
    elif k == 6:
        sim.console_mode = pick(r, ("SILENT", "INTERACTIVE", "nothing", ConsoleMode.LINEAR))
    elif k == 7:
        sim.results_dir = pick(r, ("/nonexistent/directory", None))
    elif k == 8:
        GridDimension(w["dev"], pick(r, ("carrier_frequency", "nothing")), pick(r, ([1.], [])), plot_scale="linear")
    elif k == 9:
        sim.num_samples = 0
    elif k == 10:
        w["dims"][0].configure_point(rint(r, -1, 3))
    else:
        sim.set_channel(pick(r, (w["dev"], w["alone"])), pick(r, (w["dev"], w["alone"])), IdealChannel(gain=2.))


def observe_simulation(w):
    s_ = w["sim"]
    names = ("num_samples", "min_num_samples", "num_actors", "section_block_size", "cpus_per_actor", "num_drops", "console_mode", "results_dir")
    return [get(s_, n)[1] if n != "num_actors" else 0 for n in names] + [len(s_.dimensions), [d.title for d in s_.dimensions], w["dims"][0].title, w["dims"][0].plot_scale, w["dims"][0].num_sample_points, w["dev"].carrier_frequency, w["sc"].seed,
                                                             len(w["sc"].channels), w["sc"].channel(w["dev"], w["dev"]).gain]


@world
def geometry(rng):
    arrs = [SimulatedCustomArray([SimulatedIdealAntenna() for _ in range(2)]), SimulatedUniformArray(SimulatedIdealAntenna, 1., [2, 2, 1])]
    return {"a": arrs, "ant": [SimulatedIdealAntenna(), SimulatedDipole()], "base": [SimulationScenario(), SimulationScenario()], "link": [TransformableLink() if False else SimulatedDevice(), SimulatedDevice()], "t": Transformation.From_RPY(np.array([.1, .2, .3]), np.array([1., 2., 3.]))}


def op_geometry(w, r):
    k = int(r.integers(9))
    x = pick(r, w["a"] + w["ant"] + w["link"])
    if k == 0:
        w["a"][0].add_antenna(pick(r, w["ant"]))
    elif k == 1:
        x.set_base(pick(r, w["base"] + [None]))
    elif k == 2:
        pick(r, w["base"]).set_base(pick(r, w["base"]))
    elif k == 3:
        pick(r, w["base"]).add_link(pick(r, w["base"] + w["link"]))
    elif k == 4:
        pick(r, w["base"]).remove_link(x)
    elif k == 5:
        x.position = r.normal(size=rint(r, 0, 5))
    elif k == 6:
        x.orientation = r.normal(size=rint(r, 0, 5))
    elif k == 7:
        x.pose = pick(r, (Transformation.From_RPY(r.normal(size=3), r.normal(size=3)), w["t"]))
    else:
        setattr(w["a"][1], pick(r, ("spacing", "dimensions")), pick(r, (-1., 2., (2, 3, 1), (0, 1, 1), (1, 2, 3, 4), (2,))))


def observe_geometry(w):
    out = []
    for b in w["base"]:
        out += [len(b.linked_frames)]
    for x in w["a"] + w["ant"] + w["link"]:
        out += [np.asarray(x.pose), np.asarray(x.forwards_transformation), np.asarray(x.backwards_transformation), [x in b.linked_frames for b in w["base"]], len(x.linked_frames) if hasattr(x, "linked_frames") else 0]
    for a in w["a"]:
        out += [a.num_antennas, np.asarray(a.topology)]
    return out


@world
def calibration(rng):
    h = cn(rng, 1, 1, 3)
    return {"d": [PhysicalDeviceDummy(carrier_frequency=1e9) for _ in range(2)], "leak": [SelectiveLeakageCalibration(h, 1e8), NoLeakageCalibration()], "delay": [DelayCalibration(1.), NoDelayCalibration(), DelayCalibration(2.)], "ant": [ScalarAntennaCalibration(cn(rng, 1), cn(rng, 1))]}


SLOTS = {"leak": "leakage_calibration", "delay": "delay_calibration", "ant": "antenna_calibration"}


def op_calibration(w, r):
    kind = pick(r, list(SLOTS))
    cal, d = pick(r, w[kind]), pick(r, w["d"])
    k = int(r.integers(5))
    if k < 2:
        setattr(d, SLOTS[kind], cal)
        return f"{kind} assigned to a device", lambda: getattr(d, SLOTS[kind]) is cal and cal.device is d
    if k == 2:
        cal.device = d
        return f"{kind} attached", lambda: getattr(d, SLOTS[kind]) is cal and cal.device is d
    if k == 3:
        before = [getattr(x, SLOTS[kind]) for x in w["d"]]
        cal.device = None
        return f"{kind} detached", lambda: cal.device is None and all(getattr(x, SLOTS[kind]) is b or b is cal for x, b in zip(w["d"], before)) and cal not in [getattr(x, SLOTS[kind]) for x in w["d"]]
    d.max_receive_delay = pick(r, (-1., 0., 1.))


def observe_calibration(w):
    out = []
    for d in w["d"]:
        for kind, n in SLOTS.items():
            c = getattr(d, n)
            out.append(w[kind].index(c) if c in w[kind] else type(c).__name__)
            # every calibration in use knows the device using it
            out.append(None if c.device is None else w["d"].index(c.device))
        out.append(d.max_receive_delay)
    for kind in SLOTS:
        out += [None if c.device is None else w["d"].index(c.device) for c in w[kind]]
    return out


OPS = {n: globals()["op_" + n] for n in WORLDS}
VIEWS = {n: globals()["observe_" + n] for n in WORLDS}


def gen_method(rng):
    return {"world": pick(rng, list(WORLDS)), "s": seed(rng), "ops": [seed(rng) for _ in range(rint(rng, 3, 14))]}


def run_method(c, obs):
    n = c["world"]
    x, y = WORLDS[n](g(c["s"])), WORLDS[n](g(c["s"]))
    view = VIEWS[n]
    assert not diff(view(x), view(y))
    for s in c["ops"]:
        try:
            r = OPS[n](x, g(s))
            accepted = True
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any("/hermespy/" in t.filename for t in tb):
                raise
            accepted, text = False, f"{tb[-1].name}: {type(e).__name__}: {e}"[:110]
            where = next(t.name for t in tb if "/hermespy/" in t.filename)
        if accepted:
            obs.count("accepted calls")
            OPS[n](y, g(s))
            if isinstance(r, tuple):
                obs.check(r[1](), f"{n}: {r[0]}", f"{n}: {r[0]} is not reported by both views")
        else:
            obs.count("rejected calls")
            obs.sig(n, where)
            d = diff(view(x), view(y))
            obs.check(not d, f"{n}.{where}", f"call rejected with {text} changed {d[:3]}")
    d = diff(view(x), view(y))
    obs.check(not d, f"{n} final", f"twins differ finally: {d[:3]}")


FAMILIES = [Family("methods", gen_method, run_method, quick=1200, require=("rejected calls", "accepted calls"))] + [
Family(g, gen(g), run, quick=len(GROUPS[g]) * 40, require=("objects", "rejected", "accepted")) for g in GROUPS]
