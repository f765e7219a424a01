"""C26: processing never alters the caller's data."""
import inspect
import numbers
from enum import Enum
import numpy as np
import sparse
from hv.runner import Family
from hv.ref import arr, cn, nd, pick, rint, seed
from hv import chan
from hv.checks import c08, c11, c15, c21, c22, c23, c24, c25
from hermespy.beamforming import CaponBeamformer, ConventionalBeamformer, NullSteeringBeamformer
from hermespy.core import RandomNode, ReceiveState, Signal, TransmitState
from hermespy.core.transformation import Transformable
from hermespy.modem import StatedSymbols, Symbols
from hermespy.modem.precoding.dft import DFT
from hermespy.modem.precoding.ratio_combining import MaximumRatioCombining
from hermespy.modem.precoding.single_carrier import SingleCarrier
from hermespy.modem.precoding.space_time_block_coding import Alamouti, Ganesan
from hermespy.modem.precoding.symbol_precoding import ReceiveSymbolCoding, TransmitSymbolCoding
from hermespy.radar import FMCW, MaxDetector, Radar, RadarCube, ThresholdDetector
from hermespy.simulation.rf import RFSignal

PROPERTY = "C26"
RULE = ("every processing stage (signal operations, waveform stages, modems, precodings, codes, front-end blocks and chains, devices, channels, beamformers, radars, detectors, evaluators and the scenario pipeline) is "
        "executed repeatedly on random inputs; complete digests of all inputs are compared before and after, digests of earlier results after later executions, and results are overwritten in place to reveal shared memory "
        "with inputs, other results or the component; distinct = distinct (stage, configuration) signatures")
ASSUMPTIONS = ["components are re-seeded before each repetition, so that repetitions are comparable", "records deliberately carrying their inputs (impinging signals of a reception, etc.) reference them"]
CF = 1e9


# ------------------------------------------------------------------ digests and overwriting
def is_sparse(x):
    return isinstance(x, sparse.SparseArray)


def component(x):
    return isinstance(x, (RandomNode, Transformable)) or any(hasattr(x, n) for n in ("transmit_callbacks", "receive_callbacks", "samples_per_frame", "encode_streams", "propagate_state"))


def leaves(x, path="", seen=None, depth=0, out=None):
    """All arrays and scalars reachable from a record."""
    out = [] if out is None else out
    seen = {} if seen is None else seen
    if depth > 9 or x is None:
        return out
    if isinstance(x, Enum):
        x = x.name
    if isinstance(x, (bool, numbers.Number, str, np.generic)):
        out.append((path, x))
        return out
    if id(x) in seen:
        return out
    seen[id(x)] = x      # kept alive, so that identifiers remain unique
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for i, v in enumerate(x.ravel()):
                leaves(v, f"{path}[{i}]", seen, depth + 1, out)
        else:
            out.append((path, x))
        if hasattr(x, "__dict__"):
            leaves(vars(x), path, seen, depth, out)
    elif is_sparse(x):
        x = seen[-len(seen)] = x if isinstance(x, sparse.COO) else x.asformat("coo")
        out.append((path + ".coords", x.coords))
        out.append((path + ".data", x.data))
    elif isinstance(x, dict):
        for i, k in enumerate(x):
            leaves(x[k], f"{path}.{k.split('__')[-1] if isinstance(k, str) else i}", seen, depth + 1, out)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            leaves(v, f"{path}[{i}]", seen, depth + 1, out)
    elif type(x).__module__.startswith("hermespy") and not component(x):
        d = dict(getattr(x, "__dict__", {}))
        for c in type(x).__mro__:
            for s in ([c.__slots__] if isinstance(getattr(c, "__slots__", ()), str) else getattr(c, "__slots__", ())):
                n = f"_{c.__name__.lstrip('_')}{s}" if s.startswith("__") and not s.endswith("__") else s
                if hasattr(x, n):
                    d[n] = getattr(x, n)
        leaves(d, path, seen, depth, out)
    return out


def shot(x):
    """Digest of a record."""
    return {p: (str(v.dtype), v.shape, np.ascontiguousarray(v).view(np.ndarray).tobytes()) if isinstance(v, np.ndarray) else repr(v) for p, v in leaves(x)}


def changed(a, b):
    """Paths of a digest that changed; attributes cached later on are no change."""
    return [p for p in a if p not in b or a[p] != b[p]]


def overwrite(x):
    n = 0
    for _, v in leaves(x):
        if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v = v.view(np.ndarray)
            try:
                v[...] = {"c": 77.5 - 3.25j, "f": 77.5, "i": 1 - v, "u": 1 - v, "b": ~v if v.dtype == bool else v}[v.dtype.kind]
            except KeyError:
                continue
            n += v.size
    return n


def stage(obs, name, run, inputs, reseed=lambda: None, alias=True, again=True):
    """One processing stage: run(*inputs) is repeated and its inputs and results are observed."""
    before = shot(inputs)
    reseed()
    r1 = run(*inputs)
    c = changed(before, shot(inputs))
    obs.check(not c, "input", f"{name} alters its inputs: {c[:4]}")
    d1 = shot(r1)
    reseed()
    r2 = run(*inputs)
    d2 = shot(r2)
    c = changed(before, shot(inputs))
    obs.check(not c, "input", f"{name} alters its inputs when repeated: {c[:4]}")
    c = changed(d1, shot(r1))
    obs.check(not c, "earlier result", f"repeating {name} alters its earlier result: {c[:4]}")
    if again:
        c = changed(d1, d2)
        obs.check(not c and len(d1) == len(d2), "repetition", f"repeating {name} yields another result: {c[:4]}")
    out = r2
    if alias == "stub":
        # Stages doing nothing hand on the very object they were given (documented, and pinned by the unit tests)
        alias = not any(r1 is i for i in inputs)
    if alias:
        n = overwrite(r1)
        c = changed(d2, shot(r2))
        obs.check(not c, "shared results", f"two results of {name} share memory: {c[:4]}")
        c = changed(before, shot(inputs))
        obs.check(not c, "aliased input", f"results of {name} share memory with its inputs: {c[:4]}")
        if again:
            reseed()
            r3 = run(*inputs)
            c = changed(d1, shot(r3))
            obs.check(not c, "component", f"overwriting a result of {name} alters later results: {c[:4]}")
        obs.count("overwritten", n)
    obs.count("stages")
    obs.count("leaves", len(before) + len(d1))
    return out


# ------------------------------------------------------------------ communication
def gen_wave(rng):
    return {**c15.gen_link(rng), "noise": float(10 ** rng.uniform(-3, -1))}


def run_wave(c, obs):
    """Stages of communication waveforms."""
    w, B, osf = c15.make_wave(c), c["w"]["B"], c["w"]["osf"]
    rng = np.random.default_rng(c["seed"])
    n = c["wave"]
    obs.sig(n, c["streams"], osf)
    bits = rng.integers(0, 2, w.bits_per_frame()).astype(np.uint8)
    s = stage(obs, f"{n}.map", w.map, [bits])
    p = stage(obs, f"{n}.place", w.place, [s])
    x = stage(obs, f"{n}.modulate", lambda p: w.modulate(p, B, osf), [p])
    x = x + c["noise"] * cn(rng, *x.shape)
    if hasattr(w, "pilot_signal"):
        stage(obs, f"{n}.pilot_signal", lambda: w.pilot_signal(B, osf), [])
    stage(obs, f"{n}.synchronize", lambda x: w.synchronization.synchronize(x[None, :], B, osf), [x])
    d = stage(obs, f"{n}.demodulate", lambda x: w.demodulate(x, B, osf), [x])
    e = stage(obs, f"{n}.estimate", lambda d: w.estimate_channel(d, B, osf), [d])
    k = stage(obs, f"{n}.pick", w.pick, [e], alias="stub")
    q = stage(obs, f"{n}.equalize", w.equalize_symbols, [k], alias="stub")
    stage(obs, f"{n}.unmap", w.unmap, [q])


def run_modem(c, obs):
    """Modems and devices of a complete link."""
    code, data = c15.capacity(c, c15.make_wave(c), c["streams"])
    if data < 1:
        c = {**c, "enc": []}
    c = {**c, "packet": None}
    a, b, tx, rx = c15.build(c)
    obs.sig(c["wave"], c["streams"], tuple(e["kind"] for e in c["enc"]), c["one"])

    def reseed():
        a.seed, b.seed, tx.seed, rx.seed = 1, 2, 3, 4

    enc = not any(e["kind"] in ("s3", "s80") for e in c["enc"])
    dur = c["frames"] * tx.waveform.frame_duration(c["w"]["B"]) * 1.0001
    T = stage(obs, "modem.transmit", lambda s: tx.transmit(s, dur), [a.state(0.)], reseed, again=enc)
    out = stage(obs, "device.transmit", lambda: a.transmit(), [], reseed, again=enc)
    y = out.mixed_signal.copy()
    y = Signal.Create(nd(y) + c["noise"] * cn(np.random.default_rng(c["seed"]), *y.shape), y.sampling_rate, y.carrier_frequency)
    p = stage(obs, "device.process_input", lambda y: b.process_input(y), [y], reseed, alias=False)
    r = stage(obs, "device.receive", lambda y: b.receive(y), [y], reseed, alias=False, again=enc)
    stage(obs, "modem.receive", lambda s, st: rx.receive(s, st), [p.operator_inputs[0], b.state(0.)], reseed, alias=False, again=enc)
    stage(obs, "modem.demodulation", lambda s, st: [(f.equalized_symbols, f.decoded_bits, f.encoded_bits) for f in rx.receive(s, st).frames], [p.operator_inputs[0], b.state(0.)], reseed, again=enc)
    ev = c25.evaluators(tx, rx)
    out, r = a.transmit(), b.receive(y)
    before = shot([r, out])
    for k, e in ev.items():
        v = e.evaluate()
        stage(obs, f"evaluate {k}", lambda *_: e.evaluate().artifact().to_scalar(), [r, out])
        v.artifact().to_scalar()
    obs.check(not changed(before, shot([r, out])), "input", "evaluators alter transmissions and receptions")
    obs.count("links")


def gen_code(rng):
    return {**c11.gen_stage(rng), "flip": rint(rng, 0, 3), "chain": c11.gen_chain(rng)["enc"], "dtype": pick(rng, ["uint8", "int64", "int32", "int8"])}


def run_code(c, obs):
    rng = np.random.default_rng(c["seed2"])
    mon = c11.Monitor()
    e = c11.make(c, rng, mon)
    obs.sig("code", c["kind"], c["dtype"])
    k = e.bit_block_size
    m = rng.integers(0, 2, k if c["kind"] not in ("s3", "s80") else rint(rng, 1, 60)).astype(c["dtype"])
    stateful = c["kind"] in ("s3", "s80") or c["kind"] == "rep"
    fresh = lambda: setattr(e, "seed", 5) if isinstance(e, RandomNode) else None
    x = np.asarray(stage(obs, f"{c['kind']}.encode", e.encode, [m], fresh, again=not stateful)).copy()
    if c["kind"] in ("rep", "crc"):
        x[:c["flip"]] ^= 1
    stage(obs, f"{c['kind']}.decode", e.decode, [x], again=not stateful)
    man = c15.fec({"enc": [q for q in c["chain"] if not q["kind"].startswith("s")], "seed": c["seed2"]})
    n = max(1, k)
    bits = rng.integers(0, 2, n).astype(c["dtype"])
    reseed = lambda: setattr(man, "seed", 5)
    try:
        code = stage(obs, "encoding chain", lambda b: man.encode(b), [bits], reseed)
    except ValueError:
        return obs.count("unencodable")
    stage(obs, "decoding chain", lambda b: man.decode(b, n), [np.asarray(code).copy()], reseed)
    obs.count("chains")


def gen_prec(rng):
    return {"kinds": [pick(rng, ["dft", "sc", "alamouti", "ganesan", "mrc"]) for _ in range(rint(rng, 1, 2))], "n": 4 * rint(rng, 1, 5), "rx": rint(rng, 1, 3), "sparse": bool(rng.random() < .5), "blocks": 12 * rint(rng, 1, 3), "seed": seed(rng)}


def run_prec(c, obs):
    mk = {"dft": DFT, "sc": SingleCarrier, "alamouti": Alamouti, "ganesan": Ganesan, "mrc": MaximumRatioCombining}
    tx, rx = TransmitSymbolCoding(), ReceiveSymbolCoding()
    K = [k for k in c["kinds"] if k in ("alamouti", "ganesan")][:1]
    kinds = [k for k in c["kinds"] if k == "dft"] + K
    for k in kinds:
        p = mk[k]()
        tx[len(tx)] = p
    for k in reversed(kinds + ([] if K else [q for q in c["kinds"] if q in ("mrc", "sc")][:1])):
        rx[len(rx)] = mk[k]()
    obs.sig("prec", tuple(kinds), c["sparse"], c["rx"])
    T = {"alamouti": 2, "ganesan": 4}.get(K[0] if K else None, 1)
    N = 2
    s = StatedSymbols(arr(c["seed"], 1, c["blocks"], N), np.ones((1, T, c["blocks"], N), complex))
    out = stage(obs, "symbol precoding", lambda s: tx.encode_symbols(s, T), [s])
    H = arr(c["seed"] + 1, c["rx"], T, 1, 1) * np.ones((1, 1, out.raw.shape[1], N))
    Y = np.einsum("rtbn,tbn->rbn", H, np.asarray(out.raw))
    st = StatedSymbols(Y, sparse.COO.from_numpy(H) if c["sparse"] else H)
    stage(obs, "symbol decoding", lambda s: rx.decode_symbols(s), [st])


# ------------------------------------------------------------------ front-ends
def gen_block(rng):
    return {**c21.g_blocks(rng), "noise": pick(rng, [0., .1])}


def run_block(c, obs):
    p = c["b"]
    n, T = c21.n_in(p), c["T"] + (40 if c["b"]["k"] == "hpf" else 0)
    b = c21.make_block(p)
    F = np.array(sorted(c["f"][:n], reverse=True))
    X = c["amp"] * arr(c["seed"], n, T) if n else None
    s = RFSignal.FromNDArray(X, c21.FS, F) if n else RFSignal(0, T, c21.FS)
    r = b.realize(c21.FS, 1, 2.5e9)
    obs.sig("block", p["k"], n)
    stage(obs, f"block {p['k']}", lambda s: b.propagate(r, s), [s], lambda: setattr(b, "seed", 3))
    if hasattr(b, "model"):
        stage(obs, f"amplifier {p['k']} model", lambda q: b.model(q), [s], lambda: setattr(b, "seed", 3), alias="stub")
    if n:
        obs.check(np.asarray(F).tolist() == sorted(c["f"][:n], reverse=True), "input", f"block {p['k']} alters carrier frequencies handed to its input")
        obs.equal(np.array(X), c["amp"] * arr(c["seed"], n, T), "input", f"samples a signal handed to block {p['k']} was created from")


def gen_chain(rng):
    nodes = c08.gen_sc(rng)
    d = nodes["devs"][0]
    d["rf"] = pick(rng, ["noise", "phase", None])
    if d["rf"] == "phase":
        d["modes"] = ["D"]
    d["noise"], d["ops"] = pick(rng, [None, .1]), [pick(rng, ["tx", "link", "radar", "rx"]) for _ in range(rint(rng, 0, 3))]
    d["sep"] = bool(rng.random() < .4)
    return {**nodes, "devs": [d], "links": [], "default": None, "coupled": bool(rng.random() < .4), "osf": pick(rng, [1, 1, 2]), "quant": pick(rng, [None, 3, 8]), "gain": bool(rng.random() < .5), "sig": c22.gen_signal(rng)}


def run_chain(c, obs):
    """Complete devices with random front-ends."""
    w = c08.World(c)
    dev = w.devices[0]
    n = len(c["devs"][0]["modes"])
    obs.sig("device", c["devs"][0]["rf"], n, tuple(c["devs"][0]["ops"]), c["devs"][0]["sep"], c["devs"][0]["leak"])
    reseed = lambda: setattr(w.sc, "seed", c["seed"])
    state = dev.state(0.)
    t = stage(obs, "device.transmit_operators", lambda s: dev.transmit_operators(s), [state], reseed, alias=False)
    o = stage(obs, "device.generate_output", lambda t, s: dev.generate_output(t, s), [t, state], reseed, alias=False)
    stage(obs, "front-end", lambda t, s: [q.view(np.ndarray) if isinstance(q, np.ndarray) else nd(q) for q in (lambda o: list(o.emerging_signals) + list(o.leaking_signals))(dev.generate_output(t, s))], [t, state], reseed, alias=True)
    x, _ = c22.mk_signal(c["sig"], n)
    x = Signal.Create(nd(x), c08.B, c08.CF) if not c["sig"]["sparse"] else x
    x.sampling_rate = c08.B
    x.carrier_frequency = c08.CF
    y = Signal.Create(arr(c["seed"], n, 90), c08.B, c08.CF)
    p = stage(obs, "device.process_input", lambda a, b, s: dev.process_input([a, b], s), [x, y, state], reseed, alias=False)
    stage(obs, "operator inputs", lambda a, b, s: [q.operator_inputs for q in [dev.process_input([a, b], s)]], [x, y, state], reseed)
    ins = [q.copy() for q in p.operator_inputs]
    for i in range(len(ins)):
        overwrite(p.operator_inputs[i])
        for j in range(i + 1, len(ins)):
            obs.check(nd(ins[j]).tobytes() == nd(p.operator_inputs[j]).tobytes(), "shared results", "inputs of different operators share memory")
            obs.count("operator_pairs")
    p = dev.process_input([x, y], state)
    stage(obs, "device.receive_operators", lambda q, s: dev.receive_operators(q, s), [p.operator_inputs, state], reseed, alias=False)
    leak = list(o.leaking_signals)
    stage(obs, "reception with leakage", lambda l, a, s: dev.process_input([a], s, leaking_signals=l), [leak, x, state], reseed, alias=False)
    stage(obs, "antennas.transmit", lambda a: dev.antennas.transmit(a), [y], alias=False)
    stage(obs, "antennas.receive", lambda a: dev.antennas.receive(a), [y], alias=False)
    stage(obs, "coupling.transmit", lambda a, s: dev.coupling.transmit(a, s), [y, state], alias=False)
    stage(obs, "coupling.receive", lambda a, s: dev.coupling.receive(a, s), [y, state], alias=False)
    stage(obs, "isolation.leak", lambda a: dev.isolation.leak(a), [y])
    z = dev.noise_model.realize(dev.noise_level.get_power(c08.B))
    stage(obs, "noise", lambda a: z.add_to(a), [y])


# ------------------------------------------------------------------ channels
def gen_channel(rng, kinds=chan.CHEAP):
    k = pick(rng, list(kinds))
    return {"ch": c08.plain(chan.gen_channel(rng, [k])), "a": chan.gen_device(rng, duplex=True), "b": chan.gen_device(rng, duplex=True), "sig": c22.gen_signal(rng), "t": float(pick(rng, [0., .01])), "seed": seed(rng), "unit": bool(rng.random() < .4)}


def run_channel(c, obs):
    if c["unit"]:
        c = {**c, "ch": {**c["ch"], "gain": 1.}}
    ch = chan.channel(c["ch"])
    a, b = chan.device(c["a"], CF, c22.SR), chan.device(c["b"], CF, c22.SR)
    obs.sig("channel", c["ch"]["kind"], c["unit"], c["sig"]["sparse"])
    k = c["ch"]["kind"]
    nt = chan.n_tx(c["a"])
    x, _ = c22.mk_signal(c["sig"], nt)
    x.carrier_frequency = CF
    real = ch.realize()
    sa, sb = a.state(c["t"]), b.state(c["t"])
    smp = stage(obs, f"{k}.sample", lambda sa, sb: (lambda s: (s.propagate(x), s))(real.sample(sa, sb, c["t"], CF, c22.SR)), [sa, sb], alias=False)[1]
    reseed = lambda: setattr(ch, "seed", c["seed"])
    stage(obs, f"{k}.propagate", lambda x: smp.propagate(x), [x])
    stage(obs, f"channel {k}.propagate", lambda x: ch.propagate(x, a, b), [x], reseed)
    stage(obs, f"{k}.state", lambda: smp.state(x.num_samples, 4).dense_state() if hasattr(smp.state(x.num_samples, 4), "dense_state") else smp.state(x.num_samples, 4), [])
    csi = smp.state(x.num_samples, 6)
    stage(obs, f"{k} state propagation", lambda q: csi.propagate(q), [Signal.Create(nd(x), c22.SR, CF)])
    obs.count("channels")


# ------------------------------------------------------------------ beamforming and radar
def gen_beam(rng):
    return {"geo": c23.gen_geo(rng), "focus": c23.gen_focus(rng), "seed": seed(rng), "kind": pick(rng, ["conv", "null", "capon"]), "sig": c22.gen_signal(rng), "probe": rint(rng, 1, 5)}


def run_beam(c, obs):
    g, f = c23.Geo(c["geo"]), c["focus"]
    t = c23.timestamp(f)
    state = g.device.state(t)
    fp = c23.focus(f, g, t)
    n, m = g.n("T"), g.n("R")
    bf = {"conv": ConventionalBeamformer, "null": NullSteeringBeamformer, "capon": lambda: CaponBeamformer(.1)}[c["kind"]]()
    pts = fp if c["kind"] != "null" else [fp, c23.SphericalFocus(.3, .4), c23.SphericalFocus(1., 1.2)]
    obs.sig("beam", c["kind"], n, m, c["sig"]["sparse"])
    if c["kind"] != "capon":
        x, _ = c22.mk_signal(c["sig"], 1)
        stage(obs, f"{c['kind']}.encode_streams", lambda x, s: bf.encode_streams(x, n, s, pts), [x, state])
    y, _ = c22.mk_signal(c["sig"], m)
    stage(obs, f"{c['kind']}.decode_streams", lambda y, s: bf.decode_streams(y, 1, s, pts), [y, state])
    F = np.random.default_rng(c["seed"]).uniform(.1, 1, (c["probe"], bf.num_receive_focus_points, 2))
    z = Signal.Create(arr(c["seed"], m, 30), 1e6, c["geo"]["cf"])
    stage(obs, f"{c['kind']}.probe", lambda z, s, F: bf.probe(z, s, F), [np.array(nd(z)), state, F])


def gen_radar(rng):
    return {"det": c24.gen_det(rng), "N": rint(rng, 1, 6), "n": rint(rng, 20, 60), "modes": "D" * rint(rng, 1, 4), "seed": seed(rng), "null": bool(rng.random() < .5)}


def run_radar(c, obs):
    from hermespy.simulation import SimulatedDevice
    B = 1e8
    d = SimulatedDevice(antennas=c22.array(c["modes"]), carrier_frequency=1e10, bandwidth=B, oversampling_factor=1)
    n = len(c["modes"])
    op = Radar(FMCW(c["N"], c["n"] / B, 1.3 * c["n"] / B), detector=MaxDetector(), receive_beamformer=None if n < 2 else ConventionalBeamformer(), selected_transmit_ports=[0])
    if n > 1:
        op.receive_beamformer.probe_focus_points = np.random.default_rng(c["seed"]).uniform(.1, 1, (3, 1, 2))
    d.transmitters.add(op)
    d.receivers.add(op)
    T = stage(obs, "radar.transmit", lambda s: op.transmit(s, 0.), [d.state(0.)])
    T = T.signal.num_samples
    y = Signal.Create(arr(c["seed"], n, T + 7), B, 1e10)
    stage(obs, "radar.receive", lambda y, s: (lambda r: (r.cube, r.cloud))(op.receive(y, s)), [y, d.state(0.)])
    w = op.waveform
    stage(obs, "radar.estimate", lambda y, s: w.estimate(y, s), [Signal.Create(arr(c["seed"], 1, T), B, 1e10), d.state(0.).receive_state()])
    k = c["det"]
    rng = c24.rg(k["seed"])
    A, V, R = k["shape"]
    data = rng.exponential(size=(A, V, R))
    cube = RadarCube(data, np.stack([rng.uniform(-3, 3, A), rng.uniform(0, 3, A)], axis=1), np.sort(rng.standard_normal(V)), np.sort(rng.uniform(0, 9, R)) + np.arange(R), k["cf"])
    det = MaxDetector() if k["kind"] == "max" else ThresholdDetector(.3, k["norm"], k["peaks"])
    stage(obs, f"detector {k['kind']}", det.detect, [cube])
    stage(obs, "normalize_power", lambda q: RadarCube(q.data.copy(), q.angle_bins, q.doppler_bins, q.range_bins, q.carrier_frequency).normalize_power(), [cube])
    obs.sig("radar", n, k["kind"], tuple(k["shape"]))


# ------------------------------------------------------------------ signals
def gen_signals(rng):
    return {"a": c22.gen_signal(rng), "b": c22.gen_signal(rng), "n": rint(rng, 1, 3), "rate": pick(rng, [.5, 2., 1., 1.7]), "df": pick(rng, [0., 1e5]), "alpha": rint(rng, 0, 9), "len": rint(rng, 1, 30)}


def run_signals(c, obs):
    a, b = c22.mk_signal(c["a"], c["n"])[0], c22.mk_signal({**c["b"], "key": c["b"]["key"] + 5}, c["n"])[0]
    b.carrier_frequency = CF + c["df"]
    obs.sig("signal", c["a"]["sparse"], c["b"]["sparse"], c["rate"])
    d = Signal.Create(nd(b)[:, :c["len"]], c22.SR, a.carrier_frequency)
    ops = {"copy": lambda a: a.copy(), "resample": lambda a: a.resample(c22.SR * c["rate"]), "to_dense": lambda a: nd(a), "energy": lambda a: a.energy, "power": lambda a: a.power,
           "superimpose": lambda a, b: a.superimpose(b), "append_samples": lambda a, b: a.append_samples(d), "append_streams": lambda a, b: nd(a.to_dense().append_streams(Signal.Create(nd(a), c22.SR, a.carrier_frequency))),
           "interleaved": lambda a: a.to_interleaved(), "timestamps": lambda a: a.timestamps, "frequencies": lambda a: a.frequencies, "duplicate": lambda a: a.duplicate() if hasattr(a, "duplicate") else None}
    for k, f in ops.items():
        try:
            stage(obs, f"signal {k}", f, [a, b][:len(inspect.signature(f).parameters)], alias=True)
        except ValueError as e:
            if "padlen" not in str(e):
                raise
            obs.count("too_short")
    # arrays signals are created from
    x = arr(c["a"]["key"], c["n"], c["len"])
    y = x.copy()
    s = Signal.Create(x, c22.SR, CF)
    s.superimpose(s)
    s.resample(c22.SR * c["rate"]) if c["len"] > 27 else None
    obs.check(x.tobytes() == y.tobytes(), "input", "processing a signal alters the samples it was created from")


# ------------------------------------------------------------------ scenarios
def run_scenario(c, obs):
    """Results of all stages of a scenario may be reused in any order."""
    w = c08.World(c)
    sc = w.sc
    n = len(w.devices)
    rng = np.random.default_rng(c["seed"])
    states = [d.state(0.) for d in w.devices]
    reseed = lambda: setattr(sc, "seed", c["seed"])
    reseed()
    stages = []
    t = sc.transmit_operators(states)
    stages.append(t)
    o = sc.generate_outputs(t, states)
    stages.append(o)
    real = sc.realize_channels()
    p, q = sc.propagate(o, states, real, 0.)
    stages += [p, q]
    i = sc.process_inputs(p, states)
    stages.append(i)
    r = sc.receive_operators(i, states)
    stages.append(r)
    before = [shot(s) for s in stages]
    state = [shot(s) for s in states]
    acts = {0: lambda: sc.transmit_operators(states), 1: lambda: sc.generate_outputs(t, states), 2: lambda: sc.propagate(o, states, real, 0.), 3: lambda: sc.process_inputs(p, states), 4: lambda: sc.receive_operators(i, states), 5: lambda: sc.drop(), 6: lambda: sc.channel_realizations if hasattr(sc, "channel_realizations") else None}
    for k in rng.integers(0, 7, 7):
        acts[int(k)]()
        for j, s in enumerate(stages):
            ch = changed(before[j], shot(s))
            obs.check(not ch, "stages", f"stage {k} of the scenario alters results of stage {j}: {ch[:4]}")
        obs.count("scenario_stages")
    for s, q in zip(states, states):
        pass
    for j, s in enumerate(states):
        obs.check(not changed(state[j], shot(s)), "stages", f"the scenario alters state {j}")
    # records of drops
    drops = [sc.drop() for _ in range(2)]
    d = [shot(q.device_receptions) | {("t" + k): v for k, v in shot(q.device_transmissions).items()} for q in drops]
    sc.drop()
    for q, v in zip(drops, d):
        ch = changed(v, shot(q.device_receptions) | {("t" + k): u for k, u in shot(q.device_transmissions).items()})
        obs.check(not ch, "drops", f"records of an earlier drop changed: {ch[:4]}")
    e = shot(drops[1].device_receptions)
    overwrite([drops[0].device_transmissions, drops[0].device_receptions])
    ch = changed(e, shot(drops[1].device_receptions))
    obs.check(not ch, "drops", f"records of two drops share memory: {ch[:4]}")
    obs.count("drops", 3)
    obs.sig("sc", n, tuple(tuple(x["ops"]) for x in c["devs"]), tuple(x[1]["kind"] for x in c["links"]))


FAMILIES = [
    Family("signals", gen_signals, run_signals, quick=400, require=("stages", "overwritten")),
    Family("waveforms", gen_wave, run_wave, quick=250, require=("stages", "overwritten")),
    Family("modems", gen_wave, run_modem, quick=200, require=("links",)),
    Family("codes", gen_code, run_code, quick=300, require=("chains",)),
    Family("precoding", gen_prec, run_prec, quick=100, require=("stages",)),
    Family("blocks", gen_block, run_block, quick=500, require=("stages", "overwritten")),
    Family("devices", gen_chain, run_chain, quick=250, require=("stages", "operator_pairs")),
    Family("channels", gen_channel, run_channel, quick=400, require=("channels",)),
    Family("fading", lambda r: gen_channel(r, chan.FADING), run_channel, quick=60, require=("channels",)),
    Family("beams", gen_beam, run_beam, quick=200, require=("stages",)),
    Family("radar", gen_radar, run_radar, quick=200, require=("stages",)),
    Family("scenarios", c08.gen_sc, run_scenario, quick=150, require=("scenario_stages", "drops")),
]
