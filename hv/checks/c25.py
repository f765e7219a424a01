"""Performance evaluators report the true error and quality figures."""
from itertools import product, zip_longest
import numpy as np
from hv.runner import Family
from hv.ref import arr, cn, nd, pick, rint, seed, snapshot
from hv.chan import C0
from hv.checks import c15
from hv.checks.c22 import fir, gen_modes, nrx, ntx, root
from hv.checks.c23 import Geo, focus, gen_focus, gen_geo, unit
from hermespy.beamforming import SphericalFocus
from hermespy.channel import IdealChannel
from hermespy.channel.radar import FixedCrossSection, MultiTargetRadarChannel, VirtualRadarTarget
from hermespy.core import AntennaMode, PAPR, ReceivePowerEvaluator, Signal, SignalExtractor, SignalReceiver, SignalTransmitter, Transformation, TransmitPowerEvaluator
from hermespy.core.pymonte import GridDimensionInfo, SamplePoint
from hermespy.core.logarithmic import ValueType
from hermespy.modem import (BitErrorEvaluator, BlockErrorEvaluator, ConstellationEVM, FrameErrorEvaluator, ReceivingModem, Symbols, ThroughputEvaluator, TransmittingModem)
from hermespy.modem.modem import CommunicationReception, CommunicationReceptionFrame, CommunicationTransmission, CommunicationTransmissionFrame
from hermespy.radar import (DetectionProbEvaluator, FMCW, MaxDetector, PointDetection, Radar, RadarCube, RadarPointCloud, RadarReception, ReceiverOperatingCharacteristic,
                            RootMeanSquareError, ThresholdDetector)
from hermespy.radar.evaluators import RocArtifact, RocEvaluationResult
from hermespy.simulation import (N0, SI, SSINR, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SimulationScenario, SpecificIsolation, StaticTrajectory)
from hermespy.simulation.evaluators.beamforming import SidelobeEvaluator
from hv.checks.c20 import array

PROPERTY = "C25"
RULE = ("synthetic transmissions and receptions with random frame counts, frame losses, lengths, block sizes, data types and error patterns, real noisy modem links, random device signals, leakages, "
        "noise levels, array geometries, point clouds and radar cubes handed to every evaluator over several successive drops; the reported figures are compared with the textbook formulas applied to the "
        "recorded data; distinct = distinct (evaluator, lengths, losses, error pattern) signatures")
ASSUMPTIONS = ["bits missing on either side are compared with zeros in the bit error rate, as its implementation documents; missing blocks and frames are always in error",
               "peak-to-average power ratios at receivers consider the first impinging signal", "the root mean square error averages over all pairs of detected and true points"]


class Rx(ReceivingModem):
    """Receiver reporting a prepared reception."""
    result = None

    def _receive(self, signal, state):
        return self.result


def state(n=1):
    return SimulatedDevice(carrier_frequency=1e9).state()


# ------------------------------------------------------------------ synthetic communication
def gen_comm(rng):
    ks = rint(rng, 1, 12)
    drops = []
    for _ in range(rint(rng, 1, 3)):
        nt = rint(rng, 0, 5) if rng.random() < .3 else rint(rng, 1, 5)
        nr = nt if rng.random() < .5 else rint(rng, 0, 6)
        tx = [ks * rint(rng, 1, 6) if rng.random() < .85 else rint(rng, 1, 40) for _ in range(nt)]
        if rng.random() < .6:
            tx = [tx[0]] * nt if nt else tx
        rx = [(tx[i] if i < nt and rng.random() < .8 else ks * rint(rng, 0, 6) if rng.random() < .7 else rint(rng, 0, 40)) for i in range(nr)]
        drops.append({"tx": tx, "rx": rx, "pattern": [pick(rng, ["none", "all", "random", "single", "last", "first"]) for _ in rx], "p": float(10 ** rng.uniform(-2.5, -.4)), "seed": seed(rng)})
    return {"block": ks, "drops": drops, "dtype": pick(rng, ["int8", "uint8", "bool", "int64"]), "rdtype": pick(rng, ["int8", "uint8", "bool", "int64"]), "dur": rint(rng, 1, 50),
            "streams": rint(rng, 1, 3), "perfect": bool(rng.random() < .25)}


def flip(rng, bits, pattern, p):
    b = bits.copy()
    if pattern == "all":
        return 1 - b
    if not b.size or pattern == "none":
        return b
    idx = {"single": [rng.integers(b.size)], "last": [b.size - 1], "first": [0]}.get(pattern, np.flatnonzero(rng.random(b.size) < p))
    b[idx] = 1 - b[idx]
    return b


def comm_objects(c, d, rng):
    """Transmission and reception built from a drop's specification."""
    sig = lambda: Signal.Create(cn(rng, 1, c["dur"]), 1e6)
    S, B = c["streams"], c["block"]
    tb = [rng.integers(0, 2, n) for n in d["tx"]]
    rb = []
    for i, n in enumerate(d["rx"] if not c["perfect"] else d["tx"]):
        src = tb[i] if i < len(tb) else rng.integers(0, 2, n)
        src = np.concatenate([src, rng.integers(0, 2, max(0, n - src.size))])[:n]
        rb.append(src if c["perfect"] else flip(rng, src, d["pattern"][i], d["p"]))
    sym = lambda n: Symbols(cn(rng, S, n, 1)) if n else Symbols(np.empty((S, 0, 1), complex))
    ts = [sym(n) for n in d["tx"]]
    rs = [Symbols(ts[i].raw + (0 if c["perfect"] else 1) * .3 * cn(rng, *ts[i].raw.shape)) if i < len(ts) and ts[i].num_symbols == b.size else sym(b.size) for i, b in enumerate(rb)]
    tf = [CommunicationTransmissionFrame(sig(), b.astype(c["dtype"]), B, b.astype(c["dtype"]), B, s, s, 0.) for b, s in zip(tb, ts)]
    rf = [CommunicationReceptionFrame(sig(), sig(), s, s, 0., s, b.astype(c["rdtype"]), B, b.astype(c["rdtype"]), B) for b, s in zip(rb, rs)]
    return CommunicationTransmission(sig(), tf), CommunicationReception(sig(), rf)


def expected(T, R):
    """Textbook figures of a transmission and reception."""
    tb = [np.asarray(f.bits).astype(int) for f in T.frames]
    rb = [np.asarray(f.decoded_bits).astype(int) for f in R.frames]
    cat = lambda l: np.concatenate(l) if l else np.empty(0, int)
    a, b = cat(tb), cat(rb)
    n = max(a.size, b.size)
    bits = np.pad(a, (0, n - a.size)) != np.pad(b, (0, n - b.size))
    blocks, frames = [], []
    for i, (x, y) in enumerate(zip_longest(tb, rb)):
        k = (T.frames[i] if x is not None else R.frames[i]).bit_block_size
        x, y = [np.empty(0, int) if v is None else v for v in (x, y)]
        for s in range(0, max(x.size, y.size), k):
            blocks.append(x[s:s + k].tolist() != y[s:s + k].tolist())
        frames.append(i >= len(tb) or i >= len(rb) or x.tolist() != y.tolist())
    rate = 0.
    if R.frames and frames:
        rate = sum(not f for f in frames) * R.frames[0].decoded_bits.size / (len(frames) * R.frames[0].signal.num_samples / R.frames[0].signal.sampling_rate)
    return bits, np.array(blocks, bool), np.array(frames, bool), rate


def judge_comm(obs, ev, T, R):
    bits, blocks, frames, rate = expected(T, R)
    for name, e, ref in (("ber", ev["ber"], bits), ("bler", ev["bler"], blocks), ("fer", ev["fer"], frames)):
        if ref.size == 0:
            continue
        r = e.evaluate()
        obs.equal(np.asarray(r.evaluation).astype(int).tolist(), ref.astype(int).tolist(), name, f"error indicators ({[f.bits.size for f in T.frames]} bits sent, {[f.decoded_bits.size for f in R.frames]} received, block size {T.frames[0].bit_block_size if T.frames else '-'})")
        obs.close(r.artifact().to_scalar(), ref.mean(), name, "error rate", rtol=1e-12)
        obs.count(f"{name}_rates")
        obs.count("errors", int(ref.sum()))
        if ref.all():
            obs.count(f"{name}_worst")
        if not ref.any():
            obs.count(f"{name}_perfect")
    obs.close(ev["drx"].evaluate().artifact().to_scalar(), rate, "throughput", "correctly received bits per second", rtol=1e-9)
    obs.count("throughputs")
    return bits, blocks, frames


def evaluators(tx, rx):
    return {"ber": BitErrorEvaluator(tx, rx), "bler": BlockErrorEvaluator(tx, rx), "fer": FrameErrorEvaluator(tx, rx), "drx": ThroughputEvaluator(tx, rx), "evm": ConstellationEVM(tx, rx)}


def evm_ref(T, R):
    """Deviation of the commonly available symbols of each stream."""
    a = np.concatenate([f.symbols.raw.reshape(f.symbols.num_streams, -1) for f in T.frames], axis=1)
    b = np.concatenate([f.equalized_symbols.raw.reshape(f.equalized_symbols.num_streams, -1) for f in R.frames], axis=1)
    n = min(a.shape[1], b.shape[1])
    return np.sqrt(np.mean(np.abs(a[:, :n] - b[:, :n]) ** 2)) if n else None


def run_comm(c, obs):
    tx, rx = TransmittingModem(), Rx()
    ev = evaluators(tx, rx)
    for k, d in enumerate(c["drops"]):
        rng = np.random.default_rng(d["seed"])
        T, R = comm_objects(c, d, rng)
        before = [(f.bits.copy()) for f in T.frames], [f.decoded_bits.copy() for f in R.frames]
        tx.notify_transmit_callbacks(T)
        rx.result = R
        rx.receive(Signal.Create(np.ones((1, 5), complex), 1e6), state())
        for _ in range(2):
            bits, blocks, frames = judge_comm(obs, ev, T, R)
        if c["perfect"] and T.frames:
            obs.check(not bits.any() and not frames.any(), "perfect", "reference of a perfect link")
        e = evm_ref(T, R) if T.frames and R.frames else None
        if e is not None:
            obs.close(ev["evm"].evaluate().artifact().to_scalar(), e, "evm", f"error vector magnitude ({[f.symbols.raw.shape for f in T.frames]} sent, {[f.equalized_symbols.raw.shape for f in R.frames]} received)", rtol=1e-9, atol=1e-12)
            obs.count("evms")
        obs.equal([[f.bits.tolist() for f in T.frames], [f.decoded_bits.tolist() for f in R.frames]], [[b.tolist() for b in l] for l in before], "altered", "evaluated data")
        obs.sig("comm", tuple(d["tx"]), tuple(d["rx"]), c["block"], c["dtype"], tuple(d["pattern"]))


# ------------------------------------------------------------------ real links
def gen_link(rng):
    return {"c": c15.gen_link(rng), "snr": float(rng.uniform(-8, 14)), "seed": seed(rng), "drops": rint(rng, 1, 3), "clean": bool(rng.random() < .3)}


def run_link(case, obs):
    c = {**case["c"], "packet": None, "file": False}
    a, b, tx, rx = c15.build(c)
    _, data = c15.capacity(c, tx.waveform, c["streams"])
    if data < 1:
        c["enc"] = []
        a, b, tx, rx = c15.build(c)
    ev = evaluators(tx, rx)
    ch = IdealChannel()
    for k in range(case["drops"]):
        sent = a.transmit()
        y = nd(ch.propagate(sent, a, b))
        p = np.mean(np.abs(y) ** 2)
        if not case["clean"]:
            y = y + np.sqrt(p / 2 * 10 ** (-case["snr"] / 10)) * np.sqrt(2) * arr(case["seed"] + k, *y.shape)
        r = b.receive(Signal.Create(y, sent.mixed_signal.sampling_rate, 1e9)).operator_receptions[0]
        t = sent.operator_transmissions[0]
        bits, *_ = judge_comm(obs, ev, t, r)
        if t.frames and r.frames:
            s, q = t.frames[0].symbols, r.frames[0].equalized_symbols
            if s.num_streams == q.num_streams:
                obs.close(ev["evm"].evaluate().artifact().to_scalar(), evm_ref(t, r), "evm", "error vector magnitude of a real link", rtol=1e-9, atol=1e-12)
                obs.count("link_evms")
        obs.count("links")
        obs.sig("link", c["wave"], int(bits.sum()) if bits.size < 200 else round(float(bits.mean()), 3), len(c["enc"]))


# ------------------------------------------------------------------ device figures
def gen_power(rng):
    return {"modes": gen_modes(rng), "n": [rint(rng, 1, 60) for _ in range(rint(rng, 1, 3))], "scale": float(10 ** rng.uniform(-4, 3)), "seed": seed(rng), "sparse": bool(rng.random() < .3), "power": float(pick(rng, [1., 1., 4., .01]))}


def run_power(c, obs):
    m = c["modes"]
    dev = SimulatedDevice(carrier_frequency=1e9, antennas=array(m), bandwidth=1e6, oversampling_factor=1, power=c["power"])
    N, M = ntx(m), nrx(m)
    out = SignalTransmitter(Signal.Create(np.zeros((N, 1), complex), 1e6))
    inp = SignalReceiver(max(c["n"]))
    dev.transmitters.add(out)
    dev.receivers.add(inp)
    tp, rp, pt, pr, xt, xr = TransmitPowerEvaluator(out), ReceivePowerEvaluator(inp), PAPR(dev, AntennaMode.TX), PAPR(dev, AntennaMode.RX), SignalExtractor(out), SignalExtractor(inp)
    for e in (tp, rp, pt, pr, xt, xr):
        obs.raises(e.evaluate, "no data", f"{type(e).__name__} without any data", RuntimeError)
    grid = [GridDimensionInfo([SamplePoint(i) for i in range(len(c["n"]))], "x", "linear", ValueType.LIN)]
    stash = xt.initialize_result(grid)
    sent = []
    for k, n in enumerate(c["n"]):
        x = c["scale"] * arr(c["seed"] + k, N, n)
        if c["sparse"] and n > 4:
            x[:, 1:n // 2] = 0
        s = Signal.Create(x.copy(), 1e6)
        out.signal = s.to_sparse() if hasattr(s, "to_sparse") and c["sparse"] else s
        dev.transmit()
        obs.close(tp.evaluate().artifact().to_scalar(), np.sum(np.mean(np.abs(x) ** 2, axis=1)), "transmit power", "summed stream powers", rtol=1e-9)
        obs.close(tp.evaluate().power, np.mean(np.abs(x) ** 2, axis=1), "transmit power", "stream powers", rtol=1e-9)
        q = np.abs(x) ** 2
        obs.close(pt.evaluate().artifact().to_scalar(), np.mean(q.max(axis=1) / q.mean(axis=1)), "papr", "mean peak-to-average power ratio of all antennas", rtol=1e-9)
        obs.close(nd(xt.evaluate().signal), x, "extraction", "extracted transmission", rtol=1e-12)
        stash.add_artifact((k,), xt.evaluate().artifact(), False)
        sent.append(x)
        y = c["scale"] * arr(c["seed"] + 50 + k, M, max(c["n"]))
        dev.receive(Signal.Create(y.copy(), 1e6, 1e9))
        q = np.abs(y) ** 2
        obs.close(rp.evaluate().artifact().to_scalar(), np.sum(q.mean(axis=1)), "receive power", "summed stream powers", rtol=1e-9)
        obs.close(pr.evaluate().artifact().to_scalar(), np.mean(q.max(axis=1) / q.mean(axis=1)), "papr", "ratio of the impinging signal", rtol=1e-9)
        obs.close(nd(xr.evaluate().signal), y, "extraction", "extracted reception", rtol=1e-12)
        obs.count("powers", 4)
    A = stash.to_array()
    for k, x in enumerate(sent):
        obs.close(A[k, 0, :N, :x.shape[1]], x, "extraction array", f"samples of grid section {k}", rtol=1e-12)
        obs.check(not np.any(A[k, 0, :, x.shape[1]:]), "extraction array", "padding isn't zero")
    obs.sig("power", m, len(c["n"]), c["sparse"])


# ------------------------------------------------------------------ interference
def gen_si(rng):
    m = gen_modes(rng)
    return {"modes": m, "iso": (10 ** rng.uniform(0, 6, (nrx(m), ntx(m)))).tolist(), "n": rint(rng, 20, 200), "m": [rint(rng, 1, 200) for _ in range(rint(rng, 1, 3))], "seed": seed(rng), "noise": float(10 ** rng.uniform(-4, 1)), "drops": rint(rng, 1, 3), "leak": pick(rng, ["given", "given", "none"])}


def run_si(c, obs):
    m = c["modes"]
    dev = SimulatedDevice(carrier_frequency=1e9, antennas=array(m), bandwidth=1e6, oversampling_factor=1, isolation=SpecificIsolation(np.array(c["iso"])), noise_level=N0(c["noise"] / 1e6))
    si, ss = SI(dev), SSINR(dev)
    for e in (si, ss):
        obs.raises(e.evaluate, "no data", f"{type(e).__name__} without any data", RuntimeError)
    out = SignalTransmitter(Signal.Create(np.zeros((ntx(m), 1), complex), 1e6))
    dev.transmitters.add(out)
    dev.receivers.add(SignalReceiver(max(c["m"] + [c["n"]])))
    for k in range(c["drops"]):
        x = arr(c["seed"] + k, ntx(m), c["n"])
        out.signal = Signal.Create(x.copy(), 1e6)
        o = dev.transmit()
        ys = [arr(c["seed"] + 10 * k + i, nrx(m), n) for i, n in enumerate(c["m"])]
        give = c["leak"] != "none"
        dev.process_input([Signal.Create(y.copy(), 1e6, 1e9) for y in ys], leaking_signals=o.leaking_signals if give else None)
        lp = np.mean(np.abs(np.array(c["iso"]) ** -.5 @ x) ** 2, axis=1) if give else np.zeros(nrx(m))
        sp = sum(np.mean(np.abs(np.pad(y, ((0, 0), (0, 0)))) ** 2, axis=1) for y in ys)
        got = si.evaluate()
        obs.close(got.power, lp, "si", "power of the leaking signal", rtol=1e-9)
        obs.count("leaks", int(give))
        obs.close(ss.evaluate().power, sp / (got.power + c["noise"]), "ssinr", "signal to self-interference plus noise ratio", rtol=1e-9)
        obs.count("interferences")
    # complete scenario: the leakage of the transmission is considered
    sc = SimulationScenario()
    sc.add_device(dev)
    sc.drop()
    lp = np.mean(np.abs(np.array(c["iso"]) ** -.5 @ nd(out.signal)) ** 2, axis=1)
    obs.close(si.evaluate().power, lp, "si scenario", "power of the leaking signal", rtol=1e-6)
    obs.count("scenario_leaks")
    obs.sig("si", m, len(c["m"]))


# ------------------------------------------------------------------ sidelobes
def gen_sll(rng):
    n = rint(rng, 2, 8)
    return {"pts": (rng.uniform(-1, 1, (n, 3)) * .7).tolist(), "rpy": rng.uniform(-3, 3, 3).tolist(), "mode": pick(rng, ["TX", "RX"]), "az": float(rng.uniform(-3, 3)), "ze": float(rng.uniform(0, np.pi)), "n": rint(rng, 1, 30), "seed": seed(rng),
            "what": pick(rng, ["focus", "random", "opposed"]), "book": [[float(rng.uniform(-3, 3)), float(rng.uniform(0, np.pi))] for _ in range(rint(rng, 1, 12))] if rng.random() < .6 else None, "cf": float(10 ** rng.uniform(8, 10.5))}


def run_sll(c, obs):
    lam = C0 / c["cf"]
    P = np.array(c["pts"]) * lam
    dev = SimulatedDevice(antennas=SimulatedCustomArray([SimulatedIdealAntenna(pose=Transformation.From_Translation(p)) for p in P]), carrier_frequency=c["cf"], bandwidth=1e6, oversampling_factor=1,
                          pose=StaticTrajectory(Transformation.From_RPY(np.array(c["rpy"]), np.array([4., 5., 6.]))))
    d = lambda a, z: np.array([np.cos(a) * np.sin(z), np.sin(a) * np.sin(z), np.cos(z)])
    a = lambda az, ze: np.exp(2j * np.pi / lam * (P @ d(az, ze)))
    mode = AntennaMode.TX if c["mode"] == "TX" else AntennaMode.RX
    book = None if c["book"] is None else np.array([a(*b) for b in c["book"]])
    ev = SidelobeEvaluator(dev, mode, SphericalFocus(c["az"], c["ze"]), book)
    obs.raises(ev.evaluate, "no data", "sidelobe evaluation without any data", RuntimeError)
    f = a(c["az"], c["ze"])
    s = arr(c["seed"], 1, c["n"])
    # a beam emitted towards, or a plane wave received from the direction of interest
    y = (f.conj() if c["mode"] == "TX" else f)[:, None] @ s if c["what"] == "focus" else arr(c["seed"], len(P), c["n"])
    op = SignalTransmitter(Signal.Create(y.copy(), 1e6))
    dev.transmitters.add(op)
    dev.receivers.add(SignalReceiver(c["n"]))
    dev.transmit()
    dev.receive(Signal.Create(y.copy(), 1e6, c["cf"]))
    if book is None:
        n = len(P)
        book = np.array([np.ones(n)] + [a(az, ze) for ze in np.linspace(0, np.pi, n)[1:] for az in np.linspace(0, 2 * np.pi, 2 * n, endpoint=False)])
    resp = (lambda v: v @ y) if c["mode"] == "TX" else (lambda v: v.conj() @ y)
    pw = lambda v: np.sum(np.abs(resp(v)) ** 2)
    got = ev.evaluate().artifact().to_scalar()
    obs.close(got, pw(f) / sum(pw(b) for b in book), "sidelobe", f"share of the power in the direction of interest ({c['mode']}, {c['what']})", rtol=1e-6)
    obs.count("sidelobes")
    obs.count(f"sidelobes_{c['mode']}")
    obs.sig("sll", c["mode"], c["what"], len(P), len(book))


# ------------------------------------------------------------------ radar
class RadarStub(Radar):
    """Radar reporting prepared receptions."""
    result = None

    def _receive(self, signal, state):
        return self.result


def gen_radar(rng):
    k = rint(rng, 1, 3)
    return {"rpy": rng.uniform(-3, 3, 3).tolist(), "pos": rng.uniform(-20, 20, 3).tolist() if rng.random() < .7 else [0, 0, 0], "targets": [rng.uniform(-50, 50, 3).tolist() for _ in range(k)],
            "points": [[rng.uniform(-50, 50, 3).tolist() for _ in range(rint(rng, 0, 4))] for _ in range(rint(rng, 1, 4))], "exact": bool(rng.random() < .3), "seed": seed(rng)}


def run_radar(c, obs):
    pose = Transformation.From_RPY(np.array(c["rpy"], float), np.array(c["pos"], float))
    dev = SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1, pose=StaticTrajectory(pose))
    M = np.array(pose.view(np.ndarray))
    op = RadarStub(waveform=FMCW())
    op.detector = MaxDetector()
    dev.add_dsp(op) if hasattr(dev, "add_dsp") else (dev.transmitters.add(op), dev.receivers.add(op))
    ch = MultiTargetRadarChannel(attenuate=False)
    T = [np.array(t) for t in c["targets"]]
    for t in T:
        ch.add_target(VirtualRadarTarget(FixedCrossSection(1.), trajectory=StaticTrajectory(Transformation.From_Translation(t))))
    rm, pd = RootMeanSquareError(op, dev, dev, ch), DetectionProbEvaluator(op)
    obs.raises(pd.evaluate, "no data", "detection probability without any data", RuntimeError)
    res = rm.initialize_result([GridDimensionInfo([SamplePoint(0), SamplePoint(1)], "x", "linear", ValueType.LIN)])
    real = ch.realize()
    real.sample(dev, dev)
    local = [M[:3, :3].T @ (t - M[:3, 3]) for t in T]
    total, count = 0., 0
    for points in c["points"]:
        P = [np.array(p) for p in points]
        if c["exact"]:
            P = local[:1]
        cloud = RadarPointCloud(1e3)
        for p in P:
            cloud.add_point(PointDetection(p, np.zeros(3), 1.))
        op.result = RadarReception(Signal.Create(np.zeros((1, 1), complex), 1e6), RadarCube(np.ones((1, 1, 1))), cloud)
        op.receive(Signal.Create(np.zeros((1, 1), complex), 1e6), dev.state())
        obs.equal(bool(pd.evaluate().artifact().to_scalar()), bool(P), "detection", f"{len(P)} detected points")
        obs.count("detections")
        sq = [np.linalg.norm(p - t) ** 2 for p, t in product(P, local)]
        art = rm.evaluate().artifact()
        obs.equal(art.num_errors, len(sq), "rmse count", "compared point pairs")
        if sq:
            obs.close(art.to_scalar(), np.sqrt(np.mean(sq)), "rmse", f"distance of {len(P)} points to {len(T)} targets of a device at {c['pos']}", rtol=1e-7, atol=1e-6)
            if c["exact"] and len(T) == 1:
                obs.check(art.to_scalar() < 1e-5, "rmse perfect", f"perfect detection has an error of {art.to_scalar()}")
                obs.count("perfect_detections")
        res.add_artifact((1,), art)
        total, count = total + sum(sq), count + len(sq)
    if count:
        obs.close(res.to_array()[1], np.sqrt(total / count), "rmse result", "root mean square over all drops", rtol=1e-7, atol=1e-6)
        obs.count("rmses")
    obs.sig("radar", len(T), tuple(len(p) for p in c["points"]), c["exact"])


def gen_roc(rng):
    return {"sections": rint(rng, 1, 3), "n": [rint(rng, 1, 30) for _ in range(3)], "thr": pick(rng, [2, 11, 101, 50]), "seed": seed(rng), "gap": float(rng.uniform(-1, 4)), "ties": bool(rng.random() < .3)}


def run_roc(c, obs):
    dev = SimulatedDevice(carrier_frequency=1e9)
    op = RadarStub(waveform=FMCW())
    dev.transmitters.add(op)
    dev.receivers.add(op)
    ch = MultiTargetRadarChannel()
    ev = ReceiverOperatingCharacteristic(op, dev, dev, ch, num_thresholds=c["thr"])
    res = ev.initialize_result([GridDimensionInfo([SamplePoint(i) for i in range(c["sections"])], "x", "linear", ValueType.LIN)])
    rng = np.random.default_rng(c["seed"])
    data = []
    for s in range(c["sections"]):
        h = rng.standard_normal((c["n"][s], 2)) ** 2
        h[:, 1] = np.abs(h[:, 1] + c["gap"])
        if c["ties"]:
            h = np.round(h)
        for a, b in h:
            res.add_artifact((s,), RocArtifact(float(a), float(b)))
        data.append(h)
    A = res.to_array()
    obs.equal(A.shape, (c["sections"], c["thr"], 2), "roc shape", "operating points per section")
    for s, h in enumerate(data):
        ref = np.array([[np.mean(h[:, 1] >= t), np.mean(h[:, 0] >= t)] for t in np.linspace(h.min(), h.max(), c["thr"])])
        obs.close(A[s], ref, "roc", "detection and false alarm probabilities", atol=1e-12)
        obs.equal(A[s, 0].tolist(), [1., 1.], "roc ends", "lowest threshold always detects")
        obs.count("rocs")
    obs.sig("roc", c["sections"], c["thr"], c["ties"])


def gen_hyp(rng):
    k = rint(rng, 1, 3)
    return {"targets": [{"d": unit(rng.standard_normal(3)).tolist(), "r": float(rng.uniform(3, 60)), "v": float(rng.uniform(-50, 50)), "rcs": float(10 ** rng.uniform(-1, 1)), "static": bool(rng.random() < .5)} for _ in range(k)], "seed": seed(rng),
            "time": float(pick(rng, [0., 0., 1.7])), "vel": rng.uniform(-30, 30, 3).tolist(), "noise": float(pick(rng, [0., 1e-3]))}


def hyp_scenario(c, targets):
    sc = SimulationScenario(seed=c["seed"])
    dev = sc.new_device(carrier_frequency=5e9, bandwidth=5e7, oversampling_factor=1, pose=StaticTrajectory(Transformation.From_Translation(np.array([1., 2., 3.])), np.array(c["vel"])))
    dev.noise_level = N0(c["noise"] / 5e7)
    op = Radar(FMCW(4, 2e-6, 2.5e-6))
    dev.transmitters.add(op)
    dev.receivers.add(op)
    ch = MultiTargetRadarChannel(attenuate=False)
    for t in targets:
        g = np.array(t["d"])
        ch.add_target(VirtualRadarTarget(FixedCrossSection(t["rcs"]), trajectory=StaticTrajectory(Transformation.From_Translation(np.array([1., 2., 3.]) + t["r"] * g), t["v"] * g), static=t["static"]))
    sc.set_channel(dev, dev, ch)
    return sc, dev, op, ch


def run_hyp(c, obs):
    sc, dev, op, ch = hyp_scenario(c, c["targets"])
    ev = ReceiverOperatingCharacteristic(op, dev, dev, ch)
    drop = sc._drop(c["time"])
    r = ev.evaluate()
    cube = drop.device_receptions[0].operator_receptions[0].cube
    obs.close(r.cube_h1.data, cube.data, "roc h1", "cube of the actual reception", rtol=1e-12)
    if c["noise"] == 0:
        sc0, _, _, _ = hyp_scenario(c, [t for t in c["targets"] if t["static"]])
        # target phases aren't random: the same scene without the moving targets
        ref = sc0._drop(c["time"]).device_receptions[0].operator_receptions[0].cube
        obs.close(r.cube_h0.data, ref.data, "roc h0", f"cube of the scene without detectable targets ({[t['static'] for t in c['targets']]} static, time {c['time']})", rtol=1e-6, atol=1e-9 * max(cube.data.max(), 1e-30))
        obs.count("null_hypotheses")
    elif all(t["static"] for t in c["targets"]):
        obs.close(r.cube_h0.data, cube.data, "roc noise", "both hypotheses see the same noise", rtol=1e-9)
        obs.count("shared_noise")
    a = r.artifact()
    obs.close([a.h0_value, a.h1_value], [r.cube_h0.data.max(), cube.data.max()], "roc values", "peak powers", rtol=1e-12)
    obs.sig("hyp", tuple(t["static"] for t in c["targets"]), c["time"], c["noise"])


FAMILIES = [
    Family("communication", gen_comm, run_comm, quick=700, require=("ber_rates", "bler_rates", "fer_rates", "throughputs", "evms", "ber_perfect", "ber_worst", "fer_worst")),
    Family("link", gen_link, run_link, quick=120, require=("links", "link_evms")),
    Family("power", gen_power, run_power, quick=200, require=("powers",)),
    Family("interference", gen_si, run_si, quick=150, require=("interferences",)),
    Family("sidelobe", gen_sll, run_sll, quick=200, require=("sidelobes_TX", "sidelobes_RX")),
    Family("radar", gen_radar, run_radar, quick=200, require=("detections", "rmses", "perfect_detections")),
    Family("roc", gen_roc, run_roc, quick=200, require=("rocs",)),
    Family("hypotheses", gen_hyp, run_hyp, quick=100, require=("null_hypotheses", "shared_noise")),
]
