"""Injected noise has exactly the announced statistics."""
import numpy as np
from scipy.constants import Boltzmann, pi
from scipy.signal import lfilter
from hv.runner import Family
from hv.ref import arr, nd, pick, rint, seed, snapshot
from hermespy.core import DenseSignal, SignalReceiver, SignalTransmitter, SparseSignal, Transformation
from hermespy.channel import IdealChannel, RandomDelayChannel
from hermespy.simulation import N0, SNR, AWGN, OscillatorPhaseNoise, SimulatedDevice, Simulation, SimulationScenario, ThermalNoise
from hermespy.simulation.rf.noise.model import AWGNRealization
from hermespy.simulation.rf import RFChain, RFSignal
from hermespy.simulation.rf.blocks import DAC, ADC, PowerAmplifier
from hv.checks.c20 import array
from hv.checks.c22 import gen_modes, gen_signal, mk_signal, nrx, ntx

PROPERTY = "C29"
RULE = ("random noise levels (fixed densities, thermal, signal-to-noise ratios with device and operator references), realizations, signals, devices, scenarios and "
        "radio-frequency chains; recorded noise is isolated by subtraction and its mean, power, circularity, fourth moment, whiteness and mutual independence are tested "
        "with bounds of at least seven standard deviations, metadata and reproducibility exactly; distinct = distinct configuration signatures")
ASSUMPTIONS = ["statistical bounds have a false alarm probability below 1e-9 per case",
               "noise at a device's receivers has the announced power per sample, independent of the oversampling factor, as implemented and documented by the level models",
               "all receivers of one device observe the same physical noise, so that independence is demanded between antennas, devices and drops"]
SR, CF = 1e6, 1e9
Z = 8.0


def white(obs, n, p, what, lags=3, streams=True):
    """n: (streams, samples) of noise of announced power p."""
    s, l = n.shape
    N = s * l
    x = n / np.sqrt(p)
    obs.count("noise samples", N)
    stats = {"power": (abs(np.mean(abs(x) ** 2) - 1), 1.0), "mean": (abs(x.mean()), 1.0), "circularity": (abs(np.mean(x ** 2)), np.sqrt(2)),
             "fourth moment": (abs(np.mean(abs(x) ** 4) - 2) / 1.5, np.sqrt(20))}
    for k in range(1, lags + 1):
        stats[f"whiteness at lag {k}"] = (abs(np.mean(x[:, k:] * x[:, :-k].conj())), 1.0)
        stats[f"pseudo whiteness at lag {k}"] = (abs(np.mean(x[:, k:] * x[:, :-k])), 1.0)
    for name, (v, sd) in stats.items():
        obs.check(v < Z * sd / np.sqrt(N), "wrong noise " + name.split(" at ")[0], f"{what}: {name} deviates by {v:.3g}, allowed {Z * sd / np.sqrt(N):.3g} over {N} samples")
        obs.count("statistics tested")
    for a in range(s):
        pw = np.mean(abs(x[a]) ** 2)
        obs.check(abs(pw - 1) < Z / np.sqrt(l), "wrong noise power of a stream", f"{what}: stream {a} has {pw} times the announced power")
        for b in range(a):
            for k in range(-2, 3):
                u, v = (x[a, k:], x[b, :l - k]) if k >= 0 else (x[a, :l + k], x[b, -k:])
                for w, c in (("", np.mean(u * v.conj())), (" pseudo", np.mean(u * v))):
                    obs.check(abs(c) < Z / np.sqrt(l - abs(k)), "dependent noise streams", f"{what}: streams {a} and {b} have{w} correlation {abs(c):.3g} at lag {k}")
                    obs.count("statistics tested")


def independent(obs, a, b, what):
    a, b = a.ravel(), b.ravel()
    c = abs(np.vdot(a, b)) / np.sqrt(np.vdot(a, a).real * np.vdot(b, b).real)
    obs.check(c < Z / np.sqrt(len(a)), "repeated noise", f"{what}: correlation {c:.3g} of {len(a)} samples")
    obs.count("statistics tested")


# ---- levels
class Ref:
    def __init__(self, power):
        self.power = power


def mk_level(c, ref=None, channel=None):
    k, v = c["level"], c["value"]
    return N0(v) if k == "n0" else ThermalNoise(v) if k == "thermal" else SNR(v, ref, channel)


def announced(c, bw, refp=1.0):
    k, v = c["level"], c["value"]
    return v * bw if k == "n0" else 200 * Boltzmann * v * bw if k == "thermal" else refp / v


def gen_level(rng, unit=False):
    k = pick(rng, ["n0", "thermal", "snr"])
    v = 10 ** rng.uniform(-3, 1) / (SR if unit else 1) if k == "n0" else float(rng.uniform(1, 500)) if k == "thermal" else 10 ** rng.uniform(-2, 3)
    return {"level": k, "value": float(v)}


def g_levels(rng):
    return {**gen_level(rng), "bw": [float(10 ** rng.uniform(0, 10)) for _ in range(3)], "power": float(10 ** rng.uniform(-4, 3)),
            "values": [float(10 ** rng.uniform(-6, 3)) for _ in range(3)]}


def r_levels(c, obs):
    ref = Ref(c["power"])
    l = mk_level(c, ref)
    for bw in c["bw"]:
        obs.close(l.get_power(bw), announced(c, bw, ref.power), "wrong noise power", f"{c['level']}({c['value']}) over {bw} Hz")
        obs.count("powers")
    for i, v in enumerate(c["values"]):
        if i % 2:
            l << v
        else:
            l.level = v
        cc = {**c, "value": v}
        obs.equal(l.level, v, "level not reported", f"set to {v}")
        obs.close(l.get_power(c["bw"][0]), announced(cc, c["bw"][0], ref.power), "wrong noise power", f"{c['level']} after setting {v}")
        obs.count("assignments")
    old = l.level
    obs.raises(lambda: setattr(l, "level", -1.0), "negative noise level accepted", c["level"], ValueError)
    obs.equal(l.level, old, "rejected level took effect", c["level"])
    if c["level"] == "snr":
        ref.power *= 3
        obs.close(l.get_power(1.), 3 * announced(cc, 1., c["power"]), "noise doesn't follow the reference", "SNR after the reference's power changed")
        other = Ref(17.)
        l.reference = other
        obs.close(l.get_power(1.), 17. / old, "noise doesn't follow the reference", "SNR after exchanging the reference")
    obs.sig(c["level"])


# ---- realizations
def g_awgn(rng):
    return {"streams": rint(rng, 1, 5), "n": rint(rng, 3000, 12000), "power": float(10 ** rng.uniform(-9, 4)), "seed": seed(rng), "key": seed(rng), "amp": float(10 ** rng.uniform(-2, 2)),
            "rf": bool(rng.random() < .3)}


def r_awgn(c, obs):
    x = c["amp"] * np.sqrt(c["power"]) * arr(c["key"], c["streams"], c["n"])
    mk = (lambda v: RFSignal.FromNDArray(v.copy(), SR, np.full(c["streams"], CF))) if c["rf"] else (lambda v: DenseSignal.FromNDArray(v.copy(), SR, CF, delay=1e-5))
    m = AWGN(seed=c["seed"])
    r, r2 = m.realize(c["power"]), m.realize(c["power"])
    obs.equal(r.power, c["power"], "realization power", "announced power of a realization")
    s = mk(x)
    before = np.array(s.view(np.ndarray)).tobytes()
    y = r.add_to(s)
    obs.equal(np.array(s.view(np.ndarray)).tobytes(), before, "adding noise altered the input", "")
    n = np.array(y.view(np.ndarray)) - x
    white(obs, n, c["power"], f"{c['streams']} streams", 4)
    z = np.array(r.add_to(mk(np.zeros_like(x))).view(np.ndarray))
    obs.close(n, z, "noise depends on the signal", "noise of a silent signal", rtol=1e-9, atol=1e-12 * (1 + c["amp"]) * np.sqrt(c["power"]))
    obs.equal(np.array(r.add_to(s).view(np.ndarray)).tobytes(), np.array(y.view(np.ndarray)).tobytes(), "realization isn't reproducible", "second addition")
    w = np.array(r2.add_to(s).view(np.ndarray)) - x
    independent(obs, n, w, "two realizations of one model")
    m2 = AWGN(seed=c["seed"])
    obs.equal(np.array(m2.realize(c["power"]).add_to(s).view(np.ndarray)).tobytes(), np.array(y.view(np.ndarray)).tobytes(), "seeded model isn't reproducible", "identically seeded model")
    q = AWGNRealization(4 * c["power"], r.seed).add_to(mk(np.zeros_like(x)))
    obs.close(np.array(q.view(np.ndarray)), 2 * z, "noise doesn't scale with its power", "same seed, four times the power", rtol=1e-12)
    obs.equal((y.sampling_rate, CF if c["rf"] else y.carrier_frequency, y.delay, tuple(y.shape), type(y)),
              (s.sampling_rate, CF, s.delay, tuple(s.shape), type(s)), "adding noise altered the metadata", "")
    if c["rf"]:
        obs.equal(list(y.carrier_frequencies), list(s.carrier_frequencies), "adding noise altered the metadata", "carrier frequencies")
    obs.equal(y.noise_power, c["power"], "noise power not reported", "")
    obs.count("realizations")
    obs.sig(c["streams"], c["rf"])


def g_sparse(rng):
    return {**gen_signal(rng), "streams": rint(rng, 1, 4), "power": float(10 ** rng.uniform(-3, 2)), "seed": seed(rng), "delay": pick(rng, [0., 3e-6])}


def r_sparse(c, obs):
    s, x = mk_signal(c, c["streams"], c["delay"])
    before = snapshot(s)
    r = AWGN(seed=c["seed"]).realize(c["power"])
    y = r.add_to(s)
    obs.equal(snapshot(s), before, "adding noise altered the input", "")
    obs.equal([(b.offset, b.shape) for b in y.blocks], [(b.offset, b.shape) for b in s.blocks], "adding noise moved blocks", "")
    obs.equal((y.sampling_rate, y.carrier_frequency, y.delay, tuple(y.shape), type(y), y.noise_power), (s.sampling_rate, s.carrier_frequency, s.delay, tuple(s.shape), type(s), c["power"]),
              "adding noise altered the metadata", "")
    d = [np.array(a.view(np.ndarray)) - np.array(b.view(np.ndarray)) for a, b in zip(y.blocks, s.blocks)]
    n = np.concatenate([e.ravel() for e in d])
    # sum of |n|^2 over N samples is gamma distributed, an eight sigma bound plus the tail of few samples
    N = n.size
    t = np.sum(abs(n) ** 2) / c["power"]
    obs.check(t < N + Z * np.sqrt(N) + 40, "wrong noise power", f"{N} samples carry {t:.3g} times the announced power")
    obs.check(np.all(n != 0), "missing noise", f"{np.sum(n == 0)} of {N} samples without noise")
    for i in range(len(d)):
        for j in range(i):
            k = min(d[i].shape[1], d[j].shape[1])
            obs.check(not np.allclose(d[i][:, :k], d[j][:, :k], rtol=1e-6), "repeated noise", f"blocks {j} and {i} carry the same noise")
            obs.count("block pairs")
    obs.count("noise samples", N)
    obs.sig(len(s.blocks), c["streams"])


# ---- devices
def g_device(rng):
    m = gen_modes(rng)
    return {**gen_level(rng, True), "modes": m, "over": pick(rng, [1, 1, 2, 4]), "bw": float(SR * pick(rng, [1, .5, 3.])), "how": pick(rng, ["ctor", "ctor", "set", "shift", "arg", "after rf"]),
            "power": float(10 ** rng.uniform(-2, 2)), "n": rint(rng, 3000, 6000), "key": seed(rng), "seed": seed(rng), "amp": pick(rng, [0., 1., 1.]), "drops": 2}


def r_device(c, obs):
    ref = Ref(c["power"])
    lv = mk_level(c, ref)
    p = announced(c, c["bw"], c["power"])
    kw = dict(antennas=array(c["modes"]), carrier_frequency=CF, bandwidth=c["bw"], oversampling_factor=c["over"], seed=c["seed"])
    arg = {}
    if c["how"] == "ctor":
        d = SimulatedDevice(noise_level=lv, noise_model=AWGN(), **kw)
    elif c["how"] == "shift":
        d = SimulatedDevice(noise_level=mk_level({**c, "value": 3 * c["value"]}, ref), **kw)
        d.noise = c["value"] if c["key"] % 2 else d.noise
        if not c["key"] % 2:
            d.noise_level << c["value"]
    else:
        d = SimulatedDevice(noise_level=N0(123.) if c["how"] == "arg" else None, **kw)
        if c["how"] == "arg":
            arg = {"noise_level": lv}
        else:
            d.noise_level = lv
    clean = SimulatedDevice(**kw)
    rx, rx2 = SignalReceiver(c["n"]), SignalReceiver(c["n"])
    d.receivers.add(rx)
    clean.receivers.add(rx2)
    amp = np.sqrt(p) * c["amp"]
    x = DenseSignal.FromNDArray(amp * arr(c["key"], nrx(c["modes"]), c["n"]), d.sampling_rate, CF)
    base = nd(clean.process_input(x).operator_inputs[0])
    before = snapshot(x)
    last = []
    for _ in range(c["drops"]):
        i = d.process_input(x, **arg)
        o = i.operator_inputs[0]
        obs.close(i.noise_realization.power, p, "realized noise power", f"{c['level']} {c['how']}")
        obs.close(o.noise_power, p, "reported noise power", f"{c['level']} {c['how']}")
        n = nd(o) - base
        white(obs, n, p, f"device {c['level']} via {c['how']}, oversampling {c['over']}", 2)
        for q in last:
            independent(obs, n, q, "successive drops of a device")
        last.append(n)
        # identical realization
        again = d.process_from_realization(x, i, i.trigger_realization)
        obs.equal(nd(again.operator_inputs[0]).tobytes(), nd(o).tobytes(), "device noise realization isn't reproducible", "same realization processed again")
        obs.count("device receptions")
    obs.equal(snapshot(x), before, "adding noise altered the input", "")
    # transmissions aren't noisy
    if ntx(c["modes"]):
        t = [SignalTransmitter(DenseSignal.FromNDArray(np.ones((ntx(c["modes"]), 200), complex), d.sampling_rate, 0.)) for _ in (0, 1)]
        d.transmitters.add(t[0])
        clean.transmitters.add(t[1])
        a, b = nd(d.transmit().mixed_signal), nd(clean.transmit().mixed_signal)
        obs.close(a, b, "noise in transmissions", "the device's receive noise appears in its emission", rtol=1e-9, atol=1e-12)
    obs.sig(c["level"], c["how"], c["over"], c["modes"])


# ---- scenarios
def g_scenario(rng):
    k = pick(rng, ["device", "scenario", "model", "channel"])
    return {**gen_level(rng, True), "kind": k, "value2": 10 ** rng.uniform(-3, 0) / SR, "num": rint(rng, 2, 3), "n": rint(rng, 2000, 4000), "seed": seed(rng), "key": seed(rng),
            "sim": bool(rng.random() < .3), "gain": float(rng.uniform(.2, 2)), "power": float(10 ** rng.uniform(-2, 2))}


def r_scenario(c, obs):
    ref = Ref(c["power"])
    sc = SimulationScenario(seed=c["seed"])
    devs = [sc.new_device(carrier_frequency=CF, bandwidth=SR, oversampling_factor=1) for _ in range(c["num"])]
    p = [0.] * c["num"]
    kind = c["kind"]
    for i, d in enumerate(devs):
        d.noise_level = N0(c["value2"] * (i + 1))
        p[i] = c["value2"] * (i + 1) * SR
    if kind in ("scenario", "model"):
        sc.noise_level = mk_level(c, ref)
        p = [announced(c, SR, c["power"])] * c["num"]
    if kind == "model":
        sc.noise_model = AWGN()
    for a in range(c["num"]):
        for b in range(a):
            sc.set_channel(devs[b], devs[a], IdealChannel(gain=c["gain"]))
    if kind == "channel":
        ch = IdealChannel(gain=c["gain"])
        sc.set_channel(devs[0], devs[1], ch)
        devs[1].noise_level = SNR(10., devs[0], ch)
        devs[0].power = c["power"]
        p[1] = c["power"] / 10. * c["gain"]
    rx = []
    for d in devs:
        rx.append(SignalReceiver(c["n"]))
        d.receivers.add(rx[-1])
        d.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(np.zeros((1, c["n"]), complex), SR, 0.)))
    last = []
    for _ in range(2):
        drop = sc.drop()
        cur = []
        for i in range(c["num"]):
            s = drop.device_receptions[i].operator_inputs[0]
            obs.close(s.noise_power, p[i], "reported noise power", f"{kind}: device {i}")
            white(obs, nd(s), p[i], f"{kind}: device {i} of a scenario", 2)
            cur.append(nd(s))
            for q in cur[:-1]:
                independent(obs, cur[-1], q, "devices of a scenario")
        for q in last:
            for w in cur:
                independent(obs, q, w, "drops of a scenario")
        last += cur
        obs.count("drops")
    obs.sig(kind, c["level"], c["num"])


# ---- radio frequency chains
def g_chain(rng):
    k = rint(rng, 1, 3)
    return {"gains": [float(rng.uniform(.3, 3)) for _ in range(k)], "densities": [pick(rng, [0., float(rng.uniform(.05, 2) / SR)]) for _ in range(k)] or [0.],
            "adc": float(rng.uniform(.05, 1) / SR), "streams": rint(rng, 1, 3), "n": rint(rng, 3000, 6000), "key": seed(rng), "seed": seed(rng), "drops": 2}


def r_chain(c, obs):
    def build(noisy):
        rf = RFChain(seed=c["seed"])
        for _ in range(c["streams"]):
            blocks = [PowerAmplifier(gain=g, noise_level=N0(v * noisy)) for g, v in zip(c["gains"], c["densities"])] + [ADC(noise_level=N0(c["adc"] * noisy))]
            refs = [rf.add_block(b) for b in blocks]
            for a, b in zip(refs[:-1], refs[1:]):
                rf.connect(a.port("o"), b.port("i"))
        return rf
    x = DenseSignal.FromNDArray(arr(c["key"], c["streams"], c["n"]), SR, CF)
    p = 0.
    for g, v in zip(c["gains"], c["densities"]):
        p = p * g * g + v * SR
    p += c["adc"] * SR
    noisy, clean = build(1.), build(0.)
    base = np.array(clean.receive(x, clean.realize(SR, 1, CF)).view(np.ndarray))
    obs.close(base, np.prod(c["gains"]) * nd(x), "noiseless chain", "amplified signal", rtol=1e-9)
    last = []
    for _ in range(c["drops"]):
        r = noisy.realize(SR, 1, CF)
        y = np.array(noisy.receive(x, r).view(np.ndarray))
        white(obs, y - base, p, f"chain of {len(c['gains'])} amplifiers and a converter", 2)
        obs.equal(np.array(noisy.receive(x, r).view(np.ndarray)).tobytes(), y.tobytes(), "chain realization isn't reproducible", "")
        for q in last:
            independent(obs, y - base, q, "realizations of a chain")
        last.append(y - base)
        obs.count("chain receptions")
    obs.sig(len(c["gains"]), c["streams"], tuple(v > 0 for v in c["densities"]))


# ---- phase noise
def g_phase(rng):
    fs = float(10 ** rng.uniform(5, 9))
    which = pick(rng, ["K0", "K2", "K3", "all"])
    return {"which": which, "fs": fs, "std": float(10 ** rng.uniform(-3, -1)), "streams": rint(rng, 1, 3), "n": rint(rng, 3000, 6000), "seed": seed(rng), "key": seed(rng)}


def r_phase(c, obs):
    ts = 1 / c["fs"]
    v = c["std"] ** 2
    K = {"K0": v * ts, "K2": v / (4 * ts * pi ** 2), "K3": v / (8 * ts ** 2 * pi ** 3)}
    K = {k: (x if c["which"] in (k, "all") else 0.) for k, x in K.items()}
    m = OscillatorPhaseNoise(seed=c["seed"], **K)
    x = arr(c["key"], c["streams"], c["n"])
    s = RFSignal.FromNDArray(x.copy(), c["fs"], np.full(c["streams"], CF))
    r = m.realize(c["fs"], 1)
    y = r.add_noise(s)
    obs.equal(np.array(s.view(np.ndarray)).tobytes(), x.tobytes(), "adding noise altered the input", "phase noise")
    Y = np.array(y.view(np.ndarray))
    obs.close(abs(Y), abs(x), "phase noise altered amplitudes", "", rtol=1e-9)
    obs.equal((y.sampling_rate, tuple(y.carrier_frequencies), tuple(y.shape)), (s.sampling_rate, tuple(s.carrier_frequencies), tuple(s.shape)), "adding noise altered the metadata", "phase noise")
    obs.equal(np.array(r.add_noise(s).view(np.ndarray)).tobytes(), Y.tobytes(), "phase noise realization isn't reproducible", "")
    obs.equal(np.array(OscillatorPhaseNoise(seed=c["seed"], **K).realize(c["fs"], 1).add_noise(s).view(np.ndarray)).tobytes(), Y.tobytes(), "seeded phase noise isn't reproducible", "")
    ph = np.angle(Y / x)
    ph2 = np.angle(np.array(m.realize(c["fs"], 1).add_noise(s).view(np.ndarray)) / x)
    def innov(p):
        p = np.unwrap(p, axis=1)
        if c["which"] == "K0":
            return p
        if c["which"] == "K2":
            return np.diff(p, axis=1, prepend=0)
        if c["which"] == "K3":
            # inverse of (1 - z^-1)^-1.5
            h = np.ones(p.shape[1])
            for k in range(1, len(h)):
                h[k] = h[k - 1] * (k - 1 - 1.5) / k
            return lfilter(h, 1, p, axis=1)
        return None
    a, b = innov(ph), innov(ph2)
    if a is not None:
        u = a / c["std"]
        N = u.size
        for name, val, sd in (("mean", abs(u.mean()), 1), ("power", abs(np.mean(u ** 2) - 1), np.sqrt(2)), ("whiteness", abs(np.mean(u[:, 1:] * u[:, :-1])), 1),
                              ("whiteness", abs(np.mean(u[:, 2:] * u[:, :-2])), 1), ("repetition", abs(np.mean(u * b / c["std"])), 1)):
            obs.check(val < Z * sd / np.sqrt(N), "wrong phase noise " + name, f"{c['which']}: {name} deviates by {val:.3g} over {N} samples")
            obs.count("statistics tested")
        for i in range(c["streams"]):
            for j in range(i):
                q = abs(np.mean(u[i] * u[j]))
                obs.check(q < Z / np.sqrt(u.shape[1]), "dependent phase noise streams", f"streams {i}, {j}: {q:.3g}")
    else:
        obs.check(not np.allclose(ph, ph2), "repeated noise", "phase noise realizations")
        obs.count("statistics tested")
    obs.count("noise samples", x.size)
    obs.sig(c["which"], c["streams"])


FAMILIES = [Family("levels", g_levels, r_levels, quick=60, require=("powers", "assignments")),
            Family("realizations", g_awgn, r_awgn, quick=60, require=("noise samples", "statistics tested", "realizations")),
            Family("sparse signals", g_sparse, r_sparse, quick=60, require=("noise samples", "block pairs")),
            Family("devices", g_device, r_device, quick=60, require=("device receptions", "statistics tested")),
            Family("scenarios", g_scenario, r_scenario, quick=32, require=("drops", "statistics tested")),
            Family("chains", g_chain, r_chain, quick=40, require=("chain receptions", "statistics tested")),
            Family("phase noise", g_phase, r_phase, quick=40, require=("statistics tested", "noise samples"))]
