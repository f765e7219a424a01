"""Leakage, coupling, calibrations and triggers act exactly as configured."""
import numpy as np
from hv.runner import Family
from hv.ref import arr, cn, dense_of, layout, nd, pick, rint, seed, snapshot
from hermespy.core import DenseSignal, Signal, SignalReceiver, SignalTransmitter, SilentTransmitter, SparseSignal, Transformation
from hermespy.radar import FMCW, Radar
from hermespy.core.signal_model import SignalBlock
from hermespy.channel import IdealChannel
from hermespy.hardware_loop import DelayCalibration, PhysicalDeviceDummy, ScalarAntennaCalibration, SelectiveLeakageCalibration
from hermespy.hardware_loop.physical_device import NoDelayCalibration, NoLeakageCalibration
from hermespy.simulation import (ImpedanceCoupling, NormalTrigger, PerfectCoupling, RandomTrigger, SampleOffsetTrigger, SelectiveLeakage, SimulatedDevice,
                                 SimulationScenario, SpecificIsolation, StaticTrigger, TimeOffsetTrigger, TriggerRealization)
from hermespy.simulation.isolation import PerfectIsolation
from hv.checks.c20 import BareDevice, array

PROPERTY = "C22"
RULE = ("random devices with arbitrary transmit, receive and duplex antennas, leakage responses and isolations, coupling impedances and correlations, trigger models shared "
        "between devices, and antenna, delay and leakage calibrations with port selections; leaked, coupled, calibrated and triggered samples are compared with the "
        "convolutions, matrix products and sample shifts written out independently; distinct = distinct configuration signatures")
ASSUMPTIONS = ["devices in trigger scenarios share one sampling rate, as the trigger models demand",
               "time offset triggers are documented to round down to full samples",
               "estimated leakage is compared for responses shorter than the probing wavelet and without the optional peak filter, or with a single dominant tap",
               "leaking signals aren't scaled by the device's power, which the library applies at its antennas only"]
SR, CF = 1e6, 1e9


def gen_modes(rng, lo=1, hi=4):
    m = "".join(pick(rng, "DTR") for _ in range(rint(rng, lo, hi)))
    return m if set(m) & set("DT") and set(m) & set("DR") else "D" + m[1:]


def ntx(m):
    return sum(c in "DT" for c in m)


def nrx(m):
    return sum(c in "DR" for c in m)


def mk_signal(c, streams, delay=0.0):
    """Dense or sparse signal and its dense reference."""
    lay = [tuple(b) for b in c["layout"]]
    blocks = [arr(c["key"], streams, b[1]) if i == 0 else arr(c["key"] + i, streams, b[1]) for i, b in enumerate(lay)]
    if c["sparse"]:
        s = Signal.Create([SignalBlock(b.shape[0], b.shape[1], o, np.ascontiguousarray(b).tobytes()) for b, (o, _) in zip(blocks, lay)], SR, CF, delay=delay,
                          offsets=[o for o, _ in lay])
        n = lay[-1][0] + lay[-1][1]
        x = np.zeros((streams, n), complex)
        for b, (o, l) in zip(blocks, lay):
            x[:, o:o + l] = b
        return s, x
    return DenseSignal.FromNDArray(blocks[0].copy(), SR, CF, delay=delay), blocks[0]


def gen_signal(rng):
    lay, o = [], rint(rng, 0, 5)
    for _ in range(rint(rng, 2, 3)):
        n = rint(rng, 1, 20)
        lay.append([o, n])
        o += n + rint(rng, 1, 9)
    return {"key": seed(rng), "sparse": bool(rng.random() < .4), "layout": lay if rng.random() < .5 else [[0, rint(rng, 1, 60)]]}


def fir(h, x):
    y = np.zeros((h.shape[0], x.shape[1] + h.shape[2] - 1), complex)
    for m in range(h.shape[0]):
        for n in range(h.shape[1]):
            y[m] += np.convolve(h[m, n], x[n])
    return y


def same(obs, got, exp, mech, msg, tol=1e-9):
    """Equal sample streams, up to trailing zeros."""
    n = max(got.shape[1], exp.shape[1])
    if not obs.check(got.shape[0] == exp.shape[0], mech, f"{msg}: {got.shape[0]} streams instead of {exp.shape[0]}"):
        return
    p = lambda z: np.pad(z, ((0, 0), (0, n - z.shape[1])))
    obs.close(p(got), p(exp), mech, msg, rtol=tol, atol=tol * (1 + np.abs(exp).max(initial=0.)))


# ------------------------------------------------------------------ leakage

def gen_leak(rng):
    m = gen_modes(rng)
    return {"modes": m, "kind": pick(rng, ("selective", "specific", "scalar", "perfect")), "key": seed(rng), "taps": rint(rng, 1, 12), "sig": gen_signal(rng),
            "power": float(pick(rng, (1., 4., .25))), "sep": bool(rng.random() < .4), "ops": rint(rng, 1, 3), "delay": rint(rng, 0, 7), "n": rint(rng, 1, 40)}


def run_leak(case, obs):
    m = case["modes"]
    if case["kind"] == "scalar":
        m = "D"
    T, R = ntx(m), nrx(m)
    d = SimulatedDevice(antennas=array(m), carrier_frequency=CF, bandwidth=SR, oversampling_factor=1, power=case["power"], operator_separation=case["sep"])
    if case["kind"] == "selective":
        h = arr(case["key"], R, T, case["taps"])
        d.isolation = SelectiveLeakage(h.copy())
    elif case["kind"] == "specific":
        iso = 10 ** (4 * np.random.default_rng(case["key"]).random((R, T)))
        d.isolation = SpecificIsolation(iso.copy())
        h = iso[:, :, None] ** -.5
    elif case["kind"] == "scalar":
        iso = float(10 ** (4 * np.random.default_rng(case["key"]).random()))
        d.isolation = SpecificIsolation(iso)
        h = np.full((1, 1, 1), iso ** -.5)
    else:
        d.isolation = PerfectIsolation()
        h = np.zeros((R, T, 1))
    obs.sig(case["kind"], m, case["sep"], case["ops"], case["sig"]["sparse"], case["taps"])
    s, x = mk_signal(case["sig"], T)
    before = snapshot(s)
    obs.equal(d.isolation.device is d, True, "isolation_device", "the isolation model is attached to the device")
    l = d.isolation.leak(s)
    obs.equal(snapshot(s), before, "leak_pure", "signal handed to the isolation model")
    same(obs, nd(l), fir(h, x) if case["kind"] != "perfect" else np.zeros((R, 0)), "leak", f"{case['kind']} leakage")
    obs.equal((l.sampling_rate, l.carrier_frequency), (SR, CF), "leak_meta", "leakage parameters")
    obs.count("leaks")
    # linearity
    s2, x2 = mk_signal(dict(case["sig"], key=case["sig"]["key"] + 77), T)
    g = .3 - 1.2j
    s3 = DenseSignal.FromNDArray(x + g * x2, SR, CF)
    same(obs, nd(d.isolation.leak(s3)), nd(l) + g * nd(d.isolation.leak(s2)) if l.num_samples else np.zeros((R, 0)), "leak_linear", "linearity of the leakage")
    # through the device, including reception
    xs = [arr(case["key"] + 5 + k, T, case["n"] + 3 * k) for k in range(case["ops"])]
    for z in xs:
        d.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(z, SR), selected_transmit_ports=list(range(T))))
    tr = TriggerRealization(case["delay"], SR)
    t = d.transmit(trigger_realization=tr)
    tot = np.zeros((T, max(z.shape[1] for z in xs)), complex)
    for z in xs:
        tot[:, :z.shape[1]] += z
    obs.equal(len(t.leaking_signals), len(xs) if case["sep"] else 1, "leak_count", "number of leaking signals")
    for k, (z, q) in enumerate(zip(xs if case["sep"] else [tot], t.leaking_signals)):
        same(obs, nd(q), fir(h, z) if case["kind"] != "perfect" else np.zeros((R, 0)), "leak_emission", f"leaking signal {k}")
        obs.close(q.delay, case["delay"] / SR, "leak_delay", "delay of the leaking signal", rtol=1e-9, atol=1e-15)
    for k, (z, q) in enumerate(zip(xs if case["sep"] else [tot], t.emerging_signals)):
        same(obs, nd(q), case["power"] ** .5 * z, "leak_emerging", f"emerging signal {k} of a leaking device")
    imp = arr(case["key"] + 3, R, case["n"] + 8)
    p = d.process_input(DenseSignal.FromNDArray(imp, SR, CF, delay=case["delay"] / SR), trigger_realization=tr, leaking_signals=list(t.leaking_signals))
    L = fir(h, tot)
    exp = np.zeros((R, max(imp.shape[1], L.shape[1])), complex)
    exp[:, :imp.shape[1]] += imp
    exp[:, :L.shape[1]] += L
    same(obs, nd(p.baseband_signal), exp, "leak_reception", "received signal including leakage")
    obs.count("receptions")


# ------------------------------------------------------------------ coupling

def psd(rng, n):
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return a @ a.conj().T / n + .3 * np.eye(n)


def root(m, p):
    w, v = np.linalg.eigh(m)
    return (v * w ** p) @ v.conj().T


def gen_coup(rng):
    return {"modes": gen_modes(rng), "key": seed(rng), "set": [bool(rng.random() < .6) for _ in range(5)], "real": bool(rng.random() < .5), "sig": gen_signal(rng), "rsig": gen_signal(rng),
            "perfect": bool(rng.random() < .15)}


def run_coup(case, obs):
    m = case["modes"]
    T, R = ntx(m), nrx(m)
    r = np.random.default_rng(case["key"])
    cor = lambda n: psd(r, n).real if case["real"] else psd(r, n)
    imp = lambda n: (lambda p: p + 1j * r.normal(size=(n, n)))(root(psd(r, n).real.astype(complex), 1).real)
    Ct, Cr, Zt, Zr, Zm = cor(T), cor(R), imp(T), imp(R), imp(R)
    s = case["set"]
    obs.sig(m, tuple(s), case["perfect"], case["sig"]["sparse"])
    d = SimulatedDevice(antennas=array(m), carrier_frequency=CF, bandwidth=SR, oversampling_factor=1)
    if case["perfect"]:
        c = PerfectCoupling()
        A, B = np.eye(T), np.eye(R)
    else:
        c = ImpedanceCoupling(*[z.copy() if u else None for z, u in zip((Ct, Cr, Zt, Zr, Zm), s)])
        Ct, Cr, Zt, Zr, Zm = [z if u else np.eye(len(z)) for z, u in zip((Ct, Cr, Zt, Zr, Zm), s)]
        A = root(Zt.real, -.5) @ root(Ct, .5)
        B = 2 * Zr[0, 0].real * root(Zm.real, .5) @ np.linalg.inv(Zm + Cr) @ root(Cr, .5)
    d.coupling = c
    st = d.state()
    for name, f, M, key, n in (("transmit", c.transmit, A, case["sig"], T), ("receive", c.receive, B, case["rsig"], R)):
        x, ref = mk_signal(key, n, 3e-6)
        before = snapshot(x)
        y = f(x, st)
        obs.equal(snapshot(x), before, "coupling_pure", f"signal handed to the {name} coupling")
        same(obs, nd(y), M @ ref, f"coupling_{name}", f"{name} coupling")
        obs.equal((y.sampling_rate, y.carrier_frequency, y.delay, y.num_samples), (SR, CF, 3e-6, x.num_samples), "coupling_meta", f"{name} coupling parameters")
        obs.count("couplings")
    # through the device
    x = arr(case["key"] + 9, T, 11)
    d.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(x, SR), selected_transmit_ports=list(range(T))))
    same(obs, nd(d.transmit().mixed_signal), A @ x, "coupling_device", "emission of a coupled device")
    z = arr(case["key"] + 10, R, 13)
    same(obs, nd(d.process_input(DenseSignal.FromNDArray(z, SR, CF)).baseband_signal), B @ z, "coupling_device", "reception of a coupled device")
    if all(s) is False and not any(s) and not case["perfect"]:
        obs.close(A, np.eye(T), "coupling_default", "default transmit coupling")
        obs.close(B, np.eye(R), "coupling_default", "default receive coupling")


# ------------------------------------------------------------------ triggers

def gen_trig(rng):
    n = rint(rng, 2, 4)
    k = rint(rng, 1, n)
    trig = []
    for _ in range(k):
        kind = pick(rng, ("static", "sample", "time", "random", "normal"))
        trig.append([kind, rint(rng, 0, 30), float(rng.random() * 3e-5), float(rng.random() * 1e-5)])
    return {"trig": trig, "assign": [rint(rng, 0, k - 1) for _ in range(n)], "lens": [rint(rng, 1, 40) for _ in range(n)], "key": seed(rng), "drops": rint(rng, 1, 3),
            "re": [[rint(rng, 0, n - 1), rint(rng, 0, k - 1)] for _ in range(rint(rng, 0, 2))], "gain": float(pick(rng, (1., .25)))}


class Frame(SignalTransmitter):
    """Signal transmitter with a frame duration."""

    def frame_duration(self, bandwidth):
        return self.signal.duration


def run_trig(case, obs):
    s = SimulationScenario(seed=case["key"] % 2 ** 31)
    mk = {"static": lambda t: StaticTrigger(), "sample": lambda t: SampleOffsetTrigger(t[1]), "time": lambda t: TimeOffsetTrigger(t[2]), "random": lambda t: RandomTrigger(),
          "normal": lambda t: NormalTrigger(t[2], t[3])}
    trig = [mk[t[0]](t) for t in case["trig"]]
    assign = list(case["assign"])
    devs, xs = [], []
    for i, a in enumerate(assign):
        d = SimulatedDevice(antennas=array("D"), carrier_frequency=CF, bandwidth=SR, oversampling_factor=1)
        s.add_device(d)
        x = arr(case["key"] + i, 1, case["lens"][i])
        d.transmitters.add(Frame(DenseSignal.FromNDArray(x, SR)))
        d.trigger_model = trig[a]
        devs.append(d)
        xs.append(x[0])
    for i, a in enumerate(devs):
        for b in devs[:i + 1]:
            s.set_channel(a, b, IdealChannel(gain=case["gain"]))
    g = case["gain"] ** .5
    obs.sig(tuple(t[0] for t in case["trig"]), tuple(assign), len(case["re"]))
    for k in range(case["drops"] + len(case["re"])):
        if k >= case["drops"]:
            i, a = case["re"][k - case["drops"]]
            devs[i].trigger_model = trig[a]
            assign[i] = a
            obs.count("reassigned")
        for j, t in enumerate(trig):
            obs.equal({id(d) for d in t.devices}, {id(d) for d, a in zip(devs, assign) if a == j}, "trigger_devices", f"devices controlled by trigger {j}")
        drop = s.drop(k * 1.)
        tr = [t.trigger_realization for t in drop.device_transmissions]
        off = [round(t.trigger_delay * SR) for t in tr]
        for i, (a, t, r) in enumerate(zip(assign, tr, drop.device_receptions)):
            c = case["trig"][a]
            obs.equal(r.trigger_realization.trigger_delay, t.trigger_delay, "trigger_reception", "reception and transmission of a device share a trigger")
            for b, u in zip(assign[:i], tr):
                if a == b:
                    obs.equal(u.trigger_delay, t.trigger_delay, "trigger_shared", "devices sharing a trigger")
                    obs.count("shared")
            exp = {"static": 0, "sample": c[1], "time": int(c[2] * SR)}.get(c[0])
            if exp is not None:
                obs.close(t.trigger_delay * SR, exp, "trigger_instant", f"{c[0]} trigger instant", rtol=0, atol=1e-6)
            elif c[0] == "random":
                mx = max(case["lens"][q] for q, b in enumerate(assign) if b == a)
                obs.check(0 <= off[i] < max(mx, 1), "trigger_instant", f"random trigger offset {off[i]} outside of the maximum frame of {mx} samples")
            else:
                obs.check(0 <= off[i] <= (c[2] + 8 * c[3]) * SR, "trigger_instant", f"normal trigger offset {off[i]} implausible")
            e = drop.device_transmissions[i].mixed_signal
            obs.close(e.delay, t.trigger_delay, "trigger_delay", "emission delay", rtol=1e-9, atol=1e-15)
        for j, r in enumerate(drop.device_receptions):
            n = max(len(x) for x in xs) + max(off) + 1
            y = np.zeros((1, n), complex)
            for i, x in enumerate(xs):
                for q, v in enumerate(x):
                    p = q + off[i] - off[j]
                    if p >= 0:
                        y[0, p] += g * v
            same(obs, nd(r.baseband_signal), y, "trigger_alignment", f"reception of device {j} aligned to its trigger")
            obs.count("aligned")
            obs.count("before" if any(o < off[j] for o in off) else "not_before")
            obs.count("after" if any(o > off[j] for o in off) else "not_after")
    # single device processing a device output with another trigger
    o = devs[0].generate_output([t.transmit() if False else t.transmit(devs[0].state(), 0., False) for t in devs[0].transmitters], trigger_realization=TriggerRealization(case["trig"][0][1], SR))
    q = case["lens"][0] // 2
    p = devs[0].process_input(o, trigger_realization=TriggerRealization(q, SR))
    sh = case["trig"][0][1] - q
    y = np.concatenate((np.zeros(max(sh, 0)), xs[0][max(-sh, 0):]))[None]
    same(obs, nd(p.baseband_signal), y.astype(complex), "trigger_output", "device output processed at another trigger instant")


# ------------------------------------------------------------------ calibrations

def gen_cal(rng):
    m = "".join("D" for _ in range(rint(rng, 1, 3))) if rng.random() < .3 else gen_modes(rng)
    T, R = ntx(m), nrx(m)
    sub = lambda n: sorted(int(v) for v in rng.choice(n, rint(rng, 1, n), replace=False)) if rng.random() < .5 else None
    return {"modes": m, "key": seed(rng), "taps": rint(rng, 1, 9), "delay": rint(rng, 0, 9), "tp": sub(T), "rp": sub(R), "sig": gen_signal(rng), "txd": rint(rng, 0, 6),
            "rxd": rint(rng, 0, 12), "extra": rint(rng, 0, 25)}


def run_cal(case, obs):
    m = case["modes"]
    T, R = ntx(m), nrx(m)
    tp = case["tp"] if case["tp"] is not None else list(range(T))
    rp = case["rp"] if case["rp"] is not None else list(range(R))
    h = arr(case["key"], len(rp), len(tp), case["taps"])
    obs.sig(m, tuple(tp), tuple(rp), case["taps"] > 1, case["delay"] > 0, case["txd"], case["rxd"] > case["txd"])
    c = SelectiveLeakageCalibration(h.copy(), SR, case["delay"] / SR, transmit_ports=case["tp"], receive_ports=case["rp"])
    tx, x = mk_signal(case["sig"], T, case["txd"] / SR)
    b0 = snapshot(tx)
    y = c.predict_leakage(tx)
    same(obs, nd(y), fir(h, x[tp]), "predict", "predicted leakage")
    obs.close(y.delay * SR, case["txd"] + case["delay"], "predict_delay", "delay of the predicted leakage", rtol=0, atol=1e-6)
    # removal restores the undistorted signal
    clean = arr(case["key"] + 1, R, case["extra"] + 1 + x.shape[1])
    rx = clean.copy()
    L = fir(h, x[tp])
    sh = case["delay"] + case["txd"] - case["rxd"]
    for k, p in enumerate(rp):
        for q in range(L.shape[1]):
            if 0 <= q + sh < rx.shape[1]:
                rx[p, q + sh] += L[k, q]
    rs = DenseSignal.FromNDArray(rx.copy(), SR, CF, delay=case["rxd"] / SR)
    b1 = snapshot(rs)
    z = c.remove_leakage(tx, rs)
    same(obs, nd(z), clean, "remove", "signal after leakage removal")
    obs.equal((snapshot(tx), snapshot(rs)), (b0, b1), "calibration_pure", "signals handed to the leakage calibration")
    obs.count("removals")
    # delay calibration
    for dl in (case["delay"] / SR, -case["delay"] / SR):
        dc = DelayCalibration(dl)
        a, ar = mk_signal(case["sig"], R)
        ba = snapshot(a)
        t = dc.correct_transmit_delay(a)
        same(obs, nd(t), np.pad(ar, ((0, 0), (case["delay"] if dl < 0 else 0, 0))), "delay_transmit", f"transmit delay correction of {dl}")
        e = dc.correct_receive_delay(a)
        k = case["delay"] if dl > 0 else 0
        same(obs, nd(e), np.pad(ar[:, k:], ((0, 0), (0, min(k, ar.shape[1])))), "delay_receive", f"receive delay correction of {dl}")
        obs.equal(snapshot(a), ba, "calibration_pure", "signal handed to the delay calibration")
        obs.count("delays")
    # scalar antenna calibration
    wt, wr = arr(case["key"] + 4, T), arr(case["key"] + 5, R)
    ac = ScalarAntennaCalibration(1 / wt, 1 / wr)
    for w, f, n in ((wt, ac.correct_transmission, T), (wr, ac.correct_reception, R)):
        u = arr(case["key"] + 6, n, 17)
        distorted = w[:, None] * u
        b = SignalBlock(n, 17, 4, np.ascontiguousarray(distorted).tobytes())
        v = f(b)
        obs.close(np.asarray(v), u, "antenna_calibration", "calibrated antenna streams")
        obs.equal(v.offset, 4, "antenna_offset", "block offset after antenna calibration")
        obs.close(np.asarray(b), distorted, "calibration_pure", "block handed to the antenna calibration", rtol=0, atol=0)
        obs.count("antenna")


class LoopDevice(BareDevice):
    """Hardware looping its transmission back with a delay, gains and a leakage response."""

    def __init__(self, antennas, h, delay):
        self.h, self.d = h, delay
        BareDevice.__init__(self, antennas, 1.)

    def trigger(self):
        x = fir(self.h, nd(self.up))
        x = np.concatenate((np.zeros((x.shape[0], self.d)), x), axis=1)
        self.down = DenseSignal.FromNDArray(x, SR, CF)


def gen_est(rng):
    m = gen_modes(rng, 1, 3)
    return {"modes": m, "key": seed(rng), "taps": rint(rng, 1, 6), "delay": rint(rng, 0, 12), "kind": pick(rng, ("ls", "ls_filter", "mmse", "delay", "dummy", "ports")), "probes": rint(rng, 1, 3),
            "n": pick(rng, (31, 32, 37, 61)), "max": rint(rng, 13, 30)}


def run_est(case, obs):
    m, kind = case["modes"], case["kind"]
    T, R = ntx(m), nrx(m)
    h = arr(case["key"], R, T, case["taps"]) if kind not in ("ls_filter", "delay") else arr(case["key"], R, T, 1)
    obs.sig(kind, m, case["taps"], case["delay"] > 0, case["n"])
    x = arr(case["key"] + 1, T, 50)
    tx = DenseSignal.FromNDArray(x, SR, CF)
    if kind == "delay":
        h = h / np.abs(h)  # phases only
        d = LoopDevice(array(m), h[:, :1].repeat(T, 1) if T == 1 else h, case["delay"])
        ports = [case["key"] % T]
        c = DelayCalibration.Estimate(d, case["max"] / SR, 2, transmit_ports=ports)
        obs.close(c.delay * SR, case["delay"], "estimate_delay", "estimated delay", rtol=0, atol=1e-6)
        obs.count("delay_estimates")
        return
    if kind == "dummy":
        d = PhysicalDeviceDummy(antennas=array(m), carrier_frequency=CF, bandwidth=SR, oversampling_factor=1, receive_transmission=False, isolation=SelectiveLeakage(h.copy()))
        d.leakage_calibration = SelectiveLeakageCalibration(h.copy(), SR)
        y = d.trigger_direct(tx)
        obs.close(nd(y), np.zeros_like(nd(y)), "dummy_cancel", "leakage of a perfectly calibrated device", rtol=0, atol=1e-9)
        y = d.trigger_direct(tx, calibrate=False)
        same(obs, nd(y), fir(h, x), "dummy_leak", "leakage of an uncalibrated device")
        c = SelectiveLeakageCalibration.LeastSquaresEstimate(d, case["probes"], case["n"], filter_calibration=False)
        y = d.trigger_direct(tx)
        obs.close(nd(y), np.zeros_like(nd(y)), "dummy_cancel", "leakage of a device calibrated by estimation", rtol=0, atol=1e-8 * (1 + np.abs(h).sum() * np.abs(x).max()))
        obs.count("cancelled")
        return
    hd = np.concatenate((np.zeros((R, T, case["delay"])), h), axis=2)
    d = LoopDevice(array(m), h, case["delay"])
    rp = tp = None
    if kind == "ports":
        r = np.random.default_rng(case["key"])
        rp = sorted(int(v) for v in r.choice(R, rint(r, 1, R), replace=False))
        tp = sorted(int(v) for v in r.choice(T, rint(r, 1, T), replace=False))
    if kind == "mmse":
        c = SelectiveLeakageCalibration.MMSEEstimate(d, case["probes"], case["n"], noise_power=np.full(R, 1e-12))
        tol = 1e-6
    else:
        c = SelectiveLeakageCalibration.LeastSquaresEstimate(d, case["probes"], case["n"], filter_calibration=kind == "ls_filter", transmit_ports=tp, receive_ports=rp)
        tol = 1e-8
    obs.equal(d.leakage_calibration is c, True, "estimate_configured", "the estimated calibration is configured")
    e = hd if kind != "ports" else hd[rp][:, tp]
    got = c.leakage_response
    if obs.check(got.shape == e.shape[:2] + (case["n"],), "estimate_shape", f"estimated response of shape {got.shape}"):
        obs.close(got, np.pad(e, ((0, 0), (0, 0), (0, case["n"] - e.shape[2]))), "estimate_" + kind, "estimated leakage response", rtol=tol, atol=tol * (1 + np.abs(h).max()))
    if kind == "ports":
        x = x * np.isin(np.arange(T), tp)[:, None]
        tx = DenseSignal.FromNDArray(x, SR, CF)
    y = d.trigger_direct(tx)
    exp = np.zeros((R, y.num_samples), complex)
    if kind == "ports":
        f = fir(hd, x)
        keep = [q for q in range(R) if q not in rp]
        exp[keep] = f[keep]
    obs.close(nd(y), exp, "estimate_cancel", "signal received by the calibrated device", rtol=tol, atol=10 * tol * (1 + np.abs(h).sum() * np.abs(x).max()))
    obs.count("estimates")


def gen_dur(rng):
    return {"ops": [[pick(rng, ("silent", "signal", "receiver", "radar", "jcas")), rint(rng, 1, 200)] for _ in range(rint(rng, 1, 4))], "seed": seed(rng), "normal": bool(rng.random() < .3), "leak": rint(rng, 1, 9)}


def run_dur(case, obs):
    """Random triggers wait up to a frame of any kind of operator."""
    d = SimulatedDevice(antennas=array("D"), carrier_frequency=CF, bandwidth=SR, oversampling_factor=1)
    h = arr(case["seed"], 1, 1, case["leak"])
    d.isolation = SelectiveLeakage(h)
    longest = 0.
    for kind, n in case["ops"]:
        if kind == "silent":
            d.transmitters.add(SilentTransmitter(n))
            t = n / SR
        elif kind == "signal":
            d.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(arr(case["seed"], 1, n), SR)))
            t = n / SR
        elif kind == "receiver":
            d.receivers.add(SignalReceiver(n))
            t = n / SR
        else:
            w = FMCW(num_chirps=1 + n % 5, chirp_duration=n / SR, pulse_rep_interval=1.5 * n / SR)
            r = Radar(w)
            d.add_dsp(r) if kind == "radar" else d.receivers.add(r)
            t = (1 + n % 5) * 1.5 * n / SR
        longest = max(longest, t)
    obs.close(d.max_frame_duration, longest, "max_frame_duration", "longest frame of the operators", rtol=1e-9)
    trig = NormalTrigger(longest / 2, longest / 9) if case["normal"] else RandomTrigger()
    d.trigger_model = trig
    for k in range(4):
        z = trig.realize(np.random.default_rng(case["seed"] + k))
        obs.check(0 <= z.num_offset_samples <= longest * SR + 1e-6 or case["normal"], "random_trigger", f"random trigger waits {z.num_offset_samples} samples of a {longest * SR} sample frame")
        obs.count("realizations")
    l = d.isolation.leak(DenseSignal.Empty(SR, 1, carrier_frequency=CF))
    obs.equal((l.num_streams, l.num_samples), (1, 0), "leak_nothing", "leakage of an empty transmission")
    if all(k in ("receiver", "jcas") for k, _ in case["ops"]):
        t = d.transmit()
        obs.equal(sum(x.num_samples for x in t.leaking_signals), 0, "leak_nothing", "leakage without transmitters")
        obs.count("silent_devices")
    obs.sig(tuple(sorted(o[0] for o in case["ops"])), case["normal"])


FAMILIES = [Family("durations", gen_dur, run_dur, quick=300, require=("realizations", "silent_devices")), Family("leakage", gen_leak, run_leak, quick=500, require=("leaks", "receptions")),
            Family("coupling", gen_coup, run_coup, quick=300, require=("couplings",)),
            Family("triggers", gen_trig, run_trig, quick=400, require=("shared", "aligned", "before", "after", "reassigned")),
            Family("calibration", gen_cal, run_cal, quick=500, require=("removals", "delays", "antenna")),
            Family("estimation", gen_est, run_est, quick=240, require=("estimates", "cancelled", "delay_estimates"))]
