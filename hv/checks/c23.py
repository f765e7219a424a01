"""Beamformers steer gain to their focus and nulls to interferers."""
import numpy as np
from hv.runner import Family
from hv.ref import arr, cn, layout, nd, pick, rint, seed, snapshot
from hv.chan import C0, MODE
from hermespy.beamforming import (BeamformingReceiver, BeamformingTransmitter, CaponBeamformer, ConventionalBeamformer, CoordinateFocus, NullSteeringBeamformer,
                                  SphericalFocus)
from hermespy.core import Direction, Signal, SignalReceiver, SignalTransmitter, Transformation
from hermespy.simulation import DeviceFocus, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, LinearTrajectory, StaticTrajectory

PROPERTY = "C23"
RULE = ("random uniform and irregular arrays with mixed transmit and receive antennas on arbitrarily posed devices, random carriers and random focus points given as angles, "
        "local or global coordinates, directions or (moving) devices; the weights are read off the encoded or decoded streams and compared with an independent far-field "
        "response of the antennas' world positions; distinct = distinct (beamformer, geometry kind, antenna count, focus kind, rotation) signatures")
ASSUMPTIONS = ["antennas are ideal isotropic elements, so that the array response is its phase response",
               "interferers and focus are separable by the array (relative projected focus gain above 1e-3)",
               "adaptive weights are recovered from data of full row rank"]


# ------------------------------------------------------------------ geometry
def gen_geo(rng, rx=False):
    k = pick(rng, ["uniform", "custom", "custom"])
    cf = float(10 ** rng.uniform(8.5, 11))
    lam = C0 / cf
    g = {"kind": k, "cf": cf, "pos": (rng.uniform(-1, 1, 3) * 30).tolist(), "rpy": rng.uniform(-3, 3, 3).tolist() if rng.random() < .65 else [0, 0, 0]}
    if k == "uniform":
        g["dims"] = [rint(rng, 1, 4), rint(rng, 1, 4), rint(rng, 1, 2)]
        if np.prod(g["dims"]) < 2:
            g["dims"][0] = 3
        g["spacing"] = float(lam * rng.uniform(.2, .6))
        g["modes"] = ["D"] * int(np.prod(g["dims"]))
    else:
        n = rint(rng, 2, 10)
        g["pts"] = (rng.uniform(-1, 1, (n, 3)) * lam * rng.uniform(.3, 1.5)).tolist()
        g["modes"] = [pick(rng, ["D", "T", "R"]) for _ in range(n)] if rng.random() < .4 else ["D"] * n
        for m in "TR":
            if sum(x in ("D", m) for x in g["modes"]) < 2:
                g["modes"] = ["D"] * n
    return g


class Geo:
    def __init__(self, g):
        self.g = g
        if g["kind"] == "uniform":
            self.array = SimulatedUniformArray(SimulatedIdealAntenna, g["spacing"], tuple(g["dims"]))
        else:
            self.array = SimulatedCustomArray([SimulatedIdealAntenna(mode=MODE[m], pose=Transformation.From_Translation(np.array(p, float))) for m, p in zip(g["modes"], g["pts"])])
        self.pose = Transformation.From_RPY(np.array(g["rpy"], float), np.array(g["pos"], float))
        self.device = SimulatedDevice(antennas=self.array, pose=StaticTrajectory(self.pose), carrier_frequency=g["cf"], bandwidth=1e6, oversampling_factor=1)
        if g["kind"] == "uniform":  # array elements as documented: equidistant grid
            self.pts = np.array([a.forwards_transformation[:3, 3] for a in SimulatedUniformArray(SimulatedIdealAntenna, g["spacing"], tuple(g["dims"])).antennas])
        else:
            self.pts = np.array(g["pts"], float)
        self.R = np.array(self.pose.view(np.ndarray)[:3, :3])
        self.t = np.array(g["pos"], float)

    def n(self, mode):
        return sum(m in "D" + mode for m in self.g["modes"])

    def response(self, direction, mode):
        """Far-field response towards a global direction, evaluated at the antennas' world positions."""
        idx = [i for i, m in enumerate(self.g["modes"]) if m in "D" + mode]
        world = self.pts[idx] @ self.R.T
        return np.exp(2j * np.pi * self.g["cf"] / C0 * (world @ direction))


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


FOCUS = ["spherical", "spherical-array", "point-local", "point-global", "direction-local", "direction-global", "device", "device-moving"]


def gen_focus(rng):
    return {"kind": pick(rng, FOCUS), "dir": unit(rng.standard_normal(3)).tolist(), "range": float(10 ** rng.uniform(1, 4)), "vel": (rng.standard_normal(3) * 5).tolist(), "t": float(rng.uniform(0, 3))}


def focus(f, geo, timestamp=0.0):
    """A focus point at the case's global direction."""
    d = np.array(f["dir"])
    loc = geo.R.T @ d
    k = f["kind"]
    if k.startswith("spherical"):
        az, ze = np.arctan2(loc[1], loc[0]), np.arccos(np.clip(loc[2], -1, 1))
        return SphericalFocus(az, ze) if k == "spherical" else SphericalFocus(np.array([az, ze]))
    if k == "point-local":
        return CoordinateFocus(loc * f["range"], "local")
    if k == "point-global":
        return CoordinateFocus(geo.t + d * f["range"], "global")
    if k == "direction-local":
        return CoordinateFocus(Direction.From_Cartesian(loc, True), "local")
    if k == "direction-global":
        return CoordinateFocus(Direction.From_Cartesian(d, True), "global")
    p = geo.t + d * f["range"]
    if k == "device":
        return DeviceFocus(SimulatedDevice(pose=Transformation.From_Translation(p)))
    v = np.array(f["vel"])
    return DeviceFocus(SimulatedDevice(pose=LinearTrajectory(Transformation.From_Translation(p - v * timestamp), Transformation.From_Translation(p + v * (10 - timestamp)), 10.)))


def timestamp(f):
    return f["t"] if f["kind"] == "device-moving" else 0.0


def directions(rng, k):
    return np.array([unit(v) for v in rng.standard_normal((k, 3))])


def rg(s):
    return np.random.Generator(np.random.PCG64(int(s)))


def sigof(name, g, f):
    return name, g["kind"], len(g["modes"]), len(set(g["modes"])), f["kind"], bool(np.any(g["rpy"]))


# ------------------------------------------------------------------ conventional
def gen_conv(rng):
    return {"geo": gen_geo(rng), "focus": gen_focus(rng), "seed": seed(rng), "set": bool(rng.random() < .5)}


def run_conv(case, obs):
    g, f = Geo(case["geo"]), case["focus"]
    t = timestamp(f)
    fp = focus(f, g, t)
    d0 = np.array(f["dir"])
    rng = rg(case["seed"])
    D = np.vstack([d0, directions(rng, 60), -d0])
    state = g.device.state(t)
    # transmission
    bf = ConventionalBeamformer()
    n = g.n("T")
    one = Signal.Create(np.ones((1, 1), complex), 1e6, case["geo"]["cf"])
    if case["set"]:
        bf.transmit_focus = fp
        out = bf.encode_streams(one, n, state)
    else:
        out = bf.encode_streams(one, n, state, fp)
    w = nd(out)[:, 0]
    obs.check(w.shape == (n,), "conv-tx-streams", f"{w.shape} streams for {n} antennas")
    gain = np.array([abs(g.response(d, "T") @ w) for d in D])
    obs.count("transmit_patterns")
    obs.close(gain[0], n, "conv-tx-gain", f"gain towards focus ({f['kind']})", rtol=1e-6, atol=1e-9)
    obs.check(np.all(gain <= gain[0] * (1 + 1e-9)), "conv-tx-max", f"direction with gain {gain.max()} exceeds focus gain {gain[0]}")
    # reception
    n = g.n("R")
    x = arr(case["seed"], 1, 5)
    bf = ConventionalBeamformer()
    if case["set"]:
        bf.receive_focus = fp
    amp = []
    for d in D:
        s = Signal.Create(g.response(d, "R")[:, None] @ x, 1e6, case["geo"]["cf"])
        o = bf.decode_streams(s, 1, state) if case["set"] else bf.decode_streams(s, 1, state, fp)
        o = nd(o)
        obs.check(o.shape == (1, 5), "conv-rx-streams", str(o.shape))
        if d is D[0]:
            pass
        amp.append(np.linalg.norm(o))
        if len(amp) == 1:
            obs.close(o, x, "conv-rx-gain", f"signal from the focus direction ({f['kind']})", rtol=1e-6, atol=1e-8)
    amp = np.array(amp)
    obs.count("receive_patterns")
    obs.check(np.all(amp <= amp[0] * (1 + 1e-9)), "conv-rx-max", "a direction exceeds the focus gain")
    obs.sig(sigof("conv", case["geo"], f))


# ------------------------------------------------------------------ null steering
def gen_null(rng):
    return {"geo": gen_geo(rng), "focus": [gen_focus(rng) for _ in range(3)], "seed": seed(rng), "set": bool(rng.random() < .5), "t": float(rng.uniform(0, 3))}


def run_null(case, obs):
    g = Geo(case["geo"])
    fps = [focus(f, g, case["t"]) for f in case["focus"]]
    D = [np.array(f["dir"]) for f in case["focus"]]
    state = g.device.state(case["t"])
    for mode in "TR":
        n = g.n(mode)
        if n < 3:
            continue
        a = [g.response(d, mode) for d in D]
        A = np.array(a[1:]).T
        if np.linalg.svd(A)[1][-1] < 1e-2:
            continue
        q = np.linalg.qr(A)[0]
        best = np.linalg.norm(a[0] - q @ (q.conj().T @ a[0]))  # largest focus gain of a unit-power weight with both nulls
        if best < 1e-2 * np.sqrt(n):
            continue
        bf = NullSteeringBeamformer()
        if mode == "T":
            one = Signal.Create(np.ones((1, 1), complex), 1e6, case["geo"]["cf"])
            if case["set"]:
                bf.transmit_focus = fps
                w = nd(bf.encode_streams(one, n, state))
            else:
                w = nd(bf.encode_streams(one, n, state, fps))
            obs.check(w.shape == (n, 1), "null-streams", str(w.shape))
            w = w[:, 0]
        else:
            eye = Signal.Create(np.eye(n, dtype=complex), 1e6, case["geo"]["cf"])
            if case["set"]:
                bf.receive_focus = fps
                w = nd(bf.decode_streams(eye, 1, state))
            else:
                w = nd(bf.decode_streams(eye, 1, state, fps))
            obs.check(w.shape == (1, n), "null-streams", str(w.shape))
            w = w[0]
        obs.count("null_patterns")
        obs.close(np.linalg.norm(w), 1., "null-power", "weights of unit power", rtol=1e-6)
        for i in (1, 2):
            obs.check(abs(a[i] @ w) < 1e-6 * n, "null-depth", f"{mode}: interferer {i} ({case['focus'][i]['kind']}) passes with gain {abs(a[i] @ w)}")
        obs.close(abs(a[0] @ w), best, "null-gain", f"{mode}: focus gain of the optimal nulling weights ({case['focus'][0]['kind']})", rtol=1e-4, atol=1e-6)
        obs.sig(("null", mode) + sigof("", case["geo"], case["focus"][0]))


# ------------------------------------------------------------------ capon
def gen_capon(rng):
    g = gen_geo(rng)
    return {"geo": g, "focus": gen_focus(rng), "seed": seed(rng), "loading": 0. if rng.random() < .5 else float(10 ** rng.uniform(-6, 1)), "ni": rint(rng, 1, 3), "extra": rint(rng, 0, 40), "set": bool(rng.random() < .5)}


def run_capon(case, obs):
    g, f = Geo(case["geo"]), case["focus"]
    t = timestamp(f)
    n = g.n("R")
    rng = rg(case["seed"])
    T = 2 * n + case["extra"]
    D = [np.array(f["dir"])] + list(directions(rng, case["ni"]))
    X = .1 * cn(rng, n, T)
    for i, d in enumerate(D):
        X = X + (1. if i == 0 else 10.) * g.response(d, "R")[:, None] @ cn(rng, 1, T)
    bf = CaponBeamformer(case["loading"])
    fp = focus(f, g, t)
    state = g.device.state(t)
    s = Signal.Create(X, 1e6, case["geo"]["cf"])
    before = snapshot(s)
    if case["set"]:
        bf.receive_focus = fp
        y = nd(bf.decode_streams(s, 1, state))
    else:
        y = nd(bf.decode_streams(s, 1, state, fp))
    obs.check(snapshot(s) == before, "capon-input", "decoded signal modified")
    obs.check(y.shape == (1, T), "capon-streams", str(y.shape))
    w = (y @ np.linalg.pinv(X))[0]          # y = w X
    a = g.response(D[0], "R")
    obs.count("adaptive_weights")
    obs.close(w @ a, 1., "capon-distortionless", f"gain towards the focus ({f['kind']})", rtol=1e-5, atol=1e-6)
    R = np.linalg.inv(X @ X.conj().T + case["loading"] * np.eye(n))
    ref = 1 / np.real(a.conj() @ R @ a)
    Rl = X @ X.conj().T + case["loading"] * np.eye(n)
    obs.close(np.real(w @ Rl @ w.conj()), ref, "capon-variance", "(loaded) output power of the minimum variance weights", rtol=1e-4)
    obs.sig(sigof("capon", case["geo"], f) + (case["loading"] > 0, case["ni"]))


# ------------------------------------------------------------------ probing
def gen_probe(rng):
    g = gen_geo(rng)
    k = rint(rng, 2, 40)
    return {"geo": g, "seed": seed(rng), "bf": pick(rng, ["conv", "conv", "capon", "null"]), "dirs": [unit(v).tolist() for v in rng.standard_normal((k, 3))], "true": rint(rng, 0, k - 1), "set": bool(rng.random() < .5), "T": rint(rng, 1, 30)}


def run_probe(case, obs):
    g = Geo(case["geo"])
    n = g.n("R")
    D = np.array(case["dirs"])
    loc = D @ g.R
    ang = np.stack([np.arctan2(loc[:, 1], loc[:, 0]), np.arccos(np.clip(loc[:, 2], -1, 1))], axis=1)
    rng = rg(case["seed"])
    a = np.array([g.response(d, "R") for d in D])
    x = cn(rng, 1, case["T"])
    x[0, 0] = 1.
    X = a[case["true"]][:, None] @ x
    state = g.device.state()
    if case["bf"] == "conv":
        bf, pts = ConventionalBeamformer(), ang[:, None, :]
    elif case["bf"] == "capon":
        bf, pts = CaponBeamformer(1e-3), ang[:, None, :]
        X = X + 1e-3 * cn(rng, n, case["T"])
    else:
        # triples: the true direction is the focus of exactly one and an interferer of others
        bf = NullSteeringBeamformer()
        if n < 3:
            return
        K = len(D)
        pts = np.array([[ang[i], ang[(i + 1) % K], ang[(i + 2) % K]] for i in range(K)])
    if case["set"]:
        bf.probe_focus_points = pts
        out = bf.probe(X, state)
    else:
        out = bf.probe(X, state, pts)
    obs.check(out.shape == (len(D), 1, case["T"]), "probe-shape", f"{out.shape} for {len(D)} probed directions")
    p = np.linalg.norm(out, axis=(1, 2))
    obs.count("probed_directions", len(D))
    if case["bf"] == "null":
        K = len(D)
        for i in range(K):
            A = a[[(i + 1) % K, (i + 2) % K]].T
            if np.linalg.svd(A)[1][-1] < 1e-2 or K < 3:
                continue
            if case["true"] in ((i + 1) % K, (i + 2) % K):
                obs.check(p[i] < 1e-6 * n * np.linalg.norm(x), "probe-null", f"wave passes the null with {p[i]}")
                obs.count("probed_nulls")
    else:
        # no direction whose response differs from the true one may reach the peak
        corr = np.abs(a.conj() @ a[case["true"]]) / n
        far = corr < .95
        obs.check(np.all(p[far] < p[case["true"]]), "probe-peak", f"plane wave from direction {case['true']} peaks at {int(np.argmax(p))}")
        if case["bf"] == "conv":
            obs.close(p / np.linalg.norm(x), corr, "probe-pattern", "delay-and-sum pattern", rtol=1e-6, atol=1e-7)
        obs.count("probed_peaks")
    obs.sig(("probe", case["bf"], case["geo"]["kind"], n, bool(np.any(case["geo"]["rpy"]))))


# ------------------------------------------------------------------ devices
def gen_dev(rng):
    return {"geo": gen_geo(rng), "focus": [gen_focus(rng) for _ in range(3)], "seed": seed(rng), "bf": pick(rng, ["conv", "conv", "null", "capon"]), "via": pick(rng, ["operator", "coding"]),
            "t": float(rng.uniform(0, 3)), "T": rint(rng, 1, 40)}


def run_dev(case, obs):
    g = Geo(case["geo"])
    t = case["t"]
    fps = [focus(f, g, t) for f in case["focus"]]
    D = [np.array(f["dir"]) for f in case["focus"]]
    k = case["bf"]
    x = arr(case["seed"], 1, case["T"])
    if k != "capon":
        n = g.n("T")
        bf = ConventionalBeamformer() if k == "conv" else NullSteeringBeamformer()
        bf.transmit_focus = fps[0] if k == "conv" else fps
        sig = Signal.Create(x.copy(), 1e6)
        if case["via"] == "operator":
            g.device.transmitters.add(BeamformingTransmitter(sig, bf))
        else:
            g.device.transmit_coding[0] = bf
            obs.check(g.device.num_transmit_dsp_ports == 1, "device-streams", f"{g.device.num_transmit_dsp_ports} ports in front of a single stream encoder")
            g.device.transmitters.add(SignalTransmitter(sig))
        out = nd(g.device.transmit(g.device.state(t)).mixed_signal)
        obs.check(out.shape == (n, case["T"]), "device-streams", f"{out.shape}")
        a = [g.response(d, "T") for d in D]
        if k == "conv":
            obs.close(np.abs(a[0] @ out), n * np.abs(x[0]), "device-gain", f"field towards the focus ({case['focus'][0]['kind']})", rtol=1e-6, atol=1e-8)
        elif n >= 3 and np.linalg.svd(np.array(a[1:]))[1][-1] > 1e-2:
            for i in (1, 2):
                obs.check(np.all(np.abs(a[i] @ out) < 1e-5 * n * np.abs(x[0]).max()), "device-null", "field towards an interferer")
        obs.count("device_emissions")
    n = g.n("R")
    g2 = Geo(case["geo"])
    bf = {"conv": ConventionalBeamformer, "null": NullSteeringBeamformer, "capon": lambda: CaponBeamformer(1e-6)}[k]()
    bf.receive_focus = fps if k == "null" else fps[0]
    if case["via"] == "operator":
        op = BeamformingReceiver(bf, case["T"])
    else:
        g2.device.receive_coding[0] = bf
        obs.check(g2.device.num_receive_dsp_ports == 1, "device-streams", f"{g2.device.num_receive_dsp_ports} ports behind a single stream decoder")
        op = SignalReceiver(case["T"])
    g2.device.receivers.add(op)
    a = [g2.response(d, "R") for d in D]
    src = 0 if k != "null" else 1
    rx = g2.device.receive(Signal.Create(a[src][:, None] @ x, 1e6, case["geo"]["cf"]), state=g2.device.state(t))
    y = nd(rx.operator_receptions[0].signal)
    obs.check(y.shape == (1, case["T"]), "device-streams", f"{y.shape}")
    if k == "null":
        if n >= 3 and np.linalg.svd(np.array(a[1:]))[1][-1] > 1e-2:
            obs.check(np.all(np.abs(y) < 1e-5 * n * np.abs(x).max()), "device-null", f"interferer received with {np.abs(y).max()}")
    else:
        obs.close(y, x, "device-gain", "signal received from the focus direction", rtol=1e-4, atol=1e-6)
    obs.count("device_receptions")
    obs.sig(("dev", k, case["via"]) + sigof("", case["geo"], case["focus"][0]))


# ------------------------------------------------------------------ streams
def gen_streams(rng):
    return {"geo": gen_geo(rng), "focus": gen_focus(rng), "seed": seed(rng), "lay": layout(rng), "bf": pick(rng, ["conv", "null"]), "streams": rint(rng, 1, 3), "points": rint(rng, 1, 4), "delay": float(rng.uniform(0, 1e-3)), "noise": float(rng.uniform(0, 1))}


def run_streams(case, obs):
    g, f = Geo(case["geo"]), case["focus"]
    t = timestamp(f)
    state = g.device.state(t)
    bf = ConventionalBeamformer() if case["bf"] == "conv" else NullSteeringBeamformer()
    k = 1 if case["bf"] == "conv" else 3
    fps = [focus(f, g, t)] + [SphericalFocus(.3, .4), SphericalFocus(1., 1.2)]
    fps = fps[:k]
    n = g.n("T")
    obs.equal(bf.num_transmit_input_streams(n), 1, "streams-announced", "input streams")
    obs.equal(bf.num_receive_output_streams(n), 1, "streams-announced", "output streams")
    lay = case["lay"]
    total = sum(l for _, l in lay)

    def signal(streams):
        x = arr(case["seed"], streams, total)
        blocks, p = [], 0
        for o, l in lay:
            blocks.append(x[:, p:p + l])
            p += l
        return Signal.Create(blocks, 1e6, case["geo"]["cf"], case["noise"], case["delay"], [o for o, _ in lay]), x

    s, x = signal(1)
    before = snapshot(s)
    out = bf.encode_streams(s, n, state, fps)
    one = nd(bf.encode_streams(Signal.Create(np.ones((1, 1), complex), 1e6, case["geo"]["cf"]), n, state, fps))
    obs.check(snapshot(s) == before, "streams-input", "encoded signal modified")
    obs.check([int(b.offset) for b in out.blocks] == [int(b.offset) for b in s.blocks], "streams-blocks", "block layout changed by encoding")
    obs.close(nd(out), one @ nd(s), "streams-linear", "every block is weighted identically", rtol=1e-9, atol=1e-12)
    obs.check((out.sampling_rate, out.carrier_frequency, out.noise_power, out.delay) == (s.sampling_rate, s.carrier_frequency, s.noise_power, s.delay), "streams-meta", "signal parameters changed")
    m = g.n("R")
    s, x = signal(m)
    before = snapshot(s)
    out = bf.decode_streams(s, 1, state, fps)
    eye = nd(bf.decode_streams(Signal.Create(np.eye(m, dtype=complex), 1e6, case["geo"]["cf"]), 1, state, fps))
    obs.check(snapshot(s) == before, "streams-input", "decoded signal modified")
    obs.check([int(b.offset) for b in out.blocks] == [int(b.offset) for b in s.blocks] and out.num_streams == 1, "streams-blocks", "block layout changed by decoding")
    obs.close(nd(out), eye @ nd(s), "streams-linear", "every block is combined identically", rtol=1e-9, atol=1e-12)
    obs.check((out.sampling_rate, out.carrier_frequency, out.noise_power, out.delay) == (s.sampling_rate, s.carrier_frequency, s.noise_power, s.delay), "streams-meta", "signal parameters changed")
    if case["streams"] != 1:
        bad, _ = signal(case["streams"])
        obs.raises(lambda: bf.encode_streams(bad, n, state, fps), "streams-rejected", "encoding a wrong number of streams", ValueError)
    if case["points"] != k:
        pts = [SphericalFocus(.1, .2)] * case["points"]
        good, _ = signal(1)
        obs.raises(lambda: bf.encode_streams(good, n, state, pts), "streams-rejected", "encoding with a wrong number of focus points", ValueError)
        obs.raises(lambda: bf.decode_streams(s, 1, state, pts), "streams-rejected", "decoding with a wrong number of focus points", ValueError)
        old = list(bf.transmit_focus)
        obs.raises(lambda: setattr(bf, "transmit_focus", pts), "streams-rejected", "configuring a wrong number of focus points", ValueError)
        obs.check(all(a is b for a, b in zip(old, bf.transmit_focus)), "streams-rejected", "rejected focus took effect")
    obs.count("stream_layouts")
    obs.sig(("streams", case["bf"], n, m, len(lay)))


# ------------------------------------------------------------------ one beamformer, many arrays
def gen_reuse(rng):
    base = gen_geo(rng)
    geos = [base]
    for _ in range(rint(rng, 2, 5)):
        g = dict(pick(rng, geos))
        c = pick(rng, ["carrier", "pose", "array", "same", "points", "points", "modes"])
        if c == "carrier":
            g["cf"] = float(g["cf"] * rng.uniform(.5, 2))
        elif c == "pose":
            g["rpy"] = rng.uniform(-3, 3, 3).tolist()
        elif c == "array":
            g = gen_geo(rng)
        elif c == "points":
            # same carrier, orientation and antenna count, but another geometry
            if g["kind"] == "uniform":
                g["spacing"] = float(g["spacing"] * rng.uniform(.4, 1.6))
            else:
                g["pts"] = (np.array(g["pts"]) * rng.uniform(.3, 1.5, 3)).tolist()
        elif c == "modes" and g["kind"] == "custom":
            g["modes"] = rng.permutation(g["modes"]).tolist()
        geos.append(g)
    return {"geos": geos, "foci": [[gen_focus(rng) for _ in range(3)] for _ in range(2)], "order": [rint(rng, 0, 1) for _ in geos], "ops": pick(rng, [["dpe"], ["d"], ["p"], ["e"], ["d", "p", "e", "dp", "ed"]]), "n": rint(rng, 1, 8), "bf": pick(rng, ["conv", "null", "capon"]), "seed": seed(rng)}


def run_reuse(case, obs):
    make = {"conv": ConventionalBeamformer, "null": NullSteeringBeamformer, "capon": lambda: CaponBeamformer(.1)}[case["bf"]]
    old = make()
    k = 3 if case["bf"] == "null" else 1
    for i, (gc, o) in enumerate(zip(case["geos"], case["order"])):
        g = Geo(gc)
        fps = [focus(f, g, 0.) for f in case["foci"][o]][:k]
        state = g.device.state()
        out = []
        for bf in (old, make()):
            r = []
            X = Signal.Create(arr(case["seed"] + i, g.n("R"), 6), 1e6, gc["cf"])
            ops = case["ops"][(i * case["n"]) % len(case["ops"])]
            if "d" in ops:
                r.append(nd(bf.decode_streams(X, 1, state, fps)))
            pts = np.array([[f.spherical_angles(state) for f in fps], [f.spherical_angles(state) + .1 for f in fps]])
            if "p" in ops:
                r.append(bf.probe(arr(case["seed"] + i, g.n("R"), 6), state, pts))
            if case["bf"] != "capon" and "e" in ops:
                r.append(nd(bf.encode_streams(Signal.Create(np.ones((1, 1), complex), 1e6, gc["cf"]), g.n("T"), state, fps)))
            out.append(r)
        for a, b in zip(*out):
            obs.close(a, b, "reuse-fresh", f"a {case['bf']} beamformer used before differs from a fresh one", rtol=1e-9, atol=1e-12)
        obs.count("reused_beamformers")
    obs.sig(("reuse", case["bf"], len(case["geos"]), tuple(len(g["modes"]) for g in case["geos"])))


FAMILIES = [
    Family("reuse", gen_reuse, run_reuse, quick=150, require=("reused_beamformers",)),
    Family("conventional", gen_conv, run_conv, quick=240, require=("transmit_patterns", "receive_patterns")),
    Family("null", gen_null, run_null, quick=500, require=("null_patterns",)),
    Family("capon", gen_capon, run_capon, quick=300, require=("adaptive_weights",)),
    Family("probe", gen_probe, run_probe, quick=300, require=("probed_peaks", "probed_nulls")),
    Family("device", gen_dev, run_dev, quick=300, require=("device_emissions", "device_receptions")),
    Family("streams", gen_streams, run_streams, quick=200, require=("stream_layouts",)),
]
