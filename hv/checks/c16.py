"""C16: propagating over a channel equals applying its reported state."""
import numpy as np
from hermespy.core import DenseSignal, InterpolationMode
from hv.runner import Family
from hv.ref import arr, layout, nd, pick, rint, seed, snapshot, dense_of
from hv.checks.c01 import make_sparse
from hv import chan
from hv.chan import C0, CDLS, CHEAP, FADING, convolve, dense_state

PROPERTY = "C16"
RULE = ("every channel model (ideal, spatial and random delay, multipath, TDL, COST 259, exponential fading, single and multi target radar, CDL, five 3GPP spatial models) with "
        "random gains, delays, Doppler shifts, correlations, antennas (transmit-only, receive-only, duplex), poses, velocities, carriers, bandwidths and sample times drives random dense and "
        "block signals; outputs are compared with a plain time-variant convolution of the reported state, with scaled, added, delayed inputs and with closed form delay, loss, "
        "echo and Doppler models; distinct = distinct (model, antenna relation, storage, static/moving) signatures")
ASSUMPTIONS = ["echoes of receding targets shift the carrier upwards, as fixed by the existing tests", "arrays have at most ten antennas in fading channels",
               "interpolation modes other than the default are only required to agree between propagation and state"]


def gen(rng, kinds=CHEAP):
    B = float(10 ** rng.uniform(5, 8))
    sim = kinds is CDLS
    lay = layout(rng, max_blocks=3, max_len=6 if sim else 25, max_gap=4)
    c = {"ch": chan.gen_channel(rng, kinds, B), "a": chan.gen_device(rng, maxn=2 if sim else 4, far=sim), "b": chan.gen_device(rng, maxn=2 if sim else 4, far=sim), "B": B, "fc": float(10 ** rng.uniform(8.7, 10.8)),
         "t": float(pick(rng, [0, 1e-3, .37])), "layout": lay, "seed": seed(rng), "sparse": bool(rng.random() < .6), "api": pick(rng, ["device", "device", "state"]),
         "s": rng.uniform(-2, 2, 4).tolist(), "cut": rint(rng, 1, 6), "shift": rint(rng, 1, 9), "noise": .3, "delay": 2e-6, "sinc": bool(rng.random() < .2)}
    if not sim and rng.random() < .3:
        # single antenna isotropic devices: the closed form models apply
        for d in "ab":
            c[d] = chan.gen_device(rng, duplex=True)
            c[d].update(modes=["D"], kind="ideal", rpy=[0, 0, 0])
    if c["ch"].get("corr") == "standard":
        for d in "ab":
            while chan.n_tx(c[d]) == 3 or chan.n_rx(c[d]) == 3:
                c[d] = chan.gen_device(rng, duplex=True)
    return c


def sample_of(c, gain=None):
    ch = chan.channel(c["ch"], gain)
    a, b = chan.device(c["a"], c["fc"], c["B"]), chan.device(c["b"], c["fc"], c["B"])
    real = ch.realize()
    if c["api"] == "state":
        return real, real.sample(a.state(c["t"]), b.state(c["t"]), c["t"], c["fc"], c["B"])
    return real, real.sample(a, b, c["t"], c["fc"], c["B"])


def same(obs, y, ref, mech, what, scale=None, **w):
    """Outputs agree up to trailing zeros."""
    n = max(y.shape[1], ref.shape[1])
    p = lambda m: np.pad(m, ((0, 0), (0, n - m.shape[1])))
    s = max(np.max(np.abs(ref)) if ref.size else 0, scale or 0)
    obs.close(p(y), p(ref), mech, what, rtol=1e-8, atol=1e-9 * s + 1e-300, **w)


def run(c, obs):
    k = c["ch"]["kind"]
    real, smp = sample_of(c)
    nt, nr = chan.n_tx(c["a"]), chan.n_rx(c["b"])
    mode = InterpolationMode.SINC if c["sinc"] else InterpolationMode.NEAREST
    obs.equal((smp.num_transmit_antennas, smp.num_receive_antennas), (nt, nr), "antenna_counts", "sample antenna counts")
    obs.equal((smp.bandwidth, smp.carrier_frequency, smp.time), (c["B"], c["fc"], c["t"]), "sample_parameters", "sample parameters")
    lay = c["layout"]
    raw = arr(c["seed"], nt, sum(l for _, l in lay))
    meta = [c["B"], c["fc"], c["noise"], c["delay"]]
    X = dense_of(raw, lay)
    dense = DenseSignal.FromNDArray(X, *meta)
    sig = make_sparse(raw, lay, meta) if c["sparse"] else dense
    obs.sig(k, np.sign(nt - nr), nt > 1, c["sparse"], any(c["a"]["vel"]) or any(c["b"]["vel"]), c["api"], c["sinc"])
    before = snapshot(sig)
    out = smp.propagate(sig, mode)
    obs.check(snapshot(sig) == before, "input_modified", "propagation modified its input signal", kind=k)
    obs.equal((out.num_streams, out.sampling_rate, out.carrier_frequency, out.noise_power, out.delay), (nr, c["B"], c["fc"], c["noise"], c["delay"]), "output_metadata", f"{k} output")
    Y = nd(out)
    S = X.shape[1]
    big = 2048 if k in CDLS else 400
    csi = smp.state(S, big, mode)
    H = dense_state(csi)
    obs.equal(H.shape[:3], (nr, nt, S), "state_shape", f"{k} state")
    obs.check(H.shape[3] <= big, "state_taps", "more taps than requested", got=H.shape[3])
    full = nr > 0 and smp.expected_energy_scale > 0
    ref = convolve(H, X)
    if full and Y.shape[1] - S < big:
        same(obs, Y, ref, "propagate_vs_state", f"{k}: propagated signal vs state", kind=k, api=c["api"])
        obs.count("propagations")
        if np.any(ref):
            obs.count("nonzero")
        # the state applied through its own interface
        P = nd(csi.propagate(DenseSignal.FromNDArray(X.copy(), *meta)))
        same(obs, P, ref, "state_propagate", f"{k}: state applied to the signal")
    # a second evaluation gives the same output and the same state
    obs.equal(nd(smp.propagate(sig, mode)), Y, "propagate_repeat", f"{k}: second propagation")
    H2 = dense_state(smp.state(S, big, mode))
    obs.close(H2, H, "state_repeat", f"{k}: second state", rtol=1e-12)
    # truncated states are the leading taps
    cut = c["cut"]
    Hc = dense_state(smp.state(S, cut))
    obs.check(Hc.shape[3] <= cut, "state_taps", "more taps than requested", got=Hc.shape[3], requested=cut)
    m = min(Hc.shape[3], H.shape[3])
    obs.close(Hc[..., :m], H[..., :m], "state_truncated", f"{k}: truncated state", rtol=1e-9)
    obs.check(not np.any(H[..., m:cut]), "state_truncated", f"{k}: truncated state misses taps")
    # a shorter state is the beginning of the longer one
    n = 1 + S // 2
    Hs = dense_state(smp.state(n, big))
    obs.close(Hs, H[:, :, :n], "state_shorter", f"{k}: state of fewer samples", rtol=1e-9)
    # storage
    same(obs, nd(smp.propagate(dense, mode)), Y, "storage", f"{k}: dense vs block input")
    # linearity
    X2 = arr(c["seed"] + 1, nt, S)
    g = complex(*c["s"][:2])
    Y2 = nd(smp.propagate(DenseSignal.FromNDArray(X2.copy(), *meta)))
    Ys = nd(smp.propagate(DenseSignal.FromNDArray(g * X + X2, *meta)))
    w = max(Y.shape[1], Y2.shape[1], Ys.shape[1])
    p = lambda q: np.pad(q, ((0, 0), (0, w - q.shape[1])))
    same(obs, Ys, g * p(Y) + p(Y2), "linearity", f"{k}: linear combination")
    # causality: nothing before the first input
    first = c["shift"]
    Xd = np.concatenate([np.zeros((nt, first)), X2], axis=1)
    Yd = nd(smp.propagate(DenseSignal.FromNDArray(Xd, *meta)))
    obs.check(not np.any(Yd[:, :first]), "causality", f"{k}: output before the first input sample")
    # gain
    _, unit = sample_of(c, 1.0)
    Yu = nd(unit.propagate(dense, mode))
    if c["ch"]["gain"] > 0:
        same(obs, Y, np.sqrt(c["ch"]["gain"]) * Yu, "gain", f"{k}: gain {c['ch']['gain']}", scale=0)
        obs.close(smp.expected_energy_scale, c["ch"]["gain"] * unit.expected_energy_scale, "energy_scale", f"{k}: announced energy scale", rtol=1e-9)
    # zero gain
    if k not in CDLS:
        _, zero = sample_of(c, 0.0)
        obs.check(not np.any(nd(zero.propagate(dense))), "zero_gain", f"{k}: zero gain lets energy pass")
    obs.raises(lambda: smp.propagate(DenseSignal.FromNDArray(arr(1, nt + 1, 3), *meta)), "stream_mismatch", "wrong stream count accepted", exceptions=(ValueError,))
    closed_form(c, obs, smp, H, X, Y)


def closed_form(c, obs, smp, H, X, Y):
    """Independent single-antenna models of the deterministic channels."""
    k, ch, B, fc = c["ch"]["kind"], c["ch"], c["B"], c["fc"]
    nt, nr = chan.n_tx(c["a"]), chan.n_rx(c["b"])
    g = ch["gain"]
    pa, pb = np.array(c["a"]["pos"]), np.array(c["b"]["pos"])
    va, vb = np.array(c["a"]["vel"]), np.array(c["b"]["vel"])
    isotropic = c["a"]["kind"] == "ideal" and c["b"]["kind"] == "ideal" and len(c["a"]["modes"]) == len(c["b"]["modes"]) == 1 and not any(c["a"]["rpy"]) and not any(c["b"]["rpy"])
    if k == "ideal":
        if nt == 1 or nr == 1:
            E = np.ones((nr, nt))
        else:
            E = np.eye(nr, nt)
        same(obs, Y, np.sqrt(g) * E @ X, "ideal", "ideal channel output")
        obs.close(smp.expected_energy_scale, g, "energy_scale", "ideal energy scale")
        obs.count("closed_form")
    if k in ("spatial", "random"):
        d = np.linalg.norm(pa - pb) / C0 if k == "spatial" else smp.delay
        if k == "spatial":
            obs.close(smp.delay, d, "spatial_delay", "delay of the line of sight", rtol=1e-9)
        elif isinstance(ch["delay"], list):
            obs.check(ch["delay"][0] - 1e-18 <= d <= ch["delay"][1] + 1e-18, "random_delay", "delay outside of its span", delay=d, span=ch["delay"])
        else:
            obs.equal(d, ch["delay"], "random_delay", "fixed delay")
        loss = C0 / fc / (4 * np.pi * d * C0) if ch["loss"] and d > 0 else 1.0
        obs.close(smp.expected_energy_scale, g * loss ** 2, "energy_scale", "delay channel energy scale", rtol=1e-9)
        n = round(d * B)
        obs.check(not np.any(np.delete(H, n, axis=3)), "delay_tap", "energy outside of the delay tap", n=n)
        if isotropic:
            obs.close(np.abs(H[0, 0, :, n]), np.full(X.shape[1], np.sqrt(g) * loss), "delay_gain", "amplitude of the delayed path", rtol=1e-9)
            obs.count("closed_form")
    if k in ("single", "multi"):
        paths = smp.paths
        if k == "single":
            obs.equal(len(paths), int(ch["exists"]), "target_count", "single target paths")
            for q in paths:
                rng_ = np.linalg.norm(q.position)
                lo, hi = (ch["range"] if isinstance(ch["range"], list) else [ch["range"]] * 2)
                obs.check(lo - 1e-9 <= rng_ <= hi + 1e-9, "target_range", "target outside of its range span", got=rng_, span=ch["range"])
        else:
            want = sorted(map(tuple, (np.round(t[0], 9).tolist() for t in ch["targets"])))
            got = sorted(map(tuple, (np.round(q.position, 9).tolist() for q in paths if q.ground_truth is not None)))
            obs.equal(got, want, "target_count", "target positions")
            obs.equal(sum(q.ground_truth is None for q in paths), int(ch["interference"]), "interference", "interference paths")
        if not isotropic:
            return
        S = X.shape[1]
        ref = np.zeros((S, H.shape[3]), complex)
        t = c["t"] + np.arange(S) / B
        for q in paths:
            gt = q.ground_truth
            if gt is None:
                continue
            p, v = np.array(gt[0]), np.array(gt[1])
            d1, d2 = np.linalg.norm(p - pa), np.linalg.norm(pb - p)
            tau = (d1 + d2) / C0
            rate = (p - pa) @ (v - va) / d1 + (pb - p) @ (vb - v) / d2
            amp = C0 / fc * np.sqrt(q.cross_section) / ((4 * np.pi) ** 1.5 * d1 * d2) if ch["attenuate"] else 1.0
            n = int(tau * B)
            if n < H.shape[3]:
                ref[:, n] += np.sqrt(g) * amp * np.exp(1j * q.reflection_phase - 2j * np.pi * fc * tau + 2j * np.pi * rate * fc / C0 * t)
        inter = [q for q in paths if q.ground_truth is None]
        Hs = H[0, 0]
        if inter:
            d = np.linalg.norm(pa - pb)
            n = int(d / C0 * B)
            amp = C0 / fc / (4 * np.pi * d) if ch["attenuate"] else 1.0
            rest = Hs - ref
            obs.close(np.abs(rest[:, n]), np.full(S, np.sqrt(g) * amp), "interference_gain", "line of sight interference", rtol=1e-6, atol=1e-9 * np.max(np.abs(Hs)))
            ref[:, n] = Hs[:, n]
        obs.close(Hs, ref, "echo", "target echoes", rtol=1e-6, atol=1e-300)
        obs.count("closed_form")


def gen_cdl(rng):
    return gen(rng, CDLS)


# ------------------------------------------------------------------ announced energy scale, statistically
def gen_energy(rng):
    c = gen(rng, FADING)
    c["a"], c["b"] = chan.gen_device(rng, duplex=True), chan.gen_device(rng, duplex=True)
    for d in "ab":
        c[d].update(modes=["D"], kind="ideal", rpy=[0, 0, 0])
    c["ch"]["decorr"] = float("inf")
    return c


def run_energy(c, obs):
    """Average received energy of a single impulse over many independent realizations.

    Fading models announce gain * sum of the path powers."""
    ch = chan.channel(c["ch"])
    k = c["ch"]["kind"]
    a, b = chan.device(c["a"], c["fc"], c["B"]), chan.device(c["b"], c["fc"], c["B"])
    c["ch"]["corr"] = None
    ch.antenna_correlation = None
    N, e = 300, []
    for _ in range(N):
        s = ch.realize().sample(a, b, 0.0, c["fc"], c["B"])
        H = dense_state(s.state(1, 4000))
        # the path powers are uncorrelated, so the energy of the impulse response is their sum
        e.append(np.sum(np.abs(H) ** 2))
    obs.close(s.expected_energy_scale, c["ch"]["gain"] * np.sum(ch.power_profile), "energy_scale", f"{k} energy scale", rtol=1e-9)
    want = s.expected_energy_scale
    sd = max(np.std(e) / np.sqrt(N), 1e-3 * want)
    obs.check(abs(np.mean(e) - want) < 6 * sd + 1e-3 * want, "mean_energy", f"{k}: mean energy {np.mean(e)} differs from the announced {want} by more than six deviations ({sd})")
    obs.count("energy_averages")
    obs.sig("energy", k, c["ch"]["sinusoids"] > 4)


FAMILIES = [
    Family("models", gen, run, 1200, require=("propagations", "nonzero", "closed_form")),
    Family("cdl", gen_cdl, run, 60, thorough=700, require=("propagations", "nonzero")),
    Family("energy", gen_energy, run_energy, 60, require=("energy_averages",)),
]
