"""C17: channel realizations are immutable, reciprocal and spatially consistent; sample hooks fire exactly once."""
import numpy as np
from scipy.stats import norm
from hermespy.channel import IdealChannel, RandomDelayChannel
from hermespy.channel.consistent import ConsistentGenerator
from hermespy.channel.fading import CustomAntennaCorrelation
from hermespy.channel.radar import FixedCrossSection, SingleTargetRadarChannel, VirtualRadarTarget
from hermespy.core import DenseSignal, Transformation
from hermespy.simulation import StaticTrajectory

from hv import chan
from hv.chan import CDLS, CHEAP, dense_state
from hv.ref import arr, nd, pick, rint, seed
from hv.runner import Family

PROPERTY = "C17"
RULE = ("A realization is sampled for several device pairs and times, its samples are recorded as full impulse responses, and the recording is "
        "replayed in other orders, repeatedly, between further realizations and while every configurable parameter of the channel model is "
        "changed: each response must be bit-identical to its first recording. The reverse link is compared to the transposed response. "
        "Consistent random variables are compared with their declared distribution and spatial correlation; hook calls are logged and counted.")
ASSUMPTIONS = ["statistical tolerances are at least six standard deviations wide",
               "reciprocity is decided for devices whose antennas transmit and receive, and for CDL models with static devices"]

MUT = {"gain": [.37, 2.9], "los_angle": [.1, -2.], "doppler_frequency": [1., 3e4], "los_doppler_frequency": [2., 1e4], "attenuate": [True, False],
       "interference": [True, False], "target_exists": [False, True], "target_range": [3., (1., 4.)], "radar_cross_section": [9., .2],
       "target_azimuth": [.2, (-1., 1.)], "target_zenith": [.4, (.2, .9)], "velocity": [7., (1., 5.)], "delay": [1e-6, (0., 3e-6)],
       "model_propagation_loss": [True, False], "decorrelation_distance": [3., 11.], "correlation_distance": [3., 17.], "rms_delay": [1e-7, 3e-6],
       "rayleigh_factor": [.5, 2.], "num_sinusoids": [3, 9], "oxygen_absorption": [True, False], "seed": [1, 2], "expected_state": [None],
       "antenna_correlation": [None, "x"]}


def gen(rng, kinds=CHEAP):
    B = float(10 ** rng.uniform(5, 8))
    sim = kinds is CDLS
    dev = lambda: chan.gen_device(rng, duplex=True, maxn=2 if sim else 3, far=sim, static=sim)
    c = {"ch": chan.gen_channel(rng, kinds, B), "dev": [dev() for _ in range(2 if sim else 3)], "B": B, "fc": float(10 ** rng.uniform(8.7, 10.5)),
         "times": [float(x) for x in rng.choice([0, 1e-3, .02, .37, 1.5], rint(rng, 1, 2 if sim else 3), replace=False)], "seed": seed(rng),
         "n": rint(rng, 1, 4), "taps": 40}
    if c["ch"].get("corr") == "standard":
        for d in c["dev"]:
            d["modes"] = ["D"] * pick(rng, [1, 2])
    return c


def fingerprint(c, real, a, b, t, state):
    s = real.sample(a.state(t), b.state(t), t, c["fc"], c["B"]) if state else real.sample(a, b, t, c["fc"], c["B"])
    x = arr(c["seed"], s.num_transmit_antennas, c["n"] + 2)
    return s, [dense_state(s.state(c["n"], c["taps"])), nd(s.propagate(DenseSignal.FromNDArray(x, c["B"], c["fc"]))), np.array([s.expected_energy_scale])]


def mutate(ch, rng, obs):
    """Change every configurable parameter the channel model offers."""
    for name, values in MUT.items():
        prop = getattr(type(ch), name, None)
        if not isinstance(prop, property) or prop.fset is None:
            continue
        v = values[int(rng.integers(len(values)))]
        if v == "x":
            v = CustomAntennaCorrelation(np.eye(10) + .1)
        try:
            setattr(ch, name, v)
        except (ValueError, NotImplementedError):
            obs.count("refused_changes")
            continue
        obs.count("changes")
    if hasattr(ch, "add_target"):
        ch.add_target(VirtualRadarTarget(FixedCrossSection(3.), StaticTrajectory(Transformation.From_Translation(np.array([1., 2., 3.])))))
        obs.count("changes")


def run(c, obs):
    k = c["ch"]["kind"]
    ch = chan.channel(c["ch"])
    devs = [chan.device(d, c["fc"], c["B"]) for d in c["dev"]]
    rng = np.random.default_rng(c["seed"])
    real = ch.realize()
    obs.check(ch.realization is real, "last_realization", "the channel does not report its last realization")
    keys = [(i, j, t) for i in range(len(devs)) for j in range(len(devs)) if i != j for t in c["times"]]
    first = {}
    for key in [keys[i] for i in rng.permutation(len(keys))]:
        i, j, t = key
        first[key] = fingerprint(c, real, devs[i], devs[j], t, False)
        obs.count("samples")

    def replay(stage, target=real, ref=first):
        for key in [keys[i] for i in rng.permutation(len(keys))]:
            i, j, t = key
            _, got = fingerprint(c, target, devs[i], devs[j], t, bool(rng.random() < .5))
            for what, p, q in zip(("state", "propagation", "energy scale"), got, ref[key][1]):
                obs.check(p.shape == q.shape and np.allclose(p, q, rtol=1e-11, atol=1e-13 * max(np.max(np.abs(q), initial=0), 1e-300)), stage,
                          f"{k}: {what} of the realization changed", key=key, dev=float(np.max(np.abs(p - q))) if p.shape == q.shape else "shape")
            obs.count("replays")

    replay("resample")
    # earlier samples are not altered by later ones
    for key in keys:
        s, ref = first[key]
        obs.close(dense_state(s.state(c["n"], c["taps"])), ref[0], "old_sample", f"{k}: an existing sample changed", rtol=1e-12)
    second = ch.realize(cache=False)
    obs.check(ch.realization is real, "uncached", "an uncached realization replaced the cached one")
    replay("after_realize")
    s2 = {key: fingerprint(c, second, devs[key[0]], devs[key[1]], key[2], False) for key in keys}
    mutate(ch, rng, obs)
    replay("after_change")
    ch.realize()
    obs.check(ch.realization is not real, "last_realization", "a new realization is not reported as the last")
    replay("after_change_realize")
    replay("second_realization", second, s2)
    # reciprocity
    for key in keys:
        i, j, t = key
        s, ref = first[key]
        rec = real.reciprocal_sample(s, devs[j].state(t), devs[i].state(t), c["fc"], c["B"]) if rng.random() < .5 else real.reciprocal_sample(s, devs[j], devs[i], t, c["fc"], c["B"])
        R = dense_state(rec.state(c["n"], c["taps"]))
        F = np.swapaxes(ref[0], 0, 1)
        obs.close(R, F, "reciprocity", f"{k}: reverse link", rtol=1e-8, atol=1e-9 * max(np.max(np.abs(F), initial=0), 1e-300))
        obs.close(rec.expected_energy_scale, s.expected_energy_scale, "reciprocal_scale", f"{k}: energy scale of the reverse link", rtol=1e-9)
        obs.check(np.array_equal(rec.transmitter_pose.translation, devs[j].state(t).pose.translation) if hasattr(rec, "transmitter_pose") else True,
                  "reciprocal_state", "reverse link has a wrong transmitter")
        obs.equal((rec.num_transmit_antennas, rec.num_receive_antennas), (s.num_receive_antennas, s.num_transmit_antennas), "reciprocal_state", "antenna counts of the reverse link")
        obs.count("reciprocals")
        obs.close(dense_state(s.state(c["n"], c["taps"])), ref[0], "old_sample", f"{k}: computing the reverse link changed the forward link", rtol=1e-12)
    obs.sig(k, len(c["times"]), tuple(len(d["modes"]) for d in c["dev"]))


# ------------------------------------------------------------------ hooks
def gen_hooks(rng):
    c = gen(rng)
    n = rint(rng, 1, 5)
    c["hooks"] = [[pick(rng, [None, 0, 1, 2]), pick(rng, [None, 0, 1, 2])] for _ in range(n)]
    c["ops"] = [[pick(rng, ["sample", "sample", "state", "reciprocal", "reciprocal_state", "remove", "realize", "add", "propagate"]), rint(rng, 0, 2), rint(rng, 0, 2), rint(rng, 0, n - 1)]
                for _ in range(rint(rng, 3, 14))]
    return c


def run_hooks(c, obs):
    ch = chan.channel(c["ch"])
    devs = [chan.device(d, c["fc"], c["B"]) for d in c["dev"]]
    log = []
    live = {}

    def add(h):
        tx, rx = c["hooks"][h]
        live[h] = ch.add_sample_hook(lambda s, h=h: log.append((h, s)), *(None if x is None else devs[x] for x in (tx, rx)))

    for h in range(len(c["hooks"])):
        add(h)
    real, active = ch.realize(), set(live)
    for op, i, j, h in c["ops"]:
        log.clear()
        t = c["times"][0]
        if op == "remove":
            if h in live:
                ch.remove_sample_hook(live.pop(h))
            active = None
        elif op == "add":
            if h not in live:
                add(h)
            active = None
        elif op == "realize":
            active = None
        if active is None:
            # the set of hooks belongs to the model; a fresh realization sees exactly the registered ones
            real, active = ch.realize(), set(live)
            obs.check(not log, "hook_fired", "a hook fired without a sample")
            continue
        if op == "propagate":
            ch.propagate(DenseSignal.FromNDArray(arr(c["seed"], devs[i].num_transmit_antennas, 3), c["B"], c["fc"]), devs[i], devs[j], t)
            smp, link = None, (i, j)
        elif op in ("sample", "state"):
            smp = real.sample(devs[i], devs[j], t, c["fc"], c["B"]) if op == "sample" else real.sample(devs[i].state(t), devs[j].state(t), t, c["fc"], c["B"])
            link = (i, j)
        else:
            s = real.sample(devs[i], devs[j], t, c["fc"], c["B"])
            log.clear()
            smp = real.reciprocal_sample(s, devs[j], devs[i], t, c["fc"], c["B"]) if op == "reciprocal" else real.reciprocal_sample(s, devs[j].state(t), devs[i].state(t), c["fc"], c["B"])
            link = (j, i)
        want = sorted(h for h in live if c["hooks"][h][0] in (None, link[0]) and c["hooks"][h][1] in (None, link[1]))
        obs.equal(sorted(h for h, _ in log), want, "hook_calls", f"hooks fired for {op}", link=link, hooks=c["hooks"], live=sorted(live))
        obs.check(smp is None or all(s is smp for _, s in log), "hook_sample", "a hook received another sample")
        obs.count("hook_checks")
        obs.count("hook_calls", len(log))
    obs.sig("hooks", len(live), len(c["ops"]))


# ------------------------------------------------------------------ spatially consistent variables
def gen_consistent(rng):
    return {"seed": seed(rng), "shapes": [[rint(rng, 1, 9) for _ in range(rint(rng, 1, 3))] for _ in range(rint(rng, 1, 4))], "n": 1500,
            "D": float(10 ** rng.uniform(-1, 2.5)) if rng.random() < .8 else float("inf"), "pa": rng.uniform(-300, 300, 3).tolist(), "pb": rng.uniform(-300, 300, 3).tolist(),
            "mean": float(rng.uniform(-5, 5)), "std": float(rng.uniform(.1, 4)), "step": float(10 ** rng.uniform(-1.3, .5)), "both": bool(rng.random() < .4)}


def unit(r):
    v = r.standard_normal(3)
    return v / np.linalg.norm(v)


def run_consistent(c, obs):
    g = ConsistentGenerator(np.random.default_rng(c["seed"]))
    r = np.random.default_rng(c["seed"] + 1)
    kinds = ["gaussian", "uniform", "boolean"]
    vs = [(kinds[i % 3], getattr(g, kinds[i % 3])(tuple(s))) for i, s in enumerate(c["shapes"])]
    G, U, Bv = g.gaussian((c["n"],)), g.uniform((c["n"],)), g.boolean((c["n"],))
    every = [v for _, v in vs] + [G, U, Bv]
    spans = sorted((v.offset, v.offset + v.size) for v in every)
    obs.check(all(a[1] <= b[0] for a, b in zip(spans, spans[1:])), "variables_overlap", "two variables share random scalars", spans=spans)
    off = G.offset
    obs.equal(g.add_variable(G), off, "variables_overlap", "adding a known variable again")
    D = c["D"]
    real = g.realize(D)
    other = g.realize(D)
    pa, pb = np.array(c["pa"]), np.array(c["pb"])
    s = real.sample(pa, pb)
    for (kind, v), shape in zip(vs, c["shapes"]):
        x = v.sample(s)
        obs.equal(x.shape, tuple(shape), "variable_shape", f"shape of a {kind} variable")
        obs.check(np.array_equal(x, v.sample(real.sample(pa.copy(), pb.copy()))), "variable_repeat", f"{kind} variable differs between equal positions")
    z = G.sample(s)
    u, b = U.sample(s), Bv.sample(s)
    n = c["n"]

    def ks(x, cdf, what):
        x = np.sort(x)
        F = cdf(x)
        d = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
        obs.check(d < 2.8 / np.sqrt(n) + .01, "distribution", f"{what}: Kolmogorov-Smirnov distance {d}", D=D)
        obs.count("distribution_tests")

    ks(z, norm.cdf, "standard normal variable")
    ks(G.sample(s, c["mean"], c["std"]), lambda x: norm.cdf(x, c["mean"], c["std"]), "normal variable")
    ks(u, lambda x: np.clip(x, 0, 1), "uniform variable")
    obs.check(b.dtype == bool and abs(np.mean(b) - .5) < 3.5 / np.sqrt(n) + .01, "distribution", f"boolean variable is true with frequency {np.mean(b)}")
    obs.check(abs(np.corrcoef(z, norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)))[0, 1]) < 7 / np.sqrt(n), "independence", "two variables are correlated")
    zo = G.sample(other.sample(pa, pb))
    obs.check(abs(np.corrcoef(z, zo)[0, 1]) < 7 / np.sqrt(n), "independence", "two realizations are correlated")
    # movement
    da = unit(r)
    if np.isinf(D):
        z2 = G.sample(real.sample(pa + 100 * da, pb - 55 * da))
        obs.check(np.array_equal(z, z2), "static", "variable with infinite decorrelation distance depends on the position")
        obs.sig("consistent", "inf")
        return
    e = 1e-7 * D
    z2 = G.sample(real.sample(pa + e * da, pb - e * da))
    obs.check(np.max(np.abs(z2 - z)) < .05, "continuity", f"a move of 1e-7 decorrelation distances changes a variable by {np.max(np.abs(z2 - z))}")
    d = c["step"] * D
    want = np.exp(-c["step"] * (2 if c["both"] else 1))
    z2 = G.sample(real.sample(pa + d * da, pb + (d * unit(r) if c["both"] else 0)))
    got = float(np.mean(z * z2))
    obs.check(abs(got - want) < 6 / np.sqrt(n) + .03, "correlation", f"correlation {got} after moving {c['step']} decorrelation distances, expected {want}")
    z3 = G.sample(real.sample(pa, pb + d * da))
    obs.check(abs(float(np.mean(z * z3)) - np.exp(-c["step"])) < 6 / np.sqrt(n) + .03, "correlation", f"correlation {np.mean(z * z3)} after moving the receiver, expected {np.exp(-c['step'])}")
    ks(z2, norm.cdf, "standard normal variable elsewhere")
    obs.count("correlation_tests", 2)
    obs.sig("consistent", "finite", c["both"])


# ------------------------------------------------------------------ random parameters of channel models
def gen_params(rng):
    lo = float(rng.uniform(0, 1e-6))
    a = float(rng.uniform(-3, 2))
    z = float(rng.uniform(0, 2))
    return {"seed": seed(rng), "delay": [lo, lo + float(rng.uniform(0, 2e-6))], "range": sorted(float(x) for x in rng.uniform(1, 500, 2)), "az": [a, a + float(rng.uniform(0, 1))],
            "ze": [z, z + float(rng.uniform(0, 1))], "vel": sorted(float(x) for x in rng.uniform(-90, 90, 2)), "n": 500,
            "a": chan.gen_device(rng, duplex=True, static=True), "D": float(pick(rng, [float("inf"), 5.0])), "moving": bool(rng.random() < .5)}


def run_params(c, obs):
    B, fc, n = 1e6, 1e9, c["n"]
    a, b = chan.device(c["a"], fc, B), chan.device(dict(c["a"], pos=[3., 5., 7.]), fc, B)
    rd = RandomDelayChannel(tuple(c["delay"]), decorrelation_distance=c["D"], seed=c["seed"])
    st = SingleTargetRadarChannel(tuple(c["range"]), 1.0, target_azimuth=tuple(c["az"]), target_zenith=tuple(c["ze"]), velocity=tuple(c["vel"]), decorrelation_distance=c["D"], seed=c["seed"] + 1)
    sa, sb = a.state(0), b.state(0)
    D, R, A, Z, V, P = [], [], [], [], [], []
    for _ in range(n):
        D.append(rd.realize().sample(sa, sb).delay)
        p = st.realize().sample(sa, sb).paths[0]
        rng_ = np.linalg.norm(p.position)
        R.append(rng_)
        A.append(np.arctan2(p.position[1], p.position[0]))
        Z.append(np.arccos(np.clip(p.position[2] / rng_, -1, 1)))
        V.append(float(np.dot(p.velocity, p.position) / rng_))
        P.append(p.reflection_phase)

    def uni(x, span, what):
        lo, hi = span
        tol = 1e-9 * max(abs(lo), abs(hi))
        x = np.sort(np.array(x))
        obs.check(x[0] >= lo - tol and x[-1] <= hi + tol, "span", f"{what} outside of its span", got=[x[0], x[-1]], span=span)
        if hi > lo:
            F = (x - lo) / (hi - lo)
            d = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
            obs.check(d < 2.9 / np.sqrt(n), "distribution", f"{what} is not uniform over its span: Kolmogorov-Smirnov distance {d}")
        obs.count("distribution_tests")

    uni(D, c["delay"], "random delay")
    uni(np.mod(P, 2 * np.pi), [0, 2 * np.pi], "reflection phase")
    obs.count("realizations", n)
    # the target spans are declared around the origin of the global coordinate system
    uni(R, c["range"], "target range")
    uni(Z, c["ze"], "target zenith")
    uni(np.mod(np.array(A) - c["az"][0] + 1e-9, 2 * np.pi) - 1e-9 + c["az"][0], c["az"], "target azimuth")
    uni(V, c["vel"], "radial target velocity")
    obs.sig("params", np.isinf(c["D"]))


FAMILIES = [
    Family("realizations", gen, run, 260, require=("samples", "replays", "changes", "reciprocals")),
    Family("cdl", lambda rng: gen(rng, CDLS), run, 24, thorough=240, require=("samples", "replays", "reciprocals")),
    Family("hooks", gen_hooks, run_hooks, 300, require=("hook_checks", "hook_calls")),
    Family("consistent", gen_consistent, run_consistent, 120, require=("distribution_tests", "correlation_tests")),
    Family("params", gen_params, run_params, 40, require=("distribution_tests",)),
]
