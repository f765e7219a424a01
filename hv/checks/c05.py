"""C05 Monte Carlo samples are taken at, and credited to, their own grid point."""
from __future__ import annotations

import itertools, os, tempfile

import numpy as np

from hv import mc
from hv.ref import pick, rint, seed
from hv.runner import Family, Skip

PROPERTY = "C05"
RULE = (
    "random grids (0-4 swept dimensions over plain, nested, callable, shared and scalar-operator parameters, in any order and "
    "stage priority) swept by the real queue manager, workers and collector in threads under seeded delays; every sample "
    "carries the parameter values it was generated under, and an offline checker matches the credited samples with the "
    "log of all generated ones (provenance, exactly-once, counts, axes)"
)
TECHNIQUE = (
    "runtime monitoring: offline checker over the log of generated and credited samples of multi-worker campaigns run under "
    "a ray stand-in with seeded delays; online monitor of the work queue; received-signal provenance in real link simulations"
)
ASSUMPTIONS = (
    "The workers run as threads exchanging pickled messages instead of ray processes; the engine's classes are the real ones. "
    "Campaigns in which a stage raises an exception are not counted (the engine discards the affected batch)."
)


def gen_params(rng, n, stages, register, limit=48):
    out, total = [], 1
    for i in range(n):
        m = rint(rng, 1, max(1, min(5, limit // total)))
        total *= m
        p = dict(name=f"p{i}", kind=pick(rng, ["plain", "plain", "sub", "method", "multi", "level"]))
        kind = rng.random()
        if p["kind"] == "level":
            p["points"] = [round(1.5 * j + 0.25 + i, 3) for j in range(m)]
        elif kind < 0.5:
            p["points"] = [10 * i + 3 * j + 1 for j in range(m)]
        elif kind < 0.8:
            p["points"] = [f"{chr(97 + i)}{j}" for j in range(m)]
        else:
            p["points"] = [round(-0.5 + 1.1 * j + 7 * i, 3) for j in range(m)]
        rng.shuffle(p["points"])
        p["title"] = f"axis {i}"
        p["reads"] = sorted(int(k) for k in rng.choice(stages, rint(rng, 1, min(2, stages)), replace=False))
        if register and p["kind"] != "method" and rng.random() < 0.75:
            p["registered"] = True
            first = min(p["reads"])
            p["first"] = pick(rng, [None, f"stage{first}", f"stage{first}", f"stage{rint(rng, 0, first)}"])
            p["last"] = None
        out.append(p)
    return out


def gen_campaign(rng, register=0.7):
    stages = rint(rng, 1, 5)
    case = dict(
        params=gen_params(rng, pick(rng, [0, 1, 2, 2, 3, 3, 4]), stages, rng.random() < register),
        deps=[[k - 1] if k else [] for k in range(stages)],
        num_samples=rint(rng, 1, 6), actors=pick(rng, [1, 2, 2, 3, 4]), batch=pick(rng, [None, None, 1, 3, 8]),
        evals=[], schedule=seed(rng), delays=pick(rng, [0.0, 0.1, 0.4]), intensity=pick(rng, [0.3, 1.0, 3.0]),
        poll=pick(rng, [0.0005, 0.003, 0.02]), work=pick(rng, [0, 1, 8]),
    )
    for p in case["params"]:
        if rng.random() < 0.12:
            p["additional"] = True
    for _ in range(pick(rng, [0, 1, 1, 2])):
        case["evals"].append(dict(conf=1.0, tol=0.0, min=2, noise=pick(rng, [0.0, 1.0])))
    return case


def observe(case, obs, tag):
    o = mc.campaign(case)
    if o["error"] is not None:
        raise o["error"]
    if not obs.check(o["finished"], tag + "-termination", "the campaign did not terminate within a minute"):
        return None
    rt = o["rt"]
    obs.check(not rt.errors, tag + "-worker-error", f"a remote routine failed: {rt.errors[:2]}")
    obs.count("samples generated", len({u for u, _ in o["log"]}))
    obs.count("remote calls", sum(rt.calls.values()))
    obs.count("stages executed", o["stages"])
    obs.count("injected delays", rt.sleeps)
    obs.sig("interleavings", tuple(rt.trace[:400]))
    obs.sig("grid shapes", tuple(len(p["points"]) for p in case["params"]))
    return o


def matched(case, obs, o, tag):
    """Attribution, exactly-once, counts and axes of a finished campaign"""

    result = o["result"]
    rec = result.evaluation_results[0]
    grid = list(rec.grid)
    by_title = {p["title"]: p for p in case["params"]}
    titles = [g.title for g in grid]
    if not obs.check(sorted(titles) == sorted(by_title), tag + "-axes", f"reported axes {titles}, swept {sorted(by_title)}"):
        return None
    for r in result.evaluation_results:
        obs.check([g.title for g in r.grid] == titles, tag + "-axes", "results of one campaign report different axes")
        shape = tuple(len(by_title[t]["points"]) for t in titles)
        arr = np.asarray(r.to_array())
        obs.check(arr.shape[: len(shape)] == shape, tag + "-axes", f"result array shape {arr.shape} on a {shape} grid")
    for g in grid:
        obs.check([s.value for s in g.sample_points] == by_title[g.title]["points"], tag + "-axes",
                  f"sample points of axis {g.title} were altered")
    repeats = 1
    for v in case.get("args", {}).values():
        repeats *= len(v)
    seen = {}
    for coords in np.ndindex(rec.data.shape):
        expected = {by_title[t]["name"]: grid[d].sample_points[coords[d]].value for d, t in enumerate(titles)}
        entries = rec.data[coords]
        for data, _ in entries:
            obs.count("credited samples")
            obs.check(data["config"] == expected, tag + "-attribution",
                      f"sample generated at {data['config']} was credited to {expected}")
            seen[data["uid"]] = seen.get(data["uid"], 0) + 1
    double = [u for u, c in seen.items() if c > 1]
    obs.check(not double, tag + "-double", f"{len(double)} samples were credited more than once, e.g. {double[:3]}")
    generated = {u for u, e in o["log"] if e == 0}
    lost = generated - set(seen)
    obs.check(not lost, tag + "-lost", f"{len(lost)} of {len(generated)} generated samples were never credited")
    obs.check(not (set(seen) - generated), tag + "-invented", "samples were credited that no worker generated")
    return rec, grid, titles, by_title, repeats


def run_campaign(case, obs):
    o = observe(case, obs, "campaign")
    if o is None:
        return
    m = matched(case, obs, o, "campaign")
    if m is None:
        return
    rec, grid, titles, by_title, repeats = m
    want = case["num_samples"] * repeats
    for coords in np.ndindex(rec.data.shape):
        obs.check(len(rec.data[coords]) == want, "campaign-count",
                  f"section {coords} received {len(rec.data[coords])} of {want} requested samples")
        obs.count("sections")
    # Scalar results at the reported axes
    for spec, r in zip(case["evals"], o["result"].evaluation_results[1:]):
        arr = np.asarray(r.to_array())
        for coords in np.ndindex(arr.shape):
            cfg = {by_title[t]["name"]: grid[d].sample_points[coords[d]].value for d, t in enumerate(titles)}
            ref = o["scalar_of"](cfg) + spec["noise"] * np.mean([mc.dither(d["uid"][1], d["uid"][0]) for d, _ in rec.data[coords]])
            obs.close(arr[coords], ref, "campaign-mean", f"scalar result at {cfg}", rtol=1e-9, atol=1e-9)
    # Exported results
    if o["result"].evaluation_results and titles:
        from scipy.io import loadmat

        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "r.mat")
            o["result"].save_to_matlab(path)
            mat = loadmat(path, chars_as_strings=True)
        names = [str(s).strip() for s in np.asarray(mat["dimensions"]).ravel()]
        obs.check(names == titles, "campaign-export", f"exported axes {names}, results {titles}")
        for i, r in enumerate(o["result"].evaluation_results[1:], 1):
            got = np.asarray(mat[f"result_{i}"])
            ref = np.asarray(r.to_array())
            obs.check(got.size == ref.size and np.allclose(got.ravel(), ref.ravel()), "campaign-export",
                      "exported results differ from the results")
        obs.count("exports")


# ---------------------------------------------------------------------------
# stopping criterion
# ---------------------------------------------------------------------------
def gen_stop(rng):
    case = gen_campaign(rng)
    case["num_samples"] = rint(rng, 8, 40)
    sections = int(np.prod([len(p["points"]) for p in case["params"]]))
    if sections > 8:
        case["params"] = case["params"][:1]
    case["evals"] = [dict(conf=pick(rng, [0.05, 0.2, 0.6, 1.0]), tol=pick(rng, [0.0, 0.05, 0.2, 0.5]), min=rint(rng, 2, 10),
                          noise=pick(rng, [0.0, 0.5, 1.0, 2.0])) for _ in range(rint(rng, 1, 2))]
    return case


def run_stop(case, obs):
    from scipy.stats import norm

    o = observe(case, obs, "stopping")
    if o is None:
        return
    m = matched(case, obs, o, "stopping")
    if m is None:
        return
    rec, grid, titles, by_title, repeats = m
    for coords in np.ndindex(rec.data.shape):
        entries = rec.data[coords]
        n = len(entries)
        obs.check(n <= case["num_samples"], "stopping-count", f"section {coords} received {n} > {case['num_samples']} samples")
        if n == case["num_samples"]:
            obs.count("full sections")
            continue
        cfg = {by_title[t]["name"]: grid[d].sample_points[coords[d]].value for d, t in enumerate(titles)}
        met = False
        for spec in case["evals"]:
            v = np.array([o["scalar_of"](cfg) + spec["noise"] * mc.dither(d["uid"][1], d["uid"][0]) for d, _ in entries])
            for k in range(spec["min"], n + 1):
                std = np.std(v[:k], ddof=1)
                p = 2 * (1 - norm.cdf(np.sqrt(k) * spec["tol"] / std)) if std > 0 else 0.0
                met = met or p <= spec["conf"] + 1e-6
        obs.check(met, "stopping-early",
                  f"section {coords} stopped after {n} of {case['num_samples']} samples although no evaluator was confident")
        obs.count("stopped sections")


# ---------------------------------------------------------------------------
# work queue on its own
# ---------------------------------------------------------------------------
def gen_queue(rng):
    shape = [rint(rng, 1, 5) for _ in range(pick(rng, [0, 1, 2, 3]))]
    return dict(shape=shape, num=rint(rng, 1, 7), batch=pick(rng, [None, 1, 2, 5, 17, 100]), seed=seed(rng),
                disable=pick(rng, [0.0, 0.0, 0.1, 0.5]))


def run_queue(case, obs):
    import random

    from hermespy.core.pymonte.actors import MonteCarloQueueManager

    class Info:
        def __init__(self, n):
            self.num_sample_points = n

    rng = random.Random(case["seed"])
    shape = tuple(case["shape"])
    q = MonteCarloQueueManager([Info(n) for n in shape], case["num"], case["batch"])
    sections = list(itertools.product(*[range(n) for n in shape]))
    count = {s: 0 for s in sections}
    disabled = set()
    last = -1.0
    for step in range(case["num"] * len(sections) + 5):
        progress, flags = q.query_progress()
        obs.count("progress queries")
        active = [s for s in sections if s not in disabled and count[s] < case["num"]]
        obs.check(0.0 <= progress <= 1.0, "queue-progress", f"progress {progress}")
        obs.check((progress >= 1.0) == (not active), "queue-progress",
                  f"progress {progress} reported with {len(active)} of {len(sections)} sections unfinished (grid {shape})")
        obs.check(progress >= last - 1e-12, "queue-progress", "progress decreases")
        last = progress
        done = sum(case["num"] if s not in active else count[s] for s in sections)
        obs.close(progress, done / (case["num"] * len(sections)), "queue-progress",
                  "share of dispatched samples", rtol=1e-9, atol=1e-12)
        if shape:
            obs.check(np.asarray(flags).shape == shape, "queue-flags", "shape of the activity map")
            for s in sections:
                obs.check(bool(flags[s]) == (s in active), "queue-flags", f"activity of section {s}")
        batch = q.next_batch()
        obs.count("batches")
        obs.check(bool(batch) == bool(active), "queue-batch", f"batch of {len(batch)} with {len(active)} active sections")
        if not batch:
            break
        for s in batch:
            s = tuple(int(x) for x in s)
            if not obs.check(s in count, "queue-section", f"section {s} does not exist on a {shape} grid"):
                return
            obs.check(s not in disabled, "queue-disabled", "a stopped section was dispatched again")
            count[s] += 1
            obs.check(count[s] <= case["num"], "queue-overflow", f"section {s} dispatched {count[s]} times")
        if rng.random() < case["disable"]:
            s = rng.choice(sections)
            q.disable_section(s)
            if count[s] < case["num"]:
                disabled.add(s)
            obs.count("disabled sections")
    for s in sections:
        obs.check(count[s] == case["num"] or s in disabled, "queue-short", f"section {s} dispatched {count[s]} of {case['num']} times")
    obs.sig("queues", (shape, case["batch"]))


# ---------------------------------------------------------------------------
# dimensions configure the parameter they name
# ---------------------------------------------------------------------------
def gen_dimension(rng):
    ps = gen_params(rng, rint(rng, 1, 4), 3, True)
    for p in ps:
        if rng.random() < 0.3:
            p["title"] = None
    return dict(params=ps, deps=[[], [0], [1]], evals=[], seed=seed(rng), n=rint(rng, 3, 20))


def run_dimension(case, obs):
    import random

    rng = random.Random(case["seed"])
    obj, dims, actor, evaluators, scalar_of, names = mc.build(case)
    current = {}
    for d, p in zip(dims, case["params"]):
        want = p["title"] or ("Level" if p["kind"] == "level" else ("sub." if p["kind"] == "sub" else "") + p["name"])
        obs.check(d.title == want, "dimension-title", f"dimension is titled {d.title!r} instead of {want!r}")
        obs.check([s.value for s in d.sample_points] == p["points"], "dimension-points", "sample points differ")
        obs.raises(lambda: d.configure_point(len(p["points"])), "dimension-range", "point index behind the last", ValueError)
        obs.raises(lambda: d.configure_point(-1), "dimension-range", "negative point index", ValueError)
    for _ in range(case["n"]):
        i = rng.randrange(len(dims))
        j = rng.randrange(len(case["params"][i]["points"]))
        dims[i].configure_point(j)
        current[case["params"][i]["name"]] = case["params"][i]["points"][j]
        cfg = obj.config()
        for k, v in current.items():
            obs.check(cfg[k] == v, "dimension-configure", f"{k} is {cfg[k]} after configuring {v}")
        for p in case["params"]:
            if p["name"] not in current:
                obs.check(cfg[p["name"]] in (None, -1.0), "dimension-bystander", f"{p['name']} was configured by another dimension")
        obs.count("configured points")


# ---------------------------------------------------------------------------
# real link-level campaigns
# ---------------------------------------------------------------------------
def gen_link(rng):
    return dict(
        carriers=[1e9 * (i + 1) for i in range(rint(rng, 1, 3))],
        noise=[round(10.0 ** (2 * i - 2), 6) for i in range(rint(rng, 1, 3))],
        order=pick(rng, [0, 1]), num_samples=rint(rng, 1, 3), actors=rint(rng, 1, 3), schedule=seed(rng),
        rate=pick(rng, [1e3, 1e6]), drops=pick(rng, [None, None, 3, 2]), velocity=pick(rng, [0.0, 3.0]), seed=seed(rng),
    )


def run_link(case, obs):
    import warnings

    import hv.mc as monitor
    from hermespy.core import ConsoleMode, Signal, SignalReceiver, SignalTransmitter
    from hermespy.core.transformation import Transformation
    from hermespy.core.pymonte.artifact import Artifact
    from hermespy.core.pymonte.evaluation import Evaluation, Evaluator, EvaluationResult
    from hermespy.simulation import N0, Simulation
    from hermespy.simulation.animation import LinearTrajectory

    n = 4000
    rt = mc.Runtime(case["schedule"], 1.0, 0.2, cpus=case["actors"])
    with rt.installed(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = Simulation(num_samples=case["num_samples"], seed=case["seed"] % 2**31, num_actors=case["actors"],
                         console_mode=ConsoleMode.SILENT)
        device = sim.scenario.new_device(carrier_frequency=case["carriers"][0], bandwidth=case["rate"], oversampling_factor=1)
        tx = SignalTransmitter(Signal.Create(np.zeros((1, n), complex), case["rate"], 0.0))
        rx = SignalReceiver(n)
        device.transmitters.add(tx)
        device.receivers.add(rx)
        device.noise_level = N0(1.0)
        if case["drops"]:
            device.trajectory = LinearTrajectory(Transformation.From_Translation(np.zeros(3)),
                                                 Transformation.From_Translation(np.array([float(case["drops"]), 0, 0])),
                                                 float(case["drops"]))
            sim.drop_interval = 1.0

        class Record(Artifact):
            def __init__(self, data):
                self.data = data

            def __str__(self):
                return "r"

            def to_scalar(self):
                return None

        class Eval(Evaluation):
            def __init__(self, data):
                self.data = data

            def artifact(self):
                return Record(self.data)

            def _prepare_visualization(self, *a, **k):
                return None

            _update_visualization = _prepare_visualization

        class Result(EvaluationResult):
            def __init__(self, grid, e):
                EvaluationResult.__init__(self, grid, e)
                self.data = np.empty([g.num_sample_points for g in grid], dtype=object)
                for c in np.ndindex(self.data.shape):
                    self.data[c] = []

            def add_artifact(self, coordinates, artifact, compute_confidence=True):
                self.data[tuple(coordinates)].append(artifact.data)
                return False

            def runtime_estimates(self):
                return None

            def to_array(self):
                return np.zeros(self.data.shape)

        class Probe(Evaluator):
            def __init__(self, device, rx):
                Evaluator.__init__(self)
                self.device, self.rx, self.last = device, rx, None
                rx.add_receive_callback(self.heard)

            def heard(self, reception):
                self.last = reception

            def evaluate(self):
                import hv.mc as monitor

                s = self.last.signal
                p = float(np.mean(np.abs(s.view(np.ndarray)) ** 2))
                uid = hash(complex(s.view(np.ndarray)[0, 0]))
                monitor.LOG.append((uid, 0))
                return Eval(dict(carrier=float(self.device.carrier_frequency), level=float(self.device.noise_level.level),
                                 power=p, uid=uid))

            abbreviation = property(lambda self: "P")
            title = property(lambda self: "Probe")

            def initialize_result(self, grid):
                return Result(grid, self)

        monitor.LOG.clear()
        sim.add_evaluator(Probe(device, rx))
        for which in ([0, 1] if case["order"] == 0 else [1, 0]):
            if which == 0:
                sim.new_dimension("carrier_frequency", list(case["carriers"]), device, title="carrier")
            else:
                sim.new_dimension("noise_level", list(case["noise"]), device, title="noise")
        stamps = []
        finished, result, error = mc.deadline(sim.run, 120)
        generated = list(monitor.LOG)
    if error is not None:
        raise error
    if not obs.check(finished, "link-termination", "the link simulation did not terminate"):
        return
    r = result.evaluation_results[0]
    axes = [g.title for g in r.grid]
    obs.check(sorted(axes) == ["carrier", "noise"], "link-axes", f"axes {axes}")
    drops = case["drops"] or 1
    uids = []
    for coords in np.ndindex(r.data.shape):
        at = {t: r.grid[i].sample_points[coords[i]].value for i, t in enumerate(axes)}
        obs.check(len(r.data[coords]) == case["num_samples"] * drops, "link-count",
                  f"{len(r.data[coords])} results of {case['num_samples']} samples with {drops} drops each")
        for d in r.data[coords]:
            uids.append(d["uid"])
            obs.count("link samples")
            obs.check(d["carrier"] == at["carrier"] and d["level"] == at["noise"], "link-attribution",
                      f"sample at carrier {d['carrier']:g}, noise {d['level']:g} credited to {at}")
            obs.check(0.7 < d["power"] / (at["noise"] * case["rate"]) < 1.4, "link-provenance",
                      f"received noise power {d['power']:g} credited to noise level {at['noise']:g}")
    obs.check(len(set(uids)) == len(uids), "link-double", "samples credited twice")
    obs.check(len(uids) == len(generated), "link-lost", f"{len(generated)} generated, {len(uids)} credited")


# ---------------------------------------------------------------------------
# limits (known findings)
# ---------------------------------------------------------------------------
def gen_limits(rng):
    return dict(kind="replaced")


def run_limits(case, obs):
    """Sweeping an object and one of the parameters of that same object"""
    from hermespy.core.pymonte.grid import GridDimension

    class Part:
        order = 0

        def __init__(self, name):
            self.name, self.order = name, 0

    class Host:
        part = Part("x")

    h = Host()
    h.part = Part("initial")
    a = GridDimension(h, "part", [Part("a"), Part("b")])
    b = GridDimension(h, "part.order", [2, 4])
    a.configure_point(1)
    b.configure_point(1)
    obs.soft(h.part.name == "b" and h.part.order == 4, "replaced-object",
             f"part {h.part.name} has order {h.part.order} after configuring part b and order 4")
    obs.count("limits")


FAMILIES = [
    Family("campaign", gen_campaign, run_campaign, quick=300, require=("credited samples", "sections"), timeout=150),
    Family("stopping", gen_stop, run_stop, quick=120, require=("stopped sections", "full sections"), timeout=150),
    Family("queue", gen_queue, run_queue, quick=400, require=("batches", "disabled sections")),
    Family("dimension", gen_dimension, run_dimension, quick=150, require=("configured points",)),
    Family("link", gen_link, run_link, quick=16, require=("link samples",), timeout=240),
    Family("limits", gen_limits, run_limits, quick=0, pinned=[dict(kind="replaced")]),
]
