"""C06 Skipping unaffected simulation stages never changes what is simulated."""
from __future__ import annotations

import itertools

import numpy as np

from hv import mc
from hv.checks.c05 import gen_params, observe
from hv.ref import pick, rint, seed
from hv.runner import Family

PROPERTY = "C06"
RULE = (
    "random stage pipelines (chains and branching dependencies, repeated stages with argument lists) swept over random sets of "
    "dimensions with random first/last impact declarations by the real workers; every stage records the parameters, arguments "
    "and inputs it was executed with and a provenance checker compares the evaluated state of every sample with a full, "
    "unskipped execution of its parameter combination"
)
TECHNIQUE = (
    "runtime monitoring: provenance tracking of every stage execution, checked per sample against the state a full execution "
    "of all stages would produce; differential execution of real link simulations with and without impact declarations"
)
ASSUMPTIONS = (
    "Impact declarations are truthful: the first impacted stage is not behind the first stage reading the parameter, and the "
    "last one not before the last stage whose output depends on a stage in the impacted range."
)


def closure(deps, lo, hi):
    """last stage depending on anything executed within [lo, hi]"""
    while True:
        new = max([k for k in range(len(deps)) if any(lo <= d <= hi for d in deps[k])] + [hi])
        if new == hi:
            return hi
        hi = new


def gen_stage(rng):
    stages = rint(rng, 1, 7)
    shape = pick(rng, ["chain", "chain", "dag"])
    if shape == "chain":
        deps = [[k - 1] if k else [] for k in range(stages)]
    else:
        deps = [sorted(int(d) for d in rng.choice(k, rint(rng, 0, min(2, k)), replace=False)) if k else [] for k in range(stages)]
    params = gen_params(rng, pick(rng, [1, 2, 2, 3, 3, 4]), stages, False, limit=36)
    bounded = shape == "dag" and rng.random() < 0.6
    for p in params:
        p.pop("additional", None)
        if p["kind"] == "method":
            p["kind"] = "plain"
        if rng.random() < 0.15:
            continue
        p["registered"] = True
        lo, hi = min(p["reads"]), max(p["reads"])
        first = pick(rng, [None, lo, lo, lo, rint(rng, 0, lo)])
        p["first"] = None if first is None else f"stage{first}"
        p["last"] = None
        if bounded and rng.random() < 0.7:
            last = closure(deps, lo if first is None else first, hi)
            last = pick(rng, [last, rint(rng, last, stages - 1)])
            p["last"] = f"stage{last}"
        if rng.random() < 0.1:
            p["first"] = "elsewhere"  # not a stage of this pipeline
        if p["last"] and rng.random() < 0.1:
            p["last"] = "elsewhere"
    args = {}
    if rng.random() < 0.35:
        for k in rng.choice(stages, rint(rng, 1, min(2, stages)), replace=False):
            args[str(int(k))] = [[round(0.5 * i, 2)] for i in range(rint(rng, 1, 3))]
    return dict(params=params, deps=deps, args=args, num_samples=rint(rng, 1, 4), actors=pick(rng, [1, 1, 2, 3]),
                batch=pick(rng, [None, 1, 4, 16]), evals=[], schedule=seed(rng), delays=pick(rng, [0.0, 0.1]), intensity=1.0,
                poll=0.002, work=0)


def expected_value(case, cfg, args):
    values = []
    for k, deps in enumerate(case["deps"]):
        mine = tuple(cfg[p["name"]] for p in case["params"] if k in p["reads"])
        values.append((k, mine, tuple(args.get(k, ())), tuple(values[d] for d in deps)))
    return values


def run_stage(case, obs):
    o = observe(case, obs, "stages")
    if o is None:
        return
    rec = o["result"].evaluation_results[0]
    grid = list(rec.grid)
    name_of = {p["title"]: p["name"] for p in case["params"]}
    if not obs.check(sorted(g.title for g in grid) == sorted(name_of), "stages-axes", f"reported axes {[g.title for g in grid]}"):
        return
    bounded = any(p.get("last") for p in case["params"])
    grids = [[(int(k), tuple(a)) for a in v] for k, v in case["args"].items()]
    combos = [dict(c) for c in itertools.product(*grids)]
    total = 0
    for coords in np.ndindex(rec.data.shape):
        cfg = {name_of[g.title]: g.sample_points[coords[d]].value for d, g in enumerate(grid)}
        seen = []
        for data, _ in rec.data[coords]:
            total += 1
            args = {int(k): tuple(data["stages"][int(k)]["args"]) for k in case["args"]}
            want = expected_value(case, cfg, args)
            for k in range(len(case["deps"])):
                got = data["stages"][k]
                obs.count("stage states")
                obs.check(got["value"][1] == want[k][1], "stale-parameters",
                          f"stage {k} last ran with parameters {got['value'][1]} when {cfg} was evaluated")
                obs.check(got["value"] == want[k], "stale-input", f"stage {k} was not executed again after its inputs changed, at {cfg}")
                if not bounded:
                    obs.check(got["ins"] == tuple(data["stages"][d]["uid"] for d in case["deps"][k]), "stale-realization",
                              f"stage {k} used an outdated realization of its inputs at {cfg}")
            seen.append(tuple(sorted(args.items())))
        for c in combos:
            key = tuple(sorted((k, tuple(v)) for k, v in c.items()))
            obs.check(seen.count(key) == case["num_samples"], "repetitions",
                      f"stage arguments {key} were evaluated {seen.count(key)} times for {case['num_samples']} samples at {cfg}")
    executed = o["stages"]
    full = total * len(case["deps"])
    if executed < full:
        obs.count("campaigns with reuse")
        obs.count("reused stage outputs", full - executed)
    obs.sig("declarations", tuple((p.get("first"), p.get("last"), tuple(p["reads"])) for p in case["params"]))


# ---------------------------------------------------------------------------
# dimensions over several objects: a stage is only skipped if every object allows it
# ---------------------------------------------------------------------------
def gen_shared(rng):
    n = rint(rng, 1, 4)
    return dict(impacts=[pick(rng, [None, ["stage2", None], ["stage2", None], ["stage2", "stage3"], [None, None], [None, "stage3"]])
                         for _ in range(n)])


def run_shared(case, obs):
    from hermespy.core.pymonte.grid import GridDimension, RegisteredDimension

    objs = []
    for imp in case["impacts"]:
        cls = type("Thing", (), {})

        def g(self):
            return getattr(self, "_v", 0)

        def s(self, v):
            self._v = v

        cls.value = property(g, s) if imp is None else RegisteredDimension(property(g, s), imp[0], imp[1])
        objs.append(cls())
    try:
        dim = GridDimension(tuple(objs), "value", [1, 2, 3])
    except ValueError:
        obs.count("refused")
        obs.check(len(set(map(str, case["impacts"]))) > 1, "shared-refused", "objects with equal impacts were refused")
        return
    firsts = [None if i is None else i[0] for i in case["impacts"]]
    lasts = [None if i is None else i[1] for i in case["impacts"]]
    obs.check(dim.first_impact is None or all(f == dim.first_impact for f in firsts), "shared-first",
              f"stages before {dim.first_impact} are skipped although the objects' first impacts are {firsts}")
    obs.check(dim.last_impact is None or all(f == dim.last_impact for f in lasts), "shared-last",
              f"stages behind {dim.last_impact} are skipped although the objects' last impacts are {lasts}")
    if None not in firsts and len(set(firsts)) == 1:
        obs.check(dim.first_impact == firsts[0], "shared-known", "a common impact was dropped")
    for p in range(3):
        dim.configure_point(p)
        obs.check(all(o.value == p + 1 for o in objs), "shared-configure", "not all objects were configured")
    obs.count("shared dimensions")


# ---------------------------------------------------------------------------
# registrations of the shipped simulation parameters: skipping against full execution
# ---------------------------------------------------------------------------
def gen_registered(rng):
    return dict(points=[[rint(rng, 0, 2), rint(rng, 0, 2), rint(rng, 0, 1)] for _ in range(rint(rng, 2, 6))],
                seed=seed(rng), late=rng.random() < 0.7)


def run_registered(case, obs):
    """A worker of the link-level simulation processes a batch; its stages are observed"""
    import warnings

    from hermespy.core import Signal, SignalReceiver, SignalTransmitter
    from hermespy.core.pymonte.evaluation import Evaluation, Evaluator
    from hermespy.core.pymonte.artifact import ArtifactTemplate
    from hermespy.core.pymonte.grid import GridDimension, RegisteredDimension
    from hermespy.simulation import N0, SimulationScenario
    from hermespy.simulation.simulation import SimulationActor

    n = 3000
    warnings.simplefilter("ignore")
    scenario = SimulationScenario(seed=case["seed"] % 2**31)
    device = scenario.new_device(carrier_frequency=1e9, bandwidth=1.0, oversampling_factor=1)
    device.noise_level = N0(1.0)
    tx = SignalTransmitter(Signal.Create(np.zeros((1, n), complex), 1.0, 0.0))
    rx = SignalReceiver(n)
    device.transmitters.add(tx)
    device.receivers.add(rx)
    heard = []
    rx.add_receive_callback(lambda r: heard.append(float(np.mean(np.abs(r.signal.view(np.ndarray)) ** 2))))
    levels, carriers, offsets = [0.01, 1.0, 100.0], [1e9, 2e9, 3e9], [0.0, 50.0]

    class Offset:
        """Parameter truthfully declared to affect the reception only"""
        def __init__(self):
            self._value = 0.0

        def g(self):
            return self._value

        def s(self, v):
            self._value = v

        value = RegisteredDimension(property(g, s), "receive_operators" if case["late"] else None)

    offset = Offset()

    class Probe(Evaluator):
        def __init__(self):
            Evaluator.__init__(self)

        def evaluate(self):
            class E(Evaluation):
                def artifact(s):
                    return ArtifactTemplate((device.carrier_frequency, device.noise_level.level, offset.value,
                                             heard[-1], log[-1][2], len(heard)))
                def _prepare_visualization(s, *a, **k):
                    return None
                _update_visualization = _prepare_visualization
            return E()

        abbreviation = property(lambda self: "P")
        title = property(lambda self: "P")

        def initialize_result(self, grid):
            return None

    dims = [GridDimension(device, "noise_level", levels), GridDimension(device, "carrier_frequency", carriers),
            GridDimension(offset, "value", offsets)]
    log = []

    class Actor(SimulationActor):
        def stage_executors(self):
            def wrap(k, f):
                def run(*a):
                    log.append((k, device.noise_level.level, device.carrier_frequency, offset.value))
                    return f(*a)
                return run
            return [wrap(k, f) for k, f in enumerate(SimulationActor.stage_executors(self))]

    actor = Actor(None, (scenario, dims, [Probe()]), 0, None, False)
    batch = [tuple(p) for p in case["points"]]
    samples = actor._MonteCarloActor__run_batch(batch)
    obs.check([tuple(s.grid_section) for s in samples] == batch, "worker-sections", "sections of the returned samples")
    for s in samples:
        carrier, level, off, power, _, _ = s.artifacts[0].artifact
        l, c, o = s.grid_section
        obs.check(carrier == carriers[c] and level == levels[l] and off == offsets[o], "worker-configuration",
                  f"section {s.grid_section} evaluated at {(level, carrier, off)}")
        obs.check(0.7 < power / levels[l] < 1.4, "worker-noise",
                  f"received noise power {power:g} at noise level {levels[l]:g}: the reception was not executed again")
        obs.count("worker samples")
    obs.count("simulation stages", len(log))
    obs.sig("batches", tuple(batch))


FAMILIES = [
    Family("stages", gen_stage, run_stage, quick=500, require=("stage states", "campaigns with reuse"), timeout=150),
    Family("shared", gen_shared, run_shared, quick=200, require=("shared dimensions", "refused")),
    Family("registered", gen_registered, run_registered, quick=40, require=("worker samples",)),
]
