"""C07 Aggregated results are the statistics of the collected artifacts."""
from __future__ import annotations

import warnings

import numpy as np

from hv.ref import pick, rint, seed
from hv.runner import Family

PROPERTY = "C07"
RULE = (
    "random histories of artifacts (values, missing values, interleaved grid sections, arrival orders, confidence settings) fed "
    "to every result type; an independent recorder of the same history recomputes means, error rates, curves and the confidence "
    "criterion and compares them after every step, under permutations, and as printed and plotted"
)
TECHNIQUE = (
    "runtime monitoring: online comparison of every result container with an independent recorder of its artifact history, "
    "metamorphic permutation of the arrival order, monitor of every stopping decision"
)
ASSUMPTIONS = "Artifact scalars are within seven orders of magnitude of their spread (sums are kept in double precision)."


def grid_of(shape):
    from hermespy.core import ValueType
    from hermespy.core.pymonte.grid import GridDimensionInfo, SamplePoint

    return [GridDimensionInfo([SamplePoint(round(10.0 ** d * (v + 1), 3)) for v in range(n)], f"dim{d}", "linear", ValueType.LIN)
            for d, n in enumerate(shape)]


def scalar_evaluator(spec, db=False):
    from hermespy.core import ValueType
    from hermespy.core.pymonte.scalar import ScalarEvaluator

    class E(ScalarEvaluator):
        def evaluate(self):
            raise NotImplementedError

        abbreviation = property(lambda self: "ABC")
        title = property(lambda self: "A scalar")

    return E(confidence=spec["conf"], tolerance=spec["tol"], min_num_samples=spec["min"],
             tick_format=ValueType.DB if db else ValueType.LIN, plot_surface=spec.get("surface", False))


def gen_scalar(rng):
    return dict(shape=[rint(rng, 1, 4) for _ in range(pick(rng, [0, 1, 1, 2, 2, 3]))], conf=pick(rng, [0.0, 0.05, 0.3, 0.8, 1.0]),
                tol=pick(rng, [0.0, 0.01, 0.1, 0.5, 3.0]), min=rint(rng, 2, 12), n=rint(rng, 0, 120), seed=seed(rng),
                dist=pick(rng, ["normal", "bits", "const", "offset", "wide", "negative"]), missing=pick(rng, [0, 0, 0.2]),
                compute=pick(rng, [1.0, 1.0, 0.5]))


def values(r, dist, n):
    v = {"normal": lambda: r.normal(0, 1, n), "bits": lambda: (r.random(n) < 0.3).astype(float),
         "const": lambda: np.full(n, r.choice([0.0, 1.0, 0.5])), "offset": lambda: 1e4 + r.normal(0, 1, n),
         "wide": lambda: 10.0 ** r.uniform(-6, 3, n), "negative": lambda: -5 + r.normal(0, 2, n)}[dist]()
    return [float(x) for x in v]


class _Bool:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return float(self.v)


def run_scalar(case, obs):
    from hermespy.core.pymonte.artifact import Artifact, ArtifactTemplate
    from scipy.stats import norm

    class Missing(Artifact):
        def __str__(self):
            return "-"

        def to_scalar(self):
            return None

    r = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    ev = scalar_evaluator(case)
    res = ev.initialize_result(grid_of(shape))
    sections = list(np.ndindex(shape))
    hist = {s: [] for s in sections}
    history = []
    for v in values(r, case["dist"], case["n"]):
        s = sections[int(r.integers(len(sections)))]
        compute = r.random() < case["compute"]
        if r.random() < case["missing"]:
            got = res.add_artifact(s, Missing(), compute)
            obs.check(not got, "decision-missing", "an artifact without a value triggered the stopping criterion")
            obs.count("missing artifacts")
            continue
        art = ArtifactTemplate(bool(v) if case["dist"] == "bits" else v)
        got = res.add_artifact(s, art, compute)
        hist[s].append(v)
        history.append((s, v))
        k = len(hist[s])
        obs.count("artifacts")
        h = np.array(hist[s])
        std = np.std(h, ddof=1) if k > 1 else 0.0
        if got:
            obs.count("stopping decisions")
            obs.check(compute, "decision-uncalled", "stopping was decided although no confidence was requested")
            obs.check(k >= case["min"], "decision-early", f"stopping decided after {k} of at least {case['min']} samples")
            if std > 1e-6 * max(1.0, abs(h).max()):
                p = 2 * (1 - norm.cdf(np.sqrt(k) * case["tol"] / std))
                obs.check(p <= case["conf"] + 1e-6, "decision-unfounded",
                          f"stopping decided at error probability {p:.4g} > {case['conf']} after {k} samples")
        elif compute and k % case["min"] == 0 and std > 1e-6 * max(1.0, abs(h).max()):
            p = 2 * (1 - norm.cdf(np.sqrt(k) * case["tol"] / std))
            obs.count("withheld decisions")
            obs.check(p >= case["conf"] - 1e-6, "decision-withheld",
                      f"stopping withheld at error probability {p:.4g} < {case['conf']} after {k} samples")

    ref = np.full(shape, np.nan)
    for s in sections:
        if hist[s]:
            ref[s] = np.mean(hist[s])

    def same(res, tag):
        arr = np.asarray(res.to_array())
        obs.check(arr.shape == shape, tag, f"shape {arr.shape}")
        obs.check(np.array_equal(np.isnan(arr), np.isnan(ref)), tag, "sections without artifacts")
        obs.close(np.nan_to_num(arr), np.nan_to_num(ref), tag, "mean of the artifacts", rtol=1e-9, atol=1e-9)
        est = res.runtime_estimates()
        obs.check(np.array_equal(np.nan_to_num(est, nan=-7.0), np.nan_to_num(arr, nan=-7.0)), tag, "runtime estimates differ from the results")

    same(res, "mean")
    same(res, "mean-repeat")
    # Another arrival order
    other = ev.initialize_result(grid_of(shape))
    for i in r.permutation(len(history)):
        other.add_artifact(history[i][0], ArtifactTemplate(history[i][1]), bool(r.integers(2)))
    same(other, "mean-permuted")
    for s in sections:
        if hist[s]:
            obs.check(res.to_str(s) == f"{np.asarray(res.to_array())[s]:.2g}", "printed", f"section {s} is printed as {res.to_str(s)}")
    obs.sig("histories", (shape, case["dist"], case["n"] // 10, case["min"]))


# ---------------------------------------------------------------------------
def gen_plot(rng):
    return dict(shape=[rint(rng, 1, 4) for _ in range(rint(rng, 1, 3))], conf=1.0, tol=0.0, min=2, surface=rng.random() < 0.3,
                n=rint(rng, 10, 60), seed=seed(rng))


def run_plot(case, obs):
    import matplotlib.pyplot as plt
    from hermespy.core.pymonte.artifact import ArtifactTemplate

    r = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    ev = scalar_evaluator(case)
    grid = grid_of(shape)
    res = ev.initialize_result(grid)
    sections = list(np.ndindex(shape))
    for s in sections:
        for v in r.uniform(0.1, 1, rint(r, 1, 4)):
            res.add_artifact(s, ArtifactTemplate(float(v)))
    arr = np.asarray(res.to_array())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        vis = res.visualize()
    try:
        ax = vis.axes[0, 0]
        if len(shape) == 2 and case["surface"]:
            obs.count("surfaces")
            surf = ax.collections[-1]
            obs.check((ax.get_xlabel(), ax.get_ylabel()) == (grid[0].title, grid[1].title), "plot-surface-labels", "axis labels")
            if min(shape) > 1:
                z = np.asarray(surf._vec)[2] if hasattr(surf, "_vec") else None
                if z is not None:
                    obs.close([z.min(), z.max()], [arr.min(), arr.max()], "plot-surface", "surface heights")
            return
        lines = list(vis.lines[0, 0])
        rest = list(np.ndindex(shape[1:]))
        obs.check(len(lines) == len(rest), "plot-lines", f"{len(lines)} lines for {len(rest)} parameter combinations")
        obs.check(ax.get_xlabel() == grid[0].title, "plot-labels", f"abscissa is labelled {ax.get_xlabel()}")
        for line, idx in zip(lines, rest):
            obs.close(np.asarray(line.get_xdata(), float), [p.value for p in grid[0].sample_points], "plot-abscissa", "abscissa")
            obs.close(np.asarray(line.get_ydata(), float), arr[(slice(None),) + idx], "plot-ordinate", f"line of combination {idx}")
            if idx:
                label = ", ".join(f"{grid[i + 1].title} = {grid[i + 1].sample_points[v].title}" for i, v in enumerate(idx))
                obs.check(line.get_label() == label, "plot-legend", f"line is labelled {line.get_label()!r} instead of {label!r}")
            obs.count("plotted lines")
    finally:
        plt.close("all")


# ---------------------------------------------------------------------------
def gen_radar(rng):
    return dict(shape=[rint(rng, 1, 3) for _ in range(pick(rng, [0, 1, 2]))], n=rint(rng, 0, 40), thresholds=pick(rng, [2, 5, 11, 101]),
                seed=seed(rng), ties=rng.random() < 0.3, kind=pick(rng, ["roc", "rmse"]))


def run_radar(case, obs):
    import matplotlib.pyplot as plt
    from hermespy.radar.evaluators import RocArtifact, RocEvaluationResult, RootMeanSquareArtifact, RootMeanSquareErrorResult

    r = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    sections = list(np.ndindex(shape))
    hist = {s: [] for s in sections}
    if case["kind"] == "roc":
        T = case["thresholds"]
        res = RocEvaluationResult(grid_of(shape), None, T)
        for _ in range(case["n"]):
            s = sections[int(r.integers(len(sections)))]
            h0, h1 = r.exponential(1.0), r.exponential(2.0) + 0.3
            if case["ties"]:
                h0, h1 = np.round(h0), np.round(h1)
            obs.check(not res.add_artifact(s, RocArtifact(float(h0), float(h1))), "roc-decision", "curve results never stop")
            hist[s].append((h0, h1))
            obs.count("roc artifacts")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            arr = np.asarray(res.to_array())
            again = np.asarray(res.to_array())
        obs.check(arr.shape == shape + (T, 2), "roc-shape", f"shape {arr.shape}")
        obs.check(np.array_equal(arr, again, equal_nan=True), "roc-repeat", "a second query differs")
        for s in sections:
            if not hist[s]:
                obs.check(np.all(np.isnan(arr[s])), "roc-empty", "a section without artifacts reports a curve")
                continue
            h = np.array(hist[s])
            th = np.linspace(h.min(), h.max(), T)
            ref = np.array([[np.mean(h[:, 1] >= t), np.mean(h[:, 0] >= t)] for t in th])
            obs.close(arr[s], ref, "roc-curve", f"detection and false alarm shares of section {s}")
            obs.check(np.all(np.diff(arr[s], axis=0) <= 1e-12), "roc-monotone", "the curve is not monotone")
            obs.count("curves")
        if all(hist.values()):
            vis = res.visualize()
            try:
                for s, line in zip(sections, vis.lines[0, 0]):
                    x, y = np.asarray(line.get_xdata()), np.asarray(line.get_ydata())
                    obs.check(x.shape == (T,) and np.allclose(x, arr[s][:, 1]), "roc-plot", "plotted false alarm probabilities")
                    obs.check(y.shape == (T,) and np.allclose(y, arr[s][:, 0]), "roc-plot", "plotted detection probabilities")
                    obs.count("plotted curves")
            finally:
                plt.close("all")
        return
    res = RootMeanSquareErrorResult(grid_of(shape), None)
    for _ in range(case["n"]):
        s = sections[int(r.integers(len(sections)))]
        k = int(r.integers(0, 5))
        e = float(np.sum(r.exponential(2.0, k)))
        a = RootMeanSquareArtifact(k, e)
        if k:
            obs.close(a.to_scalar(), np.sqrt(e / k), "rmse-artifact", "scalar of an error artifact")
        res.add_artifact(s, a)
        hist[s].append((k, e))
        obs.count("rmse artifacts")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        arr = np.asarray(res.to_array())
        obs.check(np.array_equal(arr, res.runtime_estimates(), equal_nan=True), "rmse-runtime", "runtime estimates")
    for s in sections:
        k, e = sum(a for a, _ in hist[s]), sum(b for _, b in hist[s])
        if k == 0:
            obs.check(np.isnan(arr[s]), "rmse-empty", "a section without errors reports a value")
        else:
            obs.close(arr[s], np.sqrt(e / k), "rmse", f"root mean square error of section {s}")
            obs.count("root mean squares")


# ---------------------------------------------------------------------------
def gen_signals(rng):
    return dict(shape=[rint(rng, 1, 3) for _ in range(pick(rng, [0, 1, 2]))], n=rint(rng, 0, 12), streams=rint(rng, 1, 3),
                samples=rint(rng, 1, 20), vary=rng.random() < 0.5, seed=seed(rng))


def run_signals(case, obs):
    from hermespy.core import Signal
    from hermespy.core.evaluators import ExtractedSignals, SignalExtraction

    r = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    sections = list(np.ndindex(shape))
    res = ExtractedSignals(grid_of(shape))
    hist = {s: [] for s in sections}
    for _ in range(case["n"]):
        s = sections[int(r.integers(len(sections)))]
        m = int(r.integers(1, case["samples"] + 1)) if case["vary"] else case["samples"]
        k = int(r.integers(1, case["streams"] + 1)) if case["vary"] else case["streams"]
        x = r.normal(size=(k, m)) + 1j * r.normal(size=(k, m))
        obs.check(not res.add_artifact(s, SignalExtraction(Signal.Create(x.copy(), 1.0))), "signals-decision", "extractions never stop")
        hist[s].append(x)
        obs.count("signals")
    arr = np.asarray(res.to_array())
    n = max([len(h) for h in hist.values()] + [0])
    k = max([x.shape[0] for h in hist.values() for x in h] + [0])
    m = max([x.shape[1] for h in hist.values() for x in h] + [0])
    obs.check(arr.shape == shape + (n, k, m), "signals-shape", f"shape {arr.shape}")
    for s in sections:
        ref = np.zeros((n, k, m), complex)
        for i, x in enumerate(hist[s]):
            ref[i, : x.shape[0], : x.shape[1]] = x
        obs.close(arr[s], ref, "signals", f"extracted signals of section {s}")


FAMILIES = [
    Family("scalar", gen_scalar, run_scalar, quick=800, require=("artifacts", "stopping decisions", "withheld decisions")),
    Family("plot", gen_plot, run_plot, quick=60, require=("plotted lines",)),
    Family("radar", gen_radar, run_radar, quick=200, require=("curves", "root mean squares", "plotted curves")),
    Family("signals", gen_signals, run_signals, quick=100, require=("signals",)),
]
