"""Decibel and linear representations agree everywhere."""
import copy, pickle
import numpy as np
from hv.runner import Family
from hv.ref import pick, rint, seed
from hermespy.core import dB, GridDimension, Logarithmic, LogarithmicSequence, SamplePoint, ValueType
from hermespy.simulation import N0, SNR, SimulatedDevice, ThermalNoise
from hermespy.tools import db2lin, lin2db, DbConversionType

PROPERTY = "C28"
RULE = ("random levels between -150 and +150 dB in power and amplitude convention through scalars, tuples, sequences, arithmetic, item "
        "assignment, slicing, in-place operations, pickling and parameter grids, compared with 10*log10 / 20*log10; distinct = distinct (construction, operation, convention) signatures")
ASSUMPTIONS = ["only positive numbers have a decibel representation"]
CONV = {"P": (DbConversionType.POWER, 10.0), "A": (DbConversionType.AMPLITUDE, 20.0)}


def level(rng):
    return float(pick(rng, [rng.uniform(-150, 150), rint(rng, -60, 60), 0.0, 3.0]))


def same(obs, x, lin, conv, mech, what):
    """x represents the linear number lin."""
    c, f = CONV[conv]
    obs.close(float(x), lin, mech + "_linear", what, rtol=1e-9, atol=0)
    obs.check(isinstance(x, Logarithmic), mech + "_type", f"{what}: {type(x)} is not logarithmic")
    obs.close(x.value_db, f * np.log10(lin), mech + "_db", what, rtol=1e-9, atol=1e-7, conversion=conv)
    obs.equal(x.conversion, c, mech + "_conversion", what)


def gen_scalar(rng):
    return {"a": level(rng), "b": level(rng), "k": float(10 ** rng.uniform(-3, 3)), "conv": pick(rng, ["P", "A"])}


def run_scalar(case, obs):
    conv = case["conv"]
    c, f = CONV[conv]
    a, b = case["a"], case["b"]
    la, lb = 10 ** (a / f), 10 ** (b / f)
    obs.sig("scalar", conv, a > 0, b > 0, a == int(a))
    A = Logarithmic(a, ValueType.DB, c)
    B = Logarithmic(lb, ValueType.LIN, c)
    same(obs, A, la, conv, "from_db", "value in decibel")
    same(obs, B, lb, conv, "from_linear", "linear value")
    same(obs, dB(a, conversion=c), la, conv, "shorthand", "dB()")
    same(obs, Logarithmic.From_Tuple(la, a, c), la, conv, "from_tuple", "tuple")
    same(obs, pickle.loads(pickle.dumps(A)), la, conv, "pickle", "pickled value")
    same(obs, copy.deepcopy(B), lb, conv, "copy", "copied value")
    obs.close(db2lin(a, c), la, "db2lin", "db2lin", rtol=1e-9, atol=0)
    obs.close(lin2db(lb, c), b, "lin2db", "lin2db", rtol=1e-9, atol=1e-7)
    obs.close(db2lin(np.array([a, b]), c), np.array([la, lb]), "db2lin", "db2lin of an array", rtol=1e-9, atol=0)
    same(obs, A + B, la + lb, conv, "sum", "sum")
    same(obs, A * B, la * lb, conv, "product", "product")
    same(obs, A / B, la / lb, conv, "quotient", "quotient")
    if la > lb * 1.001:
        same(obs, A - B, la - lb, conv, "difference", "difference")
    elif lb > la:
        obs.raises(lambda: A - B, "negative_difference", "negative power was given a decibel value", exceptions=(ValueError,))
    k = case["k"]
    for got, ref, n in ((A + k, la + k, "+"), (k + A, la + k, "+"), (A * k, la * k, "*"), (k * A, la * k, "*"), (A / k, la / k, "/"), (k / A, k / la, "/"), (A - k, la - k, "-"),
                        (A ** 2, la ** 2, "**"), (np.sqrt(A), np.sqrt(la), "sqrt"), (-A, -la, "neg")):
        obs.close(float(got), ref, "mixed_arithmetic", f"arithmetic {n} with a plain number", rtol=1e-9, atol=1e-300)
        if isinstance(got, Logarithmic):
            same(obs, got, ref, conv, "mixed_arithmetic", n)
    obs.equal((A > B, A < B), (la > lb, la < lb) if a != b else (A > B, A < B), "order", "order of levels")
    for bad in (0.0, -1.0):
        obs.raises(lambda: Logarithmic(bad, ValueType.LIN, c), "nonpositive", "non-positive number was given a decibel value", exceptions=(ValueError,))
    obs.count("scalars")


def gen_seq(rng):
    ops = []
    for _ in range(rint(rng, 1, 6)):
        ops.append({"op": pick(rng, ["set", "setlog", "setother", "scale", "inplace", "slice", "reverse", "pickle", "copy", "add", "neg_index", "mask"]), "i": rint(rng, 0, 20), "v": level(rng),
                    "k": float(10 ** rng.uniform(-2, 2))})
    return {"v": [level(rng) for _ in range(rint(rng, 1, 8))], "conv": pick(rng, ["P", "A"]), "how": pick(rng, ["db", "lin", "args", "list", "tuple", "nparray"]), "ops": ops}


def run_seq(case, obs):
    conv = case["conv"]
    c, f = CONV[conv]
    lin = [10 ** (v / f) for v in case["v"]]
    how = case["how"]
    if how == "db":
        s = LogarithmicSequence(case["v"], ValueType.DB, c)
    elif how == "lin":
        s = LogarithmicSequence(lin, ValueType.LIN, c)
    elif how == "args":
        if len(lin) < 2:
            s = dB(case["v"], conversion=c)
        else:
            s = dB(*case["v"], conversion=c)
    elif how == "list":
        s = dB(list(case["v"]), conversion=c)
    elif how == "tuple":
        s = dB(tuple(case["v"]), conversion=c)
    else:
        s = LogarithmicSequence(np.array(case["v"]), ValueType.DB, c)

    def compare(tag):
        obs.equal(len(s), len(lin), "sequence_length", tag)
        obs.equal(s.conversion, c, "sequence_conversion", tag)
        obs.close(np.asarray(s).view(np.ndarray), np.array(lin), "sequence_linear", tag, rtol=1e-9, atol=0)
        for i, l in enumerate(lin):
            same(obs, s[i], l, conv, "sequence_item", f"{tag}, item {i}")
            same(obs, s[i - len(lin)], l, conv, "sequence_item", f"{tag}, item {i} from the end")
            same(obs, s[np.int64(i)], l, conv, "sequence_item", tag)
        for x, l in zip(s.tolist(), lin):
            same(obs, x, l, conv, "sequence_list", f"{tag}, list")
        for x, l in zip(s, lin):
            obs.close(float(x), l, "sequence_iteration", tag, rtol=1e-9, atol=0)

    compare(f"after construction by {how}")
    done = []
    for o in case["ops"]:
        i, n = o["i"] % len(lin), len(lin)
        v, k = 10 ** (o["v"] / f), o["k"]
        op = o["op"]
        lin = list(lin)
        if op == "set":
            s[i] = v
            lin[i] = v
        elif op == "neg_index":
            s[i - n] = v
            lin[i] = v
        elif op == "setlog":
            s[i] = Logarithmic(o["v"], ValueType.DB, c)
            lin[i] = v
        elif op == "setother":
            other = CONV["A" if conv == "P" else "P"]
            s[i] = Logarithmic(v, ValueType.LIN, other[0])
            lin[i] = v
        elif op == "scale":
            s = s * k
            lin = [x * k for x in lin]
        elif op == "inplace":
            s *= k
            lin = [x * k for x in lin]
        elif op == "add":
            s = s + s
            lin = [2 * x for x in lin]
        elif op == "slice":
            s = s[i:]
            lin = lin[i:]
        elif op == "reverse":
            s = s[::-1]
            lin = lin[::-1]
        elif op == "mask":
            m = np.arange(n) % 2 == i % 2
            if not m.any():
                continue
            s = s[m]
            lin = [x for x, y in zip(lin, m) if y]
        elif op == "pickle":
            s = pickle.loads(pickle.dumps(s))
        else:
            s = s.copy()
        if max(lin) > 1e100 or min(lin) < 1e-100:
            return
        done.append(op)
        obs.count("seq_" + op)
        compare("after " + ", ".join(done))
    obs.sig("sequence", conv, how, *done)


class Probe:
    level = 1.0
    log = None

    def set(self, x):
        self.log = x


def gen_grid(rng):
    return {"v": [level(rng) for _ in range(rint(rng, 1, 6))], "conv": pick(rng, ["P", "P", "A"]), "target": pick(rng, ["attr", "method", "n0", "snr", "thermal", "path"]),
            "how": pick(rng, ["seq", "list", "points"]), "order": [int(x) for x in rng.integers(0, 6, 8)]}


def run_grid(case, obs):
    c, f = CONV[case["conv"]]
    lin = [10 ** (v / f) for v in case["v"]]
    seq = LogarithmicSequence(case["v"], ValueType.DB, c)
    pts = seq if case["how"] == "seq" else (seq.tolist() if case["how"] == "list" else [SamplePoint(x) for x in seq.tolist()])
    p, t = Probe(), case["target"]
    dev = SimulatedDevice(bandwidth=1e6)
    if t == "attr":
        dim, get = GridDimension(p, "level", pts), lambda: p.level
    elif t == "method":
        dim, get = GridDimension(p, "set", pts), lambda: p.log
    elif t == "path":
        q = Probe()
        q.inner = p
        dim, get = GridDimension(q, "inner.level", pts), lambda: p.level
    else:
        dev.noise_level = N0(1.0) if t == "n0" else (ThermalNoise(290.0) if t == "thermal" else SNR(1.0, dev))
        dim, get = GridDimension(dev, "noise_level", pts), lambda: dev.noise_level.level
    if case["how"] == "seq":
        obs.equal(dim.plot_scale, "log", "grid_scale", "axis scale of a logarithmic sweep")
        obs.equal(dim.tick_format, ValueType.DB, "grid_ticks", "tick format of a logarithmic sweep")
    obs.equal(dim.num_sample_points, len(lin), "grid_points", "number of sample points")
    for i in case["order"]:
        i %= len(lin)
        dim.configure_point(i)
        obs.close(float(get()), lin[i], "grid_value", f"value configured for {case['v'][i]} dB at {t}", rtol=1e-9, atol=0)
        obs.close(float(dim.sample_points[i].value), lin[i], "grid_sample_value", "sample point value", rtol=1e-9, atol=0)
        if t == "n0":
            obs.close(dev.noise_level.get_power(2e6), lin[i] * 2e6, "noise_power", "power of a swept noise density", rtol=1e-9)
        if t == "snr":
            obs.close(dev.noise_level.get_power(1e6), dev.power / lin[i], "snr_noise_power", "noise power of a swept signal to noise ratio", rtol=1e-9)
            obs.close(float(dev.noise_level.snr), lin[i], "snr_value", "configured ratio", rtol=1e-9, atol=0)
        obs.count("points_configured")
    obs.sig("grid", t, case["how"], case["conv"])


FAMILIES = [
    Family("scalar", gen_scalar, run_scalar, quick=1500, require=("scalars",)),
    Family("sequence", gen_seq, run_seq, quick=2000, require=("seq_inplace", "seq_setother", "seq_pickle")),
    Family("grid", gen_grid, run_grid, quick=500, require=("points_configured",)),
]
