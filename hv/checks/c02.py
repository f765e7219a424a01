"""Superposition is exact addition and never disturbs the added signal."""
import numpy as np
from hv.runner import Family
from hv.ref import arr, dense_of, layout, nd, pick, rint, seed, snapshot, trim
from hv.checks.c01 import make_sparse
from hermespy.core import DenseSignal, Signal, SparseSignal, SignalBlock

PROPERTY = "C02"
RULE = ("chains of 1-4 superpositions of random dense/block signals with integer-sample delays, stream selections and "
        "lengths onto a dense or block receiver, compared sample by sample with plain matrix addition; band-limited tones for "
        "carrier offsets and resampling; distinct = distinct (storages, stream counts, selections, delays) signatures")
ASSUMPTIONS = ["added signals starting earlier than the receiving signal are cut, as documented by superimpose()",
               "carrier mixing is a 257-tap band-pass followed by a frequency shift: judged on tones away from the band edge, up to one constant phase"]


def build(kind, samples, lay, meta, total=None):
    if kind == "sparse":
        return make_sparse(samples, lay, meta)
    return DenseSignal.FromNDArray(dense_of(samples, lay, total), *meta)


def gen_add(rng):
    T = rint(rng, 1, 4)
    base_delay = rint(rng, 0, 6)
    adds = []
    for _ in range(rint(rng, 1, 4)):
        mode = pick(rng, ["all", "all", "subset", "subset", "full"])
        idx = [int(x) for x in rng.permutation(T)[: rint(rng, 1, T)]] if mode == "subset" else None
        adds.append({"kind": pick(rng, ["dense", "sparse"]), "layout": layout(rng), "seed": seed(rng), "idx": idx,
                     "streams": T if mode != "subset" else len(idx), "delay": rint(rng, 0, 12), "slice": mode == "full" and bool(rng.random() < .5)})
    return {"streams": T, "kind": pick(rng, ["dense", "sparse", "empty_dense", "empty_sparse"]), "layout": layout(rng), "seed": seed(rng),
            "fs": float(2.0 ** rint(rng, 0, 30)), "fc": pick(rng, [0.0, 1e9]), "delay": base_delay, "adds": adds}


def run_add(case, obs):
    fs, T = case["fs"], case["streams"]
    lay = case["layout"]
    meta = [fs, case["fc"], 0.125, case["delay"] / fs]
    raw = arr(case["seed"], T, sum(l for _, l in lay))
    kind = case["kind"]
    if kind == "empty_dense":
        sig, R = Signal.Empty(fs, T, carrier_frequency=case["fc"], noise_power=.125, delay=meta[3]), np.zeros((T, 0), complex)
        adopt = True
    elif kind == "empty_sparse":
        sig, R = SparseSignal.Empty(fs, T, carrier_frequency=case["fc"], noise_power=.125, delay=meta[3]), np.zeros((T, 0), complex)
        adopt = False
    else:
        sig, R = build(kind, raw, lay, meta), dense_of(raw, lay)
        adopt = False
    d0 = case["delay"]
    sparse = "sparse" in kind
    kept = []
    for a in case["adds"]:
        araw = arr(a["seed"], a["streams"], sum(l for _, l in a["layout"]))
        A = dense_of(araw, a["layout"])
        ad = build(a["kind"], araw, a["layout"], [fs, case["fc"], 0.5, a["delay"] / fs])
        snap = snapshot(ad)
        before = snapshot(sig)
        idx = a["idx"]
        ind = slice(None) if a["slice"] and not sparse else idx
        out = sig.superimpose(ad, stream_indices=ind)
        obs.equal(snapshot(ad), snap, "added_modified", "superimpose modified the added signal", kind=kind, added=a["kind"])
        kept.append((ad, snap))
        if adopt:
            # an empty dense signal inherits the timing of what is added first
            d0, adopt = a["delay"], False
        rows = list(range(a["streams"])) if idx is None else idx
        sh = a["delay"] - d0
        if sh < 0:
            A, sh = A[:, -sh:], 0
        n = max(R.shape[1], sh + A.shape[1] if A.shape[1] else 0)
        N = np.zeros((T, n), complex)
        N[:, : R.shape[1]] = R
        if A.shape[1]:
            N[rows, sh:sh + A.shape[1]] += A
        got = nd(out)
        ref = N
        if sparse or n == 0:
            got, ref = trim(got), trim(ref)
            if got.size == 0 and ref.size == 0:
                ref = got
        if got.shape != ref.shape and got.shape[0] == ref.shape[0]:
            # trailing zero padding carries no content
            got, ref = trim(got), trim(ref)
        obs.close(got, ref, f"superposition:{kind}:{a['kind']}", "superimposed samples", rtol=1e-12,
                  idx=idx, shift=a["delay"] - d0)
        obs.equal(out.sampling_rate, fs, "sampling_rate")
        obs.equal(out.carrier_frequency, case["fc"], "carrier_frequency")
        if N.size and N.any():
            obs.close(out.delay, d0 / fs, "delay", rtol=1e-12)
        # an operand which was itself an added signal must not be written to afterwards
        for k, s in kept:
            obs.equal(snapshot(k), s, "alias", "a later superposition modified an earlier added signal")
        sig, R = out, N if not sparse else N[:, : out.num_samples] if out.num_samples <= n else N
        if R.shape[1] < out.num_samples:
            R = np.concatenate((R, np.zeros((T, out.num_samples - R.shape[1]))), 1)
        elif R.shape[1] > out.num_samples:
            R = R[:, : out.num_samples]
        obs.count("superpositions")
        if idx is not None:
            obs.count("selected")
        if sh:
            obs.count("delayed")
        if sig.num_streams == 0:
            return
    obs.sig(kind, T, [(a["kind"], a["idx"], a["delay"]) for a in case["adds"]])


def gen_mix(rng):
    # tone well inside both bands
    off = float(rng.uniform(-0.3, 0.3))
    return {"off": off, "tone": float(rng.uniform(-0.1, 0.1) - off / 2), "n": rint(rng, 900, 1400), "T": rint(rng, 1, 3), "far": bool(rng.random() < .25),
            "kind": pick(rng, ["dense", "sparse"]), "self": pick(rng, ["dense", "sparse"]), "fs": float(10 ** rng.uniform(0, 8)), "seed": seed(rng),
            "cut": rint(rng, 300, 600), "gap": rint(rng, 1, 40), "ratio": float(round(10 ** rng.uniform(.7, 6)))}


def run_mix(case, obs):
    """A tone at carrier fc+off appears shifted by off, with unchanged magnitude, and vanishes if out of band."""
    fs, n, T = case["fs"], case["n"], case["T"]
    fc = case["ratio"] * fs
    off = case["off"] * fs if not case["far"] else 1.6 * fs * np.sign(case["off"])
    t = np.arange(n)
    x = np.exp(2j * np.pi * case["tone"] * t)[None, :] * (1 + np.arange(T))[:, None]
    x[:, case["cut"]:case["cut"] + case["gap"]] = 0
    own = arr(case["seed"], T, n)
    def mk(kind, y, f):
        if kind == "dense":
            return DenseSignal.FromNDArray(y.copy(), fs, f)
        c, g = case["cut"], case["gap"]
        return make_sparse(np.concatenate((y[:, :c], y[:, c + g:]), 1), [[0, c], [c + g, n - c - g]], [fs, f, 0., 0.])
    own[:, case["cut"]:case["cut"] + case["gap"]] = 0
    base = mk(case["self"], own, fc)
    added = mk(case["kind"], x, fc + off)
    snap = snapshot(added)
    out = nd(base.superimpose(added))
    obs.equal(snapshot(added), snap, "mix:added_modified")
    delta = out[:, :n] - own
    inner = np.r_[140:case["cut"] - 140, case["cut"] + case["gap"] + 140:n - 140]
    if case["far"]:
        obs.check(np.max(np.abs(delta[:, inner])) < 1e-2, "mix:out_of_band", got=float(np.max(np.abs(delta[:, inner]))))
        obs.count("out_of_band")
    else:
        expect = x * np.exp(2j * np.pi * case["off"] * t)[None, :]
        r = delta[:, inner] / expect[:, inner]
        ph = np.mean(r)
        obs.check(abs(abs(ph) - 1) < 2e-2 and np.max(np.abs(r - ph)) < 5e-2, "mix:shift", "carrier offset is not an exact frequency shift",
                  mean=ph, dev=float(np.max(np.abs(r - ph))), off=case["off"], tone=case["tone"])
        obs.count("in_band")
    # storage independence
    other = nd(mk("dense" if case["self"] == "sparse" else "sparse", own, fc).superimpose(mk("dense" if case["kind"] == "sparse" else "sparse", x, fc + off)))
    m = min(out.shape[1], other.shape[1])
    obs.close(other[:, :m], out[:, :m], "mix:storage", "outcome depends on storage", rtol=1e-9)
    obs.sig(case["kind"], case["self"], T, round(case["off"], 1), case["far"])


def gen_res(rng):
    up = pick(rng, [2, 3, 4, 1.5, 2.5, 1.25])
    return {"ratio": float(up if rng.random() < .6 else 1 / up), "T": rint(rng, 1, 3), "n": 1200, "tones": [float(x) for x in rng.uniform(-0.15, 0.15, 3)],
            "fs": float(10 ** rng.uniform(0, 9)), "kind": pick(rng, ["dense", "sparse"]), "filter": bool(rng.random() < .5), "seed": seed(rng)}


def run_res(case, obs):
    fs, n, q, T = case["fs"], case["n"], case["ratio"], case["T"]
    tones = [f * min(1, q) for f in case["tones"]]
    w = np.exp(-0.5 * ((np.arange(n) - n / 2) / (n / 9)) ** 2)  # smooth window: band-limited and zero at the edges
    x = np.zeros((T, n), complex)
    for k, f in enumerate(tones):
        x += (1 + k) * np.exp(2j * np.pi * (f * np.arange(n)) + 1j * np.arange(T)[:, None]) * w
    meta = [fs, 7e9, .25, 3e-3]
    s = DenseSignal.FromNDArray(x.copy(), *meta) if case["kind"] == "dense" else make_sparse(x, [[0, n]], meta)
    snap = snapshot(s)
    y = s.resample(fs * q, aliasing_filter=case["filter"])
    obs.equal(snapshot(s), snap, "resample:modified")
    obs.close(y.sampling_rate, fs * q, "resample:rate")
    obs.check(abs(y.duration - n / fs) <= 1 / (fs * min(q, 1)), "resample:duration", got=y.duration, expected=n / fs)
    for nm, v in zip(("carrier_frequency", "noise_power", "delay"), meta[1:]):
        obs.equal(getattr(y, nm), v, f"resample:{nm}")
    m = y.num_samples
    tt = np.arange(m) / q
    w2 = np.exp(-0.5 * ((tt - n / 2) / (n / 9)) ** 2)
    z = np.zeros((T, m), complex)
    for k, f in enumerate(tones):
        z += (1 + k) * np.exp(2j * np.pi * (f * tt) + 1j * np.arange(T)[:, None]) * w2
    got = nd(y)
    obs.check(np.max(np.abs(got - z)) < 0.08 * np.max(np.abs(z)), "resample:content", "resampled content differs",
              err=float(np.max(np.abs(got - z)) / np.max(np.abs(z))), ratio=q, filter=case["filter"])
    # superimposing a signal of another rate onto a receiver adds its resampled content
    base = DenseSignal.Zeros(T, m, fs * q, meta[1], 0., meta[3])
    obs.close(nd(base.superimpose(s, aliasing_filter=case["filter"]))[:, :m], got, "resample:superimpose", rtol=1e-9)
    base = SparseSignal([SignalBlock(T, m, 0, np.ones((T, m), complex).tobytes())], fs * q, meta[1], 0., meta[3])
    obs.close(nd(base.superimpose(s, aliasing_filter=case["filter"]))[:, :m] - 1, got, "resample:superimpose_sparse", rtol=1e-9)
    obs.raises(lambda: base.superimpose(s, resample=False), "resample:forbidden", "resampling although not allowed")
    obs.count("resampled")
    obs.sig(q, T, case["kind"], case["filter"])


FAMILIES = [
    Family("addition", gen_add, run_add, quick=5000, require=("superpositions", "selected", "delayed")),
    Family("mixing", gen_mix, run_mix, quick=300, require=("in_band", "out_of_band")),
    Family("resampling", gen_res, run_res, quick=300, require=("resampled",)),
]
