"""Dense and sparse signals are one and the same sample stream."""
import numpy as np
from hv.runner import Family, Skip
from hv.ref import arr, dense_of, layout, nd, pick, rint, seed, snapshot, trim
from hermespy.core import DenseSignal, Signal, SparseSignal, SignalBlock

PROPERTY = "C01"
RULE = ("random histories of up to 12 operations (append samples/streams, slice with positive, negative and stepped "
        "bounds, stream selection, assignment, scaling, copy, storage conversion, block iteration, same-rate resampling) "
        "applied in lock step to a DenseSignal, a SparseSignal of random block layout and a plain numpy matrix; "
        "distinct = distinct (operation sequence, storage layout) signatures with at least one non-empty signal")
ASSUMPTIONS = ["a sparse signal does not store trailing all-zero samples (documented by the existing tests), so "
               "comparisons of sparse signals ignore trailing zero columns"]

META = ("sampling_rate", "carrier_frequency", "noise_power", "delay")


def make_sparse(R_samples, lay, meta):
    blocks, k = [], 0
    for off, ln in lay:
        b = np.ascontiguousarray(R_samples[:, k:k + ln])
        blocks.append(SignalBlock(b.shape[0], ln, off, b.tobytes()))
        k += ln
    return SparseSignal(blocks, *meta)


def gen(rng):
    ops = []
    for _ in range(rint(rng, 1, 12)):
        ops.append([pick(rng, ["append", "append_sig", "streams", "streams_sig", "slice", "slice", "step", "select", "set", "set",
                               "mul", "copy", "convert", "iter", "resample", "setstreams"]), seed(rng)])
    return {"streams": rint(rng, 1, 4), "layout": layout(rng), "seed": seed(rng), "ops": ops, "special": seed(rng) if rng.random() < .4 else 0,
            "meta": [float(rng.uniform(1, 1e9)), float(rng.uniform(0, 1e10)), float(rng.uniform(0, 5)), float(rng.uniform(0, 1e-3))]}


def assert_same(obs, sig, R, meta, what, sparse, exact=True):
    A = nd(sig)
    if sparse:
        obs.check(sig.num_streams == R.shape[0] or trim(R).shape[1] == 0, f"{what}:streams", got=sig.num_streams, expected=R.shape[0])
        a, r = trim(A), trim(R)
        if a.shape[1] == 0 and r.shape[1] == 0:
            a = r
    else:
        a, r = A, R
        obs.equal(tuple(sig.shape), R.shape, f"{what}:shape", "shape")
        obs.equal(sig.num_samples, R.shape[1], f"{what}:num_samples")
    if exact:
        obs.equal(a, r, f"{what}:samples", what)
    else:
        obs.close(a, r, f"{what}:samples", what)
    for name, m in zip(META, meta):
        obs.equal(getattr(sig, name), m, f"{what}:{name}", name)
    # blocks tile the stream
    last = 0
    B = np.zeros(A.shape, complex)
    for b in sig.blocks:
        obs.check(b.offset >= last, f"{what}:block_order", offset=b.offset, last=last)
        last = b.offset + b.num_samples
        if b.num_samples:
            B[:, b.offset:last] = b.view(np.ndarray)
    obs.equal(B, A, f"{what}:blocks", "blocks reassemble the stream")
    obs.equal(list(sig.block_offsets), [b.offset for b in sig.blocks], f"{what}:block_offsets")
    obs.equal(sig.num_blocks, len(list(sig.blocks)), f"{what}:num_blocks")
    if A.size:
        E = np.sum(np.abs(A) ** 2, axis=1)
        obs.close(np.asarray(sig.energy), E, f"{what}:energy", "energy per stream")
        obs.close(np.asarray(sig.power), E / A.shape[1], f"{what}:power", "power per stream")
        obs.close(sig.duration, A.shape[1] / meta[0], f"{what}:duration", rtol=1e-12)
        obs.close(sig.timestamps, np.arange(A.shape[1]) / meta[0], f"{what}:timestamps")
        obs.close(sig.frequencies, np.fft.fftfreq(A.shape[1], 1 / meta[0]), f"{what}:frequencies")
        obs.count("nonempty")


def run(case, obs):
    meta = case["meta"]
    lay = case["layout"]
    T = case["streams"]
    raw = arr(case["seed"], T, sum(l for _, l in lay))
    if case["special"]:
        # columns that are zero, cancel over the streams or carry a single stream only
        sel = np.random.Generator(np.random.PCG64(case["special"])).integers(0, 5, raw.shape[1])
        raw[:, sel == 0] = 0
        if T > 1:
            raw[:, sel == 1] = 0
            raw[0, sel == 1], raw[1, sel == 1] = 1 + 2j, -1 - 2j
            raw[1:, sel == 2] = 0
        raw[:, -1] = 1
    R = dense_of(raw, lay)
    D = DenseSignal.FromNDArray(R.copy(), *meta)
    S = make_sparse(raw, lay, meta)
    RD, RS = R.copy(), R.copy()
    assert_same(obs, D, RD, meta, "init_dense", False)
    assert_same(obs, S, RS, meta, "init_sparse", True)
    hist = []
    for op, sd in case["ops"]:
        rng = np.random.Generator(np.random.PCG64(sd))
        hist.append(op)
        res = []
        for name, sig, ref in (("dense", D, RD), ("sparse", S, RS)):
            rng = np.random.Generator(np.random.PCG64(sd))
            before = snapshot(sig)
            streams, n = ref.shape
            tag = f"{op}_{name}"
            inplace = False
            other = None
            if n == 0 or streams == 0:
                res.append((sig, ref))
                continue
            if op == "append":
                v = arr(rng.integers(1 << 30), streams, rint(rng, 1, 9))
                out, new = sig.append_samples(v.copy()), np.concatenate((ref, v), 1)
            elif op == "append_sig":
                l2 = layout(rng, 3, 6, 4)
                v = arr(rng.integers(1 << 30), streams, sum(l for _, l in l2))
                other = make_sparse(v, l2, meta) if rng.random() < .5 else DenseSignal.FromNDArray(dense_of(v, l2), *meta)
                so = snapshot(other)
                out, new = sig.append_samples(other), np.concatenate((ref, dense_of(v, l2)), 1)
                obs.equal(snapshot(other), so, f"{tag}:appended_modified")
            elif op == "streams":
                v = arr(rng.integers(1 << 30), rint(rng, 1, 2), n)
                out, new = sig.append_streams(v.copy()), np.concatenate((ref, v), 0)
            elif op == "streams_sig":
                l2 = layout(rng, 3, 6, 4)
                while l2 and l2[-1][0] + l2[-1][1] > n:
                    l2.pop()
                if not l2:
                    res.append((sig, ref))
                    continue
                k = rint(rng, 1, 2)
                v = arr(rng.integers(1 << 30), k, sum(l for _, l in l2))
                if rng.random() < .5:
                    other = make_sparse(v, l2, meta)
                else:
                    other = DenseSignal.FromNDArray(dense_of(v, l2, n), *meta)
                so = snapshot(other)
                out, new = sig.append_streams(other), np.concatenate((ref, dense_of(v, l2, n)), 0)
                obs.equal(snapshot(other), so, f"{tag}:appended_modified")
            elif op == "slice":
                a, b = sorted((rint(rng, 0, n), rint(rng, 0, n)))
                form = rint(rng, 0, 4)
                sl = [slice(a, b), slice(None, b), slice(a, None), slice(a - n, None) if a < n else slice(n, None), slice(a, b - n) if b < n else slice(a, b)][form]
                new = ref[:, sl]
                out = sig[:, sl]
                tag += f"{form}"
            elif op == "step":
                a, b = sorted((rint(rng, 0, n), rint(rng, 0, n)))
                sl = slice(a, b, rint(rng, 2, 5))
                new, out = ref[:, sl], sig[:, sl]
            elif op == "select":
                kind = rint(rng, 0, 2)
                if kind == 0:
                    i = rint(rng, 0, streams - 1)
                    new, out = ref[[i], :], sig[i, :]
                elif kind == 1:
                    a, b = sorted((rint(rng, 0, streams), rint(rng, 0, streams)))
                    if a == b:
                        b = a + 1
                        if b > streams:
                            a, b = a - 1, a
                    new, out = ref[a:b, :], sig[a:b, :]
                else:
                    idx = [int(x) for x in rng.permutation(streams)[: rint(rng, 1, streams)]]
                    new, out = ref[idx, :], sig[idx, :]
                tag += f"{kind}"
            elif op in ("set", "setstreams"):
                a, b = sorted((rint(rng, 0, n), rint(rng, 0, n)))
                if a == b:
                    res.append((sig, ref))
                    continue
                s0, s1 = 0, streams
                if op == "setstreams":
                    s0 = rint(rng, 0, streams - 1)
                    s1 = rint(rng, s0 + 1, streams)
                v = arr(rng.integers(1 << 30), s1 - s0, b - a)
                new = ref.copy()
                new[s0:s1, a:b] = v
                sig[s0:s1, a:b] = v.copy()
                out, inplace = sig, True
            elif op == "mul":
                c = complex(rng.standard_normal(), rng.standard_normal())
                out, new = sig * c, ref * c
            elif op == "copy":
                out, new = sig.copy(), ref.copy()
            elif op == "convert":
                if name == "dense":
                    back = nd(SparseSignal(np.array(sig.view(np.ndarray)), *meta))
                    padded = np.zeros((streams, n), complex)
                    padded[: back.shape[0], : back.shape[1]] = back
                    out = DenseSignal.FromNDArray(padded, *meta)
                else:
                    out = SparseSignal(nd(sig), *meta)
                    obs.sig("layout", tuple((b.offset, b.num_samples) for b in out.blocks))
                new = ref
            elif op == "iter":
                rows = [nd(x) for x in sig] if name == "sparse" else [np.atleast_2d(np.asarray(x)) for x in sig.view(np.ndarray)]
                obs.equal(len(rows), streams, f"{tag}:count")
                for i, x in enumerate(rows):
                    if trim(ref[[i]]).shape[1] == 0:
                        x = x.reshape((1, -1)) if x.size == 0 else x
                    obs.equal(trim(x), trim(ref[[i]]), f"{tag}:row")
                out, new = sig, ref
            elif op == "resample":
                out, new = sig.resample(meta[0]), ref
            assert_same(obs, out, new, meta, tag, isinstance(out, SparseSignal) or name == "sparse", exact=op != "mul")
            if not inplace and out is not sig:
                obs.equal(snapshot(sig), before, f"{tag}:operand_modified", "operation modified its operand")
            if op == "copy":
                x = out
                if x.size if isinstance(x, DenseSignal) else x.num_blocks:
                    x.blocks[0].view(np.ndarray)[...] += 1
                    x.delay = meta[3] + 1
                    obs.equal(snapshot(sig), before, f"{tag}:aliased", "modifying a copy changed the original")
                out, new = sig, ref
            obs.count(op)
            if name == "sparse":
                # trailing zeros are not stored: continue from what is stored
                n2 = out.num_samples
                new = new[:, :n2]
                if isinstance(out, DenseSignal):
                    out = SparseSignal([out.view(SignalBlock)], *meta)
            res.append((out, new))
        (D, RD), (S, RS) = res
        if not isinstance(D, DenseSignal):
            D = D.to_dense()
    obs.sig(tuple(hist), tuple(S.block_offsets))


def gen_io(rng):
    return {"streams": rint(rng, 1, 3), "n": rint(rng, 1, 60), "seed": seed(rng), "scale": float(10 ** rng.uniform(-2, 2)), "dtype": pick(rng, ["int16", "int32"])}


def run_io(case, obs):
    """Interleaved integer conversion keeps the samples up to quantization and scale."""
    x = arr(case["seed"], case["streams"], case["n"]) * case["scale"]
    D = DenseSignal.FromNDArray(x.copy(), 1e6)
    dt = np.dtype(case["dtype"]).type
    before = snapshot(D)
    il = D.to_interleaved(dt)
    obs.equal(snapshot(D), before, "interleave:modified")
    obs.equal(il.shape, (x.shape[0], 2 * x.shape[1]), "interleave:shape")
    y = nd(Signal.FromInterleaved(il, sampling_rate=1e6))
    obs.close(y, x / np.max(np.abs(x)), "interleave:samples", rtol=0, atol=3 / np.iinfo(dt).max)
    obs.count("interleave")
    obs.sig(case["streams"], case["n"])


FAMILIES = [
    Family("history", gen, run, quick=6000, require=("nonempty", "append", "append_sig", "streams", "streams_sig", "slice", "step",
                                                      "select", "set", "setstreams", "mul", "copy", "convert", "iter", "resample")),
    Family("interleave", gen_io, run_io, quick=200, require=("interleave",)),
]
