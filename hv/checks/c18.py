"""Channel state information transforms are lossless and consistent."""
import numpy as np
from sparse import COO, GCXS
from hv.runner import Family
from hv.ref import arr, layout, nd, pick, rint, seed, snapshot
from hv.checks.c01 import make_sparse
from hermespy.core import ChannelStateDimension, ChannelStateFormat, ChannelStateInformation, DenseSignal

PROPERTY = "C18"
RULE = ("random channel tensors (1-4 receive and transmit streams, 1-20 samples, 1-8 taps, with vanishing entries) stored dense, as coordinate or compressed sparse tensors, "
        "in both formats, driven through random sequences of conversions, slices, assignments, concatenations and applications to dense and sparse signals, compared with plain "
        "tensor algebra; distinct = distinct (storage, format, operation sequence, stream relation) signatures")
ASSUMPTIONS = ["frequency conversions request at least as many bins as there are delay taps", "sparse tensors are not assigned in place"]
IR, FS = ChannelStateFormat.IMPULSE_RESPONSE, ChannelStateFormat.FREQUENCY_SELECTIVITY
STORE = {"dense": lambda x: x.copy(), "coo": COO.from_numpy, "gcxs": GCXS.from_numpy}


def gen(rng):
    shape = [rint(rng, 1, 4), rint(rng, 1, 4), rint(rng, 1, 20), rint(rng, 1, 8)]
    ops = []
    for _ in range(rint(rng, 1, 6)):
        op = pick(rng, ["freq", "freq", "ir", "ir", "linear", "propagate", "reciprocal", "slice", "slice", "samples", "streams", "concat", "set", "state"])
        ops.append([op, seed(rng)])
    return {"shape": shape, "seed": seed(rng), "store": pick(rng, ["dense", "dense", "coo", "gcxs"]), "format": pick(rng, ["ir", "ir", "fs"]), "zeros": float(pick(rng, [0, .5, .9])), "ops": ops}


def dense(csi):
    s = csi.state
    return np.array(s.todense() if hasattr(s, "todense") else s)


def compare(obs, csi, H, fmt, taps, mech, what):
    obs.equal(csi.state_format, fmt, mech + "_format", what)
    obs.equal(tuple(csi.state.shape), H.shape, mech + "_shape", what)
    obs.close(dense(csi), H, mech, what, rtol=1e-9, atol=1e-11)
    obs.close(np.array(csi.dense_state()), H, mech, what + " (dense)", rtol=1e-9, atol=1e-11)
    obs.equal((csi.num_receive_streams, csi.num_transmit_streams, csi.num_samples), H.shape[:3], mech + "_dims", what)
    obs.equal(csi.num_symbols, H.shape[2] * (1 if fmt == IR else H.shape[3]), mech + "_symbols", what)
    if taps is not None:
        obs.equal(csi.num_delay_taps, taps, mech + "_taps", what)


def rand_index(r, shape):
    key, plain = [], []
    for n in shape[:int(r.integers(1, 5))]:
        k = int(r.integers(0, 4))
        if k == 0:
            i = int(r.integers(-n, n))
            key.append(i if r.random() < .7 else np.int64(i))
            plain.append(slice(i % n, i % n + 1))
        elif k == 1:
            a, b = sorted(r.integers(0, n + 1, 2).tolist())
            b = max(b, a + 1) if a < n else n
            a = min(a, n - 1)
            key.append(slice(a, b))
            plain.append(slice(a, b))
        elif k == 2:
            key.append(slice(None, None, int(r.integers(1, 3))))
            plain.append(key[-1])
        else:
            key.append(slice(None))
            plain.append(slice(None))
    if len(key) == 1 and r.random() < .5:
        return key[0], tuple(plain)
    return tuple(key), tuple(plain)


def run(case, obs):
    H = arr(case["seed"], *case["shape"])
    r0 = np.random.default_rng(case["seed"])
    if case["zeros"]:
        H = H * (r0.random(H.shape) > case["zeros"])
    fmt = IR if case["format"] == "ir" else FS
    store = case["store"]
    csi = ChannelStateInformation(fmt, STORE[store](H))
    taps = H.shape[3]  # number of delay taps of the impulse response
    obs.sig(store, case["format"], tuple(o for o, _ in case["ops"]), np.sign(case["shape"][0] - case["shape"][1]), case["zeros"] > 0)
    compare(obs, csi, H, fmt, taps, "construct", "new channel state")
    for op, sd in case["ops"]:
        r = np.random.default_rng(sd)
        R, T, S, L = H.shape
        obs.count(op)
        if op == "freq":
            bins = None if r.random() < .5 else taps + int(r.integers(0, 6))
            back = csi.to_frequency_selectivity(bins) if bins is not None else csi.to_frequency_selectivity()
            obs.check(back is csi, "conversion_self", "conversion must return the state itself")
            if fmt == IR:
                n = csi.state.shape[3]
                obs.check(n >= L and (bins is None or n == bins), "bin_count", "unexpected number of frequency bins", n=n, bins=bins, taps=L)
                H = np.einsum("ijkl,lf->ijkf", H, np.exp(-2j * np.pi * np.outer(np.arange(L), np.arange(n)) / n))
                fmt = FS
            compare(obs, csi, H, fmt, taps, "to_frequency", "frequency response")
        elif op == "ir":
            csi.to_impulse_response()
            if fmt == FS:
                H = np.einsum("ijkf,fl->ijkl", H, np.exp(2j * np.pi * np.outer(np.arange(L), np.arange(taps)) / L) / L)
                fmt = IR
            compare(obs, csi, H, fmt, taps, "to_impulse", "impulse response")
        elif op == "linear":
            lin = np.array(csi.linear.todense())
            if fmt == IR:
                ref = np.zeros((R, T, S + L - 1, S), complex)
                for s in range(S):
                    for l in range(L):
                        ref[:, :, s + l, s] = H[:, :, s, l]
            else:
                ref = np.zeros((R, T, S * L, S * L), complex)
                for k in range(S * L):
                    ref[:, :, k, k] = H.reshape(R, T, -1)[:, :, k]
            obs.close(lin, ref, "linear", "linear operator", rtol=1e-9, atol=1e-12, shape=H.shape, store=store)
        elif op == "propagate":
            G = H if fmt == IR else np.einsum("ijkf,fl->ijkl", H, np.exp(2j * np.pi * np.outer(np.arange(L), np.arange(taps)) / L) / L)
            if r.random() < .3:
                lay = layout(r, 3, max(1, S // 3), 2)
                while lay[-1][0] + lay[-1][1] > S:
                    lay = [[0, S]]
                sig = make_sparse(arr(sd, T, sum(b for _, b in lay)), lay, (1e6, 1e9, .1, .02))
                obs.count("propagate_sparse")
            else:
                n = int(r.integers(1, S + 1))
                sig = DenseSignal.FromNDArray(arr(sd, T, n), 1e6, 1e9, .1, .02)
            x = nd(sig)
            before = snapshot(sig)
            out = csi.propagate(sig)
            obs.equal(snapshot(sig), before, "propagate_mutates_signal", "signal after propagation")
            compare(obs, csi, H, fmt, taps, "propagate_mutates_state", "state after propagation")
            ref = np.zeros((R, x.shape[1] + taps - 1), complex)
            for l in range(taps):
                ref[:, l:l + x.shape[1]] += np.einsum("ijk,jk->ik", G[:, :, :x.shape[1], l], x)
            y = nd(out)
            obs.close(y, ref, "propagate", "propagated samples", rtol=1e-9, atol=1e-12)
            obs.equal((out.sampling_rate, out.carrier_frequency, out.noise_power, out.delay), (1e6, 1e9, .1, .02), "propagate_meta", "signal parameters")
            if x.shape[1] == S and fmt == IR:
                obs.close(np.einsum("ijab,jb->ia", np.array(csi.linear.todense()), x), y, "propagate_linear", "linear operator applied to the samples", rtol=1e-9, atol=1e-12)
                obs.count("linear_applied")
        elif op == "reciprocal":
            rec = csi.reciprocal()
            compare(obs, rec, H.transpose(1, 0, 2, 3), fmt, taps, "reciprocal", "reciprocal state")
            compare(obs, csi, H, fmt, taps, "reciprocal_mutates", "state after forming the reciprocal")
            compare(obs, rec.reciprocal(), H, fmt, taps, "reciprocal_twice", "twice reciprocal state")
            if r.random() < .4:
                csi, H = rec, H.transpose(1, 0, 2, 3).copy()
        elif op == "slice":
            key, plain = rand_index(r, H.shape)
            sec = csi[key]
            G = H[plain]
            full = G.shape[3] == H.shape[3]
            compare(obs, sec, G, fmt, taps if full else None, "slice", f"section {key!r}")
            if full and r.random() < .5:
                csi, H = sec, G.copy()
        elif op == "samples":
            parts = list(csi.samples())
            obs.equal(len(parts), S, "samples_count", "sample slices")
            for k, p in enumerate(parts):
                compare(obs, p, H[:, :, [k]], fmt, taps, "samples", f"sample {k}")
            compare(obs, ChannelStateInformation.concatenate(parts, ChannelStateDimension.SAMPLES), H, fmt, taps, "samples_join", "joined samples")
        elif op == "streams":
            parts = list(csi.received_streams())
            obs.equal(len(parts), R, "streams_count", "stream slices")
            for k, p in enumerate(parts):
                compare(obs, p, H[[k]], fmt, taps, "streams", f"stream {k}")
            compare(obs, ChannelStateInformation.concatenate(parts, ChannelStateDimension.RECEIVE_STREAMS), H, fmt, taps, "streams_join", "joined streams")
        elif op == "concat":
            d = int(r.integers(0, 4))
            sh = list(H.shape)
            sh[d] = int(r.integers(1, 4))
            G = arr(sd, *sh)
            other = ChannelStateInformation(fmt, STORE[store](G), None if fmt == IR else None)
            both = ChannelStateInformation.concatenate([csi, other], list(ChannelStateDimension)[d])
            exp = np.concatenate([H, G], axis=d)
            compare(obs, both, exp, fmt, None if d == 3 else taps, "concatenate", f"concatenation along {d}")
            if d == 3 and fmt == IR:
                obs.equal(both.num_delay_taps, exp.shape[3], "concatenate_taps", "delay taps of a concatenation along the taps")
            compare(obs, csi, H, fmt, taps, "concatenate_mutates", "state after concatenation")
        elif op == "set":
            if store != "dense":
                continue
            key, plain = rand_index(r, H.shape)
            G = arr(sd, *H[plain].shape)
            csi = ChannelStateInformation(fmt, H.copy(), taps if fmt == IR else taps)
            csi[key] = ChannelStateInformation(fmt, G)
            H = H.copy()
            H[plain] = G
            compare(obs, csi, H, fmt, taps, "assign", f"assigned section {key!r}")
            obs.raises(lambda: csi.__setitem__(key, ChannelStateInformation(FS if fmt == IR else IR, G)), "assign_format", "formats were mixed", exceptions=(NotImplementedError,))
        else:
            G = arr(sd, R, T, S, L)
            csi.state = STORE[store](G)
            H, taps = G, L
            compare(obs, csi, H, fmt, taps, "set_state", "replaced state")
            obs.raises(lambda: csi.set_state(fmt, G[0]), "invalid_state", "three-dimensional state accepted", exceptions=(ValueError,))
            compare(obs, csi, H, fmt, taps, "rejected_state", "state after a rejected update")
    ideal = ChannelStateInformation.Ideal(case["shape"][2], 1, 1)
    sig = DenseSignal.FromNDArray(arr(case["seed"] + 1, 1, case["shape"][2]), 1e6)
    obs.close(nd(ideal.propagate(sig)), nd(sig), "ideal", "ideal state", rtol=1e-12)


FAMILIES = [Family("ops", gen, run, 2500, require=("freq", "ir", "linear", "propagate", "propagate_sparse", "linear_applied", "reciprocal", "slice", "concat", "set"))]
