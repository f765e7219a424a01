"""Hardware impairment models respect their defining characteristic."""
import numpy as np
from scipy.signal import butter, sosfiltfilt, filtfilt
from hv.runner import Family
from hv.ref import arr, pick, rint, seed
from hermespy.core import DenseSignal
from hermespy.simulation.rf import (ADC, AWGN, AutomaticGainControl, ClippingPowerAmplifier, CustomPowerAmplifier, DAC, Gain, GainControlType, HPF, IdealMixer, Mixer, MixerType, N0,
                                    OscillatorPhaseNoise, PowerAmplifier, QuantizerType, RampGenerator, RappPowerAmplifier, RFChain, RFSignal, SalehPowerAmplifier, Shift, Source, Split, Sum, X4)
from hermespy.simulation.rf.blocks.amps import MemoryCTPolynomialPowerAmplifier, MemoryPolynomialPowerAmplifier

PROPERTY = "C21"
RULE = ("every radio-frequency block with random parameters over input amplitudes from 1e-3 to 1e3, random transmitting and receiving block graphs with partial, parallel, fan-out and "
        "multi-port connections, oversampled ideal chains, analog-digital conversion and block noise statistics; block outputs are compared with the textbook characteristic, chain "
        "outputs with an independent evaluation of the connected graph; distinct = distinct block and graph signatures")
ASSUMPTIONS = ["the block graph comparison is exact without oversampling, with oversampling the internal anti-aliasing filters are only required to be transparent within the signal band",
               "the mid-tread quantizer's error bound applies below one quantization step from the upper range limit",
               "local oscillators of down-converting mixers do not exceed the input carrier frequency"]
FS = 1e6


# ---- block library: JSON description -> block, reference
def gen_block(rng, kinds):
    k = pick(rng, list(kinds))
    u = lambda a, b: float(rng.uniform(a, b))
    p = {"k": k}
    if k in ("pa", "clip", "rapp", "saleh", "custom", "mem", "memct"):
        p["gain"] = pick(rng, [1., u(0., 3.), u(.1, 10.)])
    if k == "clip":
        p["sat"] = pick(rng, [u(.1, 3.), 0., float("1e300")])
    elif k == "rapp":
        p["s"] = u(.3, 5.)
    elif k == "saleh":
        p["a"] = [u(0, 4), u(0, 3), u(-3, 3), u(0, 4)]
    elif k == "custom":
        n = rint(rng, 1, 8)
        p["x"] = sorted(float(v) for v in rng.uniform(0, 4, n))
        p["g"] = [u(0, 3) for _ in range(n)]
        p["ph"] = [u(-3, 3) for _ in range(n)]
    elif k in ("mem", "memct"):
        p.update(M=rint(rng, 1, 4), K=rint(rng, 1, 4), seed=seed(rng))
    elif k == "shift":
        p.update(phase=u(-10, 10), bits=pick(rng, [0, 0, 1, 2, 3, 6, 12]), n=rint(rng, 1, 3))
    elif k == "split":
        p["n"] = rint(rng, 1, 4)
    elif k == "sum":
        p["n"] = rint(rng, 1, 4)
    elif k == "mixer":
        p["t"] = pick(rng, ["UP", "DOWN"])
    elif k == "imixer":
        p.update(t=pick(rng, ["UP", "DOWN"]), lo=pick(rng, [0., u(0, 3e9)]))
    elif k == "hpf":
        p.update(fc=u(.02, .4) * FS, order=rint(rng, 1, 5))
    elif k == "source":
        p.update(fc=pick(rng, [0., u(1e9, 5e9)]), amp=pick(rng, [1., u(0, 5)]))
    return p


def make_block(p, **kw):
    k = p["k"]
    if k == "pa":
        return PowerAmplifier(p["gain"], **kw)
    if k == "clip":
        return ClippingPowerAmplifier(p["sat"], p["gain"], **kw)
    if k == "rapp":
        return RappPowerAmplifier(p["s"], p["gain"], **kw)
    if k == "saleh":
        return SalehPowerAmplifier(*p["a"], gain=p["gain"], **kw)
    if k == "custom":
        return CustomPowerAmplifier(np.array(p["x"]), np.array(p["g"]), np.array(p["ph"]), p["gain"], **kw)
    if k == "mem":
        return MemoryPolynomialPowerAmplifier(arr(p["seed"], p["M"], p["K"]), gain=p["gain"], **kw)
    if k == "memct":
        return MemoryCTPolynomialPowerAmplifier(arr(p["seed"], p["M"], p["M"] * (p["K"] - 1) + 1), gain=p["gain"], **kw)
    if k == "shift":
        return Shift(p["phase"], p["bits"], p["n"], **kw)
    if k == "split":
        return Split(p["n"])
    if k == "sum":
        return Sum(p["n"])
    if k == "x4":
        return X4()
    if k == "mixer":
        return Mixer(MixerType[p["t"]], **kw)
    if k == "imixer":
        return IdealMixer(MixerType[p["t"]], p["lo"], **kw)
    if k == "hpf":
        return HPF(p["fc"], p["order"], **kw)
    if k == "source":
        return Source(p["fc"], amplitude=p["amp"], **kw)
    raise KeyError(k)


def n_in(p):
    return {"shift": p.get("n"), "sum": p.get("n"), "mixer": 2, "source": 0}.get(p["k"], 1)


def n_out(p):
    return {"shift": p.get("n"), "split": p.get("n")}.get(p["k"], 1)


def reference(p, X, F, carrier):
    """Textbook output and carrier frequencies of a block."""
    k = p["k"]
    if k == "source":
        return np.full((1, X.shape[1]), p["amp"], complex), np.array([p["fc"] or carrier])
    if "gain" in p:
        X = X * p["gain"]
    a = np.abs(X)
    if k == "clip":
        s = np.where(a > p["sat"], p["sat"] / np.where(a > 0, a, 1), 1.)
        return X * s, F
    if k == "rapp":
        s = p["s"]
        return X / (1 + a ** (2 * s)) ** (1 / (2 * s)), F
    if k == "saleh":
        A, B, C, D = p["a"]
        return X * A / (1 + B * a ** 2) * np.exp(1j * C * a ** 2 / (1 + D * a ** 2)), F
    if k == "custom":
        return X * np.interp(a, p["x"], p["g"]) * np.exp(1j * np.interp(a, p["x"], p["ph"])), F
    if k == "mem":
        c = arr(p["seed"], p["M"], p["K"])
        Y = np.zeros_like(X)
        for m in range(p["M"]):
            d = np.zeros_like(X)
            d[:, m:] = X[:, :X.shape[1] - m]
            for q in range(p["K"]):
                Y += c[m, q] * d * np.abs(d) ** q
        return Y, F
    if k == "memct":
        M, K = p["M"], p["K"]
        c = arr(p["seed"], M, M * (K - 1) + 1)
        D = np.zeros((M,) + X.shape, complex)
        for m in range(M):
            D[m][:, m:] = X[:, :X.shape[1] - m]
        Y = np.zeros_like(X)
        for m in range(M):
            Y += c[m, 0] * D[m]
            for q in range(1, K):
                for l in range(M):
                    Y += c[m, 1 + (q - 1) * M + l] * D[m] * np.abs(D[l]) ** q
        return Y, F
    if k == "shift":
        ph = p["phase"]
        if p["bits"]:
            grid = 2 * np.pi * np.arange(2 ** p["bits"]) / 2 ** p["bits"]
            ph = grid[np.argmin(np.abs(np.exp(1j * grid) - np.exp(1j * ph)))]
        return X * np.exp(1j * ph), F
    if k == "split":
        return np.repeat(X, p["n"], axis=0), np.repeat(F, p["n"])
    if k == "sum":
        return X.sum(axis=0)[None], F[:1]
    if k == "x4":
        return X, 4 * F
    if k == "mixer":
        up = p["t"] == "UP"
        return X[:1] * (X[1:] if up else X[1:].conj()), np.array([F[0] + F[1] if up else F[0] - F[1]])
    if k == "imixer":
        lo = p["lo"] or carrier
        return X, np.abs(F + lo if p["t"] == "UP" else F - lo)
    if k == "hpf":
        b, a_ = butter(p["order"], p["fc"] / (FS / 2), "high")
        return filtfilt(b, a_, X, axis=1), F
    return X, F


ALL = ("pa", "clip", "rapp", "saleh", "custom", "mem", "memct", "shift", "split", "sum", "x4", "mixer", "imixer", "hpf", "source")


def g_blocks(rng):
    return {"b": gen_block(rng, ALL), "seed": seed(rng), "T": rint(rng, 1, 60), "amp": float(10 ** rng.uniform(-3, 3)), "ramp": bool(rng.random() < .4), "f": [float(rng.uniform(1e9, 9e10)) for _ in range(4)]}


def r_blocks(c, obs):
    p = c["b"]
    n = n_in(p)
    T = c["T"] + (40 if p["k"] == "hpf" else 0)
    X = c["amp"] * arr(c["seed"], n, T) if n else np.zeros((0, T), complex)
    if c["ramp"]:
        X = X * np.linspace(0, 3, T)
    F = np.array(sorted(c["f"][:n], reverse=True))
    b = make_block(p)
    obs.equal((b.num_input_ports, b.num_output_ports), (n, n_out(p)), "ports", f"ports of {p['k']}")
    s = RFSignal.FromNDArray(X.copy(), FS, F.copy()) if n else RFSignal(0, T, FS)
    Y = b.propagate(b.realize(FS, 1, 2.5e9), s)
    R, G = reference(p, X, F, 2.5e9)
    scale = np.abs(R).max() if R.size else 0.
    obs.equal(np.asarray(Y).shape, R.shape, f"{p['k']}.shape", "output dimensions")
    obs.close(np.asarray(Y), R, f"{p['k']}.output", f"{p} at amplitude {c['amp']:.3g}", rtol=1e-8, atol=1e-10 * max(scale, 1e-300))
    Z, Y = Y, np.asarray(Y)
    obs.close(Z.carrier_frequencies, G, f"{p['k']}.carrier", "output carrier frequencies", rtol=1e-12)
    obs.equal(Z.sampling_rate, FS, f"{p["k"]}.rate", "output sampling rate")
    if n:
        obs.close(np.asarray(s), X, "input", "the block's input signal is preserved", rtol=0, atol=0)
    # defining inequalities
    if p["k"] == "clip":
        obs.check(np.all(np.abs(Y) <= p["sat"] * (1 + 1e-9)), "clip.limit", "output exceeds the saturation amplitude")
    if p["k"] == "rapp":
        obs.check(np.all(np.abs(Y) <= 1 + 1e-9), "rapp.limit", "output exceeds the saturation amplitude")
    if p["k"] == "shift":
        obs.close(np.abs(Y), np.abs(X), "shift.power", "phase shifters conserve amplitudes", rtol=1e-9)
    obs.count("block " + ("amplifiers" if "gain" in p else "others"))
    obs.sig(p["k"], tuple(v for v in p.values() if isinstance(v, (int, str))), round(np.log10(c["amp"])))


# ---- graphs
def gen_graph(rng, receive):
    """Random feed-forward graph; nodes are connected from earlier outputs."""
    nodes = []      # {"p":block or converter, "in": number, "out": number}
    edges = []      # [src node, [ports], dst node, [ports]]
    free = []       # open output ports that may be consumed
    kinds = ("pa", "clip", "saleh", "shift", "shift", "split", "split", "sum", "x4", "imixer", "mixer", "memct")
    if receive:
        for _ in range(rint(rng, 1, 3)):
            p = gen_block(rng, ("pa", "clip", "shift", "sum"))
            nodes.append({"p": p, "in": n_in(p), "out": n_out(p)})
    else:
        for _ in range(rint(rng, 1, 3)):
            n = rint(rng, 1, 3)
            nodes.append({"p": {"k": "dac", "n": n}, "in": n, "out": n})
    free = [(i, o) for i, nd_ in enumerate(nodes) for o in range(nd_["out"])]
    for _ in range(rint(rng, 1, 7)):
        p = gen_block(rng, kinds)
        ni = n_in(p)
        if p["k"] == "mixer":
            p["t"] = "UP"
            if rng.random() < .6:
                nodes.append({"p": {"k": "source", "fc": float(rng.uniform(1e9, 2e9)), "amp": 1.3}, "in": 0, "out": 1})
                free.append((len(nodes) - 1, 0))
        j = len(nodes)
        nodes.append({"p": p, "in": ni, "out": n_out(p)})
        ins = list(range(ni))
        if rng.random() < .3:
            ins = ins[:rint(rng, 1, ni)]           # leave some inputs open
        used = []
        for i_ in ins:
            pool = [f for f in free if f[0] < j]
            if not pool:
                break
            fan = [(e[0], q) for e in edges for q in e[1]]
            src = pick(rng, fan) if fan and rng.random() < .15 else pick(rng, pool)
            src = tuple(src)
            if src in free:
                free.remove(src)
            used.append([src[0], src[1], j, i_])
        # group parallel connections between two blocks at random
        while used:
            a = used.pop(0)
            same = [u for u in used if u[0] == a[0]]
            if same and rng.random() < .5:
                for u in same:
                    used.remove(u)
                edges.append([a[0], [a[1]] + [u[1] for u in same], j, [a[3]] + [u[3] for u in same]])
            else:
                edges.append([a[0], [a[1]], j, [a[3]]])
        free += [(j, o) for o in range(n_out(p))]
    if receive:
        while free and (rng.random() < .8 or not any(nd_["p"]["k"] == "adc" for nd_ in nodes)):
            n = min(len(free), rint(rng, 1, 3))
            j = len(nodes)
            nodes.append({"p": {"k": "adc", "n": n}, "in": n, "out": n})
            for i_ in range(n):
                s = free.pop(int(rng.integers(len(free))))
                edges.append([s[0], [s[1]], j, [i_]])
    return nodes, edges


def g_graph(rng):
    rx = bool(rng.random() < .5)
    nodes, edges = gen_graph(rng, rx)
    return {"rx": rx, "nodes": nodes, "edges": edges, "T": rint(rng, 1, 40), "seed": seed(rng), "order": [int(v) for v in rng.permutation(len(edges))], "twice": bool(rng.random() < .3), "amp": float(10 ** rng.uniform(-1, 1))}


def r_graph(c, obs):
    chain = RFChain(seed=1)
    refs = []
    for nd_ in c["nodes"]:
        p = nd_["p"]
        b = DAC(num_ports=p["n"]) if p["k"] == "dac" else ADC(num_ports=p["n"]) if p["k"] == "adc" else make_block(p)
        refs.append(chain.add_block(b))
    flip = np.random.default_rng(c["seed"])

    def port(j, name, idx):
        b = refs[j].block
        if isinstance(b, Mixer) and name == "i":
            assert len(idx) == 1
            return refs[j].port("i") if idx[0] == 0 else refs[j].port("lo")
        full = refs[j].port(name)
        sel = [full[k] for k in idx]
        if len(idx) == 1:
            return sel[0]
        r = sel[0]
        return type(r)(refs[j], idx, r.port_type)
    for e in c["order"]:
        s, so, d, di = c["edges"][e]
        parts = [(so, di)] if not (c["nodes"][d]["p"]["k"] == "mixer") else [([a], [b]) for a, b in zip(so, di)]
        for so_, di_ in parts:
            a, b = port(s, "o", so_), port(d, "i", di_)
            chain.connect(*((a, b) if flip.random() < .5 else (b, a)))
    T = c["T"]
    wired_in = {(d, i) for s, so, d, di in c["edges"] for i in di}
    wired_out = {(s, o) for s, so, d, di in c["edges"] for o in so}
    src = {(d, i): (s, o) for s, so, d, di in c["edges"] for o, i in zip(so, di)}
    obs.equal(chain.num_digital_input_ports, sum(n["in"] for n in c["nodes"] if n["p"]["k"] == "dac"), "ports", "digital input ports")
    obs.equal(chain.num_digital_output_ports, sum(n["out"] for n in c["nodes"] if n["p"]["k"] == "adc"), "ports", "digital output ports")
    ext = [(j, i) for j, n in enumerate(c["nodes"]) for i in range(n["in"])
           if (j, i) not in wired_in and (n["p"]["k"] == "dac" if not c["rx"] else n["p"]["k"] not in ("dac",))]
    X = c["amp"] * arr(c["seed"], len(ext), T) if ext else np.zeros((0, T), complex)
    val = {}
    for j, n in enumerate(c["nodes"]):
        I = np.zeros((n["in"], T), complex)
        for i in range(n["in"]):
            if (j, i) in src:
                s, o = src[(j, i)]
                I[i] = val[s][o]
            elif (j, i) in ext:
                I[i] = X[ext.index((j, i))]
        val[j] = I if n["p"]["k"] in ("dac", "adc") else reference(n["p"], I, np.full(n["in"], 1e12), 1e9)[0]
    poison = np.full((8, T + 3), np.nan + 0j)   # dirty memory that uninitialized buffers would reuse
    sig = DenseSignal.FromNDArray(X.copy(), FS, 1e9)
    del poison
    for rep in range(2 if c["twice"] else 1):
        real = chain.realize(FS, 1, 1e9)
        if c["rx"]:
            Y = np.asarray(chain.receive(sig, real))
            want = [val[j][o] for j, n in enumerate(c["nodes"]) if n["p"]["k"] == "adc" for o in range(n["out"])]
        else:
            Y = np.asarray(chain.transmit(sig, real))
            want = [val[j][o] for j, n in enumerate(c["nodes"]) for o in range(n["out"]) if (j, o) not in wired_out]
        W = np.array(want).reshape(-1, T)
        obs.equal(Y.shape, W.shape, "graph.shape", "dimensions of the chain output")
        obs.close(Y, W, "graph.output", f"{'receiving' if c['rx'] else 'transmitting'} chain {[n['p']['k'] for n in c['nodes']]} {c['edges']}", rtol=1e-8, atol=1e-9 * (1e-300 + np.abs(W).max() if W.size else 1))
    obs.count("receiving graphs" if c["rx"] else "transmitting graphs")
    obs.count("graph edges", len(c["edges"]))
    obs.sig(c["rx"], tuple(n["p"]["k"] for n in c["nodes"]), len(c["edges"]))


# ---- oversampled transparency
def g_over(rng):
    return {"osf": pick(rng, [2, 3, 4, 8, 16]), "n": rint(rng, 1, 4), "T": rint(rng, 300, 800), "seed": seed(rng), "streams": rint(rng, 1, 3), "short": pick(rng, [None, None, 1, 5, 20])}


def r_over(c, obs):
    osf = c["osf"]
    chain = RFChain()
    dac = chain.add_block(DAC(num_ports=c["streams"]))
    adc = ADC(num_ports=c["streams"])
    prev = dac
    for _ in range(c["n"]):
        b = chain.add_block(Shift(0., num_ports=c["streams"]))
        chain.connect(prev.port("o"), b.port("i"))
        prev = b
    if c["short"]:
        X = arr(c["seed"], c["streams"], c["short"])
        Y = np.asarray(chain.transmit(DenseSignal.FromNDArray(X, FS * osf, 1e9), chain.realize(FS, osf, 1e9)))
        obs.equal(Y.shape, X.shape, "oversampled.shape", "short signals keep their length")
        obs.check(np.all(np.isfinite(Y)), "oversampled.finite", "finite output")
        obs.count("oversampled chains")
        obs.sig("short", osf, c["short"])
        return
    rng = np.random.default_rng(c["seed"])
    T = c["T"] * osf
    t = np.arange(T) / (FS * osf)
    w = np.hanning(T) ** 2
    f = rng.uniform(-.46, .46, (c["streams"], 4)) * FS
    X = (np.exp(2j * np.pi * f[:, :, None] * t)).sum(axis=1) * w
    Y = np.asarray(chain.transmit(DenseSignal.FromNDArray(X, FS * osf, 1e9), chain.realize(FS, osf, 1e9)))
    # the declared pass band ripple is 0.01 dB per filter pass, twice per block
    tol = (c["n"] + 1) * .0028 + 1e-3
    obs.close(Y, X, "oversampled.transparency", f"in-band signals through {c['n'] + 1} ideal blocks with oversampling {osf}", rtol=0, atol=tol * np.abs(X).max())
    obs.count("oversampled chains")
    obs.sig(osf, c["n"], c["streams"])


# ---- converters
def g_adc(rng):
    return {"bits": pick(rng, [None, 0, 1, 2, 3, 4, 6, 8, 12]), "type": pick(rng, ["MID_RISER", "MID_RISER", "MID_TREAD"]), "agc": pick(rng, ["NONE", "GAIN", "MAX", "RMS"]), "gain": float(10 ** rng.uniform(-2, 2)), "backoff": float(rng.uniform(.5, 3)), "rescale": bool(rng.random() < .5),
            "n": rint(rng, 1, 3), "T": rint(rng, 1, 200), "amp": float(10 ** rng.uniform(-3, 3)), "seed": seed(rng), "zero": bool(rng.random() < .05)}


def r_adc(c, obs):
    gain = None if c["agc"] == "NONE" else Gain(c["gain"], c["rescale"]) if c["agc"] == "GAIN" else AutomaticGainControl(GainControlType.MAX_AMPLITUDE if c["agc"] == "MAX" else GainControlType.RMS_AMPLITUDE, c["backoff"], c["rescale"])
    b = ADC(c["bits"], gain, QuantizerType[c["type"]], c["n"])
    X = c["amp"] * arr(c["seed"], c["n"], c["T"])
    if c["zero"]:
        X = X * 0
    s = RFSignal.FromNDArray(X.copy(), FS, np.full(c["n"], 1e9))
    Y = np.asarray(b.propagate(b.realize(FS, 1, 1e9), s))
    obs.equal(Y.shape, X.shape, "adc.shape", "converter output dimensions")
    obs.close(np.asarray(s), X, "input", "the converter's input is preserved", rtol=0, atol=0)
    parts = np.stack((X.real, X.imag))
    rescale = c["rescale"] and c["agc"] != "NONE"
    g = 1.
    if c["agc"] == "GAIN":
        g = c["gain"]
    elif c["agc"] == "MAX":
        m = np.abs(parts).max()
        g = 1 / (m * c["backoff"]) if m > 0 else 1.
    elif c["agc"] == "RMS":
        m = None
    if c["agc"] == "RMS":
        # the gain reference is the larger root mean square value of both components
        m = max(np.sqrt(np.mean(X.real ** 2)), np.sqrt(np.mean(X.imag ** 2)))
        g = 1 / (m * c["backoff"]) if m > 0 else 1.
        obs.close(b.gain.estimate_gain(s), g, "adc.gain", "root mean square gain control", rtol=1e-9)
    A = X * g
    Q = Y * g if rescale else Y
    obs.equal(b.num_quantization_levels, np.inf if not c["bits"] else 2 ** c["bits"], "adc.levels", "number of quantization levels")
    if not c["bits"]:
        obs.close(Q, A, "adc.transparent", "converters without quantization are transparent", rtol=1e-9)
        obs.count("transparent conversions")
        obs.sig("none", c["agc"], rescale)
        return
    L = 2 ** c["bits"]
    eps = 1e-9
    for a, q in ((A.real, Q.real), (A.imag, Q.imag)):
        if c["type"] == "MID_RISER":
            step = 2 / L
            want = np.clip(step * (np.floor(a / step) + .5), -1 + step / 2, 1 - step / 2)
            near = np.abs(a / step - np.round(a / step)) > 1e-6
            obs.check(np.all(np.abs(q) <= 1 - step / 2 + eps), "adc.range", "quantized values leave the range")
            k = (q + 1) / step - .5
            obs.check(np.all(np.abs(k - np.round(k)) < 1e-6 * L), "adc.grid", "quantized values are not on the grid")
            inside = np.abs(a) <= 1
            obs.check(np.all(np.abs(q - a)[inside] <= step / 2 * (1 + 1e-6)), "adc.error", "the quantization error exceeds half a step")
            obs.close(q[near], want[near], "adc.mid riser", "quantized values", rtol=0, atol=1e-9)
        else:
            step = 2 / (L + 1)
            obs.check(np.all(np.abs(q) <= 1 + eps), "adc.range", "quantized values leave the range")
            k = q / step
            obs.check(np.all(np.abs(k - np.round(k)) < 1e-6 * L), "adc.grid", "quantized values are not on the grid")
            inside = (a >= -1) & (a <= 1 - step * (1 + 1e-9))
            obs.check(np.all(np.abs(q - a)[inside] <= step / 2 * (1 + 1e-6)), "adc.error", "the quantization error exceeds half a step")
            obs.check(np.all(q[np.abs(a) < step / 2 * (1 - 1e-9)] == 0), "adc.zero", "mid-tread quantizers map small values to zero")
            obs.check(np.unique(np.round(k)).size <= L + 1, "adc.levels", "too many quantization levels")
        o = np.argsort(a, axis=None)
        obs.check(np.all(np.diff(q.ravel()[o]) >= -eps), "adc.monotonic", "the quantizer is not monotonic")
    obs.count("quantized values", int(2 * X.size))
    obs.sig(c["bits"], c["type"], c["agc"], rescale)


# ---- noise
def g_noise(rng):
    return {"b": gen_block(rng, ("pa", "clip", "shift", "mixer", "imixer", "source", "adc", "dac")), "pw": float(10 ** rng.uniform(-6, 2)), "n": 20000, "seed": seed(rng), "kind": pick(rng, ["thermal", "thermal", "phase"]), "K": pick(rng, [0, 2, 3]), "amp": float(10 ** rng.uniform(-2, 2)), "B": float(10 ** rng.uniform(4, 9))}


def r_noise(c, obs):
    if c["kind"] == "phase":
        fs = c["B"]
        var = float(10 ** np.random.default_rng(c["seed"]).uniform(-6, -3))
        K = {0: dict(K0=var / fs, K2=0., K3=0.), 2: dict(K0=0., K2=var * fs / (4 * np.pi ** 2), K3=0.), 3: dict(K0=0., K2=0., K3=var * fs ** 2 / (8 * np.pi ** 3))}[c["K"]]
        pn = OscillatorPhaseNoise(**K, seed=c["seed"] % 2 ** 31)
        b = Source(1e9, pn, c["amp"])
        n = c["n"] if c["K"] < 3 else 3000
        Y = np.asarray(b.propagate(b.realize(fs, 1, 1e9), RFSignal(0, n, fs))).ravel()
        obs.close(np.abs(Y), np.full(n, c["amp"]), "phase noise.amplitude", "phase noise conserves amplitudes", rtol=1e-9)
        ph = np.unwrap(np.angle(Y))
        if c["K"] == 0:
            obs.close(np.var(ph), var, "phase noise.K0", "white phase noise variance", rtol=.08)
        elif c["K"] == 2:
            obs.close(np.var(np.diff(ph)), var, "phase noise.K2", "white frequency noise variance", rtol=.08)
        else:
            # 1/f^3 noise: fractional differencing of order 3/2 whitens the phase
            h = np.ones(n)
            for k in range(1, n):
                h[k] = h[k - 1] * (k - 2.5) / k
            w = np.convolve(ph, h)[:n]
            obs.close(np.var(w), var, "phase noise.K3", "flicker frequency noise variance", rtol=.15)
        obs.count("phase noise statistics")
        obs.sig("phase", c["K"])
        return
    p = c["b"] if c["b"]["k"] not in ("adc", "dac") else {**c["b"], "n": 2}
    level = N0(c["pw"] / c["B"])
    kw = dict(noise_level=level, seed=c["seed"] % 2 ** 31)
    if p["k"] in ("adc", "dac"):
        b, n = (ADC if p["k"] == "adc" else DAC)(num_ports=2, **kw), 2
    else:
        p = {**p, "sat": 1e300} if p["k"] == "clip" else p
        b, n = make_block(p, **kw), n_in(p)
    T = c["n"]
    X = np.zeros((n, T), complex)
    s = RFSignal.FromNDArray(X.copy(), c["B"], np.full(n, 1e9)) if n else RFSignal(0, T, c["B"])
    Y = np.asarray(b.propagate(b.realize(c["B"], 1, 1e9), s))
    R = np.zeros_like(Y) if n else np.full((1, T), p["amp"])
    N = Y - R
    tol = 6 / np.sqrt(T)
    for k in range(N.shape[0]):
        obs.close(np.mean(np.abs(N[k]) ** 2), c["pw"], f"noise.power", f"noise power of {p['k']} stream {k}", rtol=tol)
        obs.close(np.mean(N[k].real ** 2), c["pw"] / 2, "noise.circular", "real noise power", rtol=2 * tol)
        obs.check(abs(np.mean(N[k])) < 6 * np.sqrt(c["pw"] / T), "noise.mean", "noise mean")
        for l in range(k):
            obs.check(abs(np.vdot(N[l], N[k])) / T < 7 * c["pw"] / np.sqrt(T), "noise.independent", "noise of different ports is correlated")
    obs.count("noise statistics")
    obs.sig(p["k"])


# ---- frequency ramps
def g_ramp(rng):
    B = float(rng.uniform(.05, .8)) * FS
    return {"B": B, "slope": float(B / rng.uniform(20e-6, 200e-6)) * pick(rng, [1, 1, -1]), "interval": float(rng.uniform(20e-6, 250e-6)), "n": rint(rng, 0, 4), "osf": pick(rng, [1, 1, 2]), "direct": bool(rng.random() < .3), "T": rint(rng, 1, 600)}


def r_ramp(c, obs):
    b = RampGenerator(c["n"], c["B"], c["slope"], c["interval"])
    fs = FS * c["osf"]
    real = b.realize(FS, c["osf"], 0.)
    Y = np.asarray(b.propagate(real, RFSignal(0, 10, fs), filter=False)).ravel()
    m = int(c["interval"] * fs)
    obs.equal(Y.size, m * c["n"], "ramp.length", "samples of a frame")
    d = min(m, int(c["B"] / abs(c["slope"]) * fs))
    t = np.arange(d) / fs
    for k in range(c["n"]):
        y = Y[k * m:(k + 1) * m]
        obs.close(np.abs(y), (np.arange(m) < d) * 1., "ramp.amplitude", "chirps have unit amplitude, gaps are silent", rtol=1e-9)
        f0 = -np.sign(c["slope"]) * c["B"] / 2
        want = np.exp(2j * np.pi * (f0 * t + c["slope"] * t ** 2 / 2))
        obs.close(y[:d], want, "ramp.frequency", f"chirp {k} sweeps the bandwidth at the configured slope", rtol=0, atol=1e-6)
    if c["direct"] and c["n"] and c["osf"] == 1:
        # chirps transmitted by a chain are cut or padded to the transmission
        chain = RFChain()
        chain.add_block(DAC(num_ports=1))
        chain.add_block(b)
        out = np.asarray(chain.transmit(DenseSignal.FromNDArray(np.ones((1, c["T"]), complex), fs, 0.), chain.realize(FS, 1, 0.)))
        want = np.zeros((2, c["T"]), complex)
        want[0] = 1
        k = min(c["T"], Y.size)
        want[1, :k] = Y[:k]
        obs.close(out, want, "ramp.chain", "generator connected to an antenna", rtol=1e-9, atol=1e-12)
    obs.count("ramps")
    obs.sig(c["slope"] > 0, c["n"], c["osf"], c["direct"])


FAMILIES = [Family("blocks", g_blocks, r_blocks, quick=900, require=("block amplifiers", "block others")),
            Family("graphs", g_graph, r_graph, quick=500, require=("receiving graphs", "transmitting graphs")),
            Family("oversampled", g_over, r_over, quick=80, require=("oversampled chains",)),
            Family("converters", g_adc, r_adc, quick=400, require=("quantized values", "transparent conversions")),
            Family("noise", g_noise, r_noise, quick=150, require=("noise statistics", "phase noise statistics")),
            Family("ramps", g_ramp, r_ramp, quick=100, require=("ramps",))]
