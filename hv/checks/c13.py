"""C13: every waveform demodulates its own modulation."""
import numpy as np
from hermespy.core import Signal
from hermespy.modem import (ChirpFSKCorrelationSynchronization, ChirpFSKWaveform, FMCWWaveform, RaisedCosineWaveform, RectangularWaveform,
                            RootRaisedCosineWaveform, SingleCarrierCorrelationSynchronization, Symbols, StatedSymbols)
from hermespy.modem.waveform import CustomPilotSymbolSequence
from hermespy.modem.waveform_single_carrier import (SingleCarrierLeastSquaresChannelEstimation, SingleCarrierMinimumMeanSquareChannelEqualization,
                                                    SingleCarrierZeroForcingChannelEqualization)
from hermespy.modem.waveforms.orthogonal import (ElementType, GridElement, GridResource, GuardSection, OCDMWaveform, OFDMWaveform, OTFSWaveform,
                                                 PilotSection, PrefixType, SchmidlCoxPilotSection, SymbolSection)
from hermespy.modem.waveforms.orthogonal import (OFDMCorrelationSynchronization, OrthogonalLeastSquaresChannelEstimation,
                                                 OrthogonalZeroForcingChannelEqualization, SchmidlCoxSynchronization)
from hermespy.modem.waveforms.ieee_5gnr import NRSlot, NRSubframe
from hermespy.modem.tools.psk_qam_mapping import PskQamMapping
from hv.runner import Family
from hv.ref import arr, pick, rint, seed

PROPERTY = "C13"
RULE = ("random valid configurations of root-raised-cosine, raised-cosine, rectangular, FMCW, chirp FSK, OFDM, OCDM, OTFS and 5G NR waveforms (modulation orders 2 to 256, preambles, "
        "postambles, pilot rates, guard sections, prefixes, partial resources, pilot sections, DC suppression, sample offsets, oversampling) transmit random bits; symbols, samples and "
        "section positions are compared with independently written pulse, DFT and grid models, estimators with known flat channels, and synchronizers with known frame positions; "
        "distinct = distinct (waveform, order, structure) signatures")
ASSUMPTIONS = ["bits are only required to be recovered where the reference pulse model predicts interference below half the minimum symbol distance",
               "chirp FSK bits are only required where the prototype chirps are mutually distinguishable",
               "sample offsets do not exceed the prefixes"]
ORDERS = [2, 4, 8, 16, 64, 256]


def bits_of(c, n, salt=0):
    return np.random.Generator(np.random.PCG64(int(c["seed"]) + salt)).integers(0, 2, n).astype(np.uint8)


# ---------------------------------------------------------------- single carrier

def gen_sc(rng):
    kind = pick(rng, ["rrc", "rrc", "rc", "rect", "fmcw"])
    return {"kind": kind, "order": pick(rng, ORDERS), "pre": rint(rng, 0, 12), "data": rint(rng, 1, 40), "post": rint(rng, 0, 6),
            "rate": pick(rng, [0, 0, 1, 2, 3, 7]), "roll": pick(rng, [0., .1, .25, .35, .5, .9, 1.]), "flen": pick(rng, [1, 2, 3, 5, 8, 9, 16, 16, 24, 33]),
            "relbw": pick(rng, [1., 1., 1., .8, 1.3]), "spc": rint(rng, 1, 12), "osf": rint(rng, 1, 8), "B": float(10 ** rng.uniform(4, 9)), "seed": seed(rng),
            "seq": pick(rng, [None, None, 3, 64])}


def make_sc(c):
    kw = dict(num_preamble_symbols=c["pre"], num_data_symbols=c["data"], num_postamble_symbols=c["post"], pilot_rate=c["rate"], modulation_order=c["order"])
    k = c["kind"]
    if k in ("rrc", "rc"):
        w = (RootRaisedCosineWaveform if k == "rrc" else RaisedCosineWaveform)(relative_bandwidth=c["relbw"], roll_off=c["roll"], filter_length=c["flen"], **kw)
    elif k == "fmcw":
        w = FMCWWaveform(num_samples_per_chirp=c["spc"], **kw)
    else:
        w = RectangularWaveform(**kw)
    if c.get("seq"):
        w.pilot_symbol_sequence = CustomPilotSymbolSequence(np.exp(2j * np.pi * np.arange(c["seq"]) ** 2 / 7))
    return w


def pulse(c):
    """Sampled textbook pulse, its peak index and the symbol spacing in samples."""
    o, k = c["osf"], c["kind"]
    if k == "rect":
        return np.ones(o), o
    if k == "fmcw":
        n = np.arange(c["spc"] * o)
        return np.exp(1j * np.pi * (n ** 2 / (o * o * c["spc"]) - n / o)), c["spc"] * o
    L, a = c["flen"], c["roll"]
    t = (np.arange(L * o) / o - L // 2) * c["relbw"]
    h = np.empty(t.size)
    for i, x in enumerate(t):
        if k == "rc":
            d = 1 - (2 * a * x) ** 2
            h[i] = np.pi / 4 * np.sinc(1 / (2 * a)) if abs(d) < 1e-9 else np.sinc(x) * np.cos(np.pi * a * x) / d
        elif abs(x) < 1e-9:
            h[i] = 1 + a * (4 / np.pi - 1)
        elif a > 0 and abs(abs(4 * a * x) - 1) < 1e-9:
            h[i] = a / np.sqrt(2) * ((1 + 2 / np.pi) * np.sin(np.pi / (4 * a)) + (1 - 2 / np.pi) * np.cos(np.pi / (4 * a)))
        else:
            h[i] = (np.sin(np.pi * x * (1 - a)) + 4 * a * x * np.cos(np.pi * x * (1 + a))) / (np.pi * x * (1 - (4 * a * x) ** 2))
    return h, o


def frame_map(c):
    """Kinds of the symbols of a frame in order: R reference, D data."""
    body = []
    npil = 0 if c["rate"] <= 0 else max(0, c["data"] // c["rate"] - 1)
    left = c["data"]
    for _ in range(npil):
        body += ["D"] * c["rate"] + ["R"]
        left -= c["rate"]
    body += ["D"] * left
    return np.array(["R"] * c["pre"] + body + ["R"] * c["post"])


def run_sc(c, obs):
    w = make_sc(c)
    osf, B = c["osf"], c["B"]
    kinds = frame_map(c)
    D = kinds == "D"
    obs.equal(w.num_data_symbols, int(D.sum()), "sc.num_data", "announced data symbols")
    obs.equal(w.bits_per_frame(), int(D.sum()) * int(np.log2(c["order"])), "sc.bits", "announced bits per frame")
    bits = bits_of(c, w.bits_per_frame())
    sym = w.map(bits)
    placed = w.place(sym)
    p = placed.raw.flatten()
    obs.equal(p.size, kinds.size, "sc.frame_symbols", "symbols per frame")
    obs.equal(p[D].tobytes(), sym.raw.flatten().tobytes(), "sc.data_positions", "data symbols at their configured positions")
    refs = w.pilot_symbols(int((~D).sum()))
    obs.equal(p[~D].tobytes(), np.asarray(refs, complex).tobytes(), "sc.reference_positions", "reference symbols at their configured positions")
    x = w.modulate(placed, B, osf)
    obs.equal(x.size, w.samples_per_frame(B, osf), "sc.samples", "announced samples per frame")
    obs.check(np.all(np.isfinite(x)), "sc.defined", "all frame samples are defined")
    h, step = pulse(c)
    up = np.zeros(1 + (p.size - 1) * step, complex)
    up[::step] = p
    obs.close(x, np.convolve(up, h), "sc.pulse", "modulated frame vs textbook pulse shaping", rtol=1e-7, atol=1e-8)
    # the pilot section heads the frame
    zero = p.copy()
    zero[c["pre"]:] = 0
    head = w.modulate(Symbols(zero[None, :, None]), B, osf)
    pil = np.asarray(w.pilot_signal(B, osf).view(np.ndarray)).reshape(-1)
    obs.check(pil.size <= head.size, "sc.pilot_signal", "pilot signal is not longer than a frame")
    obs.close(np.pad(pil, (0, head.size - pil.size)), head, "sc.pilot_signal", "pilot signal equals the modulated preamble", rtol=1e-9, atol=1e-9)
    if c["kind"] in ("rect", "fmcw"):
        obs.close(w.frame_duration(B), x.size / (B * osf), "sc.duration", "announced frame duration", rtol=1e-9)
    # matched filter reference: pulse autocorrelation at symbol spacing
    y = w.demodulate(x.copy(), B, osf).raw.flatten()
    obs.equal(y.size, p.size, "sc.demodulated", "demodulated symbols per frame")
    rx = np.conj(h[::-1]) if c["kind"] == "fmcw" else h
    scale = step
    delay = step - 1 if c["kind"] in ("rect", "fmcw") else 2 * (c["flen"] // 2) * osf
    g = np.convolve(h, rx) / scale
    full = np.convolve(up, g)
    full = np.pad(full, (0, max(0, delay + p.size * step - full.size)))
    obs.close(y, full[delay:delay + p.size * step:step], "sc.matched", "demodulated symbols vs reference matched filter", rtol=1e-7, atol=1e-7)
    # interference margin decides whether bits must come back
    taps = np.concatenate((g[delay::-step][::-1], g[delay + step::step])) if delay < g.size else np.zeros(1)
    g0 = g[delay] if delay < g.size else 0
    isi = np.sum(np.abs(taps)) - abs(g0) + abs(g0 - 1)
    const = PskQamMapping(c["order"]).get_mapping().flatten()
    dmin = np.min(np.abs(const[:, None] - const[None, :]) + 9 * np.eye(const.size))
    if isi * max(1.0, np.max(np.abs(p))) < .45 * dmin:
        picked = w.pick(StatedSymbols(y[None, :, None], np.ones((1, 1, y.size, 1), complex)))
        obs.equal(picked.raw.size, int(D.sum()), "sc.pick", "picked data symbols")
        out = w.unmap(picked)
        obs.equal(np.asarray(out).astype(int).tolist(), bits.astype(int).tolist(), "sc.bits_back", "recovered bits")
        obs.count("sc_bits")
    if c["flen"] % 2 and c["kind"] in ("rrc", "rc"):
        obs.count("odd_filters")
    obs.count("sc_" + c["kind"])
    obs.sig(("sc", c["kind"], c["order"], c["rate"], c["flen"], osf))


# ---------------------------------------------------------------- chirp FSK

def gen_fsk(rng):
    osf = rint(rng, 1, 4)
    B = float(10 ** rng.uniform(5, 9))
    order = pick(rng, [2, 4, 8, 16, 32])
    n = rint(rng, order, 4 * order)
    return {"order": order, "B": B, "osf": osf, "dur": n / B * pick(rng, [1., 1., 1.013]), "fd": pick(rng, [0., 0., float(rng.uniform(.03, 1))]), "pil": rint(rng, 0, 20), "data": rint(rng, 1, 20),
            "guard": pick(rng, [0., 0., .4, 2.3]), "seed": seed(rng)}


def run_fsk(c, obs):
    B, osf = c["B"], c["osf"]
    w = ChirpFSKWaveform(chirp_duration=c["dur"], freq_difference=c["fd"] * B / c["order"], num_pilot_chirps=c["pil"], num_data_chirps=c["data"],
                         guard_interval=c["guard"] * c["dur"], modulation_order=c["order"])
    nb = int(np.log2(c["order"]))
    obs.equal((w.num_data_symbols, w.bits_per_frame()), (c["data"], c["data"] * nb), "fsk.counts", "announced symbols and bits")
    bits = bits_of(c, w.bits_per_frame())
    sym = w.map(bits)
    value = bits.reshape(-1, nb) @ (1 << np.arange(nb - 1, -1, -1))
    obs.equal(np.real(sym.raw).astype(int).flatten().tolist(), value.tolist(), "fsk.map", "chirp indices")
    junk = [np.full(w.samples_per_frame(B, osf), np.nan + 1j * np.nan) for _ in range(4)]  # dirty the allocator
    del junk
    x = w.modulate(w.place(sym), B, osf)
    n = int(np.ceil(c["dur"] * B * osf))
    ng = int(np.around(w.guard_interval * B * osf))
    obs.equal(x.size, w.samples_per_frame(B, osf), "fsk.samples", "announced samples per frame")
    obs.equal(x.size, n * (c["pil"] + c["data"]) + ng, "fsk.samples", "chirps and guard make up the frame")
    # reference chirps: trapezoidal phase of a wrapped linear frequency sweep
    fd = B / c["order"] if c["fd"] == 0 else c["fd"] * B / c["order"]
    t = np.arange(n) / (osf * B)
    protos = []
    for i in range(c["order"]):
        f = -B / 2 + i * fd + B / c["dur"] * t
        f = np.where(f > B / 2, f - B, f)
        ph = np.concatenate(([0], np.cumsum((f[1:] + f[:-1]) / 2))) / (osf * B)
        protos.append(np.exp(2j * np.pi * ph))
    protos = np.array(protos)
    wrap = np.min(np.abs(np.array([-B / 2 + i * fd + B / c["dur"] * t for i in range(c["order"])]) - B / 2)) < 1e-6 * B  # sample on the wrapping edge: rounding decides
    ref = np.concatenate([protos[i % c["order"]] for i in range(c["pil"])] + [protos[v] for v in value])
    if not wrap:
        obs.close(x[:ref.size], ref, "fsk.chirps", "modulated chirps vs reference sweeps", rtol=1e-6, atol=1e-6)
        obs.count("fsk_reference")
    obs.close(np.abs(x[:ref.size]), np.ones(ref.size), "fsk.envelope", "constant envelope", rtol=1e-9)
    obs.check(np.all(x[ref.size:] == 0), "fsk.guard", "guard interval is silent")
    obs.close(np.asarray(w.pilot_signal(B, osf).view(np.ndarray)).reshape(-1), x[:n * c["pil"]], "fsk.pilot", "pilot signal heads the frame", rtol=1e-12, atol=1e-12)
    gram = np.abs(protos @ protos.conj().T) / n
    np.fill_diagonal(gram, 0)
    if gram.max() < .97 and not wrap:
        y = w.demodulate(x.copy(), B, osf)
        st = StatedSymbols(y.raw, np.ones((1, 1, y.num_blocks, y.num_symbols), complex))
        out = w.unmap(w.pick(st))
        obs.equal(np.asarray(out).astype(int).tolist(), bits.astype(int).tolist(), "fsk.bits_back", "recovered bits")
        obs.count("fsk_bits")
    if ng:
        obs.count("fsk_guards")
    obs.sig(("fsk", c["order"], c["pil"] > 0, ng > 0, osf))


# ---------------------------------------------------------------- orthogonal waveforms

def gen_orth(rng, kinds=("ofdm", "ofdm", "ocdm", "otfs"), offsets=False):
    kind = pick(rng, list(kinds))
    N = pick(rng, [1, 2, 3, 5, 8, 12, 16, 17, 24, 32])
    res = []
    for _ in range(rint(rng, 1, 3)):
        reps = pick(rng, [d for d in (1, 1, 2, 3, 4) if d <= N])
        room = N // reps
        els, used = [], 0
        for _ in range(rint(rng, 1, 4)):
            if used >= room:
                break
            r = rint(rng, 1, room - used)
            els.append([pick(rng, ["DATA", "DATA", "REFERENCE", "NULL"]), r])
            used += r
        res.append({"reps": reps, "prefix": pick(rng, ["CYCLIC", "CYCLIC", "ZEROPAD", "NONE"]), "ratio": pick(rng, [0., .07, .25, .5, 1.]), "els": els})
    sections = []
    for _ in range(rint(rng, 1, 3)):
        if rng.random() < .25:
            sections.append({"guard": float(rng.uniform(0, 3)), "reps": rint(rng, 1, 2)})
        else:
            sections.append({"pattern": [rint(rng, 0, len(res) - 1) for _ in range(rint(rng, 1, 4))], "reps": rint(rng, 1, 3), "offset": 0})
    if not any("pattern" in s for s in sections):
        sections.append({"pattern": [0], "reps": 1, "offset": 0})
    c = {"kind": kind, "N": N, "res": res, "sections": sections, "dc": bool(rng.random() < .5), "pilot": pick(rng, [None, None, "default", "custom", "sc"]),
         "osf": rint(rng, 1, 4), "order": pick(rng, ORDERS), "B": float(10 ** rng.uniform(4, 9)), "seed": seed(rng), "seq": pick(rng, [None, None, 5])}
    if kind == "ocdm" and c["pilot"] == "sc":
        c["pilot"] = None
    if offsets:
        for r in res:
            r["prefix"], r["ratio"] = "CYCLIC", max(r["ratio"], .25)
        for s in sections:
            if "pattern" in s:
                room = min(int(c["N"] * c["osf"] * res[i]["ratio"]) for i in s["pattern"])
                s["offset"] = rint(rng, 0, room)
    return c


def make_orth(c):
    res = [GridResource(r["reps"], PrefixType[r["prefix"]], r["ratio"], [GridElement(ElementType[t], n) for t, n in r["els"]]) for r in c["res"]]
    sec = [GuardSection(s["guard"] * c["N"] / c["B"], s["reps"]) if "guard" in s else SymbolSection(s["reps"], list(s["pattern"]), s["offset"]) for s in c["sections"]]
    pil = {None: None, "default": lambda: PilotSection(), "custom": lambda: PilotSection(Symbols(np.exp(1j * np.arange(5.))[None, None, :])), "sc": lambda: SchmidlCoxPilotSection()}[c["pilot"]]
    kw = dict(num_subcarriers=c["N"], modulation_order=c["order"], pilot_section=pil() if pil else None)
    cls = {"ofdm": OFDMWaveform, "otfs": OTFSWaveform, "ocdm": OCDMWaveform}[c["kind"]]
    if c["kind"] != "ocdm":
        kw["dc_suppression"] = c["dc"]
    w = cls(grid_resources=res, grid_structure=sec, **kw)
    if c.get("seq"):
        w.pilot_symbol_sequence = CustomPilotSymbolSequence(np.exp(2j * np.pi * np.arange(c["seq"]) ** 2 / 7))
    return w


def words_of(c):
    """(resource index, element kinds) of every word and the frame's time layout."""
    words, time = [], []
    for s in c["sections"]:
        if "guard" in s:
            time.append(("guard", s))
            continue
        for _ in range(s["reps"]):
            for r in s["pattern"]:
                kinds = [t[0] for t, n in c["res"][r]["els"] for _ in range(n)] * c["res"][r]["reps"]
                words.append(np.array(kinds + ["-"] * (c["N"] - len(kinds))))
                time.append(("word", r))
    return words, time


def run_orth(c, obs):
    w = make_orth(c)
    N, osf, B = c["N"], c["osf"], c["B"]
    words, time = words_of(c)
    grid = np.array(words)
    nd_, nr = int((grid == "D").sum()), int((grid == "R").sum())
    nb = int(np.log2(c["order"]))
    obs.equal((w.num_data_symbols, w.references_per_frame, w.words_per_frame, w.bits_per_frame()), (nd_, nr, len(words), nd_ * nb), "orth.counts", "announced symbols, references, words and bits")
    mask = w.resource_mask
    for t, ch in ((ElementType.DATA, "D"), (ElementType.REFERENCE, "R"), (ElementType.NULL, "N")):
        obs.equal(mask[t.value].astype(int).tolist(), (grid == ch).astype(int).tolist(), "orth.mask", f"positions of {t.name} elements")
    bits = bits_of(c, nd_ * nb)
    sym = w.map(bits)
    placed = w.place(sym)
    P = placed.raw[0]
    obs.equal(P[grid == "D"].tobytes(), sym.raw.flatten().tobytes(), "orth.data_positions", "data symbols in grid order")
    obs.equal(P[grid == "R"].tobytes(), np.asarray(w.pilot_symbols(nr), complex).tobytes(), "orth.reference_positions", "reference symbols in grid order")
    obs.check(np.all(P[(grid == "N") | (grid == "-")] == 0), "orth.null_positions", "null elements are empty")
    keep = P.copy()
    junk = [np.full(w.samples_per_frame(B, osf), np.nan + 1j * np.nan) for _ in range(4)]
    del junk
    x = w.modulate(placed, B, osf)
    obs.equal(x.size, w.samples_per_frame(B, osf), "orth.samples", "announced samples per frame")
    obs.equal(placed.raw[0].tobytes(), keep.tobytes(), "orth.input", "symbols handed to the modulator")
    obs.check(np.all(np.isfinite(x)), "orth.defined", "all frame samples are defined")
    body, pos = [], 0
    if c["pilot"]:
        pil = np.asarray(w.pilot_signal(B, osf).view(np.ndarray)).reshape(-1)
        obs.equal(pil.size, N * osf, "orth.pilot_size", "pilot section length")
        obs.close(x[:N * osf], pil, "orth.pilot", "pilot section heads the frame", rtol=1e-12, atol=1e-12)
        pos = N * osf
        obs.count("pilot_sections")
    for what, v in time:
        if what == "guard":
            n = w.grid_structure[c["sections"].index(v)].num_samples(B, osf)
            obs.check(abs(n - v["reps"] * v["guard"] * N * osf) <= 1, "orth.guard_length", "guard section length")
            obs.check(np.all(x[pos:pos + n] == 0), "orth.guard", "guard section is silent")
            pos += n
            obs.count("guard_sections")
        else:
            r = c["res"][v]
            n = 0 if r["prefix"] == "NONE" else int(N * osf * r["ratio"])
            b = x[pos + n:pos + n + N * osf]
            obs.equal(b.size, N * osf, "orth.word", "samples of every word")
            if n and r["prefix"] == "CYCLIC":
                obs.close(x[pos:pos + n], np.tile(b, 2)[2 * b.size - n:], "orth.cyclic_prefix", "cyclic prefix", rtol=1e-12, atol=1e-12)
            elif n:
                obs.check(np.all(x[pos:pos + n] == 0), "orth.zero_prefix", "zero padded prefix")
            if n and r["prefix"] == "CYCLIC":
                obs.count("cyclic_prefixes")
            body.append(b)
            pos += n + N * osf
    obs.equal(pos, x.size, "orth.layout", "sections add up to the frame")
    body = np.array(body)
    fk = np.arange(N) - N // 2
    if c["kind"] != "ocdm" and c["dc"]:
        fk = fk + (fk >= 0)
    fits = fk.max() < N * osf - N * osf // 2 or not c["dc"]
    grid_tx = P
    if c["kind"] == "otfs":
        k, n = np.arange(N), np.arange(len(words))
        grid_tx = np.exp(-2j * np.pi * np.outer(n, n) / n.size) @ (P @ np.exp(2j * np.pi * np.outer(k, k) / N)) / np.sqrt(N * n.size)
    if c["kind"] != "ocdm" and fits:
        ref = grid_tx @ np.exp(2j * np.pi * np.outer(fk, np.arange(N * osf)) / (N * osf)) / np.sqrt(N)
        obs.close(body, ref, "orth.dft", "modulated words vs reference Fourier sum", rtol=1e-8, atol=1e-8)
        obs.count("dft_references")
    if c["kind"] == "ocdm":
        obs.close(np.sum(np.abs(body[:, ::osf]) ** 2, axis=1), np.sum(np.abs(P) ** 2, axis=1), "orth.ocdm_energy", "Fresnel transform preserves energy", rtol=1e-8, atol=1e-9)
    xc = x.copy()
    y = w.demodulate(x, B, osf)
    obs.equal(x.tobytes(), xc.tobytes(), "orth.input", "samples handed to the demodulator")
    obs.equal(tuple(y.raw.shape), (1, len(words), N), "orth.demodulated", "demodulated grid")
    obs.close(y.raw[0], P, "orth.symbols_back", "demodulated vs placed symbols", rtol=1e-7, atol=1e-8)
    st = arr(c["seed"], 1, 2, len(words), N)
    picked = w.pick(StatedSymbols(y.raw, st))
    obs.close(picked.raw.flatten(), sym.raw.flatten(), "orth.pick", "picked data symbols", rtol=1e-7, atol=1e-8)
    obs.close(picked.dense_states()[0, :, :, 0], st[0][:, grid == "D"], "orth.pick_states", "picked channel states", rtol=1e-12)
    obs.equal(np.asarray(w.unmap(picked)).astype(int).tolist(), bits.astype(int).tolist(), "orth.bits_back", "recovered bits")
    obs.count("orth_" + c["kind"])
    if any(s.get("offset") for s in c["sections"]):
        obs.count("sample_offsets")
    obs.sig((c["kind"], N, c["order"], c["pilot"], c["dc"], tuple(r["prefix"] for r in c["res"]), osf))
    # a pilot section always reflects the current waveform
    if c["pilot"] in ("default", "custom") and c["kind"] != "otfs":
        if c["pilot"] == "custom":
            w.pilot_section.pilot_elements = None
        w.modulation_order = 4 if c["order"] != 4 else 16
        fresh = dict(c, order=w.modulation_order, pilot="default", seq=None)
        obs.close(np.asarray(w.pilot_signal(B, osf).view(np.ndarray)), np.asarray(make_orth(fresh).pilot_signal(B, osf).view(np.ndarray)), "orth.pilot_cache",
                  "pilot after reconfiguration vs freshly configured waveform", rtol=1e-12, atol=1e-12)
        obs.count("pilot_reconfigurations")


def gen_nr(rng):
    return {"mu": rint(rng, 0, 1), "rb": rint(rng, 24, 26), "sub": bool(rng.random() < .5), "osf": rint(rng, 1, 2), "seed": seed(rng), "order": pick(rng, [4, 16, 64])}


def run_nr(c, obs):
    w = NRSubframe(c["mu"], c["rb"]) if c["sub"] else NRSlot(c["rb"])
    w.modulation_order = c["order"]
    obs.equal((w.num_resource_blocks, w.num_subcarriers, w.words_per_frame), (c["rb"], 12 * c["rb"], 14 * (2 ** c["mu"] if c["sub"] else 1)), "nr.grid", "resource grid dimensions")
    B = 15e3 * 2 ** c["mu"] * 12 * c["rb"]
    bits = bits_of(c, w.bits_per_frame())
    placed = w.place(w.map(bits))
    x = w.modulate(placed, B, c["osf"])
    obs.equal(x.size, w.samples_per_frame(B, c["osf"]), "nr.samples", "announced samples")
    obs.close(w.frame_duration(B), w.samples_per_frame(B, 1) / B, "nr.duration", "frame duration", rtol=1e-12)
    y = w.demodulate(x, B, c["osf"])
    obs.close(y.raw, placed.raw, "nr.symbols_back", "demodulated symbols", rtol=1e-7, atol=1e-8)
    out = w.unmap(w.pick(StatedSymbols(y.raw, np.ones((1, 1, y.num_blocks, y.num_symbols), complex))))
    obs.equal(np.asarray(out).astype(int).tolist(), bits.astype(int).tolist(), "nr.bits_back", "recovered bits")
    obs.count("nr_frames")
    obs.sig(("nr", c["sub"], c["mu"], c["rb"]))


# ---------------------------------------------------------------- estimation and equalization of known channels

def gen_est(rng):
    sc = rng.random() < .5
    c = gen_sc(rng) if sc else gen_orth(rng, kinds=("ofdm", "ocdm"))
    if sc:
        c.update(kind="rect", pre=max(c["pre"], 1))
    else:
        c.update(N=pick(rng, [8, 12, 16]), pilot=None)
        c["res"] = [{"reps": 1, "prefix": "CYCLIC", "ratio": .25, "els": [["REFERENCE", 1], ["DATA", c["N"] - 2], ["REFERENCE", 1]]}, {"reps": c["N"] // 4, "prefix": "NONE", "ratio": 0., "els": [["DATA", 2], ["REFERENCE", 1], ["NULL", 1]]}]
        c["sections"] = [{"pattern": [0], "reps": 1, "offset": 0}, {"pattern": [1, 0], "reps": rint(rng, 1, 2), "offset": 0}]
    c.update(sc=bool(sc), gain=[float(10 ** rng.uniform(-4, 4)), float(rng.uniform(0, 6.28))], eq=pick(rng, ["zf", "mmse"] if sc else ["zf"]), mimo=[rint(rng, 1, 4), rint(rng, 1, 4)])
    return c


def run_est(c, obs):
    g = c["gain"][0] * np.exp(1j * c["gain"][1])
    w = make_sc(c) if c["sc"] else make_orth(c)
    w.channel_estimation = SingleCarrierLeastSquaresChannelEstimation() if c["sc"] else OrthogonalLeastSquaresChannelEstimation()
    w.channel_equalization = {"zf": SingleCarrierZeroForcingChannelEqualization if c["sc"] else OrthogonalZeroForcingChannelEqualization, "mmse": SingleCarrierMinimumMeanSquareChannelEqualization}[c["eq"]]()
    bits = bits_of(c, w.bits_per_frame())
    placed = w.place(w.map(bits))
    y = w.demodulate(g * w.modulate(placed, c["B"], c["osf"]), c["B"], c["osf"])
    st = w.estimate_channel(y, c["B"], c["osf"], 0.)
    obs.close(st.dense_states(), np.full(st.states.shape, g), "est.flat", "least squares estimate of a flat channel", rtol=1e-8, atol=1e-9 * abs(g))
    obs.close(st.raw, y.raw, "est.symbols", "estimation leaves the symbols unchanged", rtol=1e-12)
    # several receive streams with individual flat channels
    if c["sc"]:
        gs = arr(c["seed"] + 9, c["mimo"][0] + 1)
        ms = w.estimate_channel(Symbols(np.concatenate([h * y.raw for h in gs])), c["B"], c["osf"], 0.)
        obs.equal(ms.states.shape[:2], (len(gs), 1), "est.streams", "estimated streams")
        obs.close(ms.dense_states()[:, 0], np.broadcast_to(g * gs[:, None, None], (len(gs),) + y.raw.shape[1:]), "est.streams", "least squares estimates of several receive streams",
                  rtol=1e-8, atol=1e-8 * abs(g) * np.abs(gs).max())
        obs.count("flat_streams", len(gs))
    eq = w.equalize_symbols(w.pick(st))
    obs.equal(np.asarray(w.unmap(eq)).astype(int).tolist(), bits.astype(int).tolist(), "est.bits_back", "bits after estimation and equalization")
    obs.count("flat_channels")
    # equalizing known MIMO states: zero forcing inverts every full column rank state
    nt = min(c["mimo"])
    nr = max(c["mimo"])
    nbk, ns = 5, 3
    H = arr(c["seed"] + 1, nr, nt, nbk, ns)
    s = arr(c["seed"] + 2, nt, nbk, ns)
    r = np.einsum("rtbs,tbs->rbs", H, s)
    cond = max(np.linalg.cond(H[:, :, b, k]) for b in range(nbk) for k in range(ns))
    import sparse
    for states in ((H, sparse.GCXS.from_numpy(H)) if c["eq"] == "zf" else (H,)):
        if cond < 1e4:
            out = w.equalize_symbols(StatedSymbols(r, states))
            obs.equal(tuple(out.raw.shape), (nt, nbk, ns), "eq.shape", "equalized streams")
            obs.close(out.raw, s, "eq.mimo", "equalized symbols of a known channel", rtol=1e-6, atol=1e-7 * cond)
            obs.count("known_states")
    obs.sig(("est", c["sc"], c.get("kind"), c["eq"], nt, nr))


# ---------------------------------------------------------------- synchronization

def gen_sync(rng):
    kind = pick(rng, ["sc", "sc", "fsk", "ofdm", "schmidl"])
    c = {"kind": kind, "gaps": [rint(rng, 0, 60) for _ in range(rint(rng, 1, 3))], "tail": rint(rng, 0, 40), "phase": float(rng.uniform(0, 6.28)), "amp": float(10 ** rng.uniform(-3, 3)), "seed": seed(rng),
         "streams": rint(rng, 1, 2), "threshold": pick(rng, [.9, .9, .6, .97]), "guard": pick(rng, [.8, .8, .5, .95]), "weak": pick(rng, [1., 1., .75])}
    if kind == "sc":
        c["w"] = dict(gen_sc(rng), kind=pick(rng, ["rrc", "rect", "fmcw"]), flen=16, relbw=1., pre=rint(rng, 16, 40), seq=64)
    elif kind == "fsk":
        c["w"] = gen_fsk(rng)
        c["w"]["pil"] = max(c["w"]["pil"], 4)
    else:
        c["w"] = dict(gen_orth(rng, kinds=("ofdm",)), pilot="sc" if kind == "schmidl" else "default", N=pick(rng, [32, 64]), seq=None)
        c["w"]["res"] = [{"reps": 1, "prefix": "CYCLIC", "ratio": .25, "els": [["DATA", c["w"]["N"]]]}]
        c["w"]["sections"] = [{"pattern": [0], "reps": rint(rng, 1, 4), "offset": 0}]
    return c


def run_sync(c, obs):
    k, v = c["kind"], c["w"]
    B, osf = v["B"], v["osf"]
    corr = dict(threshold=c["threshold"], guard_ratio=c["guard"])
    if k == "sc":
        w = make_sc(v)
        w.synchronization = SingleCarrierCorrelationSynchronization(**corr)
    elif k == "fsk":
        w = ChirpFSKWaveform(chirp_duration=v["dur"], num_pilot_chirps=v["pil"], num_data_chirps=v["data"], modulation_order=v["order"])
        w.synchronization = ChirpFSKCorrelationSynchronization(**corr)
    else:
        w = make_orth(v)
        w.synchronization = OFDMCorrelationSynchronization(**corr) if k == "ofdm" else SchmidlCoxSynchronization()
    n = w.samples_per_frame(B, osf)
    frames, pos, starts = [], 0, []
    total = sum(c["gaps"]) + n * len(c["gaps"]) + c["tail"]
    x = np.zeros(total, complex)
    for i, g in enumerate(c["gaps"]):
        pos += g
        f = w.modulate(w.place(w.map(bits_of(v, w.bits_per_frame(), i))), B, osf)
        x[pos:pos + n] = f * (c["weak"] if i else 1.)
        starts.append(pos)
        pos += n
    x *= c["amp"] * np.exp(1j * c["phase"])
    sig = np.array([x * np.exp(1j * s) for s in range(c["streams"])])
    if k == "schmidl":
        n_sym = osf * v["N"]
        h = int(.5 * n_sym)
        metric = np.array([np.sum(np.abs(np.sum(sig[:, d:d + h].conj() * sig[:, d + h:d + 2 * h], axis=1))) for d in range(1 + total - n_sym)])
        dist = int(.9 * n)
        thr = .75
        metric = np.concatenate(([0], metric, [0]))
        off = 1
    else:
        pil = np.asarray(w.pilot_signal(B, osf).view(np.ndarray)).reshape(-1)
        metric = sum(np.abs(np.correlate(s, pil, "full")) for s in sig)
        dist = int(c["guard"] * n)
        thr = c["threshold"]
        off = pil.size - 1
    top = metric.max()
    true = np.array(starts) + off
    inside = np.zeros(metric.size, bool)
    for t in true:
        inside[max(0, t - dist + 1):t + dist] = True
    tied = any(np.sum(metric[max(0, t - dist + 1):t + dist] > metric[t] * (1 - 1e-6)) > 1 for t in true)
    clear = np.all((metric[~inside] < thr * top * (1 - 1e-6))) and np.all(metric[true] > thr * top * (1 + 1e-6)) and not tied and min(np.diff(true), default=10 ** 9) >= dist
    got = sorted(int(i) for i in w.synchronization.synchronize(sig, B, osf))
    if clear:
        obs.equal(got, starts, "sync." + k, "detected frame starts")
        obs.count("synchronized_" + k)
    weakest = np.all(metric[~inside] < thr * top * (1 - 1e-6)) and not tied
    if weakest and not clear and k != "schmidl" and min(np.diff(true), default=10 ** 9) >= dist:
        keep = [s for s, t in zip(starts, true) if metric[t] > thr * top * (1 + 1e-6)]
        edge = any(abs(metric[t] / top - thr) < 1e-5 for t in true)
        if not edge:
            drop = [s for s in starts if s not in keep]
            obs.check(not set(drop) & set(got), "sync.threshold", f"frames below the configured threshold are not reported: {drop} in {got}")
            obs.count("thresholded")
    obs.sig(("sync", k, len(starts), clear, c["streams"]))


# ---------------------------------------------------------------- documented limits (see known_findings.json)

def run_limits(c, obs):
    if c["what"] == "guard_interval":
        kw = dict(num_preamble_symbols=4, num_data_symbols=8, modulation_order=4)
        w = RectangularWaveform(guard_interval=10e-6, **kw)
        n = w.samples_per_frame(1e6, 2) - RectangularWaveform(**kw).samples_per_frame(1e6, 2)
        obs.soft(n == 20, "limits.single_carrier_guard", f"a 10 us guard interval at 2 MHz adds {n} samples to the frame instead of 20")
    else:
        case = {"kind": c["what"], "N": 16, "res": [{"reps": 1, "prefix": "CYCLIC", "ratio": .5, "els": [["DATA", 16]]}], "sections": [{"pattern": [0, 0], "reps": 1, "offset": 0 if c["what"] == "none" else 3}],
                "dc": False, "pilot": None, "osf": 1, "order": 4, "B": 1e6, "seed": 3}
        w = make_orth(case)
        p = w.place(w.map(bits_of(case, w.bits_per_frame())))
        y = w.demodulate(w.modulate(p, 1e6, 1), 1e6, 1)
        err = float(np.max(np.abs(y.raw - p.raw)))
        obs.soft(err < 1e-6, "limits.sample_offset_" + c["what"], f"{c['what']} symbols of a section with three samples offset within its prefix come back with error {err:.3g}")
    obs.sig(c["what"])


FAMILIES = [
    Family("limits", lambda rng: {"what": "guard_interval"}, run_limits, quick=0, pinned=[{"what": "guard_interval"}, {"what": "ocdm"}, {"what": "otfs"}]),
    Family("single_carrier", gen_sc, run_sc, quick=260, require=("sc_rrc", "sc_rc", "sc_rect", "sc_fmcw", "sc_bits", "odd_filters")),
    Family("chirp_fsk", gen_fsk, run_fsk, quick=120, require=("fsk_bits", "fsk_guards", "fsk_reference")),
    Family("orthogonal", gen_orth, run_orth, quick=260, require=("orth_ofdm", "orth_ocdm", "orth_otfs", "pilot_sections", "guard_sections", "cyclic_prefixes", "dft_references", "pilot_reconfigurations")),
    Family("sample_offset", lambda rng: gen_orth(rng, kinds=("ofdm",), offsets=True), run_orth, quick=80, require=("sample_offsets",)),
    Family("nr", gen_nr, run_nr, quick=8, require=("nr_frames",)),
    Family("estimation", gen_est, run_est, quick=100, require=("flat_channels", "flat_streams", "known_states")),
    Family("synchronization", gen_sync, run_sync, quick=150, require=("synchronized_sc", "synchronized_fsk", "synchronized_ofdm", "synchronized_schmidl")),
]
