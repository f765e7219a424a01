"""Bit-to-symbol mapping is an invertible unit-power constellation."""
import numpy as np
from hv.runner import Family
from hv.ref import pick, rint, seed
from hermespy.modem.tools.psk_qam_mapping import PskQamMapping

PROPERTY = "C12"
RULE = ("every built-in constellation (complex orders 2,4,8,16,64,256, real orders 2,4,8,16) and random user-defined ones; all bit patterns enumerated per case, random bit "
        "sequences, noisy received points including points on and far outside the grid, random noise variances; distinct = distinct (order, real/complex, custom, soft, length) signatures")
ASSUMPTIONS = ["received points closer than 1e-7 to a decision boundary are not decided", "a soft value is compared up to one positive scale per constellation"]
BUILTIN = [(o, True) for o in (2, 4, 8, 16, 64, 256)] + [(o, False) for o in (2, 4, 8, 16)]


def patterns(order):
    n = int(np.log2(order))
    return (np.arange(order)[:, None] >> np.arange(n - 1, -1, -1)) & 1


def gen(rng):
    o, c = pick(rng, BUILTIN)
    case = {"order": o, "complex": c, "seed": seed(rng), "n": pick(rng, [1, 2, 7, 40, 200]), "soft": bool(rng.random() < .5), "spread": float(10 ** rng.uniform(-3, .7)),
            "variance": pick(rng, [1.0, float(10 ** rng.uniform(-4, 2)), "array"]), "custom": None, "dtype": pick(rng, ["uint8", "int", "bool"])}
    if rng.random() < .3:
        case["order"] = o = pick(rng, [2, 4, 8, 16, 32, 64, 128])
        case["custom"] = seed(rng)
        case["soft"] = bool(rng.random() < .1)
    return case


def gray_neighbours(points, bits):
    """Nearest-neighbour pairs of the grid differing in more than one bit."""
    d = np.abs(points[:, None] - points[None, :])
    np.fill_diagonal(d, np.inf)
    dmin = d.min()
    i, j = np.nonzero(d < dmin * 1.0001)
    return int(np.max(np.sum(bits[i] != bits[j], axis=1)))


def run(case, obs):
    o, c, soft = case["order"], case["complex"], case["soft"]
    rng = np.random.default_rng(case["seed"])
    mapping = None
    if case["custom"] is not None:
        r = np.random.default_rng(case["custom"])
        mapping = (r.normal(size=o) + 1j * r.normal(size=o)) * 10 ** r.uniform(-3, 3)
        original = mapping.copy()
    m = PskQamMapping(o, mapping=mapping, soft_output=soft, is_complex=c)
    n = m.bits_per_symbol
    obs.sig(o, c, case["custom"] is not None, soft, case["n"], str(case["variance"])[:3], case["dtype"])
    obs.equal(2 ** n, o, "bits_per_symbol", "bits per symbol")
    all_bits = patterns(o)
    points = m.get_symbols(all_bits.ravel().astype(np.uint8))
    obs.equal(points.shape, (o,), "symbol_count", "symbols for all patterns")
    obs.check(np.all(np.isfinite(points)), "symbols_defined", "undefined symbols")
    d = np.abs(points[:, None] - points[None, :])
    np.fill_diagonal(d, np.inf)
    dmin = d.min()
    obs.check(dmin > 1e-9, "injective", "two bit patterns share a symbol")
    obs.close(np.mean(np.abs(points) ** 2), 1.0, "unit_power", "average symbol power", rtol=1e-12)
    obs.close(m.get_mapping(), points, "get_mapping", "reported constellation", rtol=0, atol=0)
    if mapping is not None:
        obs.equal(mapping, original, "mapping_mutated", "user constellation")
        obs.close(points, original / np.sqrt(np.mean(np.abs(original) ** 2)), "custom_points", "normalized user constellation", rtol=1e-12)
    else:
        if not c:
            obs.close(points.imag if np.iscomplexobj(points) else 0 * points, np.zeros(o), "pam_real", "imaginary part of a real constellation")
        obs.check(gray_neighbours(points, all_bits) == 1, "gray", "adjacent symbols differ in more than one bit")
    # reported constellation is a report, not a handle
    rep = m.get_mapping()
    if rep.flags.writeable:
        rep *= 0
    obs.close(PskQamMapping(o, mapping=None if mapping is None else original, is_complex=c).get_symbols(all_bits.ravel().astype(np.uint8)), points, "mapping_aliased", "constellation after editing the reported one", rtol=0, atol=0)
    obs.close(m.get_symbols(all_bits.ravel().astype(np.uint8)), points, "mapping_aliased", "constellation after editing the reported one", rtol=0, atol=0)
    # arbitrary sequences
    bits = rng.integers(0, 2, case["n"] * n).astype(case["dtype"])
    before = bits.copy()
    symbols = m.get_symbols(bits)
    obs.equal(bits, before, "bits_mutated", "bits after mapping")
    idx = bits.astype(int).reshape(-1, n) @ (1 << np.arange(n - 1, -1, -1))
    obs.close(symbols, points[idx], "sequence", "symbols of a bit sequence", rtol=0, atol=0)
    soft_ok = not (soft and (mapping is not None or (o == 8 and c)))
    if not soft_ok:
        obs.raises(lambda: m.detect_bits(symbols), "soft_custom", "soft detection of a user constellation is not implemented", exceptions=(RuntimeError,))
        return
    # noiseless
    hard = np.asarray(m.detect_bits(symbols))
    obs.equal(hard.shape, bits.shape, "detected_count", "number of detected bits")
    obs.equal(hard > 0, bits.astype(bool), "noiseless", "noiseless detection")
    # noisy
    amp = case["spread"]
    noise = amp * (rng.normal(size=case["n"]) + 1j * rng.normal(size=case["n"]))
    rx = symbols + (noise if (c or mapping is not None) else noise.real)
    rx0 = rx.copy()
    var = rng.uniform(1e-3, 10, case["n"]) if case["variance"] == "array" else case["variance"]
    out = np.asarray(m.detect_bits(rx, var)).reshape(-1, n)
    obs.equal(rx, rx0, "rx_mutated", "received symbols after detection")
    use = rx if (c or mapping is not None) else rx.real
    # a binary real constellation ignores the quadrature component
    ref_pts = points
    dist = np.abs(use[:, None] - ref_pts[None, :]) ** 2
    d0 = np.array([dist[:, all_bits[:, b] == 0].min(1) for b in range(n)]).T
    d1 = np.array([dist[:, all_bits[:, b] == 1].min(1) for b in range(n)]).T
    ref = d0 - d1  # positive: bit one is more likely
    clear = np.abs(ref) > 1e-7 * (1 + np.abs(d0))
    obs.count("points_decided", int(clear.sum()))
    obs.count("symbol_errors_observed", int(np.sum(np.argmin(dist, axis=1) != idx)))
    wrong = clear & ((out > 0) != (ref > 0))
    # on ties of a single bit the joint decision may differ: only clear bits are decided
    obs.check(not wrong.any(), "nearest_point", f"{int(wrong.sum())} decisions contradict the nearest constellation point", order=o, complex=c, custom=mapping is not None)
    if soft:
        llr = out * (var[:, None] if isinstance(var, np.ndarray) else var)
        scale = llr[clear] / ref[clear]
        if scale.size:
            obs.check(np.all(scale > 0), "soft_sign", "soft decisions contradict the hard decisions")
            obs.close(scale, np.full(scale.shape, np.median(scale)), "soft_value", "soft decisions versus exact max-log values", rtol=1e-4, order=o, complex=c)
            obs.count("soft_values", scale.size)


FAMILIES = [Family("mapping", gen, run, 2500, require=("points_decided", "soft_values", "symbol_errors_observed"),
                   pinned=[{"order": o, "complex": c, "seed": 7, "n": 400, "soft": s, "spread": .3, "variance": "array", "custom": None, "dtype": "uint8"} for o, c in BUILTIN for s in (False, True)])]
