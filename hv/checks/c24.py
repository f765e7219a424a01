"""Radar processing locates targets at their true range, speed and angle."""
import numpy as np
from hv.runner import Family
from hv.ref import arr, cn, nd, pick, rint, seed, snapshot
from hv.chan import C0, MODE
from hv.checks.c23 import rg, unit
from hermespy.beamforming import ConventionalBeamformer
from hermespy.channel.radar import FixedCrossSection, MultiTargetRadarChannel, SingleTargetRadarChannel, VirtualRadarTarget
from hermespy.core import Signal, Transformation
from hermespy.jcas import MatchedFilterJcas, OFDMRadar
from hermespy.modem import (DuplexModem, ElementType, GridElement, GridResource, OFDMWaveform, PrefixType, RootRaisedCosineWaveform, ChirpFSKWaveform, StatedSymbols, SymbolSection)
from hermespy.modem.precoding import SingleCarrier, TransmitSymbolEncoder
from hermespy.radar import CFARDetector, FMCW, MaxDetector, PointDetection, Radar, RadarCube, ThresholdDetector
from hermespy.simulation import SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, StaticTrajectory

PROPERTY = "C24"
RULE = ("random FMCW, OFDM and matched filter radars with random bandwidths, chirp timings, oversampling, ADC rates, frame layouts and minimal ranges observing single "
        "targets at random unambiguous ranges, speeds and angles, synthesised by the radar channel models or an independent echo model; the peak and the axis labels of the cubes are compared "
        "with the target, matched filter cubes and detector outputs with a direct re-computation; distinct = distinct (radar, timing, axis sizes, echo source) signatures")
ASSUMPTIONS = ["a target counts as located if the label of the peak bin is the closest one to the target's parameter, up to range-Doppler coupling and sample quantisation",
               "radial velocities are positive for receding targets in the simulation; the FMCW estimator labels them negative (known finding KF-C24-2)",
               "OFDM targets stay within the cyclic prefix and below 5% of the subcarrier spacing in Doppler",
               "normalised threshold detection is evaluated on cubes whose minimum is zero"]


# ------------------------------------------------------------------ devices and echoes
def gen_array(rng):
    """Single transmitting and several receiving antennas."""
    if rng.random() < .5:
        return None
    n = rint(rng, 3, 9)
    return {"pts": (rng.uniform(-1, 1, (n, 3)) * .8).tolist(), "rpy": rng.uniform(-3, 3, 3).tolist() if rng.random() < .5 else [0, 0, 0], "dirs": [unit(v).tolist() for v in rng.standard_normal((rint(rng, 2, 12), 3))]}


def mk_device(case, tx_all=False, B=None):
    a = case.get("array")
    pose = Transformation.From_RPY(np.array(a["rpy"] if a else [0, 0, 0], float), np.array([1., 2., 3.]) if a else np.zeros(3))
    lam = C0 / case["cf"]
    ants = [SimulatedIdealAntenna(mode=MODE["D" if i == 0 or tx_all else "R"], pose=Transformation.From_Translation(np.array(p) * lam)) for i, p in enumerate(a["pts"] if a else [[0, 0, 0]])]
    return SimulatedDevice(antennas=SimulatedCustomArray(ants), pose=StaticTrajectory(pose), carrier_frequency=case["cf"], bandwidth=B or case["B"], oversampling_factor=case["os"])


def steering(case, d, k=None):
    """Response of the array towards a direction in its local frame."""
    p = np.array(case["array"]["pts"][:k]) * C0 / case["cf"] if case.get("array") else np.zeros((1, 3))
    return np.exp(2j * np.pi * case["cf"] / C0 * (p @ d))


def probing(case, op):
    """Configure the receive beamformer to probe all candidate directions; returns the directions."""
    if not case.get("array"):
        return None
    D = np.array(case["array"]["dirs"])
    bf = ConventionalBeamformer()
    bf.probe_focus_points = np.stack([np.arctan2(D[:, 1], D[:, 0]), np.arccos(np.clip(D[:, 2], -1, 1))], axis=1)[:, None, :]
    op.receive_beamformer = bf
    return D


def echo(case, x, fs, delay, v, target=0, extra=40):
    """Independent echo: integer delay and the two-way Doppler shift of a receding target."""
    y = np.zeros((1, x.shape[1] + delay + extra), complex)
    y[0, delay:delay + x.shape[1]] = x[0] * np.exp(2j * np.pi * np.arange(x.shape[1]) / fs * 2 * v * case["cf"] / C0 + 1j)
    if case.get("array"):
        return steering(case, np.array(case["array"]["dirs"][target]))[:, None] @ y
    return y


def chan_echo(case, device, output, r, v, target=0):
    if case.get("array"):
        d = np.array(case["array"]["dirs"][target])
        R = np.array(device.pose.view(np.ndarray)[:3, :3])
        ch = MultiTargetRadarChannel(attenuate=False)
        g = R @ d
        ch.add_target(VirtualRadarTarget(FixedCrossSection(1.), trajectory=StaticTrajectory(Transformation.From_Translation(np.array([1., 2., 3.]) + r * g), v * g)))
    else:
        ch = SingleTargetRadarChannel(r, 1., velocity=float(v), attenuate=False)
    ch.seed = case["seed"]
    return ch.propagate(output, device, device)


def peak(cube):
    i = np.unravel_index(np.argmax(cube.data), cube.data.shape)
    return i, cube.range_bins[i[2]], cube.velocity_bins[i[1]]


def axes(obs, cube, case):
    obs.check(cube.data.shape == (len(cube.angle_bins), len(cube.doppler_bins), len(cube.range_bins)), "axis-lengths", f"{cube.data.shape}")
    obs.close(cube.velocity_bins, cube.doppler_bins * C0 / case["cf"], "axis-velocity", "velocity labels of the Doppler bins", rtol=1e-9)
    obs.check(np.all(np.isfinite(cube.data)) and np.all(cube.data >= 0), "cube-finite", "cube contains invalid powers")
    obs.check(np.all(np.diff(cube.range_bins) > 0) and np.all(np.diff(cube.doppler_bins) > 0), "axis-order", "bins aren't sorted")


def angle(obs, cube, i, D, target, case):
    """The strongest probed direction is the target's."""
    if D is None:
        return
    a = np.array([steering(case, d) for d in D])
    c = np.abs(a.conj() @ a[target]) / a.shape[1]
    obs.check(cube.data.shape[0] == len(D), "angle-bins", f"{cube.data.shape[0]} angles for {len(D)} probed directions")
    if np.all(np.delete(c, target) < .93):
        obs.equal(int(i[0]), target, "angle-peak", "probed direction of the peak")
        obs.count("angles")
    az, ze = cube.angle_bins[i[0]]
    obs.close(np.array([np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)]), D[i[0]], "angle-label", "direction label", atol=1e-6)


def detect(obs, cube, cloud, D):
    """Maximum detection agrees with the peak of the cube."""
    i, r, v = peak(cube)
    obs.equal(cloud.num_points, 1, "detector-count", "points of the maximum detector")
    p = cloud.points[0]
    d = np.array([0, 0, 1.]) if D is None else D[i[0]]
    obs.close(p.position, r * d, "detector-position", "position of the detected peak", atol=1e-6 * max(r, 1))
    obs.close(p.velocity, v * d, "detector-velocity", "velocity of the detected peak", atol=1e-6 * max(abs(v), 1))
    obs.close(p.power, cube.data.max(), "detector-power", "power of the detected peak", rtol=1e-9)


# ------------------------------------------------------------------ FMCW
def gen_fmcw(rng):
    B = float(pick(rng, [50e6, 100e6, 123e6, 400e6, 1e9]))
    Tc = rint(rng, 40, 400) / B
    PRI = Tc * float(pick(rng, [1., 1., 1.25, 1.5, 1. + rng.random()]))
    os_ = pick(rng, [1, 1, 2, 3, 4])
    c = {"B": B, "os": os_, "Tc": Tc, "PRI": PRI, "N": pick(rng, [1, 2, 3, 7, 8, 15, 16, 21]), "adc": None, "cf": float(10 ** rng.uniform(9.7, 10.9)), "seed": seed(rng), "array": gen_array(rng),
         "source": pick(rng, ["echo", "channel"]), "minr": 0., "target": 0}
    if rng.random() < .35:
        c["adc"] = float(B * pick(rng, [.25, .5, .4, .75, 1., 1.]) if os_ == 1 or rng.random() < .7 else B * os_ * .75)
    vis = min((c["adc"] or B) / B, 1.)
    c["r"] = float(rng.uniform(.03, .75 * vis) * Tc * C0 / 2)
    if (round(PRI * B) > round(Tc * B) or c["N"] < 7) and c["r"] > max(PRI - Tc, .3 * Tc) * C0 / 2:       # echoes of the preceding pulse must stay weaker
        c["r"] *= .55
    vmax = C0 / c["cf"] / (4 * PRI)
    c["v"] = float(rng.uniform(-.9, .9) * vmax) if c["N"] > 2 and rng.random() < .7 else 0.
    if c["N"] > 2 and abs(c["v"]) > vmax * (1 - 1.2 / (c["N"] / 2)):
        c["v"] *= max(0, 1 - 2.6 / c["N"])
    if rng.random() < .3:
        c["minr"] = float(rng.uniform(0, .9) * max(c["r"] - 2.2 * C0 / (2 * B), 0))
    if c["array"]:
        c["target"] = rint(rng, 0, len(c["array"]["dirs"]) - 1)
    return c


def run_fmcw(case, obs):
    dev = mk_device(case)
    fs = case["B"] * case["os"]
    w = FMCW(case["N"], case["Tc"], case["PRI"], case["adc"])
    op = Radar(w, detector=MaxDetector(), min_range=case["minr"])
    D = probing(case, op)
    dev.transmitters.add(op)
    dev.receivers.add(op)
    out = dev.transmit()
    x = nd(out.mixed_signal)
    obs.equal(x.shape[1], w.samples_per_frame(case["B"], case["os"]), "fmcw-samples", "announced samples per frame")
    T = x.shape[1] // case["N"]
    p = nd(out.operator_transmissions[0].signal)[0]
    obs.close(p.reshape(case["N"], -1), np.tile(p[:T], (case["N"], 1)), "fmcw-periodic", "all pulses are identical", atol=1e-12)
    obs.close(w.frame_duration(case["B"]), case["N"] * case["PRI"], "fmcw-duration", "frame duration", rtol=1e-9)
    q = C0 / (2 * fs)                       # range of one sample
    if case["source"] == "echo":
        delay = max(1, round(case["r"] / q))
        r = delay * q
        y = Signal.Create(echo(case, x, fs, delay, case["v"], case["target"]), fs, case["cf"])
        quant = 0.
    else:
        r = case["r"]
        y = chan_echo(case, dev, out, r, case["v"], case["target"])
        quant = 1.01 * q
    cube = dev.receive(y).operator_receptions[0]
    cloud, cube = cube.cloud, cube.cube
    axes(obs, cube, case)
    obs.equal(cube.data.shape[1], case["N"], "fmcw-doppler-bins", "number of Doppler bins")
    obs.close(np.diff(cube.doppler_bins), np.full(case["N"] - 1, w.relative_doppler_resolution), "fmcw-doppler-res", "spacing of the Doppler bins", rtol=1e-6)
    rb = w.range_bins(case["B"])
    obs.close(cube.range_bins, rb[rb >= case["minr"]], "fmcw-range-bins", "range bins at or above the minimal range", rtol=1e-9)
    mr = (case["adc"] or case["B"]) / case["B"] * case["Tc"] * C0 / 2
    obs.close(w.max_range(case["B"]), mr, "fmcw-max-range", "maximal range", rtol=1e-9)
    obs.check(abs(len(rb) - mr / (C0 / 2 / case["B"])) < 1.001, "fmcw-range-count", f"{len(rb)} range bins")
    obs.close(rb, np.arange(len(rb)) * mr / len(rb), "fmcw-range-labels", "range bins divide the unambiguous range", rtol=1e-9)
    res, fd = w.range_resolution(case["B"]), 2 * case["v"] * case["cf"] / C0
    i, pr, pv = peak(cube)
    full = r < .3 * case["Tc"] * C0 / 2 and abs(fd) * case["Tc"] < .1           # most of each chirp is observed at a single beat
    obs.check(abs(pr - r) <= (.56 if full else 1.2 / (1 - 2 * r / C0 / case["Tc"])) * max(res, np.diff(rb).max() if len(rb) > 1 else res) + quant + abs(fd) * case["Tc"] * res, "fmcw-range", f"peak labelled {pr} m for a target at {r} m (resolution {res} m)")
    vres = w.relative_doppler_resolution * C0 / case["cf"]
    obs.check(abs(pv + case["v"]) <= .56 * vres, "fmcw-velocity", f"peak labelled {pv} m/s for a target at {case['v']} m/s (bins {cube.velocity_bins})")
    angle(obs, cube, i, D, case["target"], case)
    detect(obs, cube, cloud, D)
    obs.count("fmcw_targets")
    obs.count(f"fmcw_{case['source']}")
    obs.sig(("fmcw", case["N"], case["os"], case["adc"] is None, case["PRI"] > case["Tc"], len(rb), case["source"], D is None))


# ------------------------------------------------------------------ OFDM
def ofdm(case):
    els = [GridElement(ElementType.NULL, case["null"])] if case["null"] else []
    els += [GridElement(ElementType.DATA, case["ns"] - 2 * case["null"])]
    els += [GridElement(ElementType.NULL, case["null"])] if case["null"] else []
    return OFDMWaveform([GridResource(1, PrefixType.CYCLIC, case["cp"], els)], [SymbolSection(case["words"], [0])], num_subcarriers=case["ns"], modulation_order=case["order"], dc_suppression=False)


def gen_ofdm(rng):
    ns = pick(rng, [32, 64, 128, 100])
    B = float(pick(rng, [20e6, 100e6, 400e6]))
    c = {"ns": ns, "B": B, "os": pick(rng, [1, 1, 2, 4]), "cp": pick(rng, [.25, .5]), "words": pick(rng, [1, 2, 3, 7, 8, 12]), "null": pick(rng, [0, 0, 1, 3]), "order": pick(rng, [2, 4, 16]), "cf": float(10 ** rng.uniform(9.7, 10.9)),
         "seed": seed(rng), "array": gen_array(rng), "source": pick(rng, ["echo", "channel"]), "minr": 0., "target": 0}
    q = C0 / (2 * B)
    c["r"] = float(rng.uniform(1, .85 * c["cp"] * ns) * q)
    Ts = ns * (1 + c["cp"]) / B
    fmax = min(1 / (2 * Ts) * (1 - 1.2 / max(c["words"] / 2, 1.2)), .04 * B / ns)
    c["v"] = float(rng.uniform(-1, 1) * fmax / 2 * C0 / c["cf"]) if c["words"] > 2 else 0.
    if rng.random() < .4:
        c["minr"] = float(rng.uniform(0, 1) * max(c["r"] - 2.2 * q, 0))
    if c["array"]:
        c["target"] = rint(rng, 0, len(c["array"]["dirs"]) - 1)
    return c


def run_ofdm(case, obs):
    dev = mk_device(case)
    fs = case["B"] * case["os"]
    w = ofdm(case)
    op = OFDMRadar(w, detector=MaxDetector(), min_range=case["minr"], seed=case["seed"])
    D = probing(case, op)
    dev.transmitters.add(op)
    dev.receivers.add(op)
    out = dev.transmit()
    x = nd(out.mixed_signal)
    q = C0 / (2 * fs)
    if case["source"] == "echo":
        delay = max(1, round(case["r"] / q))
        r = delay * q
        y = Signal.Create(echo(case, x, fs, delay, case["v"], case["target"]), fs, case["cf"])
        quant = 0.
    else:
        r = case["r"]
        y = chan_echo(case, dev, out, r, case["v"], case["target"])
        quant = 1.01 * q
    cube = dev.receive(y).operator_receptions[0]
    cloud, cube = cube.cloud, cube.cube
    axes(obs, cube, case)
    N, res, T = case["words"], C0 / (2 * case["B"]), w.frame_duration(case["B"])
    obs.close(op.range_resolution(case["B"]), res, "ofdm-res", "range resolution", rtol=1e-9)
    obs.close(op.max_range(case["B"]), res * case["ns"], "ofdm-max-range", "maximal range", rtol=1e-9)
    obs.close(op.max_relative_doppler(case["B"]), N / (4 * T), "ofdm-max-doppler", "maximal relative Doppler shift spans the unambiguous interval", rtol=1e-6)
    rb = np.arange(case["ns"]) * res
    obs.close(cube.range_bins, rb[rb >= case["minr"] - 1e-9], "ofdm-range-bins", "range bins at or above the minimal range", rtol=1e-9)
    obs.equal(cube.data.shape[1], N, "ofdm-doppler-bins", "number of Doppler bins")
    obs.close(np.diff(cube.doppler_bins), np.full(N - 1, 1 / (2 * T)), "ofdm-doppler-res", "spacing of the Doppler bins", rtol=1e-6)
    i, pr, pv = peak(cube)
    fd = 2 * case["v"] * case["cf"] / C0
    obs.check(abs(pr - r) <= .6 * res + quant + abs(fd) * case["ns"] / case["B"] * res, "ofdm-range", f"peak labelled {pr} m for a target at {r} m (resolution {res} m)")
    vres = C0 / case["cf"] / (2 * T)
    obs.check(abs(pv - case["v"]) <= .6 * vres, "ofdm-velocity", f"peak labelled {pv} m/s for a target at {case['v']} m/s (bins {cube.velocity_bins})")
    angle(obs, cube, i, D, case["target"], case)
    detect(obs, cube, cloud, D)
    obs.count("ofdm_targets")
    obs.sig(("ofdm", case["ns"], case["words"], case["os"], case["null"], case["source"], D is None, case["minr"] > 0))


# ------------------------------------------------------------------ matched filter
def mf_wave(case):
    k = case["wave"]
    if k == "ofdm":
        return ofdm({"null": 0, "ns": 32, "cp": .25, "words": case["len"], "order": 4})
    if k == "rrc":
        return RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=40 * case["len"], roll_off=.5, modulation_order=4)
    return ChirpFSKWaveform(chirp_duration=32 / case["B"], num_pilot_chirps=0, num_data_chirps=case["len"], modulation_order=4)


def gen_mf(rng):
    B = float(pick(rng, [20e6, 100e6, 400e6]))
    c = {"B": B, "os": pick(rng, [1, 2, 4]), "wave": pick(rng, ["ofdm", "rrc", "fsk"]), "len": rint(rng, 2, 6), "cf": float(10 ** rng.uniform(9.7, 10.9)), "seed": seed(rng), "array": gen_array(rng), "source": pick(rng, ["echo", "echo", "channel"]),
         "minr": 0., "target": 0, "short": bool(rng.random() < .3)}
    if c["wave"] != "ofdm":
        c["os"] = pick(rng, [2, 4]) if c["wave"] == "rrc" else pick(rng, [1, 2])
    q = C0 / (2 * B * c["os"])
    c["max"] = float(rng.uniform(10, 120) * q)
    c["r"] = float(rng.uniform(1.2, c["max"] / q - 1.5) * q)
    if rng.random() < .4:
        c["minr"] = float(rng.uniform(0, 1) * max(c["r"] - 2.2 * q, 0))
    L = 32 * c["len"] / B
    vres = C0 / c["cf"] / (2 * L)
    c["velres"] = float(vres * rng.uniform(.4, 1.)) if rng.random() < .6 else 0.
    k = rint(rng, 1, 5)
    c["vmax"] = c["velres"] * k
    c["k"] = rint(rng, -k, k) if c["velres"] else 0
    if c["array"]:
        c["target"] = rint(rng, 0, len(c["array"]["dirs"]) - 1)
    return c


def run_mf(case, obs):
    dev = mk_device(case)
    fs = case["B"] * case["os"]
    kw = {"max_velocity": case["vmax"], "velocity_resolution": case["velres"]} if case["velres"] else {}
    op = MatchedFilterJcas(case["max"], mf_wave(case), detector=MaxDetector(), min_range=case["minr"], seed=case["seed"], **kw)
    D = probing(case, op)
    dev.transmitters.add(op)
    dev.receivers.add(op)
    out = dev.transmit()
    x = nd(out.mixed_signal)
    q = C0 / (2 * fs)
    v = case["k"] * case["velres"]
    obs.close(op.range_resolution(fs), q, "mf-res", "range resolution", rtol=1e-9)
    if case["source"] == "echo":
        delay = max(1, round(case["r"] / q))
        r = delay * q
        y = Signal.Create(echo(case, x, fs, delay, v, case["target"], 0 if case["short"] else 200), fs, case["cf"])
        quant = 0.
    else:
        r = case["r"]
        y = chan_echo(case, dev, out, r, v, case["target"])
        quant = 1.01 * q
    rx = dev.receive(y).operator_receptions[0]
    cloud, cube = rx.cloud, rx.cube
    axes(obs, cube, case)
    nb = int(case["max"] / q)
    lo = next((i for i in range(nb + 1) if i * q >= case["minr"] * (1 - 1e-12)), nb)
    obs.close(cube.range_bins, np.arange(lo, nb) * q, "mf-range-bins", f"range bins between minimal range {case['minr']} and maximal range {case['max']}", rtol=1e-9)
    if case["velres"]:
        obs.close(np.max(np.abs(cube.velocity_bins)), case["vmax"], "mf-velocity-axis", "maximal velocity label", rtol=1e-6)
        obs.check(np.all(np.diff(cube.velocity_bins) <= case["velres"] * 2.01), "mf-velocity-axis", "spacing of the velocity labels")
    i, pr, pv = peak(cube)
    if case["wave"] != "fsk" or not case["velres"]:                               # chirps couple range and Doppler
        obs.check(abs(pr - r) <= (1.01 if case["wave"] == "fsk" else .01) * q + quant, "mf-range", f"peak labelled {pr} m for a target at {r} m (resolution {q} m)")
    if case["velres"] and case["wave"] != "fsk":
        dv = np.diff(cube.velocity_bins).max() if len(cube.velocity_bins) > 1 else 0
        obs.check(abs(pv - v) <= .51 * dv + 1e-6, "mf-velocity", f"peak labelled {pv} m/s for a target at {v} m/s (bins {cube.velocity_bins})")
    angle(obs, cube, i, D, case["target"], case)
    detect(obs, cube, cloud, D)
    xo = nd(out.operator_transmissions[0].signal)
    # direct evaluation of the matched filter
    Y = nd(rx.signal)[:, :x.shape[1] + nb]
    Y = np.pad(Y, ((0, 0), (0, x.shape[1] + nb - Y.shape[1])))
    lines = Y if D is None else np.array([steering(case, d).conj() @ Y / Y.shape[0] for d in D])
    n = np.arange(x.shape[1])
    ref = np.empty(cube.data.shape)
    for d, f in enumerate(cube.doppler_bins):
        t = (xo[0] * np.exp(4j * np.pi * f * n / fs)).conj()
        for a, line in enumerate(lines):
            ref[a, d] = [abs(line[l:l + len(t)] @ t) ** 2 / len(t) for l in range(lo, nb)]
    obs.close(cube.data, ref, "mf-cube", "matched filter output powers", rtol=1e-6, atol=1e-7 * ref.max())
    obs.count("mf_targets")
    obs.count("mf_cells", cube.data.size)
    obs.sig(("mf", case["wave"], case["os"], cube.data.shape, case["source"], D is None, case["minr"] > 0))


# ------------------------------------------------------------------ matched filter, several transmit streams
class Spread(TransmitSymbolEncoder):
    """Every output stream carries the same symbols in another circular order."""

    def encode_symbols(self, symbols, num_output_streams):
        raw = np.stack([np.roll(symbols.raw[0], i, axis=-1) for i in range(num_output_streams)])
        return StatedSymbols(raw, np.repeat(symbols.dense_states(), num_output_streams, axis=0))

    def num_transmit_input_streams(self, num_output_streams):
        return 1

    num_transmit_input_symbols = property(lambda self: 1)
    num_transmit_output_symbols = property(lambda self: 1)


def gen_mimo(rng):
    B = float(pick(rng, [20e6, 100e6]))
    n = rint(rng, 2, 3)
    q = C0 / (2 * B)
    c = {"B": B, "os": 1, "cf": float(10 ** rng.uniform(9.7, 10.9)), "seed": seed(rng), "n": n, "len": rint(rng, 4, 8), "wave": "ofdm", "r": rint(rng, 2, 20), "max": float(30.5 * q), "minr": 0.,
         "array": {"pts": (rng.uniform(-1, 1, (n, 3)) * .8).tolist(), "rpy": rng.uniform(-3, 3, 3).tolist(), "dirs": [unit(v).tolist() for v in rng.standard_normal((rint(rng, 2, 5), 3))]}}
    c["target"] = rint(rng, 0, len(c["array"]["dirs"]) - 1)
    return c


def run_mimo(case, obs):
    dev = mk_device(case, tx_all=True)
    fs = case["B"]
    op = MatchedFilterJcas(case["max"], mf_wave(case), detector=MaxDetector(), seed=case["seed"])
    op.transmit_symbol_coding[0] = Spread()
    op.receive_symbol_coding[0] = SingleCarrier()
    D = probing(case, op)
    dev.transmitters.add(op)
    dev.receivers.add(op)
    out = dev.transmit()
    x = nd(out.mixed_signal)
    obs.equal(x.shape[0], case["n"], "mimo-streams", "transmitted streams")
    q = C0 / (2 * fs)
    d = D[case["target"]]
    lit = steering(case, d)[None, :] @ x
    y = np.zeros((case["n"], x.shape[1] + 60), complex)
    y[:, case["r"]:case["r"] + x.shape[1]] = steering(case, d)[:, None] @ lit
    rx = dev.receive(Signal.Create(y, fs, case["cf"])).operator_receptions[0]
    cube = rx.cube
    axes(obs, cube, case)
    nb = int(case["max"] / q)
    Y = y[:, :x.shape[1] + nb]
    ref = np.empty(cube.data.shape)
    for a, di in enumerate(D):
        s = steering(case, di)
        line, t = s.conj() @ Y / case["n"], (s @ x).conj()
        ref[a, 0] = [abs(line[l:l + len(t)] @ t) ** 2 / len(t) for l in range(nb)]
    obs.close(cube.data, ref, "mimo-cube", "matched filter output of the signals transmitted towards each direction", rtol=1e-6, atol=1e-7 * ref.max())
    rp = cube.range_bins[np.argmax(cube.data[case["target"], 0])]
    obs.close(rp, case["r"] * q, "mimo-range", "range of the target in its direction", rtol=1e-6)
    obs.count("mimo_cubes")
    obs.sig(("mimo", case["n"], len(D), case["len"]))


# ------------------------------------------------------------------ communication
def gen_comm(rng):
    c = gen_ofdm(rng) if rng.random() < .5 else gen_mf(rng)
    c["array"] = None
    c["target"] = 0
    c["snr"] = float(rng.uniform(-5, 30))
    return c


def run_comm(case, obs):
    dev = mk_device(case)
    fs = case["B"] * case["os"]
    of = "ns" in case
    wave = lambda: ofdm(case) if of else mf_wave(case)
    op = OFDMRadar(wave(), seed=case["seed"]) if of else MatchedFilterJcas(case["max"], wave(), seed=case["seed"])
    dev.transmitters.add(op)
    dev.receivers.add(op)
    out = dev.transmit()
    t = out.operator_transmissions[0]
    ref = mk_device(case)
    modem = DuplexModem(waveform=wave(), seed=case["seed"])
    ref.transmitters.add(modem)
    ref.receivers.add(modem)
    plain = ref.transmit()
    obs.close(nd(out.mixed_signal), nd(plain.mixed_signal), "comm-waveform", "transmitted waveform of a plain modem with the same seed", rtol=1e-9, atol=1e-12)
    obs.equal(t.bits.tolist(), plain.operator_transmissions[0].bits.tolist(), "comm-bits", "transmitted bits")
    x = nd(out.mixed_signal)
    y = x + 10 ** (-case["snr"] / 20) * arr(case["seed"], *x.shape)
    y = np.pad(y, ((0, 0), (0, 30)))
    a = dev.receive(Signal.Create(y.copy(), fs, case["cf"])).operator_receptions[0]
    b = ref.receive(Signal.Create(y.copy(), fs, case["cf"])).operator_receptions[0]
    obs.equal(a.bits.tolist(), b.bits.tolist(), "comm-received", "bits received by a plain modem")
    obs.close(a.equalized_symbols.raw, b.equalized_symbols.raw, "comm-symbols", "symbols received by a plain modem", rtol=1e-9, atol=1e-12)
    clean = dev.receive(Signal.Create(x.copy(), fs, case["cf"])).operator_receptions[0]
    if of or case["wave"] == "ofdm" or case["wave"] == "fsk":
        obs.equal(clean.bits.tolist(), t.bits.tolist(), "comm-ideal", "bits received over an ideal channel")
    obs.count("communications")
    obs.sig(("comm", of, case.get("wave"), case["os"], case["B"]))


# ------------------------------------------------------------------ detectors
def gen_det(rng):
    k = pick(rng, ["max", "threshold", "threshold", "cfar", "cfar"])
    shape = [rint(rng, 1, 4), rint(rng, 1, 12), rint(rng, 1, 20)]
    c = {"kind": k, "seed": seed(rng), "cf": float(10 ** rng.uniform(9, 11)), "ties": bool(rng.random() < .3), "zero": bool(rng.random() < .3), "norm": bool(rng.random() < .5), "peaks": bool(rng.random() < .5), "q": float(rng.random()), "pfa": float(10 ** rng.uniform(-4, -.2))}
    if k == "cfar":
        c["tr"] = [rint(rng, 1, 3), rint(rng, 1, 3)]
        c["gd"] = [rint(rng, 0, 2), rint(rng, 0, 2)]
        shape[1] = 2 * (c["tr"][0] + c["gd"][0]) + 1 + rint(rng, 0, 8)
        shape[2] = 2 * (c["tr"][1] + c["gd"][1]) + 1 + rint(rng, 0, 10)
    c["shape"] = shape
    return c


def run_det(case, obs):
    rng = rg(case["seed"])
    A, V, R = case["shape"]
    data = rng.exponential(size=(A, V, R)) * 10 ** rng.uniform(-3, 3)
    for _ in range(rint(rng, 0, 4)):
        data[rint(rng, 0, A - 1), rint(rng, 0, V - 1), rint(rng, 0, R - 1)] *= 10 ** rng.uniform(0, 4)
    if case["ties"]:
        data = np.ceil(data / data.max() * 4)
    if case["zero"] or case["norm"]:
        data.flat[rint(rng, 0, data.size - 1)] = 0.
    if case["zero"]:
        data[rng.random(data.shape) < .5] = 0.
    ang = np.stack([rng.uniform(-3, 3, A), rng.uniform(0, 3, A)], axis=1)
    dop = np.sort(rng.standard_normal(V)) * 100
    rb = np.sort(rng.uniform(0, 100, R)) + np.arange(R)
    cube = RadarCube(data.copy(), ang, dop, rb, case["cf"])
    k = case["kind"]
    if k == "max":
        det = MaxDetector()
        cells = [np.unravel_index(np.argmax(data), data.shape)] if data.max() > 0 else []
    elif k == "threshold":
        norm = data / data.max() if case["norm"] and data.max() > 0 else data
        thr = max(1e-9, float(np.quantile(norm, case["q"])))
        det = ThresholdDetector(thr, case["norm"], case["peaks"])
        near = np.abs(norm - thr) < 1e-12 * thr
        cells = []
        for c in np.ndindex(data.shape):
            if norm[c] < thr and not near[c]:
                continue
            if near[c] and norm[c] != thr:
                return
            if case["peaks"]:
                nb = [tuple(np.add(c, s * np.eye(3, dtype=int)[ax])) for ax in range(3) for s in (-1, 1)]
                nb = [n for n in nb if all(0 <= n[i] < data.shape[i] for i in range(3))]
                if any(data[n] > data[c] for n in nb):
                    continue
            cells.append(c)
    else:
        det = CFARDetector(tuple(case["tr"]), tuple(case["gd"]), case["pfa"])
        wx, wy = case["tr"][0] + case["gd"][0], case["tr"][1] + case["gd"][1]
        cells = []
        for a, v, r in np.ndindex(data.shape):
            tot, n = 0., 0
            for i in range(max(0, v - wx), min(V, v + wx + 1)):
                for j in range(max(0, r - wy), min(R, r + wy + 1)):
                    if abs(i - v) <= case["gd"][0] and abs(j - r) <= case["gd"][1]:
                        continue
                    tot, n = tot + data[a, i, j], n + 1
            t = tot * (case["pfa"] ** (-1 / n) - 1)
            if abs(data[a, v, r] - t) <= 1e-9 * max(t, 1e-30):
                continue
            if data[a, v, r] > t:
                cells.append((a, v, r))
        skip = True
    cloud = det.detect(cube)
    obs.check(np.array_equal(cube.data, data), "detector-input", "detection modified the cube")
    exp = []
    for a, v, r in cells:
        az, ze = ang[a]
        d = np.array([np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)])
        exp.append(np.concatenate([rb[r] * d, dop[v] * C0 / case["cf"] * d, [data[a, v, r]]]))
    got = [np.concatenate([p.position, p.velocity, [p.power]]) for p in cloud.points]
    obs.count("detections", len(got))
    obs.count("detector_cells", data.size)
    obs.equal(len(got), len(exp), "detector-cells", f"number of cells satisfying the {k} criterion")
    key = lambda e: tuple(np.round(e, 6))
    for g, e in zip(sorted(got, key=key), sorted(exp, key=key)):
        obs.close(g, e, "detector-cells", f"{k} detection (position, velocity, power)", rtol=1e-6, atol=1e-6)
    obs.check(cloud.max_range >= rb.max() * (1 - 1e-12), "detector-range", "represented range")
    obs.sig(("det", k, tuple(case["shape"]), case["norm"], case["peaks"], case["zero"], min(len(exp), 5)))


# ------------------------------------------------------------------ cubes and single antenna radars
def gen_cube(rng):
    return {"shape": [rint(rng, 1, 4) for _ in range(3)], "seed": seed(rng), "cf": float(10 ** rng.uniform(9, 11)), "bad": pick(rng, ["angle", "doppler", "range", "dim", "carrier"]), "points": rint(rng, 1, 5)}


def run_cube(case, obs):
    rng = rg(case["seed"])
    s = case["shape"]
    data = rng.exponential(size=s)
    ang, dop, rb = rng.standard_normal((s[0], 2)), rng.standard_normal(s[1]), np.arange(s[2]) * 1.
    cube = RadarCube(data.copy(), ang, dop, rb, case["cf"])
    obs.close(cube.velocity_bins, dop * C0 / case["cf"], "cube-velocity", "velocity labels", rtol=1e-9)
    cube.normalize_power()
    obs.close(cube.data, data / data.max(), "cube-normalize", "normalised powers", rtol=1e-9)
    bad = {"angle": (data, np.zeros((s[0] + 1, 2)), dop, rb, case["cf"]), "doppler": (data, ang, np.zeros(s[1] + 1), rb, case["cf"]), "range": (data, ang, dop, np.zeros(s[2] + 1), case["cf"]),
           "dim": (data[0], ang, dop, rb, case["cf"]), "carrier": (data, ang, dop, rb, -1.)}[case["bad"]]
    obs.raises(lambda: RadarCube(*bad), "cube-rejected", f"inconsistent {case['bad']}", ValueError)
    # a single antenna can't resolve directions, no matter how many are probed
    dev = SimulatedDevice(carrier_frequency=10e9, bandwidth=100e6, oversampling_factor=1)
    op = Radar(FMCW(3, 1e-6, 1e-6))
    bf = ConventionalBeamformer()
    bf.probe_focus_points = rng.uniform(0, 1, (case["points"], 1, 2))
    op.receive_beamformer = bf
    dev.transmitters.add(op)
    dev.receivers.add(op)
    out = dev.transmit()
    y = Signal.Create(nd(out.mixed_signal), 100e6, 10e9)
    cube = dev.receive(y).operator_receptions[0].cube
    single = mkref(y)
    for row in cube.data:
        obs.close(row, single, "cube-single", "every angular line of a single antenna radar is its only line", rtol=1e-6, atol=1e-9)
    obs.count("cubes")
    obs.sig(("cube", tuple(s), case["bad"], case["points"]))


def mkref(y):
    dev = SimulatedDevice(carrier_frequency=10e9, bandwidth=100e6, oversampling_factor=1)
    op = Radar(FMCW(3, 1e-6, 1e-6))
    dev.transmitters.add(op)
    dev.receivers.add(op)
    dev.transmit()
    return dev.receive(y).operator_receptions[0].cube.data[0]


# ------------------------------------------------------------------ reconfigured radars
def gen_reuse(rng):
    steps = []
    B = 100e6
    for _ in range(rint(rng, 2, 5)):
        Tc = rint(rng, 40, 200) / B
        steps.append({"Tc": Tc, "PRI": Tc * float(pick(rng, [1., 1.25, 2.])), "N": pick(rng, [1, 3, 4, 8]), "adc": float(pick(rng, [0, .5, 1.]) * B), "B": float(B * pick(rng, [1, 1, 1, 2])), "os": pick(rng, [1, 1, 2]), "minr": float(pick(rng, [0, 0, 5.])),
                      "seed": seed(rng), "change": sorted(set(["Tc", "PRI", "N", "adc", "minr", "B", "os"]) - set(rng.choice(["Tc", "PRI", "N", "adc", "minr", "B", "os"], 3).tolist()))})
    return {"steps": steps, "cf": float(10 ** rng.uniform(9.5, 10.9))}


def run_reuse(case, obs):
    w, op, cur = None, None, None
    for k, st in enumerate(case["steps"]):
        # only some of the parameters change with each step
        cur = dict(st) if cur is None else {**cur, **{n: st[n] for n in st["change"]}, "seed": st["seed"]}
        cur["PRI"] = max(cur["PRI"], cur["Tc"])
        make = lambda: FMCW(cur["N"], cur["Tc"], cur["PRI"], cur["adc"]) if cur["adc"] else FMCW(cur["N"], cur["Tc"], cur["PRI"])
        if w is None:
            w = make()
            op = Radar(w)
        else:
            w.pulse_rep_interval = 1.
            w.chirp_duration, w.num_chirps, w.adc_sampling_rate = cur["Tc"], cur["N"], cur["adc"]
            w.pulse_rep_interval = cur["PRI"]
        op.min_range = cur["minr"]
        out = []
        for o in (op, Radar(make())):
            o.min_range = cur["minr"]
            dev = SimulatedDevice(carrier_frequency=case["cf"], bandwidth=cur["B"], oversampling_factor=cur["os"])
            dev.transmitters.add(o)
            dev.receivers.add(o)
            x = nd(dev.transmit().mixed_signal)
            y = np.zeros((1, x.shape[1] + 30), complex)
            y[:, 11:11 + x.shape[1]] = x
            r = dev.receive(Signal.Create(y + .1 * arr(cur["seed"], *y.shape), cur["B"] * cur["os"], case["cf"])).operator_receptions[0].cube
            out.append((x, r))
            dev.transmitters.remove(o)
            dev.receivers.remove(o)
        (x, r), (xf, rf) = out
        obs.equal(x.shape, xf.shape, "reuse-frame", f"emitted frame after {k} reconfigurations")
        obs.close(x, xf, "reuse-frame", f"emitted frame after {k} reconfigurations", rtol=1e-9)
        obs.equal(r.data.shape, rf.data.shape, "reuse-cube", f"cube after {k} reconfigurations")
        for n in ("data", "range_bins", "doppler_bins"):
            obs.close(getattr(r, n), getattr(rf, n), "reuse-cube", f"{n} after {k} reconfigurations", rtol=1e-9, atol=1e-12)
        obs.count("reconfigurations", int(k > 0))
        obs.sig(("reuse", tuple(cur[n] for n in ("Tc", "PRI", "N", "adc", "B", "os"))))


# ------------------------------------------------------------------ known limits
def run_limits(case, obs):
    obs.count("limits")
    if case["what"] == "velocity_resolution":
        w = FMCW(10, 1e-6, 1e-6)
        op = Radar(w)
        cf = 10e9
        cube = RadarCube(np.ones((1, 10, 1)), None, w.relative_doppler_bins, None, cf)
        obs.soft(abs(op.velocity_resolution(cf) - np.diff(cube.velocity_bins)[0]) < 1e-6, "velocity-resolution", f"announced velocity resolution {op.velocity_resolution(cf)} m/s, spacing of the velocity bins {np.diff(cube.velocity_bins)[0]} m/s")
    else:
        case = {"B": 100e6, "os": 1, "cf": 70e9, "seed": 1}
        dev = mk_device(case)
        op = Radar(FMCW(16, 2e-6, 2e-6))
        dev.transmitters.add(op)
        dev.receivers.add(op)
        out = dev.transmit()
        cube = dev.receive(chan_echo(case, dev, out, 60., 200.)).operator_receptions[0].cube
        v = peak(cube)[2]
        obs.soft(abs(v - 200.) < 60, "velocity-sign", f"target receding with 200 m/s labelled {v} m/s")


FAMILIES = [
    Family("fmcw", gen_fmcw, run_fmcw, quick=260, require=("fmcw_targets", "fmcw_echo", "fmcw_channel", "angles")),
    Family("ofdm", gen_ofdm, run_ofdm, quick=200, require=("ofdm_targets", "angles")),
    Family("matched", gen_mf, run_mf, quick=220, require=("mf_targets", "angles")),
    Family("mimo", gen_mimo, run_mimo, quick=60, require=("mimo_cubes",)),
    Family("communication", gen_comm, run_comm, quick=120, require=("communications",)),
    Family("detectors", gen_det, run_det, quick=600, require=("detections",)),
    Family("cube", gen_cube, run_cube, quick=60, require=("cubes",)),
    Family("reuse", gen_reuse, run_reuse, quick=120, require=("reconfigurations",)),
    Family("limits", None, run_limits, quick=0, pinned=[{"what": "velocity_resolution"}, {"what": "sign"}], require=("limits",)),
]
