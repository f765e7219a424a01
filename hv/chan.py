"""Random channel models and devices for the channel checks."""
import numpy as np
from hermespy.core import AntennaMode, Transformation
from hermespy.simulation import (SimulatedCustomArray, SimulatedDevice, SimulatedDipole, SimulatedIdealAntenna,
                                 SimulatedLinearAntenna, SimulatedUniformArray, StaticTrajectory)
from hermespy.channel import IdealChannel, SpatialDelayChannel, RandomDelayChannel
from hermespy.channel.fading import (Cost259, Cost259Type, Exponential, MultipathFadingChannel, TDL, TDLType,
                                     CustomAntennaCorrelation, StandardAntennaCorrelation, CorrelationType)
from hermespy.channel.radar import (FixedCrossSection, MultiTargetRadarChannel, SingleTargetRadarChannel, VirtualRadarTarget)
from hermespy.channel.cdl import (CDL, CDLType, IndoorFactory, IndoorOffice, RuralMacrocells, UrbanMacrocells, UrbanMicrocells,
                                  DelayNormalization, FactoryType, LOSState, O2IState, OfficeType)
from .ref import cn, pick, rint, seed

C0 = 299792458.0
MODE = {"D": AntennaMode.DUPLEX, "T": AntennaMode.TX, "R": AntennaMode.RX}
FADING = ("multipath", "tdl", "cost259", "exponential")
CHEAP = ("ideal", "spatial", "random", "multipath", "tdl", "cost259", "exponential", "single", "multi")
CDLS = ("cdl", "office", "factory", "rural", "macro", "micro")


def gen_device(rng, duplex=False, maxn=4, static=False, far=False):
    n = pick(rng, [1, 1, 2, 3, maxn])
    modes = ["D"] * n
    if not duplex and rng.random() < .4:
        modes = [pick(rng, ["D", "T", "R"]) for _ in range(n)]
        if not any(m in "DT" for m in modes):
            modes[0] = "D"
        if not any(m in "DR" for m in modes):
            modes[-1] = "D"
    span = 200. if far else 20.
    return {"modes": modes, "kind": pick(rng, ["ideal", "ideal", "dipole", "linear"]), "pos": (rng.uniform(-1, 1, 3) * span).tolist(),
            "rpy": rng.uniform(-3, 3, 3).tolist() if rng.random() < .6 else [0, 0, 0],
            "spacing": float(rng.uniform(.005, .2)),
            "vel": [0, 0, 0] if static or rng.random() < .4 else rng.uniform(-60, 60, 3).tolist()}


def device(d, carrier=1e9, bandwidth=1e6):
    K = {"ideal": SimulatedIdealAntenna, "dipole": SimulatedDipole, "linear": lambda mode, pose: SimulatedLinearAntenna(mode, slant=.3, pose=pose)}[d["kind"]]
    ants = [K(mode=MODE[m], pose=Transformation.From_Translation(np.array([0, i * d["spacing"], .3 * i * d["spacing"]]))) for i, m in enumerate(d["modes"])]
    pose = Transformation.From_RPY(np.array(d["rpy"], float), np.array(d["pos"], float))
    return SimulatedDevice(antennas=SimulatedCustomArray(ants), pose=StaticTrajectory(pose, np.array(d["vel"], float)),
                           carrier_frequency=carrier, bandwidth=bandwidth, oversampling_factor=1)


def n_tx(d):
    return sum(m in "DT" for m in d["modes"])


def n_rx(d):
    return sum(m in "DR" for m in d["modes"])


def gen_channel(rng, kinds=CHEAP, bandwidth=1e6, infinite=None):
    k = pick(rng, kinds)
    s = lambda n: float(n / bandwidth)  # a delay of n samples
    c = {"kind": k, "gain": float(10 ** rng.uniform(-2, 1)) if rng.random() < .8 else 1.0, "seed": seed(rng),
         "decorr": float("inf") if (rng.random() < .5 if infinite is None else infinite) else float(10 ** rng.uniform(-1, 2))}
    if k in ("spatial", "random"):
        c["loss"] = bool(rng.random() < .5)
    if k == "random":
        lo = s(rng.uniform(0, 6))
        c["delay"] = lo if rng.random() < .4 else [lo, lo + s(rng.uniform(0, 8))]
    if k in FADING:
        c["los_angle"] = None if rng.random() < .4 else float(rng.uniform(-3, 3))
        c["doppler"] = 0.0 if rng.random() < .3 else float(bandwidth * 10 ** rng.uniform(-3, -1))
        c["los_doppler"] = None if rng.random() < .5 else float(bandwidth * 10 ** rng.uniform(-3, -1))
        c["sinusoids"] = rint(rng, 1, 24)
        c["corr"] = pick(rng, [None, None, "custom", "standard"])
    if k == "multipath":
        n = rint(rng, 1, 5)
        c["delays"] = [s(x) for x in rng.uniform(0, 9, n)] if rng.random() < .7 else [s(rint(rng, 0, 9)) for _ in range(n)]
        c["powers"] = [float(x) for x in rng.uniform(0, 1, n)]
        c["rice"] = [float(pick(rng, [0, float("inf"), x])) for x in rng.uniform(0, 5, n)]
    if k == "tdl":
        c["type"] = pick(rng, ["A", "B", "C", "D", "E"])
        c["rms"] = s(rng.uniform(0, 3))
        if c["type"] in "DE":
            c["los_doppler"] = None
    if k == "cost259":
        c["type"] = pick(rng, ["URBAN", "RURAL", "HILLY"])
    if k == "exponential":
        c["interval"], c["rms"] = s(rng.uniform(.3, 2)), s(rng.uniform(.3, 2))
    if k == "single":
        rg = lambda lo, hi: float(rng.uniform(lo, hi)) if rng.random() < .5 else sorted(float(x) for x in rng.uniform(lo, hi, 2))
        c.update(range=rg(1, 8 * C0 / bandwidth / 2), rcs=float(10 ** rng.uniform(-1, 2)), az=rg(-3, 3), ze=rg(.1, 3), exists=bool(rng.random() < .9),
                 vel=pick(rng, [0.0, rg(-80, 80), {"v": rng.uniform(-80, 80, 3).tolist()}]), attenuate=bool(rng.random() < .6))
    if k == "multi":
        c.update(targets=[[(rng.uniform(-1, 1, 3) * 4 * C0 / bandwidth).tolist(), rng.uniform(-80, 80, 3).tolist(), float(10 ** rng.uniform(-1, 2)), bool(rng.random() < .3)]
                          for _ in range(rint(rng, 0, 4))], interference=bool(rng.random() < .6), attenuate=bool(rng.random() < .6))
    if k in CDLS:
        c["norm"] = bool(rng.random() < .5)
        c["state"] = None if rng.random() < .3 else rint(rng, 0, 1 if k in ("office", "factory") else 2)
        c["type"] = pick(rng, ["A", "B", "C", "D", "E"])
        c["rms"] = s(rng.uniform(.2, 2))
    return c


def correlation(c):
    if c.get("corr") == "standard":
        return StandardAntennaCorrelation(CorrelationType.MEDIUM)
    if c.get("corr") == "custom":
        r = np.random.default_rng(c["seed"])
        a = cn(r, 10, 10) * .2
        return CustomAntennaCorrelation(a @ a.conj().T + np.eye(10))
    return None


def tup(x):
    return tuple(x) if isinstance(x, list) else x


def channel(c, gain=None):
    """Build the channel model of a case; gain overrides the case's gain."""
    k, g, sd = c["kind"], c["gain"] if gain is None else gain, c["seed"]
    if k == "ideal":
        return IdealChannel(gain=g, seed=sd)
    if k == "spatial":
        return SpatialDelayChannel(model_propagation_loss=c["loss"], gain=g, seed=sd)
    if k == "random":
        return RandomDelayChannel(tup(c["delay"]), decorrelation_distance=c["decorr"], model_propagation_loss=c["loss"], gain=g, seed=sd)
    if k in FADING:
        kw = dict(correlation_distance=c["decorr"], num_sinusoids=c["sinusoids"], doppler_frequency=c["doppler"],
                  los_doppler_frequency=c["los_doppler"], antenna_correlation=correlation(c), gain=g, seed=sd)
        if not (k == "cost259" and c["type"] == "HILLY"):
            kw["los_angle"] = c["los_angle"]
        if k == "multipath":
            return MultipathFadingChannel(np.array(c["delays"]), np.array(c["powers"]), np.array(c["rice"]), **kw)
        if k == "tdl":
            return TDL(TDLType[c["type"]], c["rms"], **kw)
        if k == "cost259":
            return Cost259(Cost259Type[c["type"]], **kw)
        return Exponential(c["interval"], c["rms"], **kw)
    if k == "single":
        v = c["vel"]
        v = np.array(v["v"]) if isinstance(v, dict) else tup(v)
        return SingleTargetRadarChannel(tup(c["range"]), c["rcs"], target_azimuth=tup(c["az"]), target_zenith=tup(c["ze"]), target_exists=c["exists"],
                                        velocity=v, attenuate=c["attenuate"], decorrelation_distance=c["decorr"], gain=g, seed=sd)
    if k == "multi":
        ch = MultiTargetRadarChannel(interference=c["interference"], decorrelation_distance=c["decorr"], attenuate=c["attenuate"], gain=g, seed=sd)
        for p, v, rcs, static in c["targets"]:
            ch.add_target(VirtualRadarTarget(FixedCrossSection(rcs), StaticTrajectory(Transformation.From_Translation(np.array(p)), np.array(v)), static))
        return ch
    norm = DelayNormalization.TOF if c["norm"] else DelayNormalization.ZERO
    if k == "cdl":
        return CDL(CDLType[c["type"]], c["rms"], decorrelation_distance=c["decorr"] if np.isfinite(c["decorr"]) else 30.0, gain=g, seed=sd)
    los, o2i = (None, None) if c["state"] is None else (LOSState(min(c["state"], 1)), O2IState(c["state"]))
    if k == "office":
        return IndoorOffice(OfficeType.MIXED, delay_normalization=norm, expected_state=los, gain=g, seed=sd, oxygen_absorption=False)
    if k == "factory":
        return IndoorFactory(2000., 3000., FactoryType.HH, delay_normalization=norm, expected_state=los, gain=g, seed=sd, oxygen_absorption=False)
    cls = {"rural": RuralMacrocells, "macro": UrbanMacrocells, "micro": UrbanMicrocells}[k]
    return cls(delay_normalization=norm, expected_state=o2i, gain=g, seed=sd, oxygen_absorption=False)


def dense_state(csi):
    s = csi.state
    return np.array(s.todense() if hasattr(s, "todense") else s)


def convolve(H, x):
    """Time-variant convolution: input sample s arrives l samples later."""
    R, T, S, L = H.shape
    y = np.zeros((R, S + L), complex)
    for l in range(L):
        y[:, l:l + S] += np.einsum("rts,ts->rs", H[:, :, :, l], x)
    return y
