"""Antenna array responses follow the array geometry."""
import numpy as np
from scipy.constants import speed_of_light as c0
from hv.runner import Family
from hv.ref import arr, layout, nd, pick, rint, seed, snapshot
from hv.checks.c01 import make_sparse
from hv.checks.c09 import mat, plain, pos_of, rot, rpy_of
from hermespy.core import (AntennaMode, CustomAntennaArray, DenseSignal, Dipole, Direction, IdealAntenna, LinearAntenna, PatchAntenna,
                           Transformation, UniformArray)
from hermespy.core.transformation import Transformable
from hermespy.simulation import (SimulatedCustomArray, SimulatedDevice, SimulatedDipole, SimulatedIdealAntenna, SimulatedLinearAntenna,
                                 SimulatedPatchAntenna, SimulatedUniformArray, StaticTrajectory)

PROPERTY = "C10"
RULE = ("uniform and custom arrays of 1-12 mixed, rotated, transmit/receive/duplex antennas under random array and device poses; phase, "
        "cartesian and polarized responses compared with vector geometry for random directions, positions and carriers, "
        "directly, through device states and through sub-array selections, with later edits of the array; distinct = distinct "
        "(array type, antenna types, modes, pose class) signatures")
ASSUMPTIONS = ["the polarized pattern of each antenna type is the closed form stated in its documentation, evaluated in the antenna's own frame",
               "directions within 1e-3 of a pole are compared by field vector only"]

MODES = {"T": AntennaMode.TX, "R": AntennaMode.RX, "D": AntennaMode.DUPLEX}
CLS = {(0, "ideal"): IdealAntenna, (0, "linear"): LinearAntenna, (0, "patch"): PatchAntenna, (0, "dipole"): Dipole,
       (1, "ideal"): SimulatedIdealAntenna, (1, "linear"): SimulatedLinearAntenna, (1, "patch"): SimulatedPatchAntenna, (1, "dipole"): SimulatedDipole}


def pose_of(rng, p=.35):
    return None if rng.random() < p else [rpy_of(rng), pos_of(rng) if rng.random() < .5 else [float(x) for x in rng.uniform(-2, 2, 3)]]


def gen_ant(rng, with_pose=True):
    return {"kind": pick(rng, ["ideal", "linear", "patch", "dipole"]), "mode": pick(rng, ["D", "D", "T", "R"]), "slant": float(rng.uniform(-3, 3)),
            "pose": [rpy_of(rng), [float(x) for x in rng.uniform(-1, 1, 3)]] if with_pose else [rpy_of(rng), [0.0, 0.0, 0.0]],
            "w": [float(rng.standard_normal()), float(rng.standard_normal())]}


def T_(p):
    return Transformation.No() if p is None else Transformation.From_RPY(np.array(p[0]), np.array(p[1]))


def M_(p):
    return np.eye(4) if p is None else mat(*p)


def make_ant(a, sim):
    cls = CLS[(sim, a["kind"])]
    kw = dict(mode=MODES[a["mode"]], pose=T_(a["pose"]))
    if a["kind"] == "linear":
        kw["slant"] = a["slant"]
    if sim:
        kw["weight"] = complex(*a["w"])
    return cls(**kw)


def pattern(a, az, ze):
    """Field components along the zenith and azimuth unit vectors in the antenna's own frame."""
    k = a["kind"]
    if k == "ideal":
        return np.array([1, 1]) / np.sqrt(2)
    if k == "linear":
        return np.array([np.cos(a["slant"]), np.sin(a["slant"])])
    if k == "patch":
        return np.array([max(.1, (.1 + .9 * np.exp(-1.315 * az ** 2)) * np.cos(ze) ** 2), 0.0])
    return np.array([0.0 if abs(np.sin(ze)) < 1e-9 else np.cos(np.pi / 2 * np.cos(ze)) / np.sin(ze), 0.0])


def sph(d):
    return np.arctan2(d[1], d[0]), np.arccos(np.clip(d[2], -1, 1))


def units(az, ze):
    return (np.array([np.cos(ze) * np.cos(az), np.cos(ze) * np.sin(az), -np.sin(ze)]), np.array([-np.sin(az), np.cos(az), 0]))


def field(a, G, d):
    """Polarization of one antenna with global pose G towards the global direction d."""
    R = G[:3, :3]
    dl = R.T @ d
    az, ze = sph(dl)
    zu, au = units(az, ze)
    p = pattern(a, az, ze)
    e = R @ (p[0] * zu + p[1] * au)
    gz, ga = units(*sph(d))
    return np.array([e @ gz, e @ ga]), min(1 - abs(dl[2]), 1 - abs(d[2]))


class Model:
    """Reference geometry: antenna dictionaries with local poses, the array pose and the base pose."""

    def __init__(self, ants, locs, arr_pose, base):
        self.ants, self.locs, self.A, self.B = ants, locs, arr_pose, base

    def idx(self, mode):
        keep = {"D": "DTR", "T": "DT", "R": "DR"}[mode]
        return [i for i, a in enumerate(self.ants) if a["mode"] in keep]

    def topo(self, mode):
        return np.array([self.locs[i][:3, 3] for i in self.idx(mode)]).reshape(-1, 3)

    def compare(self, array, case, obs, tag):
        G = self.B @ self.A
        for mode in "DTR":
            ids, topo = self.idx(mode), self.topo(mode)
            m = MODES[mode]
            n = {"D": array.num_antennas, "T": array.num_transmit_antennas, "R": array.num_receive_antennas}[mode]
            obs.equal(int(n), len(ids), "antenna_count", f"{tag}: antennas in mode {mode}")
            ants = {"D": array.antennas, "T": array.transmit_antennas, "R": array.receive_antennas}[mode]
            obs.equal(len(ants), len(ids), "antenna_list", f"{tag}: antenna list in mode {mode}")
            t = {"D": array.topology, "T": array.transmit_topology, "R": array.receive_topology}[mode]
            obs.close(plain(t), topo, "topology", f"{tag}: topology in mode {mode}", rtol=1e-7, atol=1e-7 * (1 + np.abs(G).max()))
            if not ids:
                continue
            for q in case["dirs"]:
                fc, az, ze = q["fc"], q["az"], q["ze"]
                d = np.array([np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)])
                ph = np.exp(2j * np.pi * fc / c0 * (topo @ d))
                tol = dict(rtol=1e-9, atol=1e-6 + 1e-8 * fc / c0 * (1 + np.abs(G).max()))
                obs.close(array.spherical_phase_response(fc, az, ze, m), ph, "spherical_phase", f"{tag}: plane wave phases", **tol)
                obs.close(array.horizontal_phase_response(fc, az, np.pi / 2 - ze, m), ph, "horizontal_phase", f"{tag}: plane wave phases by elevation", **tol)
                for frame in ("local", "global"):
                    p = np.array(q["p"])
                    ploc = p if frame == "local" else (np.linalg.inv(G) @ np.append(p, 1))[:3]
                    sp = np.exp(-2j * np.pi * fc / c0 * np.linalg.norm(topo - ploc, axis=1))
                    obs.close(array.cartesian_phase_response(fc, p.copy(), frame, m), sp, "cartesian_phase", f"{tag}: spherical wave phases ({frame})", **tol)
                    if np.linalg.norm(ploc) < 1e-3:
                        continue
                    gd = G[:3, :3] @ (ploc / np.linalg.norm(ploc))
                    self.polar(array.characteristics(p.copy(), m, frame), ids, G, gd, obs, f"{tag}: characteristics towards a {frame} position")
                    ar = array.cartesian_array_response(fc, p.copy(), frame, m)
                    ref = np.array([field(self.ants[i], G @ self.locs[i], gd)[0] for i in ids]) * sp[:, None]
                    if min(field(self.ants[i], G @ self.locs[i], gd)[1] for i in ids) > 1e-3:
                        obs.close(ar, ref, "array_response", f"{tag}: array response ({frame})", rtol=1e-6, atol=tol["atol"])
                        obs.count("array_responses")
                    gdir = d if frame == "global" else G[:3, :3] @ d
                    self.polar(array.characteristics(Direction.From_Spherical(az, ze), m, frame), ids, G, gdir, obs, f"{tag}: characteristics towards a {frame} direction")

    def polar(self, got, ids, G, gd, obs, what):
        obs.equal(tuple(got.shape), (len(ids), 2), "characteristics_shape", what)
        gz, ga = units(*sph(gd))
        for r, i in enumerate(ids):
            ref, margin = field(self.ants[i], G @ self.locs[i], gd)
            obs.check(np.all(np.isfinite(got[r])), "undefined_pattern", what, direction=gd)
            if margin > 1e-3:
                obs.close(got[r], ref, "characteristics", what, rtol=1e-6, atol=1e-6, antenna=self.ants[i]["kind"])
            else:
                obs.count("poles")
                if self.ants[i]["kind"] != "patch" and margin > 1e-12:
                    obs.close(np.linalg.norm(got[r]), np.linalg.norm(ref), "characteristics_magnitude", what, rtol=1e-3, atol=1e-3)


def gen_array(rng):
    uniform = bool(rng.random() < .5)
    case = {"uniform": uniform, "sim": int(rng.random() < .6), "arr": pose_of(rng), "dev": pose_of(rng),
            "dirs": [{"fc": float(10 ** rng.uniform(6, 10.5)), "az": float(rng.uniform(-np.pi, np.pi)) if rng.random() < .8 else 0.0,
                      "ze": float(pick(rng, [0, .5, 1, rng.random(), rng.random(), rng.random(), rng.random()])) * np.pi,
                      "p": [float(x) for x in rng.standard_normal(3) * 10 ** rng.uniform(-1, 3)]} for _ in range(2)],
            "edit": pick(rng, ["move", "mode", "array_pose", "spacing", "weight"]), "base": pose_of(rng, .2)}
    if uniform:
        dims = [rint(rng, 1, 3) for _ in range(rint(rng, 1, 3))]
        case.update(dims=dims, spacing=float(10 ** rng.uniform(-3, 0)), ants=[gen_ant(rng, False)])
        case["ants"][0]["mode"] = "D" if rng.random() < .7 else case["ants"][0]["mode"]
    else:
        case["ants"] = [gen_ant(rng) for _ in range(rint(rng, 1, 7))]
    n = int(np.prod(case["dims"])) if uniform else len(case["ants"])
    case["select"] = [int(x) for x in rng.permutation(n)[: rint(rng, 1, n)]]
    return case


def build(case):
    sim = case["sim"]
    if case["uniform"]:
        a = case["ants"][0]
        cls = SimulatedUniformArray if sim else UniformArray
        array = cls(make_ant(a, sim), case["spacing"], case["dims"], T_(case["arr"]))
        dims = list(case["dims"]) + [1] * (3 - len(case["dims"]))
        grid = [np.array([x, y, z]) * case["spacing"] for x in range(dims[0]) for y in range(dims[1]) for z in range(dims[2])]
        # the order of the elements is free, but every grid position is occupied exactly once
        pos = [plain(t.position) for t in array.antennas]
        order = []
        for p in pos:
            hit = [i for i, g in enumerate(grid) if np.allclose(g, p, atol=1e-12)]
            order.append(hit[0] if hit else -1)
        locs = []
        for p in pos:
            L = mat(a["pose"][0], p)
            locs.append(L)
        return array, Model([a] * len(pos), locs, M_(case["arr"]), np.eye(4)), sorted(order) == list(range(len(grid)))
    ants = [make_ant(a, sim) for a in case["ants"]]
    array = (SimulatedCustomArray if sim else CustomAntennaArray)(ants, pose=T_(case["arr"]))
    return array, Model(case["ants"], [mat(*a["pose"]) for a in case["ants"]], M_(case["arr"]), np.eye(4)), True


def run_array(case, obs):
    array, model, ok = build(case)
    obs.check(ok, "uniform_grid", "elements of a uniform array occupy each grid position once", dims=case.get("dims"))
    obs.sig("array", case["uniform"], case["sim"], case["arr"] is None, case["dev"] is None, "".join(sorted(a["kind"][0] + a["mode"] for a in case["ants"])))
    model.compare(array, case, obs, "array")
    # attached to a moving base, twice
    base = Transformable(T_(case["dev"]))
    array.set_base(base)
    model.B = M_(case["dev"])
    model.compare(array, case, obs, "attached array")
    base.pose = T_(case["base"])
    model.B = M_(case["base"])
    model.compare(array, case, obs, "moved array")
    # snapshots
    state = array.state(T_(case["dev"]))
    snap = Model(model.ants, list(model.locs), model.A.copy(), M_(case["dev"]))
    snap.compare(state, case, obs, "state")
    sub = state[case["select"]]
    subm = Model([model.ants[i] for i in case["select"]], [model.locs[i] for i in case["select"]], model.A.copy(), M_(case["dev"]))
    subm.compare(sub, case, obs, "selected sub-array")
    one = state[int(case["select"][0])]
    Model([model.ants[case["select"][0]]], [model.locs[case["select"][0]]], model.A.copy(), M_(case["dev"])).compare(one, case, obs, "selected antenna")
    snap.compare(state, case, obs, "state after selection")
    e = case["edit"]
    if e == "move":
        array.antennas[0].position = np.array([9.0, 9.0, 9.0])
    elif e == "mode":
        array.antennas[0].mode = AntennaMode.RX if array.antennas[0].mode != AntennaMode.RX else AntennaMode.TX
    elif e == "array_pose":
        array.pose = Transformation.From_RPY(np.array([.3, .2, .1]), np.array([1.0, 5, 7]))
    elif e == "spacing" and case["uniform"]:
        array.spacing = 3.25
    elif e == "weight" and case["sim"]:
        array.antennas[0].weight = 0.0
    snap.compare(state, case, obs, f"state after {e}")
    obs.count("snapshots")
    if e == "array_pose":
        model.A = mat([.3, .2, .1], [1.0, 5, 7])
        model.compare(array, case, obs, "array after its pose changed")
        obs.count("pose_edits")
    if e == "move":
        model.locs = list(model.locs)
        model.locs[0] = model.locs[0].copy()
        model.locs[0][:3, 3] = 9.0
        model.compare(array, case, obs, "array after an antenna moved")


# ------------------------------------------------------------------ simulated devices
def gen_device(rng):
    case = gen_array(rng)
    case["sim"] = 1
    case["t"] = float(rng.uniform(0, 3))
    return case


def run_device(case, obs):
    array, model, _ = build(case)
    dev = SimulatedDevice(pose=StaticTrajectory(T_(case["dev"])), antennas=array)
    model.B = M_(case["dev"])
    model.compare(dev.antennas, case, obs, "device array")
    st = dev.state(case["t"])
    model.compare(st.antennas, case, obs, "device state array")
    obs.equal(dev.num_transmit_antennas, len(model.idx("T")), "device_antennas", "transmit antennas of the device")
    obs.equal(dev.num_receive_antennas, len(model.idx("R")), "device_antennas", "receive antennas of the device")
    obs.count("device_states")
    obs.sig("device", case["uniform"], case["arr"] is None, case["dev"] is None)


# ------------------------------------------------------------------ antenna weights
def gen_weight(rng):
    n = rint(rng, 1, 5)
    return {"ants": [gen_ant(rng) for _ in range(n)], "layout": layout(rng), "sparse": bool(rng.random() < .5), "seed": seed(rng), "uniform": bool(rng.random() < .3)}


def run_weight(case, obs):
    ants = case["ants"]
    if case["uniform"]:
        array = SimulatedUniformArray(make_ant(ants[0], 1), .1, (len(ants),))
        ants = [ants[0]] * len(ants)
    else:
        array = SimulatedCustomArray([make_ant(a, 1) for a in ants])
    for mode, fn in (("DT", array.transmit), ("DR", array.receive)):
        w = np.array([complex(*a["w"]) for a in ants if a["mode"] in mode])
        if not len(w):
            continue
        raw = arr(case["seed"], len(w), sum(l for _, l in case["layout"]))
        meta = [1e6, 1e9, .25, 3e-6]
        sig = make_sparse(raw, case["layout"], meta) if case["sparse"] else DenseSignal.FromNDArray(raw, *meta)
        before = snapshot(sig)
        out = fn(sig)
        obs.close(nd(out), w[:, None] * nd(sig), "antenna_weights", f"signal of each antenna times its weight ({mode})", rtol=1e-12, atol=1e-13)
        obs.equal((out.sampling_rate, out.carrier_frequency, out.delay), (1e6, 1e9, 3e-6), "antenna_metadata", "metadata")
        obs.check(snapshot(sig) == before, "antenna_input_modified", "input signal of the array was modified")
        obs.raises(lambda: fn(DenseSignal.FromNDArray(arr(1, len(w) + 1, 4), *meta)), "antenna_stream_mismatch", "wrong stream count accepted", exceptions=(ValueError,))
        obs.count("weighted_signals")
    obs.sig("weight", case["sparse"], case["uniform"], "".join(a["mode"] for a in ants))


FAMILIES = [
    Family("array", gen_array, run_array, quick=400, require=("array_responses", "snapshots", "pose_edits")),
    Family("device", gen_device, run_device, quick=150, require=("device_states",)),
    Family("weight", gen_weight, run_weight, quick=300, require=("weighted_signals",)),
]
