"""Poses and coordinate frames compose consistently at all times."""
import numpy as np
from scipy.spatial.transform import Rotation
from hv.runner import Family
from hv.ref import pick, rint, seed
from hermespy.core import Direction, Transformation
from hermespy.core.transformation import Transformable, TransformableBase
from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedCustomArray, StaticTrajectory, LinearTrajectory
from hermespy.simulation.animation import BITrajectoryB

PROPERTY = "C09"
RULE = ("random and degenerate (gimbal lock, half turns, poles) rotations through every pose representation; random histories of up to 25 "
        "moves, rotations, look-ats, attachments and detachments on trees of up to 7 frames with interleaved global queries, "
        "compared with plain 4x4 matrix products; trajectories and device states sampled in random order of time; "
        "distinct = distinct (representation class / operation sequence / trajectory kind) signatures")
ASSUMPTIONS = ["look-at coordinates are interpreted in the frame's own base coordinate system",
               "frames are modified through their setters; the array returned by the pose property is not edited in place"]


def rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def rot(rpy):
    return rz(rpy[2]) @ ry(rpy[1]) @ rx(rpy[0])


def mat(rpy, pos):
    m = np.eye(4)
    m[:3, :3] = rot(rpy)
    m[:3, 3] = pos
    return m


def angle(rng):
    return float(pick(rng, [0, .5, 1, -.5, -1, 1.5, .25])) * np.pi if rng.random() < .5 else float(rng.uniform(-np.pi, np.pi))


def rpy_of(rng):
    return [angle(rng) for _ in range(3)]


def pos_of(rng):
    return [float(x) for x in (rng.integers(-5, 6, 3) if rng.random() < .4 else rng.standard_normal(3) * 10 ** rng.uniform(-2, 3))]


def plain(a):
    return np.array(np.asarray(a).view(np.ndarray), float)


# ------------------------------------------------------------------ representations
def gen_repr(rng):
    q = rng.standard_normal(4)
    if rng.random() < .3:
        q = np.array(pick(rng, [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 1, 0, 0], [0, 1, 1, 0], [1, 1, 1, 1], [1, 0, -1, 0], [0, 0, 1, -1]]), float)
    return {"rpy": rpy_of(rng), "pos": pos_of(rng), "q": [float(x) for x in q], "v": pos_of(rng), "rpy2": rpy_of(rng), "pos2": pos_of(rng),
            "az": angle(rng), "ze": float(pick(rng, [0, .5, 1, .25, rng.random(), rng.random()])) * np.pi, "ndim": rint(rng, 1, 3)}


def run_repr(case, obs):
    rpy, pos = np.array(case["rpy"]), np.array(case["pos"])
    ref = mat(rpy, pos)
    T = Transformation.From_RPY(rpy.copy(), pos.copy())
    tol = dict(rtol=1e-9, atol=1e-9)
    obs.close(plain(T), ref, "from_rpy", "matrix of roll, pitch and yaw", **tol)
    obs.close(plain(T.translation), pos, "translation", "translation", **tol)
    gim = abs(abs(np.cos(rpy[1]))) < 1e-6
    obs.count("gimbal_locked", gim)
    obs.sig("repr", gim, *(int(round(x / np.pi * 2)) for x in rpy))
    obs.close(rot(plain(T.rotation_rpy)), ref[:3, :3], "rpy_round_trip", "rotation described by the reported angles", rtol=1e-6, atol=1e-6, rpy=rpy)
    q = plain(T.rotation_quaternion)
    obs.close(np.linalg.norm(q), 1.0, "quaternion_norm", "norm of the reported quaternion", **tol)
    obs.close(Rotation.from_quat(np.roll(q, -1)).as_matrix(), ref[:3, :3], "quaternion", "rotation described by the reported quaternion", **tol)
    U = Transformation.From_Quaternion(q, pos)
    obs.close(plain(U), ref, "quaternion_round_trip", "matrix from the reported quaternion", **tol)
    q0 = np.array(case["q"])
    Q = Transformation.From_Quaternion(q0, pos)
    obs.close(plain(Q)[:3, :3], Rotation.from_quat(np.roll(q0, -1)).as_matrix(), "from_quaternion", "matrix of a random quaternion", **tol)
    obs.close(plain(Q)[3], np.array([0, 0, 0, 1.0]), "homogeneous", "last row")
    W = Transformation.No()
    W.rotation_quaternion = plain(Q.rotation_quaternion)
    W.translation = pos
    obs.close(plain(W), plain(Q), "quaternion_setter", "quaternion setter", **tol)
    W.rotation_rpy = plain(T.rotation_rpy)
    obs.close(plain(W), ref, "rpy_setter", "angle setter", rtol=1e-6, atol=1e-6)
    inv = np.linalg.inv(ref)
    obs.close(plain(T.invert()), inv, "inverse", "inverse", rtol=1e-8, atol=1e-8)
    v = np.array(case["v"])
    obs.close(plain(T.transform_position(v)), (ref @ np.append(v, 1))[:3], "transform_position", "transformed position", **tol)
    n = case["ndim"]
    vn = np.zeros(3)
    vn[:n] = v[:n]
    obs.close(plain(T.transform_position(v[:n].copy())), (ref @ np.append(vn, 1))[:n], "transform_position_nd", "transformed low-dimensional position", **tol)
    nv = v / np.linalg.norm(v) if np.linalg.norm(v) > 0 else np.array([1.0, 0, 0])
    obs.close(plain(T.rotate_direction(nv)), ref[:3, :3] @ nv, "rotate_direction", "rotated direction", **tol)
    obs.close(plain(T.transform_direction(3.0 * nv, normalize=True)), ref[:3, :3] @ nv, "transform_direction", "normalized direction", **tol)
    az, ze = case["az"], case["ze"]
    d = Direction.From_Spherical(az, ze)
    dref = np.array([np.sin(ze) * np.cos(az), np.sin(ze) * np.sin(az), np.cos(ze)])
    obs.close(plain(d), dref, "from_spherical", "direction of spherical angles", **tol)
    a2, z2 = (float(x) for x in Direction.From_Cartesian(dref * 2.5, True).to_spherical())
    obs.close(np.array([np.sin(z2) * np.cos(a2), np.sin(z2) * np.sin(a2), np.cos(z2)]), dref, "to_spherical", "spherical angles of a direction", rtol=1e-7, atol=1e-7)
    r = plain(T.transform_direction(T.invert().transform_direction(d)))
    a3, z3 = (float(x) for x in T.transform_direction(T.invert().transform_direction(d)).to_spherical())
    obs.close(r, dref, "direction_round_trip", "direction rotated back and forth", rtol=1e-8, atol=1e-8)
    obs.close(np.array([np.sin(z3) * np.cos(a3), np.sin(z3) * np.sin(a3), np.cos(z3)]), dref, "direction_spherical", "spherical angles of a rotated direction", rtol=1e-6, atol=1e-6)
    # look-at
    L = T.copy().view(Transformation)
    target, up = np.array(case["pos2"]), rot(case["rpy2"])[:, 2].copy()
    up_in, tgt_in = up * 3.0, target.copy()
    up_copy = up_in.copy()
    L.lookat(tgt_in, up_in)
    obs.equal(up_in, up_copy, "lookat_modifies_up", "sky vector handed to look-at was modified")
    obs.equal(tgt_in, target, "lookat_modifies_target", "target handed to look-at was modified")
    check_lookat(obs, plain(L), pos, target, up)


def check_lookat(obs, M, pos, target, up):
    R = M[:3, :3]
    obs.close(R @ R.T, np.eye(3), "lookat_orthonormal", "look-at pose is a rotation", rtol=1e-8, atol=1e-8)
    obs.close(np.linalg.det(R), 1.0, "lookat_handedness", "look-at pose is right-handed", rtol=1e-8)
    obs.close(M[:3, 3], pos, "lookat_moved", "look-at keeps the position", rtol=1e-9, atol=1e-9)
    f = target - pos
    n = np.linalg.norm(f)
    if n > 1e-6:
        f = f / n
        obs.close(R[:, 2], f, "lookat_forward", "look-at points to the target", rtol=1e-7, atol=1e-7)
        s = np.cross(up, f)
        if np.linalg.norm(s) > 1e-4:
            obs.close(R[:, 0], s / np.linalg.norm(s), "lookat_side", "look-at respects the sky vector", rtol=1e-6, atol=1e-6)


# ------------------------------------------------------------------ kinematic chains
OPS = ["pose", "position", "orientation", "attach", "attach", "link", "detach", "unlink", "lookat", "base", "query", "query"]


def gen_frames(rng):
    n = rint(rng, 2, 7)
    ops = []
    for _ in range(rint(rng, 4, 25)):
        ops.append({"op": pick(rng, OPS), "i": rint(rng, 0, n - 1), "j": rint(rng, 0, n - 1), "rpy": rpy_of(rng), "pos": pos_of(rng),
                    "q": [int(x) for x in rng.permutation(n)[: rint(rng, 1, n)]], "nd": rint(rng, 1, 3)})
    return {"n": n, "init": [[rpy_of(rng), pos_of(rng)] for _ in range(n)], "ops": ops}


def run_frames(case, obs):
    n = case["n"]
    frames = [Transformable(Transformation.From_RPY(np.array(r), np.array(p))) for r, p in case["init"]]
    local = [mat(r, p) for r, p in case["init"]]
    base = [None] * n
    root = TransformableBase()

    def world(i):
        m = local[i]
        while base[i] is not None and base[i] != "root":
            i = base[i]
            m = local[i] @ m
        return m

    def ancestors(i):
        out = []
        while i is not None and i != "root":
            out.append(i)
            i = base[i]
        return out

    def query(ids):
        for i in ids:
            w = world(i)
            s = 1 + np.abs(w).max()
            f = frames[i]
            obs.close(plain(f.forwards_transformation), w, "global_pose", f"global pose of frame {i}", rtol=1e-7, atol=1e-9 * s)
            obs.close(plain(f.global_position), w[:3, 3], "global_position", "global position", rtol=1e-7, atol=1e-9 * s)
            obs.close(rot(plain(f.global_orientation)), w[:3, :3], "global_orientation", "global orientation", rtol=1e-5, atol=1e-5)
            obs.close(plain(f.backwards_transformation) @ w, np.eye(4), "backwards", "global to local transformation", rtol=1e-7, atol=1e-8 * s)
            obs.close(plain(f.pose), local[i], "local_pose", "local pose", rtol=1e-9, atol=1e-9)
            obs.close(plain(f.position), local[i][:3, 3], "local_position", "local position", rtol=1e-9, atol=1e-9)
            obs.equal(bool(f.is_base), base[i] is None, "is_base", "frame is a base")
            obs.count("poses_queried")
        i, j = ids[0], ids[-1]
        wi, wj = world(i), world(j)
        s = 1 + np.abs(wi).max() + np.abs(wj).max()
        ref = np.linalg.inv(wi) @ wj
        obs.close(plain(frames[i].to_local_coordinates(frames[j])), ref, "to_local_frame", "frame in local coordinates", rtol=1e-6, atol=1e-8 * s)
        obs.close(plain(frames[i].to_local_coordinates(Transformation.From_RPY(np.zeros(3), wj[:3, 3]))), np.linalg.inv(wi) @ mat([0, 0, 0], wj[:3, 3]),
                  "to_local_pose", "pose in local coordinates", rtol=1e-6, atol=1e-8 * s)
        obs.close(plain(frames[i].to_local_coordinates(wj[:3, 3].copy())), np.linalg.inv(wi) @ mat([0, 0, 0], wj[:3, 3]),
                  "to_local_position", "position in local coordinates", rtol=1e-6, atol=1e-8 * s)

    done = []
    for o in case["ops"]:
        i, j, op = o["i"], o["j"], o["op"]
        f = frames[i]
        if op == "pose":
            T = Transformation.From_RPY(np.array(o["rpy"]), np.array(o["pos"]))
            f.pose = T
            T[:3, 3] = 77.0  # the frame keeps its own copy
            local[i] = mat(o["rpy"], o["pos"])
        elif op == "position":
            p = np.array(o["pos"])[: o["nd"]]
            f.position = p
            local[i] = local[i].copy()
            local[i][:3, 3] = np.append(p, np.zeros(3 - len(p)))
        elif op == "orientation":
            f.orientation = np.array(o["rpy"])
            local[i] = mat(o["rpy"], local[i][:3, 3])
        elif op in ("attach", "link"):
            if i == j or i in ancestors(j):
                continue
            f.set_base(frames[j]) if op == "attach" else frames[j].add_link(f)
            base[i] = j
        elif op == "base":
            f.set_base(root)
            base[i] = "root"
        elif op == "detach":
            f.set_base(None)
            base[i] = None
        elif op == "unlink":
            if base[i] is None:
                continue
            (root if base[i] == "root" else frames[base[i]]).remove_link(f)
            base[i] = None
        elif op == "lookat":
            t, up = np.array(o["pos"]), rot(o["rpy"])[:, 2].copy()
            f.lookat(t, up)
            M = plain(f.pose)
            check_lookat(obs, M, local[i][:3, 3], t, up)
            local[i] = M.copy()
        done.append(op)
        obs.count("op_" + op)
        for k in range(n):
            linked = {a for a in range(n) if base[a] == k}
            obs.check({a for a in range(n) if frames[a] in frames[k].linked_frames} == linked, "linked_frames", "frames attached to each other",
                      frame=k, expected=linked)
        if op == "query":
            query(o["q"])
    query(list(range(n)))
    obs.sig("frames", n, *done)


# ------------------------------------------------------------------ trajectories and devices
def gen_traj(rng):
    dur = float(pick(rng, [1.0, 0.1, 7.0, rng.uniform(.01, 20)]))
    start = float(pick(rng, [0.0, 0.0, rng.uniform(0, 5)]))
    ts = [0.0, start, start + dur, start + dur / 2, start + dur * 1.5] + [float(start + dur * rng.uniform(-.3, 1.4)) for _ in range(6)]
    return {"kind": pick(rng, ["linear", "linear", "static", "bit"]), "a": [rpy_of(rng), pos_of(rng)], "b": [rpy_of(rng), pos_of(rng)], "dur": dur, "start": start,
            "vel": pos_of(rng), "ts": [abs(float(ts[i])) for i in rng.permutation(len(ts))], "look": pick(rng, [None, None, "static", "linear"]),
            "t": [rpy_of(rng), pos_of(rng)], "t2": [rpy_of(rng), pos_of(rng)], "up": rpy_of(rng), "height": float(rng.uniform(.5, 30)),
            "ant": [rpy_of(rng), pos_of(rng)], "arr": [rpy_of(rng), pos_of(rng)]}


def T_(x):
    return Transformation.From_RPY(np.array(x[0]), np.array(x[1]))


def run_traj(case, obs):
    kind, dur, start = case["kind"], case["dur"], case["start"]
    A, B = mat(*case["a"]), mat(*case["b"])
    if kind == "linear":
        traj = LinearTrajectory(T_(case["a"]), T_(case["b"]), dur, start)
        obs.equal(traj.max_timestamp, start + dur, "max_timestamp", "end of the trajectory")
    elif kind == "static":
        traj = StaticTrajectory(T_(case["a"]), np.array(case["vel"]))
    else:
        traj = BITrajectoryB(case["height"], dur)
    target = None
    if case["look"] == "static":
        target = StaticTrajectory(T_(case["t"]))
    elif case["look"] == "linear":
        target = LinearTrajectory(T_(case["t"]), T_(case["t2"]), dur, 0.0)
    up = rot(case["up"])[:, 2].copy()
    if target is not None:
        traj.lookat(target, up)
    array = SimulatedCustomArray([SimulatedIdealAntenna(pose=T_(case["ant"]))], pose=T_(case["arr"]))
    dev = SimulatedDevice(pose=traj, antennas=array)
    dR = Rotation.from_matrix(A[:3, :3].T @ B[:3, :3]).as_rotvec()
    obs.sig("traj", kind, case["look"], start > 0)
    for t in case["ts"]:
        s = traj.sample(t)
        pose = plain(s.pose)
        obs.equal(float(s.timestamp), t, "sample_timestamp", "timestamp")
        if kind == "linear":
            x = float(np.clip((t - start) / dur, 0, 1))
            pos = A[:3, 3] + x * (B[:3, 3] - A[:3, 3])
            R = A[:3, :3] @ Rotation.from_rotvec(dR * x).as_matrix()
            vel = (B[:3, 3] - A[:3, 3]) / dur if 0 <= t - start < dur - 1e-9 else None
            if t < start or t > start + dur:
                vel = np.zeros(3)
            unique = abs(np.linalg.norm(dR) - np.pi) > 1e-6
        elif kind == "static":
            pos, R, vel, unique = A[:3, 3], A[:3, :3], np.array(case["vel"]), True
        else:
            h, r, unique = case["height"], t / dur, True
            knots = [0, .4, .6, .8, 1.0]
            pts = h * np.array([[0, 1, 0], [0, 0, 0], [.5, 0, 0], [.5, .5, 0], [0, .5, 0]])
            if any(abs(r - k) < 1e-9 for k in knots) or r < 0:
                continue
            if r > 1:
                pos, vel = pts[-1], np.zeros(3)
            else:
                k = next(i for i in range(4) if r < knots[i + 1])
                w = (r - knots[k]) / (knots[k + 1] - knots[k])
                pos = pts[k] + w * (pts[k + 1] - pts[k])
                vel = (pts[k + 1] - pts[k]) / ((knots[k + 1] - knots[k]) * dur)
            R = np.eye(3)
        sc = 1 + np.abs(pos).max()
        obs.close(pose[:3, 3], pos, "trajectory_position", f"position at {t}", rtol=1e-8, atol=1e-8 * sc, kind=kind)
        if vel is not None:
            obs.close(plain(s.velocity), vel, "trajectory_velocity", f"velocity at {t}", rtol=1e-8, atol=1e-9, kind=kind)
        if target is None:
            if unique:
                obs.close(pose[:3, :3], R, "trajectory_orientation", f"orientation at {t}", rtol=1e-6, atol=1e-6, kind=kind)
        else:
            if case["look"] == "static":
                tp = mat(*case["t"])[:3, 3]
            else:
                x = float(np.clip(t / dur, 0, 1))
                tp = mat(*case["t"])[:3, 3] * (1 - x) + x * mat(*case["t2"])[:3, 3]
            check_lookat(obs, pose, pos, tp, up)
        st = dev.state(t)
        obs.equal(float(st.timestamp), t, "state_timestamp", "timestamp of the device state")
        obs.close(plain(st.pose), pose, "state_pose", "pose of the device state", rtol=1e-12, atol=1e-12)
        obs.close(plain(st.position), pose[:3, 3], "state_position", "position of the device state", rtol=1e-12, atol=1e-12)
        obs.close(plain(st.velocity), plain(s.velocity), "state_velocity", "velocity of the device state", rtol=1e-12, atol=1e-12)
        g = pose @ mat(*case["arr"]) @ mat(*case["ant"])
        a = st.antennas.antennas[0]
        obs.close(plain(a.forwards_transformation), g, "state_antenna_pose", "global antenna pose of the device state", rtol=1e-7, atol=1e-7 * (1 + np.abs(g).max()))
        obs.count("states_sampled")
    # switching the look-at off again restores the trajectory's own orientation
    if target is not None and kind == "static":
        traj.lookat_disable()
        obs.close(plain(traj.sample(0.0).pose), A, "lookat_disable", "pose after disabling look-at", rtol=1e-8, atol=1e-8)
        traj.lookat_enable()
        check_lookat(obs, plain(traj.sample(0.0).pose), A[:3, 3], mat(*case["t"])[:3, 3], up)


FAMILIES = [
    Family("repr", gen_repr, run_repr, quick=1500, require=("gimbal_locked",)),
    Family("frames", gen_frames, run_frames, quick=1200, require=("op_lookat", "op_attach", "op_detach", "poses_queried")),
    Family("trajectory", gen_traj, run_traj, quick=500, require=("states_sampled",)),
]
