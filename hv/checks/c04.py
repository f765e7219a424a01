"""C04: recorded campaigns replay the recorded drops; the mode state machine of scenarios."""
import os, shutil, tempfile
import numpy as np
from hv.runner import Family
from hv.ref import pick, rint, seed
from hv.checks import c08
from hermespy.core import ScenarioMode
from hermespy.hardware_loop import PhysicalScenarioDummy
from hermespy.modem import CustomPilotSymbolSequence, DuplexModem, RootRaisedCosineWaveform
from hermespy.radar import FMCW, Radar
from hermespy.simulation import SimulatedDevice, SimulationScenario

PROPERTY = "C04"
RULE = ("an online monitor follows every record / replay / stop / drop / campaign call on one or several files next to a reference model of the files (list of drop digests per campaign) and of the "
        "mode state machine, and reports every replayed drop, callback notification, mode, drop count or campaign name that deviates from it, and every illegal transition that is accepted or has an effect")
ASSUMPTIONS = ["HDF5 backend; recordings are closed by stop() before they are replayed", "one process uses a file at a time"]


# ------------------------------------------------------------------ worlds
def gen_world(rng):
    if rng.random() < .25:
        return {"kind": "physical", "n": rint(rng, 1, 2), "seed": seed(rng), "ops": [pick(rng, ["modem", "radar", None]) for _ in range(2)]}
    return {"kind": "simulated", "sc": c08.gen_sc(rng)}


def make_world(c):
    if c["kind"] == "simulated":
        w = c08.World(c["sc"])
        return w.sc
    sc = PhysicalScenarioDummy(seed=c["seed"])
    for i in range(c["n"]):
        dev = sc.new_device(carrier_frequency=c08.CF, bandwidth=c08.B)
        if c["ops"][i] == "modem":
            op = DuplexModem(waveform=RootRaisedCosineWaveform(relative_bandwidth=.5, roll_off=.5, filter_length=8, num_preamble_symbols=0, num_data_symbols=12, modulation_order=4))
        elif c["ops"][i] == "radar":
            op = Radar(waveform=FMCW(2, 20 / c08.B, 24 / c08.B))
        else:
            continue
        dev.transmitters.add(op)
        dev.receivers.add(op)
    return sc


def fingerprint(drop):
    """Digest of a drop including its signal parameters."""
    out = list(c08.digest(drop))
    for i, t in enumerate(drop.device_transmissions):
        for s in [t.mixed_signal] + [o.signal for o in t.operator_transmissions]:
            out.append((f"tx{i}.parameters", repr((float(s.sampling_rate), float(s.carrier_frequency), float(s.delay), float(s.noise_power)))))
    for i, r in enumerate(drop.device_receptions):
        for s in list(r.impinging_signals) + list(r.operator_inputs):
            out.append((f"rx{i}.parameters", repr((float(s.sampling_rate), float(s.carrier_frequency), float(s.delay), float(s.noise_power)))))
    out.append(("realizations", str(len(getattr(drop, "channel_realizations", ())))))
    out.append(("timestamp", repr(float(drop.timestamp))))
    return [(n, str(v)) for n, v in out]


# ------------------------------------------------------------------ histories
CAMPAIGNS = [None, None, "alpha", "beta", "gamma"]


def gen_ops(rng, n):
    ops = []
    for _ in range(n):
        k = pick(rng, ["record", "record", "drop", "drop", "drop", "drop", "stamped", "stop", "stop", "replay", "replay", "replay", "again", "campaign", "bad_campaign", "missing_campaign", "missing_file", "offset", "add_device", "class_replay", "nested_record", "same_campaign", "state_only"])
        ops.append([k, rint(rng, 0, 1), pick(rng, CAMPAIGNS), rint(rng, 0, 3), bool(rng.random() < .2)])
    return ops


def gen_history(rng):
    return {"world": gen_world(rng), "ops": gen_ops(rng, rint(rng, 6, 16)), "notify": bool(rng.random() < .5)}


def gen_sessions(rng):
    """A plain campaign: sessions of recordings, replayed completely from random offsets."""
    ops, names = [], [(f, c) for f in (0, 1) for c in (None, "alpha", "beta")]
    done = []
    for _ in range(rint(rng, 1, 3)):
        f, c = names[int(rng.integers(len(names)))]
        ops += [["record", f, c, 0, False]] + [["drop", 0, None, 0, False]] * rint(rng, 1, 3)
        if rng.random() < .3:
            ops += [["campaign", 0, pick(rng, ["beta", "gamma"]), 0, False]] + [["drop", 0, None, 0, False]] * rint(rng, 1, 2)
        ops += [["stop", 0, None, 0, False]]
        done.append((f, c))
    for f, c in done:
        if rng.random() < .3:
            ops += [["class_replay", f, c, 0, False]]
        ops += [["replay", f, c, rint(rng, 0, 1), False]] + [["drop", 0, None, 0, False]] * rint(rng, 1, 6) + ([["again", 0, c, 0, False]] + [["drop", 0, None, 0, False]] * 2 if rng.random() < .4 else [])
    return {"world": gen_world(rng), "ops": ops + [["stop", 0, None, 0, False], ["drop", 0, None, 0, False]], "notify": True}


class Model:
    """Reference of the recorded files and the scenario's operating mode."""

    def __init__(self):
        self.files = {}          # path -> campaign -> [fingerprints]
        self.mode, self.file, self.campaign, self.cursor, self.count, self.last = ScenarioMode.DEFAULT, None, "default", 0, 0, None

    def drops(self):
        return self.files[self.file][self.campaign]

    def fresh(self, path, campaign):
        return self.files.setdefault(path, {}).setdefault(campaign, [])


class Listener:
    """Records what the operators of a scenario are notified about."""

    def __init__(self, sc):
        self.tx, self.rx, self.sc, self.handles = [], [], sc, []
        for i, d in enumerate(sc.devices):
            for j, o in enumerate(d.transmitters):
                self.handles.append(o.add_transmit_callback(lambda t, k=(i, j): self.tx.append((k, t))))
            for j, o in enumerate(d.receivers):
                self.handles.append(o.add_receive_callback(lambda r, k=(i, j): self.rx.append((k, r))))

    def reset(self):
        self.tx, self.rx = [], []


def result(o):
    """Digest of an operator's transmission or reception."""
    import hashlib
    out = []
    for n in ("signal", "bits", "symbols", "equalized_symbols", "cube"):
        v = getattr(o, n, None)
        if v is not None:
            v = getattr(v, "raw", getattr(v, "data", v)) if n != "signal" else c08.nd(v)
            out.append((n, hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest()[:12]))
    return out


def run_history(c, obs):
    root = tempfile.mkdtemp(prefix="hv-c04-")
    sc = None
    try:
        sc = make_world(c["world"])
        listener = Listener(sc) if c["notify"] else None
        paths = [os.path.join(root, f"f{i}.h5") for i in range(2)]
        m = Model()
        trace = []

        def state():
            return sc.mode, sc.num_devices, sc.campaign, m.cursor

        def rejected(what, fn, exceptions=(Exception,)):
            before = sc.mode, sc.num_devices, sc.campaign
            try:
                fn()
            except exceptions:
                pass
            else:
                obs.check(False, f"{what} is accepted", f"{what} succeeded after {trace}")
            obs.count("rejections")
            obs.check((sc.mode, sc.num_devices, sc.campaign) == before, f"rejected {what} takes effect", f"{before} -> {(sc.mode, sc.num_devices, sc.campaign)} after {trace}")

        def do_drop(stamp=None):
            if listener:
                listener.reset()
            if m.mode is ScenarioMode.REPLAY:
                if m.cursor >= len(m.drops()):
                    rejected("replay beyond the last drop", sc.drop)
                    obs.count("ends")
                    return
                d = sc.drop()
                want = m.drops()[m.cursor]
                bad = c08.differences(fingerprint(d), want["print"])
                obs.check(not bad, "replayed drop differs", f"drop {m.cursor} of {len(m.drops())}: {bad[:6]} after {trace}")
                obs.count("replayed")
                m.cursor += 1
                if listener and want["tx"] is not None:
                    obs.count("notifications", len(listener.tx) + len(listener.rx))
                    for n, got, ref in (("transmit", listener.tx, want["tx"]), ("receive", listener.rx, want["rx"])):
                        got = [(k, result(v)) for k, v in got]
                        obs.check([k for k, _ in got] == [k for k, _ in ref], f"{n} callbacks during replay", f"{[k for k, _ in got]} instead of {[k for k, _ in ref]}")
                        bad = [(k, [x[0] for x, y in zip(a, b) if x != y]) for (k, a), (_, b) in zip(got, ref) if a != b]
                        obs.check(not bad, f"{n} callbacks are notified about other results", f"{bad[:3]} drop {m.cursor - 1} after {trace}")
                return
            d = sc.drop() if stamp is None else sc.drop(stamp)
            fp = fingerprint(d)
            obs.check(fp not in m_seen, "live drop equals an earlier one", f"after {trace}")
            m_seen.append(fp)
            obs.count("live")
            if m.mode is ScenarioMode.RECORD:
                m.drops().append({"print": fp, "tx": [(k, result(v)) for k, v in listener.tx] if listener else None, "rx": [(k, result(v)) for k, v in listener.rx] if listener else None})
                m.count += 1

        m_seen = []
        for k, f, camp, arg, flag in c["ops"]:
            trace.append((k, f, camp, arg))
            path = paths[f]
            idle = m.mode is ScenarioMode.DEFAULT
            if k in ("record", "nested_record", "state_only"):
                if not idle:
                    rejected("record while busy", lambda: sc.record(path, camp, overwrite=flag), (RuntimeError,))
                elif camp == "state":
                    pass
                else:
                    sc.record(path, camp, overwrite=flag)
                    if flag:
                        m.files.pop(path, None)
                    m.fresh(path, camp)
                    m.mode, m.file, m.campaign, m.count = ScenarioMode.RECORD, path, camp, 0
                    obs.count("recordings")
            elif k == "drop":
                do_drop()
            elif k == "stamped":
                if m.mode is not ScenarioMode.REPLAY and c["world"]["kind"] == "simulated":
                    do_drop(.001 * arg)
            elif k == "stop":
                sc.stop()
                m.mode = ScenarioMode.DEFAULT
            elif k in ("replay", "offset", "again", "missing_campaign", "missing_file"):
                if k == "missing_file":
                    rejected("replay of a missing file", lambda: sc.replay(os.path.join(root, "none.h5"), camp))
                    continue
                if k == "missing_campaign":
                    if not (m.mode is ScenarioMode.RECORD and m.file == path) and path in m.files:
                        rejected("replay of a missing campaign", lambda: sc.replay(path, "delta"))
                    continue
                if k == "again":
                    if m.last is None:
                        rejected("replay without a file", lambda: sc.replay(None, camp), (ValueError,))
                        continue
                    path = m.last
                if m.mode is ScenarioMode.RECORD and m.file == path:
                    continue            # the file is in use
                n = len(m.files.get(path, {}).get(camp, []))
                if n == 0 or k == "offset":
                    rejected("replay of an impossible offset", lambda: sc.replay(path if k != "again" else None, camp, n + arg if arg % 2 == 0 or n == 0 else -arg))
                    continue
                off = arg % n
                got = sc.replay(path if k != "again" else None, camp, off)
                obs.check(got == n - off, "number of drops to be replayed", f"{got} instead of {n - off} after {trace}")
                m.mode, m.file, m.campaign, m.cursor, m.last = ScenarioMode.REPLAY, path, camp, off, path
                obs.count("replays")
            elif k in ("campaign", "same_campaign"):
                value = m.campaign if k == "same_campaign" else camp or "gamma"
                if value is None:
                    continue
                if m.mode is ScenarioMode.REPLAY and value != m.campaign:
                    rejected("campaign change during replay", lambda: setattr(sc, "campaign", value), (NotImplementedError, RuntimeError))
                else:
                    sc.campaign = value
                    if m.mode is ScenarioMode.RECORD and value != m.campaign:
                        m.fresh(m.file, value)
                        m.count = 0
                        obs.count("switches")
                    m.campaign = value
            elif k == "bad_campaign":
                rejected("reserved campaign name", lambda: setattr(sc, "campaign", "state"), (ValueError,))
                if idle:
                    rejected("recording to the reserved campaign name", lambda: sc.record(path, "state", overwrite=True), (ValueError,))
                    obs.check(os.path.exists(path) == (path in m.files), "rejected recording removes the file", f"{trace}")
            elif k == "add_device":
                if not idle:
                    rejected("adding a device while busy", lambda: sc.new_device(), (RuntimeError,))
            elif k == "class_replay":
                n = len(m.files.get(path, {}).get(camp, []))
                if n and not (m.mode is ScenarioMode.RECORD and m.file == path):
                    other, num = type(sc).Replay(path, camp, arg % n)
                    try:
                        obs.check(num == n - arg % n and other.mode is ScenarioMode.REPLAY, "scenario replayed from a file", f"{num} drops, {other.mode}")
                        obs.check(other.num_devices == sc.num_devices, "scenario replayed from a file", f"{other.num_devices} devices instead of {sc.num_devices}")
                        for want in m.files[path][camp][arg % n:]:
                            bad = c08.differences(fingerprint(other.drop()), want["print"])
                            obs.check(not bad, "drop replayed by a restored scenario differs", f"{bad[:6]} after {trace}")
                            obs.count("replayed by restored scenarios")
                    finally:
                        other.stop()
            # what the scenario reports
            obs.check(sc.mode is m.mode, "operating mode", f"{sc.mode} instead of {m.mode} after {trace}")
            obs.check(sc.campaign == m.campaign, "campaign name", f"{sc.campaign} instead of {m.campaign} after {trace}")
            n = 0 if m.mode is ScenarioMode.DEFAULT else m.count if m.mode is ScenarioMode.RECORD else len(m.drops())
            obs.check(sc.num_drops == n, "number of drops", f"{sc.num_drops} instead of {n} in {m.mode} after {trace}")
            obs.count("steps")
            obs.sig(k, m.mode.name)

        # everything recorded must still be on file
        sc.stop()
        for path, camps in m.files.items():
            for camp, drops in camps.items():
                if drops:
                    obs.check(sc.replay(path, camp) == len(drops), "number of recorded drops", f"{camp} after {trace}")
                    for i, want in enumerate(drops):
                        bad = c08.differences(fingerprint(sc.drop()), want["print"])
                        obs.check(not bad, "replayed drop differs", f"drop {i} of {len(drops)} of campaign {camp}: {bad[:6]} after {trace}")
                        obs.count("replayed")
                    rejected("replay beyond the last drop", sc.drop)
                    sc.stop()
        obs.check(sc.mode is ScenarioMode.DEFAULT, "stop returns to live operation", f"{sc.mode}")
        m.mode = ScenarioMode.DEFAULT
        do_drop()
        obs.sig([o[0] for o in c["ops"]])
    finally:
        if sc is not None:
            try:
                sc.stop()
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)


FAMILIES = [
    Family("histories", gen_history, run_history, quick=220, require=("recordings", "replays", "rejections", "replayed")),
    Family("sessions", gen_sessions, run_history, quick=140, require=("replayed", "ends", "notifications", "switches")),
]
