"""Every receiving device obtains the emission of every transmitting device exactly once over the pair's channel."""
import numpy as np
from hv.runner import Family
from hv.ref import arr, pick, rint, seed, nd
from hermespy.channel import Channel, ChannelRealization, ChannelSample, IdealChannel
from hermespy.core import ChannelStateFormat, ChannelStateInformation, Signal, SignalReceiver, SignalTransmitter, SilentTransmitter

from hermespy.core.signal_model import SignalBlock
from hermespy.simulation import SampleOffsetTrigger, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SimulationScenario
from hermespy.core import AntennaMode

PROPERTY = "C19"
RULE = ("random histories of adding devices and operators, linking, relinking and unlinking channels and removing operators, with drops in between; every drop's "
        "impinging signals, operator inputs and channel usage events are compared with the sum over all device pairs of recorded channel realizations applied to "
        "the known emissions; distinct = distinct (device count, link pattern, operator pattern, operation) signatures")
ASSUMPTIONS = ["channels are observed through a recording channel model implementing the public channel interface and through ideal channels",
               "the library offers no removal of devices from a scenario"]
SR, CF = 1e6, 1e9
MODE = {"D": AntennaMode.DUPLEX, "T": AntennaMode.TX, "R": AntennaMode.RX}


class TapSample(ChannelSample):
    def __init__(self, real, state):
        ChannelSample.__init__(self, state)
        self.real = real

    @property
    def H(self):
        return self.real.base[:self.num_receive_antennas, :self.num_transmit_antennas]

    @property
    def expected_energy_scale(self):
        return 1.0

    def state(self, num_samples, max_num_taps, interpolation_mode=None):
        h = np.zeros((self.num_receive_antennas, self.num_transmit_antennas, num_samples, self.real.lag + 1), complex)
        h[..., self.real.lag] = self.H[:, :, None]
        return ChannelStateInformation(ChannelStateFormat.IMPULSE_RESPONSE, h)

    def _propagate(self, signal, interpolation):
        y = np.zeros((self.num_receive_antennas, signal.num_samples + self.real.lag), complex)
        y[:, self.real.lag:] = self.H @ np.asarray(signal)
        self.real.log.append(("propagate", self))
        return SignalBlock(y.shape[0], y.shape[1], signal._offset, y.tobytes())


class TapRealization(ChannelRealization):
    def __init__(self, hooks, gain, base, lag):
        ChannelRealization.__init__(self, hooks, gain)
        self.base, self.lag, self.log = base, lag, []

    def _sample(self, state):
        s = TapSample(self, state)
        self.log.append(("sample", s))
        return s

    def _reciprocal_sample(self, sample, state):
        s = TapSample(self, state)
        self.log.append(("reciprocal", s, sample))
        return s

    def serialize(self, process):
        raise NotImplementedError

    @classmethod
    def Deserialize(cls, process):
        raise NotImplementedError


class TapChannel(Channel):
    """Symmetric random single-tap channel recording its use."""

    def __init__(self, key):
        Channel.__init__(self, seed=key)
        self.made = []
        self.key = key

    def _realize(self):
        m = self._rng.normal(size=(8, 8)) + 1j * self._rng.normal(size=(8, 8))
        r = TapRealization(self.sample_hooks, self.gain, m + m.T, int(self._rng.integers(0, 4)))
        self.made.append(r)
        return r

    def serialize(self, process):
        raise NotImplementedError

    @classmethod
    def Deserialize(cls, process):
        raise NotImplementedError


def gen_dev(rng):
    modes = ["D"] * pick(rng, [1, 1, 2, 3])
    if rng.random() < .3:
        modes[pick(rng, range(len(modes)))] = pick(rng, ["T", "R"])
    return {"modes": modes, "power": pick(rng, [1., .25, 4., 0.]), "sep": bool(rng.random() < .15)}


def gen(rng):
    n = pick(rng, [1, 2, 2, 3])
    ops = []
    for _ in range(rint(rng, 5, 14)):
        k = pick(rng, ["add_tx", "add_tx", "add_rx", "link", "link", "link", "unlink", "relink", "drop", "drop", "rm_tx", "rm_rx", "dup", "dev", "gain", "silent", "multi", "bad"])
        ops.append([k] + [int(rng.integers(0, 1 << 30)) for _ in range(5)])
    ops.append(["drop", 0, 0, 0, 0, 0])
    return {"devs": [gen_dev(rng) for _ in range(n)], "extra": [gen_dev(rng) for _ in range(3)], "ops": ops, "seed": seed(rng),
            "default": pick(rng, ["none", "tap", "tap", "ideal"]), "ctor": bool(rng.random() < .3)}


def mk(d):
    a = SimulatedCustomArray([SimulatedIdealAntenna(mode=MODE[m]) for m in d["modes"]])
    return SimulatedDevice(antennas=a, carrier_frequency=CF, bandwidth=SR, oversampling_factor=1, power=d["power"], operator_separation=d["sep"])


class Model:
    def __init__(self):
        self.dev, self.tx, self.rx, self.links = [], [], [], {}


def ports(r, n):
    if n < 1 or r % 3 == 0:
        return None
    k = 1 + (r // 3) % n
    return [int(i) for i in np.random.default_rng(r).permutation(n)[:k]]


def run(case, obs):
    default = {"none": None, "tap": TapChannel(1), "ideal": IdealChannel(gain=.5)}[case["default"]]
    devs = [mk(d) for d in case["devs"]]
    cfgs = list(case["devs"])
    if case["ctor"]:
        sc = SimulationScenario(default, seed=case["seed"], devices=devs)
    else:
        sc = SimulationScenario(default, seed=case["seed"])
        for d in devs:
            sc.add_device(d)
    m = Model()
    m.dev, m.tx, m.rx = list(devs), [[] for _ in devs], [[] for _ in devs]
    extra = list(case["extra"])
    calls = {}
    chans = []
    dflt = sc.channel(devs[0], devs[0])
    if default is not None:
        obs.check(dflt is default, "default_channel", "unset pairs don't use the default channel")

    def used():
        return {id(c): c for c in m.links.values()}

    def add_tx(i, r, silent=False):
        d = m.dev[i]
        p = ports(r, d.num_transmit_antennas)
        n = d.num_transmit_antennas if p is None else len(p)
        L = 1 + r % 23
        if d.num_transmit_antennas < 1:
            return
        x = np.zeros((n, L), complex) if silent else arr(r, n, L)
        t = SilentTransmitter(L, selected_transmit_ports=p) if silent else SignalTransmitter(Signal.Create(x.copy(), SR), selected_transmit_ports=p)
        (d.transmitters.add if r % 2 else d.add_dsp)(t)
        m.tx[i].append((t, p, x))

    def add_rx(i, r):
        d = m.dev[i]
        if d.num_receive_antennas < 1:
            return
        p = ports(r, d.num_receive_antennas)
        rx = SignalReceiver(5, selected_receive_ports=p)
        calls[id(rx)] = []
        rx.add_receive_callback(lambda rec, k=id(rx): calls[k].append(rec))
        (d.receivers.add if r % 2 else d.add_dsp)(rx)
        m.rx[i].append((rx, p))

    for i in range(len(devs)):
        add_tx(i, case["seed"] + i)
        add_rx(i, case["seed"] + 7 * i)

    def channel_of(i, j):
        return m.links.get(frozenset((i, j)), dflt)

    def drop(ts):
        N = len(m.dev)
        for v in calls.values():
            v.clear()
        taps = {id(c): c for c in list(used().values()) + [dflt] if isinstance(c, TapChannel)}
        for c in taps.values():
            c.made.clear()
        out = sc._drop(ts) if len(ts) > 1 else [sc.drop(ts[0])]
        obs.equal(len(out), len(ts), "num_drops", "number of drops")
        for c in taps.values():
            obs.equal(len(c.made), 1, "realize_once", f"realizations of channel {c.key} per drop")
            obs.count("realizations")
        emis = []
        for i in range(N):
            L = max([x.shape[1] for _, _, x in m.tx[i]] + [0])
            e = np.zeros((m.dev[i].num_transmit_antennas, L), complex)
            for _, p, x in m.tx[i]:
                e[np.arange(e.shape[0]) if p is None else p, :x.shape[1]] += x
            emis.append(e * np.sqrt(m.dev[i].power))

        def over(i, j):  # emission of i received by j
            c = channel_of(i, j)
            e, nr, nt = emis[i], m.dev[j].num_receive_antennas, m.dev[i].num_transmit_antennas
            if isinstance(c, TapChannel):
                r = c.made[0]
                y = np.zeros((nr, e.shape[1] + r.lag), complex)
                y[:, r.lag:] = r.base[:nr, :nt] @ e
                return y * np.sqrt(c.gain) if False else y
            H = np.ones((nr, nt)) if 1 in (nr, nt) else np.eye(nr, nt)
            return np.sqrt(c.gain) * (H @ e)

        for k, dr in enumerate(out):
            for j in range(N):
                nr = m.dev[j].num_receive_antennas
                imp = dr.device_receptions[j].impinging_signals
                obs.equal(len(imp), N, "impinging_count", f"signals impinging on device {j}")
                total = np.zeros((nr, 1), complex)
                for i in range(N):
                    ref = over(i, j)
                    got = nd(imp[i])
                    obs.count("pairs")
                    n = max(ref.shape[1], got.shape[1])
                    pad = lambda a: np.pad(a, ((0, 0), (0, n - a.shape[1])))
                    if nr and ref.shape[1]:
                        obs.close(pad(got), pad(ref), "pair", f"signal of device {i} impinging on device {j} in drop {k}", rtol=1e-7, atol=1e-9)
                    n = max(n, total.shape[1])
                    total = np.pad(total, ((0, 0), (0, n - total.shape[1])))
                    total[:, :ref.shape[1]] += ref
                obs.equal(len(dr.device_receptions[j].operator_inputs), len(m.rx[j]), "operator_inputs", f"operator inputs of device {j}")
                for o, (rx, p) in enumerate(m.rx[j]):
                    ref = total if p is None else total[p]
                    obs.equal(len(calls[id(rx)]), len(ts), "receive_calls", f"receptions of an operator of device {j}")
                    for what, s in (("input", dr.device_receptions[j].operator_inputs[o]), ("reception", calls[id(rx)][k].signal)):
                        g = nd(s)
                        n = max(g.shape[1], ref.shape[1])
                        obs.equal(g.shape[0], ref.shape[0], "ports", f"streams handed to an operator of device {j}")
                        obs.close(np.pad(g, ((0, 0), (0, n - g.shape[1]))), np.pad(ref, ((0, 0), (0, n - ref.shape[1]))), "superposition",
                                  f"{what} of operator {o} of device {j} in drop {k}", rtol=1e-7, atol=1e-9)
                        obs.count("inputs")
            for i in range(N):
                obs.equal(len(dr.device_transmissions[i].operator_transmissions), len(m.tx[i]), "operator_transmissions", f"transmissions of device {i}")
        # Channel usage: each direction of every pair exactly once per timestamp, both directions sharing one sample
        for c in taps.values():
            pairs = [(i, j) for i in range(N) for j in range(i + 1) if channel_of(i, j) is c]
            log = c.made[0].log
            obs.equal(sum(e[0] == "sample" for e in log), len(pairs) * len(ts), "sampled_pairs", "channel samples per drop")
            obs.equal(sum(e[0] == "reciprocal" for e in log), sum(i != j for i, j in pairs) * len(ts), "reciprocal_pairs", "reciprocal samples per drop")
            fw = [e[1] for e in log if e[0] == "sample"]
            for e in log:
                if e[0] == "reciprocal":
                    obs.check(any(e[2] is s for s in fw), "shared_realization", "reverse direction not derived from the forward sample")
                    obs.check(e[1].transmitter_state.device_id == e[2].receiver_state.device_id and e[1].receiver_state.device_id == e[2].transmitter_state.device_id,
                              "reverse_direction", "reverse direction connects different devices")
            obs.count("channel_events", len(log))
        obs.count("drops", len(ts))
        obs.sig("drop", N, tuple(len(t) for t in m.tx), tuple(sorted("t" if isinstance(c, TapChannel) else "i" for c in m.links.values())), len(ts))

    def consistent():
        N = len(m.dev)
        obs.equal(sc.num_devices, N, "num_devices", "number of devices")
        obs.check(all(a is b for a, b in zip(sc.devices, m.dev)), "device_order", "device order")
        for i in range(N):
            obs.equal(sc.device_index(m.dev[i]), i, "device_index", "index of a device")
            for j in range(N):
                obs.check(sc.channel(m.dev[i], m.dev[j]) is channel_of(i, j), "channel_of_pair", f"channel of devices {i} and {j}")
            ref = {id(channel_of(i, j)) for j in range(N)}
            obs.check({id(c) for c in sc.device_channels(m.dev[i])} == ref, "device_channels", f"channels of device {i}")
            ref = {id(channel_of(i, j)) for j in range(N) if channel_of(i, j).gain > 0}
            obs.check({id(c) for c in sc.device_channels(m.dev[i], True)} == ref, "active_channels", f"active channels of device {i}")
        ids = [id(c) for c in sc.channels]
        obs.equal(len(ids), len(set(ids)), "unique_channels", "channels listed more than once")
        obs.check({id(channel_of(i, j)) for i in range(N) for j in range(N)} <= set(ids), "listed_channels", "a channel in use is not listed")
        obs.check(set(ids) <= {id(dflt)} | set(used()), "stale_channels", "a channel without link remains in use")
        obs.check([id(t) for t in sc.transmitters] == [id(t) for l in m.tx for t, _, _ in l], "transmitters", "transmitters of the scenario")
        obs.check([id(t) for t in sc.receivers] == [id(t) for l in m.rx for t, _ in l], "receivers", "receivers of the scenario")
        obs.equal(sc.num_operators, len({id(t) for l in m.tx for t, _, _ in l} | {id(t) for l in m.rx for t, _ in l}), "num_operators", "operators of the scenario")

    for k, a, b, c, r, q in case["ops"]:
        N = len(m.dev)
        i, j = a % N, b % N
        obs.count("op_" + k)
        if k == "add_tx":
            add_tx(i, r)
        elif k == "silent":
            add_tx(i, r, True)
        elif k == "add_rx":
            add_rx(i, r)
        elif k == "rm_tx" and m.tx[i]:
            t = m.tx[i].pop(c % len(m.tx[i]))[0]
            m.dev[i].transmitters.remove(t)
        elif k == "rm_rx" and m.rx[i]:
            m.dev[i].receivers.remove(m.rx[i].pop(c % len(m.rx[i]))[0])
        elif k == "dup":
            for t, _, _ in m.tx[i]:
                m.dev[i].transmitters.add(t)
            for t, _ in m.rx[i]:
                m.dev[i].receivers.add(t)
        elif k in ("link", "relink"):
            if k == "relink" and chans:
                ch = chans[c % len(chans)]
            else:
                ch = TapChannel(r) if c % 4 else IdealChannel(gain=1. + (r % 5))
                chans.append(ch)
            x, y = (m.dev[i], m.dev[j]) if c % 2 else (m.dev[j], m.dev[i])
            sc.set_channel(x, y, ch)
            m.links[frozenset((i, j))] = ch
        elif k == "unlink":
            sc.set_channel(m.dev[i], m.dev[j], dflt)
            m.links[frozenset((i, j))] = dflt
        elif k == "gain":
            ch = channel_of(i, j)
            if isinstance(ch, IdealChannel):
                ch.gain = float(pick(np.random.default_rng(r), [0., .1, 2.]))
        elif k == "dev" and extra:
            d = extra.pop()
            if c % 2:
                x = mk(d)
                sc.add_device(x)
            else:
                x = sc.new_device(antennas=SimulatedCustomArray([SimulatedIdealAntenna(mode=MODE[z]) for z in d["modes"]]), carrier_frequency=CF, bandwidth=SR,
                                  oversampling_factor=1, power=d["power"])
            m.dev.append(x)
            m.tx.append([])
            m.rx.append([])
            if c % 3:
                add_tx(len(m.dev) - 1, r)
                add_rx(len(m.dev) - 1, q)
        elif k == "bad":
            foreign = mk(case["devs"][0])
            obs.raises(lambda: sc.set_channel(m.dev[i], foreign, TapChannel(r)), "foreign_link", "unknown device was linked", exceptions=(ValueError,))
            obs.raises(lambda: sc.set_channel(foreign, m.dev[i], TapChannel(r)), "foreign_link", "unknown device was linked", exceptions=(ValueError,))
            obs.raises(lambda: sc.channel(foreign, m.dev[i]), "foreign_channel", "unknown device has a channel", exceptions=(ValueError,))
            obs.raises(lambda: sc.add_device(m.dev[i]), "added_twice", "device was registered twice", exceptions=(ValueError,))
        elif k == "drop":
            drop([float(q % 3)])
        elif k == "multi":
            drop([0.0, 1.0 + q % 3])
        consistent()
        obs.count("operations")


def gen_mixed(rng):
    return {"n": pick(rng, [2, 3]), "seed": seed(rng), "kinds": [int(rng.integers(0, 3)) for _ in range(6)], "rates": [pick(rng, [1, 1, 2]) for _ in range(3)], "T": rint(rng, 20, 60)}


def run_mixed(case, obs):
    """Devices of different bandwidth and random channels: sum over the recorded propagations."""
    from hermespy.channel import MultipathFadingChannel, RandomDelayChannel
    n = case["n"]
    sc = SimulationScenario(seed=case["seed"])
    ds, rxs = [], []
    for i in range(n):
        d = sc.new_device(carrier_frequency=CF, bandwidth=SR, oversampling_factor=1)
        d.transmitters.add(SignalTransmitter(Signal.Create(arr(case["seed"] + i, 1, case["T"]), SR)))
        r = SignalReceiver(5)
        d.receivers.add(r)
        ds.append(d)
    log = []
    k = 0
    for i in range(n):
        for j in range(i + 1):
            ch = [lambda: IdealChannel(gain=2.), lambda: MultipathFadingChannel(np.array([0, 3e-6]), np.array([1., .5]), np.array([0., 1.]), seed=k),
                  lambda: RandomDelayChannel((0., 5e-6), model_propagation_loss=False, seed=k)][case["kinds"][k % 6]]()
            sc.set_channel(ds[i], ds[j], ch)
            k += 1
    samples = []
    for c in sc.channels:
        c.add_sample_hook(lambda s: samples.append(s)) if hasattr(c, "add_sample_hook") else None
    dr = sc.drop()
    for j in range(n):
        tot = np.zeros((1, 0), complex)
        for s in dr.device_receptions[j].impinging_signals:
            g = nd(s)
            w = max(tot.shape[1], g.shape[1])
            tot = np.pad(tot, ((0, 0), (0, w - tot.shape[1]))) + np.pad(g, ((0, 0), (0, w - g.shape[1])))
            obs.check(g.size > 0 and np.any(g), "impinging_silence", "an emission was lost")
            obs.count("pairs")
        g = nd(dr.device_receptions[j].operator_inputs[0])
        w = max(tot.shape[1], g.shape[1])
        obs.close(np.pad(g, ((0, 0), (0, w - g.shape[1]))), np.pad(tot, ((0, 0), (0, w - tot.shape[1]))), "superposition", f"input of device {j}", rtol=1e-9, atol=1e-12)
    obs.sig("mixed", n, tuple(case["kinds"]))
    obs.count("drops")


FAMILIES = [Family("history", gen, run, quick=800, require=("drops", "pairs", "inputs", "realizations", "channel_events", "op_unlink", "op_relink", "op_rm_tx", "op_dev", "op_bad", "op_multi")),
            Family("channels", gen_mixed, run_mixed, quick=200, require=("drops", "pairs"))]
