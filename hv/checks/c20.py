"""Devices route operator signals between operators and ports."""
import numpy as np
from hv.runner import Family
from hv.ref import arr, nd, pick, rint, seed, snapshot
from hermespy.core import AntennaMode, DeviceState, Signal, SignalReceiver, SignalTransmitter, SilentTransmitter, Transformation
from hermespy.hardware_loop import PhysicalDevice, PhysicalDeviceDummy
from hermespy.simulation import SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna

PROPERTY = "C20"
RULE = ("random sequences of registering, re-registering and removing operators with random port selections on simulated devices, physical dummies and a minimal "
        "physical device, with random power, carrier offsets, sampling rates and operator separation; emissions, transmission records, callback counts and operator "
        "inputs are compared with an independently tracked routing table; distinct = distinct (device kind, operator counts, port pattern, separation) signatures")
ASSUMPTIONS = ["operators emit base-band signals, so that a carrier frequency of their signals denotes the offset from the device's carrier",
               "the mixing carrier frequency property of operators isn't evaluated by the library and therefore not covered",
               "superposition of signals of differing carrier or rate is compared for narrow-band tones away from the filter transients"]
SR, CF = 1e6, 1e9
MODE = {"D": AntennaMode.DUPLEX, "T": AntennaMode.TX, "R": AntennaMode.RX}


class BareDevice(PhysicalDevice):
    """Physical device with loopback memory."""

    def __init__(self, antennas, power):
        self._ant = antennas
        self.up = None
        self.down = None
        PhysicalDevice.__init__(self, power=power)

    def state(self, timestamp=0.0):
        return DeviceState(id(self), timestamp, self.pose, np.zeros(3), CF, SR, 1, self._ant.state(self.pose), self.num_transmit_dsp_ports, self.num_receive_dsp_ports,
                           self.num_transmit_rf_ports, self.num_receive_rf_ports)

    antennas = property(lambda s: s._ant)
    carrier_frequency = property(lambda s: CF)
    sampling_rate = property(lambda s: SR)
    bandwidth = property(lambda s: SR)
    oversampling_factor = property(lambda s: 1)
    max_sampling_rate = property(lambda s: SR)

    def trigger(self):
        self.down = self.up

    def _upload(self, signal):
        self.up = signal
        return signal

    def _download(self):
        return self.down


def array(modes):
    return SimulatedCustomArray([SimulatedIdealAntenna(mode=MODE[m], pose=Transformation.From_Translation(np.array([.1 * i, 0, 0]))) for i, m in enumerate(modes)])


def mk(case):
    k = case["kind"]
    if k == "bare":
        return BareDevice(array(case["modes"]), case["power"])
    cls = SimulatedDevice if k == "sim" else PhysicalDeviceDummy
    return cls(antennas=array(case["modes"]), carrier_frequency=CF, bandwidth=SR, oversampling_factor=1, power=case["power"], operator_separation=case["sep"])


def gen(rng):
    kind = pick(rng, ["sim", "sim", "sim", "dummy", "bare"])
    modes = ["D"] * pick(rng, [1, 2, 3, 4])
    if rng.random() < .4:
        modes = [pick(rng, ["D", "T", "R"]) for _ in modes]
        modes[0] = "D"
    ops = []
    for _ in range(rint(rng, 4, 14)):
        ops.append([pick(rng, ["tx", "tx", "silent", "rx", "rx", "rm_tx", "rm_rx", "dup", "reports", "transmit", "transmit", "receive", "receive", "power"]), int(rng.integers(1 << 30)), int(rng.integers(1 << 30))])
    return {"kind": kind, "modes": modes, "power": pick(rng, [1., 4., .01, 0.]), "sep": bool(kind != "bare" and rng.random() < .25), "ops": ops + [["transmit", 0, 0], ["receive", 5, 7]]}


def ports(r, n):
    if r % 3 == 0:
        return None
    return [int(i) for i in np.random.default_rng(r).permutation(n)[:1 + (r // 3) % n]]


def run(case, obs):
    d = mk(case)
    nt, nr = d.num_transmit_antennas, d.num_receive_antennas
    tx, rx, cnt = [], [], {}
    power = case["power"]
    fresh = []

    def watch(o, tr):
        cnt[id(o)] = 0
        def f(x, k=id(o)):
            cnt[k] += 1
        (o.add_transmit_callback if tr else o.add_receive_callback)(f)

    for k, a, b in case["ops"]:
        obs.count("op_" + k)
        if k in ("tx", "silent"):
            p = ports(a, nt)
            n = nt if p is None else len(p)
            L = 1 + b % 40
            x = np.zeros((n, L), complex) if k == "silent" else arr(b, n, L)
            o = SilentTransmitter(L, selected_transmit_ports=p) if k == "silent" else SignalTransmitter(Signal.Create(x.copy(), SR), selected_transmit_ports=p)
            watch(o, True)
            (d.transmitters.add if a % 2 else d.add_dsp)(o)
            tx.append([o, p, x])
        elif k == "rx":
            o = SignalReceiver(3, selected_receive_ports=ports(a, nr))
            watch(o, False)
            (d.receivers.add if a % 2 else d.add_dsp)(o)
            rx.append([o, o.selected_receive_ports])
        elif k == "rm_tx" and tx:
            d.transmitters.remove(tx.pop(a % len(tx))[0])
        elif k == "rm_rx" and rx:
            d.receivers.remove(rx.pop(a % len(rx))[0])
        elif k == "dup":
            for t in tx:
                d.transmitters.add(t[0])
            for t in rx:
                d.add_dsp(t[0])
            foreign = SignalReceiver(3)
            d.receivers.remove(foreign)
        elif k == "reports":
            if rx:
                t = rx[a % len(rx)]
                t[1] = ports(b, nr)
                t[0].selected_receive_ports = t[1]
            if tx:
                t = tx[a % len(tx)]
                if t[1] is not None:
                    q = [int(i) for i in np.random.default_rng(b).permutation(nt)[:len(t[1])]]
                    t[0].selected_transmit_ports = t[1] = q
        elif k == "power" and case["kind"] != "bare":
            power = d.power = [1., 2., 9.][a % 3]
        elif k == "transmit":
            for i in cnt:
                cnt[i] = 0
            before = [snapshot(t[0].signal) for t in tx if isinstance(t[0], SignalTransmitter)]
            out = d.transmit()
            obs.check(before == [snapshot(t[0].signal) for t in tx if isinstance(t[0], SignalTransmitter)], "operator_signal_altered", "transmitting altered an operator's signal")
            obs.equal(len(out.operator_transmissions), len(tx), "num_transmissions", "operator transmissions of a device transmission")
            L = max([t[2].shape[1] for t in tx] + [0])
            each = []
            for (o, p, x), rec in zip(tx, out.operator_transmissions):
                e = np.zeros((nt, L), complex)
                e[np.arange(nt) if p is None else p, :x.shape[1]] += x
                each.append(e)
                obs.equal(cnt[id(o)], 1, "transmit_count", "transmissions of a registered operator per device transmission")
                obs.close(nd(rec.signal), x, "transmission_record", "recorded transmission of an operator", rtol=1e-12, atol=1e-14)
            for i, c in cnt.items():
                if i not in {id(t[0]) for t in tx}:
                    obs.equal(c, 0, "foreign_transmission", "transmissions of an unregistered operator")
            scale = 1. if case["kind"] == "bare" else np.sqrt(power)
            total = sum(each, np.zeros((nt, L), complex)) * scale
            g = nd(out.mixed_signal)
            obs.equal(out.mixed_signal.num_streams, nt, "emission_streams", "streams of the emission")
            if tx:
                obs.close(g[:, :L], total, "emission", "emission of the device", rtol=1e-9, atol=1e-11)
                obs.check(not np.any(g[:, L:]), "emission_tail", "emission continues after all operators")
            if case["kind"] != "bare":
                obs.equal(out.mixed_signal.carrier_frequency, CF, "emission_carrier", "carrier of the emission")
                want = [e * scale for e in each] if case["sep"] else [total]
                if tx:
                    obs.equal(len(out.emerging_signals), len(want), "num_emissions", "separated emissions")
                for s, w in zip(out.emerging_signals, want):
                    g = nd(s)
                    if tx:
                        obs.close(np.pad(g, ((0, 0), (0, max(0, L - g.shape[1]))))[:, :L], w, "separate_emission", "emission of an operator", rtol=1e-9, atol=1e-11)
            elif tx:
                obs.close(nd(d.up)[:, :L], total, "upload", "signal uploaded to the physical device", rtol=1e-9, atol=1e-11)
            obs.count("transmissions")
            obs.count("routed", len(tx))
        elif k == "receive":
            for i in cnt:
                cnt[i] = 0
            n = 1 + b % 3
            xs = [arr(a + i, nr, 5 + (a + i) % 30) for i in range(n)]
            L = max(x.shape[1] for x in xs)
            tot = sum(np.pad(x, ((0, 0), (0, L - x.shape[1]))) for x in xs)
            if case["kind"] == "bare":
                xs, tot, L = xs[:1], xs[0], xs[0].shape[1]
                d.up = None
            sig = [Signal.Create(x.copy(), SR, CF) for x in xs]
            if d.num_receive_antennas and (case["kind"] != "bare" or True):
                before = [snapshot(s) for s in sig]
                if case["kind"] == "bare":
                    d._PhysicalDevice__recent_upload = None
                rec = d.receive(sig if len(sig) > 1 or a % 2 else sig[0])
                obs.check(before == [snapshot(s) for s in sig], "impinging_altered", "receiving altered the impinging signals")
                obs.equal(len(rec.operator_inputs), len(rx), "num_inputs", "operator inputs")
                obs.equal(len(rec.operator_receptions), len(rx), "num_receptions", "operator receptions")
                for (o, p), i, r in zip(rx, rec.operator_inputs, rec.operator_receptions):
                    ref = tot if p is None else tot[p]
                    obs.equal(i.num_streams, ref.shape[0], "input_streams", "streams handed to an operator")
                    obs.close(nd(i)[:, :L], ref, "input", "signal handed to an operator", rtol=1e-9, atol=1e-11)
                    obs.close(nd(r.signal)[:, :L], ref, "reception", "signal processed by an operator", rtol=1e-9, atol=1e-11)
                    obs.equal(cnt[id(o)], 1, "receive_count", "receptions of a registered operator per device reception")
                for i, c in cnt.items():
                    if i not in {id(t[0]) for t in rx}:
                        obs.equal(c, 0, "foreign_reception", "receptions of an unregistered operator")
                obs.count("receptions")
        obs.equal(d.transmitters.num_operators, len(tx), "registered_transmitters", "registered transmitters")
        obs.equal(d.receivers.num_operators, len(rx), "registered_receivers", "registered receivers")
        obs.check([id(o) for o in d.transmitters] == [id(t[0]) for t in tx] and [id(o) for o in d.receivers] == [id(t[0]) for t in rx], "registration_order", "registered operators")
        for i, t in enumerate(tx):
            obs.check(d.transmitters.registered(t[0]) and t[0] in d.transmitters and d.transmitters.operator_index(t[0]) == i, "registration", "operator index")
        obs.sig(case["kind"], len(tx), len(rx), case["sep"], len(case["modes"]), k)
    obs.count("histories")


def gen_offset(rng):
    n = rint(rng, 1, 3)
    return {"offsets": [pick(rng, [0., 0., 1e5, 2.5e5, 3e5]) for _ in range(n)], "f": [float(rng.uniform(-4e4, 4e4)) for _ in range(n)], "rate": [pick(rng, [1, 1, 2]) for _ in range(n)],
            "power": pick(rng, [1., 4.]), "osf": pick(rng, [2, 4]), "amp": [float(rng.uniform(.5, 2)) for _ in range(n)]}


def run_offset(case, obs):
    """Tones at configured offsets from the carrier keep frequency and amplitude for any operator order."""
    osf = case["osf"]
    d = SimulatedDevice(carrier_frequency=CF, bandwidth=1e6, oversampling_factor=osf, power=case["power"])
    fs, N = 1e6 * osf, 4096
    t = np.arange(N) / fs
    ref = np.zeros(N, complex)
    for o, f, a in zip(case["offsets"], case["f"], case["amp"]):
        d.transmitters.add(SignalTransmitter(Signal.Create((a * np.exp(2j * np.pi * f * t))[None], fs, o)))
        ref += a * np.exp(2j * np.pi * (f + o) * t) * np.sqrt(case["power"])
    out = d.transmit().mixed_signal
    g = nd(out)[0]
    obs.equal(out.carrier_frequency, CF, "emission_carrier", "carrier of the emission")
    obs.equal(len(g), N, "emission_length", "samples of the emission")
    s = slice(600, N - 600)
    e = np.linalg.norm(g[s] - ref[s]) / np.linalg.norm(ref[s])
    obs.check(e < .08, "offset_emission", f"tones at offsets {case['offsets']} deviate by {e:.3f}", error=e)
    obs.sig("offset", tuple(sorted(set(case["offsets"]))), case["offsets"][0] != 0, osf)
    obs.count("offsets", sum(o != 0 for o in case["offsets"]))


FAMILIES = [Family("routing", gen, run, quick=900, require=("transmissions", "receptions", "routed", "op_rm_tx", "op_rm_rx", "op_dup", "op_reports", "op_silent")),
            Family("offsets", gen_offset, run_offset, quick=120, require=("offsets",))]
