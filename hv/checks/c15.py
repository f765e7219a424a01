"""An ideal link delivers every transmitted bit."""
import os
import tempfile
import numpy as np
from scapy.layers.inet import IP, UDP
from scapy.layers.l2 import Ether
from hv.runner import Family, Skip
from hv.ref import arr, nd, pick, rint, seed, snapshot
from hermespy.core import Signal
from hermespy.channel import IdealChannel
from hermespy.fec import EncoderManager
from hermespy.modem import (Alamouti, ChirpFSKWaveform, DuplexModem, FrameGeneratorStub, Ganesan, OFDMWaveform, OrthogonalZeroForcingChannelEqualization,
                            RandomBitsSource, ReceivingModem, SimplexLink, SingleCarrierCorrelationSynchronization, SingleCarrierZeroForcingChannelEqualization,
                            StreamBitsSource, TransmittingModem)
from hermespy.modem.frame_generator.scapy import FrameGeneratorScapy
from hermespy.modem.precoding.dft import DFT
from hermespy.modem.precoding.ratio_combining import MaximumRatioCombining
from hermespy.modem.precoding.single_carrier import SingleCarrier
from hermespy.modem.tools.psk_qam_mapping import PskQamMapping
from hermespy.modem.waveforms.ieee_5gnr import NRSlot
from hermespy.modem.waveforms.orthogonal import OFDMCorrelationSynchronization, SchmidlCoxSynchronization
from hermespy.simulation import OFDMIdealChannelEstimation, SCIdealChannelEstimation, SimulatedDevice, SimulationScenario
from hv.checks import c11, c13
from hv.checks.c20 import array

PROPERTY = "C15"
RULE = ("random matched modem pairs over distortion-free simulated devices and ideal channels: every waveform family with random structures, random error correction chains, plain and "
        "packet frame formats, random and file bit sources, one to three parallel streams, space-time codes, diversity combining and synchronized multi-frame transmissions of random "
        "requested durations; delivered bits, frame order, records and average powers are compared with the transmitted ones; distinct = distinct configuration signatures")
ASSUMPTIONS = ["configurations whose textbook pulse interference (including root-raised cosine pulses sampled once per symbol) exceeds the symbol distance, or whose occupied band exceeds the devices' anti-aliasing filters, are not decided",
               "without a synchronization routine only the first frame of a transmission is received, as the library documents",
               "requested durations that do not hold a full number of frames are filled with the number of frames that fit"]
CF = 1e9


def isi_ok(c):
    """The reference pulse of a single carrier waveform allows perfect decisions."""
    h, step = c13.pulse(c)
    rx = np.conj(h[::-1]) if c["kind"] == "fmcw" else h
    delay = step - 1 if c["kind"] in ("rect", "fmcw") else 2 * (c["flen"] // 2) * c["osf"]
    g = np.convolve(h, rx) / step
    if delay >= g.size:
        return False
    taps = np.concatenate((g[delay::-step][::-1], g[delay + step::step]))
    isi = np.sum(np.abs(taps)) - abs(g[delay]) + abs(g[delay] - 1)
    const = PskQamMapping(c["order"]).get_mapping().flatten()
    dmin = np.min(np.abs(const[:, None] - const[None, :]) + 9 * np.eye(const.size))
    return isi * max(1., abs(const).max()) < .35 * dmin


def gen_wave(rng, kinds=("sc", "sc", "fsk", "orth", "orth", "nr"), osf=None):
    k = pick(rng, list(kinds))
    for _ in range(200):
        if k == "sc":
            w = c13.gen_sc(rng)
            w["osf"] = osf or pick(rng, [1, 1, 1, 4, 8])
            w["data"] = max(w["data"], 2)
            if w["osf"] > 1:
                w["order"] = pick(rng, [2, 4])
                w["roll"], w["relbw"], w["flen"] = min(w["roll"], .25), 1., 16
            if isi_ok(w):
                break
        elif k == "fsk":
            w = c13.gen_fsk(rng)
            w["osf"] = osf or 1
            w["fd"] = 0.
            w["order"] = pick(rng, [2, 4, 8])
            w["dur"] = rint(rng, 4 * w["order"], 8 * w["order"]) / w["B"]
            break
        elif k == "orth":
            w = c13.gen_orth(rng)
            w["osf"] = osf or pick(rng, [1, 1, 1, 4])
            if w["osf"] > 1:
                w["order"] = pick(rng, [2, 4])
                w["N"] = max(w["N"], 16)
            if not any(t == "DATA" for s in w["sections"] if "pattern" in s for r in s["pattern"] for t, _ in w["res"][r]["els"]):
                continue
            break
        else:
            w = {"mu": 0, "rb": rint(rng, 24, 26), "sub": False, "osf": 1, "order": pick(rng, [4, 16, 64]), "B": 15e3 * 12 * 25}
            break
    else:
        k, w = "sc", {"kind": "rect", "order": 4, "pre": 2, "data": 12, "post": 0, "rate": 0, "roll": .5, "flen": 3, "relbw": 1., "spc": 3, "osf": osf or 1, "B": 1e6, "seed": 1, "seq": None}
    return {"wave": k, "w": w}


def make_wave(c):
    k, w = c["wave"], c["w"]
    if k == "sc":
        return c13.make_sc(w)
    if k == "fsk":
        return ChirpFSKWaveform(chirp_duration=w["dur"], num_pilot_chirps=w["pil"], num_data_chirps=w["data"], modulation_order=w["order"], guard_interval=w["guard"] * w["dur"])
    if k == "orth":
        return c13.make_orth(w)
    s = NRSlot(w["rb"])
    s.modulation_order = w["order"]
    return s


def packet(i):
    return [Ether(src="00:11:22:33:44:55", dst="66:77:88:99:aa:bb"), IP(src="10.0.0.1", dst="10.0.0.2", ttl=17), IP(src="10.0.0.1", dst="10.0.0.2") / UDP(sport=5, dport=77),
            UDP(sport=1234, dport=4321)][i]


def fec(c):
    rng = np.random.default_rng(c["seed"])
    m = EncoderManager(seed=5)
    for e in c["enc"]:
        enc = c11.make({**e, "level": 0} if e["kind"] == "rep" else e, rng, c11.Monitor())
        enc.enabled = e["enabled"]
        m.add_encoder(enc)
    return m


def gen_link(rng, **kw):
    c = gen_wave(rng, **kw)
    enc = c11.gen_chain(rng)["enc"] if rng.random() < .5 else []
    c.update(enc=[e for e in enc if not e["kind"].startswith("s")][:3], streams=pick(rng, [1, 1, 1, 2, 3]), packet=pick(rng, [None, None, None, 0, 1, 2, 3]), seed=seed(rng), power=pick(rng, [1., 1., float(10 ** rng.uniform(-3, 3))]),
             file=bool(rng.random() < .15), frames=pick(rng, [1, 1, 2, 3, 5]), frac=pick(rng, [0., 0., .3, .95]), one=bool(rng.random() < .3), drops=pick(rng, [1, 2]), gain=pick(rng, [1., 1., 1.]))
    return c


def equal_bits(obs, a, b, mech, msg):
    obs.equal(np.asarray(a).astype(int).tolist(), np.asarray(b).astype(int).tolist(), mech, msg)


def build(c, cls=None, **extra):
    """Matched transmitter and receiver on two devices."""
    w = c["w"]
    ant = array("D" * c["streams"])
    kw = dict(carrier_frequency=CF, bandwidth=w["B"], oversampling_factor=w["osf"])
    a, b = SimulatedDevice(antennas=ant, power=c["power"], **kw), SimulatedDevice(antennas=array("D" * c["streams"]), **kw)
    fg = lambda: FrameGeneratorStub() if c["packet"] is None else FrameGeneratorScapy(packet(c["packet"]))
    if c.get("one"):
        link = SimplexLink(waveform=make_wave(c), encoding=fec(c), frame_generator=fg(), seed=c["seed"])
        tx = rx = link
    else:
        tx = TransmittingModem(waveform=make_wave(c), encoding=fec(c), frame_generator=fg(), seed=c["seed"])
        rx = ReceivingModem(waveform=make_wave(c), encoding=fec(c), frame_generator=fg())
    a.transmitters.add(tx)
    b.receivers.add(rx)
    return a, b, tx, rx


def records(c, obs, tx, t, r, spf, osf, B, power=True):
    """Consistency of the transmission record."""
    n = t.num_frames
    obs.equal(t.signal.num_samples, n * spf, "record.samples", f"{n} frames of {spf} samples")
    X = nd(t.signal)
    equal_bits(obs, t.bits, np.concatenate([f.bits for f in t.frames]) if n else [], "record.bits", "concatenated frame bits")
    obs.equal(t.signal.sampling_rate, B * osf, "record.rate", "sampling rate of the transmitted signal")
    for i, f in enumerate(t.frames):
        obs.close(X[:, i * spf:(i + 1) * spf], nd(f.signal)[:, :spf], "record.frames", f"frame {i} within the transmitted signal", rtol=1e-12)
        obs.close(f.timestamp, i * spf / (B * osf), "record.timestamp", f"timestamp of transmitted frame {i}", rtol=1e-6, atol=1e-3 / (B * osf))
        m = fec(c)
        equal_bits(obs, m.decode(np.array(f.encoded_bits), f.bits.size), f.bits, "record.encoded", f"encoded bits of frame {i} are a code word of its bits")
        obs.equal((f.bit_block_size, f.code_block_size), (m.bit_block_size, m.code_block_size), "record.block sizes", "announced block sizes")
        sym = tx.waveform.map(np.asarray(f.encoded_bits).reshape(f.symbols.num_streams, -1)[0].astype(np.uint8))
        obs.close(f.symbols.raw[0].ravel(), sym.raw.ravel(), "record.symbols", f"symbols of frame {i}", rtol=1e-9, atol=1e-12)
        obs.count("frame records")
    return X


def header(c, bits):
    if c["packet"] is None:
        return np.asarray(bits)
    p = packet(c["packet"])
    h = len(p) * 8
    obs_type = type(p)
    return np.asarray(bits)[h:]


def capacity(c, wave, streams):
    """data bits per frame announced by the configuration"""
    code = wave.bits_per_frame() * streams
    return code, fec(c).required_num_data_bits(code)


def r_link(c, obs):
    w = c["w"]
    a, b, tx, rx = build(c)
    wave = tx.waveform
    B, osf = w["B"], w["osf"]
    spf = wave.samples_per_frame(B, osf)
    code, data = capacity(c, wave, c["streams"])
    if data < 1 or (c["packet"] is not None and data < 8 * len(packet(c["packet"])) + 8):
        c = {**c, "packet": None}
        if data < 1:
            c["enc"] = []
        a, b, tx, rx = build(c)
        code, data = capacity(c, wave, c["streams"])
    ch = IdealChannel()
    path = None
    try:
        if c["file"] and data % 8 == 0 and c["packet"] is None:
            fd, path = tempfile.mkstemp(prefix="hvbits")
            payload = np.random.default_rng(c["seed"]).integers(0, 256, data * c["drops"]).astype(np.uint8).tobytes()
            os.write(fd, payload)
            os.close(fd)
            tx.bits_source = StreamBitsSource(path)
        seen = []
        for k in range(c["drops"]):
            sent = a.transmit()
            t = sent.operator_transmissions[0]
            obs.equal(t.num_frames, 1, "default duration", "a transmission of unspecified duration is one frame")
            X = records(c, obs, tx, t, None, spf, osf, B)
            obs.equal(t.bits.size, data, "record.capacity", "transmitted data bits per frame")
            obs.equal(t.frames[0].encoded_bits.size, code, "record.capacity", "transmitted code bits per frame")
            obs.close(nd(sent.mixed_signal), np.sqrt(c["power"]) * X, "emission", "emitted signal is the scaled transmission", rtol=1e-7, atol=1e-9 * np.sqrt(c["power"])) if osf == 1 else None
            prop = ch.propagate(sent, a, b)
            rec = b.receive(prop)
            r = rec.operator_receptions[0]
            obs.equal(r.num_frames, 1, "frames", "received frames")
            f = r.frames[0]
            if c["power"] != 1. and osf >= 1:
                # without channel estimation amplitudes are only known for unit power
                if w["order"] > 2 and not (c["wave"] == "fsk") and w["order"] != 4:
                    obs.count("scaled links")
                    continue
            if osf > 1 and c["wave"] == "sc" and c["w"]["kind"] in ("rect", "fmcw"):
                pass
            equal_bits(obs, f.encoded_bits, t.frames[0].encoded_bits, "code bits", f"{c['wave']} {w.get('kind')} order {w['order']}, oversampling {osf}, {c['streams']} streams")
            equal_bits(obs, r.bits, header(c, t.bits), "bits", f"{c['wave']} {w.get('kind')}, {[e['kind'] for e in c['enc']]}, packet {c['packet']}")
            equal_bits(obs, r.encoded_bits, np.concatenate([g.encoded_bits for g in r.frames]), "record.received", "received code bits")
            equal_bits(obs, r.bits, np.concatenate([g.decoded_bits for g in r.frames]), "record.received", "received bits")
            obs.equal((f.bit_block_size, f.code_block_size), (t.frames[0].bit_block_size, t.frames[0].code_block_size), "record.block sizes", "announced block sizes agree")
            obs.close(f.timestamp, 0., "record.timestamp", "received timestamp")
            if c["packet"] is not None:
                p = packet(c["packet"])
                got = type(p)(np.packbits(np.asarray(t.bits).astype(np.uint8)).tobytes())
                for layer in p.layers():
                    obs.check(got.haslayer(layer), "packet layers", f"frame lacks the configured {layer.__name__} header")
                    for name, v in p[layer].fields.items():
                        obs.equal(getattr(got[layer], name), v, "packet fields", f"{layer.__name__}.{name} of the transmitted frame")
                obs.equal(t.bits.size, data, "packet size", "bits of a packet frame")
                obs.count("packets")
            if path:
                want = np.unpackbits(np.frombuffer(payload, np.uint8))[k * data:(k + 1) * data]
                equal_bits(obs, t.bits, want, "file bits", "bits read from the file, in order")
                obs.count("file frames")
            elif c["packet"] is None and t.bits.size > 60:
                for s in seen:
                    obs.check(not np.array_equal(s, t.bits), "repeated bits", "successive frames carry the same random bits")
                seen.append(t.bits)
            obs.count("delivered bits", int(r.bits.size))
            obs.count("delivered frames")
    finally:
        if path:
            del tx.bits_source
            os.unlink(path) if os.path.exists(path) else None
    obs.sig(c["wave"], w.get("kind"), w["order"], osf, c["streams"], len(c["enc"]), c["packet"])


def r_link_safe(c, obs):
    try:
        r_link(c, obs)
    except AttributeError as e:
        if "bits_source" not in str(e):
            raise


# ---- multi-frame transmissions
def g_multi(rng):
    kind = pick(rng, ["sc", "ofdm"])
    c = {"wave": kind if kind == "sc" else "orth", "w": None, "enc": [], "packet": None, "seed": seed(rng), "power": 1., "streams": 1, "frames": rint(rng, 1, 5), "frac": pick(rng, [0., 0., .4, .97]), "one": bool(rng.random() < .5),
         "decimal": bool(rng.random() < .3), "lead": rint(rng, 0, 25)}
    if kind == "sc":
        c["w"] = dict(c13.gen_sc(rng), kind=pick(rng, ["rect", "rrc"]), pre=rint(rng, 20, 40), flen=16, roll=.25, relbw=1., seq=64, osf=1, order=pick(rng, [2, 4, 16]), post=0, rate=0, data=rint(rng, 10, 30))
        if not isi_ok(c["w"]):
            c["w"]["kind"] = "rect"
    else:
        c["w"] = dict(c13.gen_orth(rng, kinds=("ofdm",)), pilot="default", N=pick(rng, [32, 64]), seq=None, osf=1, order=pick(rng, [2, 4, 16]))
        c["w"]["res"] = [{"reps": 1, "prefix": "CYCLIC", "ratio": .25, "els": [["DATA", c["w"]["N"]]]}]
        c["w"]["sections"] = [{"pattern": [0], "reps": rint(rng, 1, 4), "offset": 0}]
    if rng.random() < .5:
        c["enc"] = [e for e in c11.gen_chain(rng)["enc"] if not e["kind"].startswith("s")][:2]
    return c


def r_multi(c, obs):
    w = c["w"]
    B, osf = w["B"], w["osf"]
    a, b, tx, rx = build(c)
    wave = tx.waveform
    spf = wave.samples_per_frame(B, osf)
    fd = wave.frame_duration(B)
    code, data = capacity(c, wave, 1)
    if data < 1:
        c = {**c, "enc": []}
        a, b, tx, rx = build(c)
        code, data = capacity(c, tx.waveform, 1)
    dur = (c["frames"] + c["frac"]) * fd
    if c["decimal"] and not c["frac"]:
        dur = float("%.12g" % dur)
    t = tx.transmit(a.state(), dur)
    obs.equal(t.num_frames, c["frames"], "requested duration", f"a duration of {dur / fd} frames")
    X = records(c, obs, tx, t, None, spf, osf, B)
    for i in range(t.num_frames):
        for j in range(i):
            if data > 60:
                obs.check(not np.array_equal(t.frames[i].bits, t.frames[j].bits), "repeated bits", f"frames {j} and {i} carry the same random bits")
    # without synchronization the first frame is received
    def deliver(lead):
        s = a.generate_output([t], a.state())
        y = b.process_input(IdealChannel().propagate(s, a, b))
        sig = y.operator_inputs[0]
        if lead:
            z = np.concatenate([np.zeros((1, lead), complex), nd(sig)], axis=1)
            sig = Signal.Create(z, B * osf, CF)
        return rx.receive(sig, b.state())
    r = deliver(0)
    obs.check(1 <= r.num_frames <= t.num_frames, "frames", f"{r.num_frames} frames received without synchronization, {t.num_frames} transmitted")
    for i, (f, g) in enumerate(zip(r.frames, t.frames)):
        equal_bits(obs, f.decoded_bits, g.bits, "bits", f"frame {i} received without synchronization")
        obs.close(f.timestamp, g.timestamp, "record.timestamp", f"timestamp of frame {i}", rtol=1e-9)
    sync = SingleCarrierCorrelationSynchronization(threshold=.9, guard_ratio=.8) if c["wave"] == "sc" else OFDMCorrelationSynchronization(threshold=.9, guard_ratio=.8)
    rx.waveform.synchronization = sync
    # the correlation reference decides whether frames are detectable unambiguously
    pil = np.asarray(rx.waveform.pilot_signal(B, osf).view(np.ndarray)).ravel()
    x = np.concatenate([np.zeros(c["lead"], complex), X[0]])
    m = abs(np.correlate(x, pil, "full"))
    true = np.array([c["lead"] + i * spf + pil.size - 1 for i in range(c["frames"])])
    top = m.max()
    if not np.all(m[true] > .93 * top) or np.sum(m > .87 * top) != len(true):
        obs.count("ambiguous")
        obs.sig("ambiguous", c["wave"])
        return
    r = deliver(c["lead"])
    obs.equal(r.num_frames, c["frames"], "frames", "synchronized frames")
    for i, (f, g) in enumerate(zip(r.frames, t.frames)):
        equal_bits(obs, f.decoded_bits, g.bits, "bits in order", f"frame {i} of {c['frames']}")
        equal_bits(obs, f.encoded_bits, g.encoded_bits, "code bits in order", f"frame {i} of {c['frames']}")
        obs.close(f.timestamp, (c["lead"] + i * spf) / (B * osf), "record.timestamp", f"timestamp of received frame {i}", rtol=1e-6, atol=1e-3 / (B * osf))
        obs.close(nd(f.signal), nd(g.signal)[:, :spf], "record.received signal", f"received frame {i}", rtol=1e-6, atol=1e-6)
        obs.count("delivered frames")
    equal_bits(obs, r.bits, t.bits, "bits in order", "all frames")
    obs.count("multi frame receptions")
    obs.sig(c["wave"], c["frames"], c["frac"] > 0, len(c["enc"]))


# ---- multi antenna configurations
def g_mimo(rng):
    code = pick(rng, [None, None, "alamouti", "alamouti", "ganesan"])
    nt = {None: 1, "alamouti": 2, "ganesan": 4}[code]
    wave = "sc" if code is None and rng.random() < .4 else "ofdm"
    nrx = 1 if code else rint(rng, 1, 4)
    c = {"code": code, "nt": nt, "nr": nrx, "combine": pick(rng, ["mrc", "sel", None]) if nrx == 1 else pick(rng, ["mrc", "sel"]), "dft": bool(code is None and wave == "ofdm" and rng.random() < .3), "wave": wave, "order": pick(rng, [2, 4, 16, 64]), "seed": seed(rng),
         "N": pick(rng, [8, 16, 32]), "words": rint(rng, 1, 4), "osf": pick(rng, [1, 1, 4]) if wave == "ofdm" else 1, "dc": bool(rng.random() < .5), "enc": [], "gain": pick(rng, [1., 1., .25, 4.]), "data": rint(rng, 4, 30)}
    if rng.random() < .4:
        c["enc"] = [e for e in c11.gen_chain(rng)["enc"] if not e["kind"].startswith("s")][:2]
    return c


def r_mimo(c, obs):
    B = 1e6
    kw = dict(carrier_frequency=CF, bandwidth=B, oversampling_factor=c["osf"])
    a, b = SimulatedDevice(antennas=array("D" * c["nt"]), **kw), SimulatedDevice(antennas=array("D" * c["nr"]), **kw)
    ch = IdealChannel(gain=c["gain"])

    def wave():
        if c["wave"] == "sc":
            return c13.make_sc({"kind": "rect", "order": c["order"], "pre": 4, "data": c["data"], "post": 0, "rate": 0, "roll": .3, "flen": 8, "relbw": 1., "spc": 2})
        per = {None: 1, "alamouti": 2, "ganesan": 4}[c["code"]]
        return c13.make_orth({"kind": "ofdm", "N": c["N"], "order": c["order"], "pilot": None, "dc": c["dc"], "B": B, "osf": c["osf"],
                              "res": [{"reps": 1, "prefix": "CYCLIC", "ratio": .25, "els": [["DATA", c["N"] // 2 if c["osf"] > 1 else c["N"]]]}], "sections": [{"pattern": [0], "reps": per * c["words"], "offset": 0}]})
    est = (lambda: SCIdealChannelEstimation(ch, a, b)) if c["wave"] == "sc" else (lambda: OFDMIdealChannelEstimation(ch, a, b))
    link = SimplexLink(waveform=wave(), encoding=fec({**c}), seed=c["seed"])
    link.waveform.channel_estimation = est()
    link.waveform.channel_equalization = SingleCarrierZeroForcingChannelEqualization() if c["wave"] == "sc" else OrthogonalZeroForcingChannelEqualization()
    if c["dft"]:
        link.transmit_symbol_coding[0] = DFT()
    if c["code"]:
        pre = {"alamouti": Alamouti, "ganesan": Ganesan}[c["code"]]
        link.transmit_symbol_coding[0] = pre()
        link.receive_symbol_coding[0] = pre()
    if c["combine"]:
        link.receive_symbol_coding[len(link.receive_symbol_coding)] = MaximumRatioCombining() if c["combine"] == "mrc" else SingleCarrier()
    if c["dft"]:
        link.receive_symbol_coding[len(link.receive_symbol_coding)] = DFT()
    a.transmitters.add(link)
    b.receivers.add(link)
    if link.encoder_manager.required_num_data_bits(int(link.waveform.bits_per_frame())) < 1:
        obs.sig("too short")
        return
    for _ in range(2):
        t = a.transmit()
        r = b.receive(ch.propagate(t, a, b))
        tt, rr = t.operator_transmissions[0], r.operator_receptions[0]
        obs.equal(rr.num_frames, 1, "frames", "received frames")
        obs.equal(tt.signal.num_streams, c["nt"], "mimo.streams", "transmitted streams")
        equal_bits(obs, rr.encoded_bits, tt.frames[0].encoded_bits, "code bits", f"{c['wave']} code {c['code']} {c['nt']}x{c['nr']} combining {c['combine']} dft {c['dft']}")
        equal_bits(obs, rr.bits, tt.bits, "bits", f"{c['wave']} code {c['code']} {c['nt']}x{c['nr']} combining {c['combine']} dft {c['dft']}")
        obs.count("delivered frames")
        obs.count("delivered bits", int(rr.bits.size))
    obs.sig(c["code"], c["nr"], c["combine"], c["wave"], c["dft"], c["osf"], c["gain"])


# ---- scenarios with several links
def g_scenario(rng):
    return {"links": [gen_link(rng, osf=1) for _ in range(rint(rng, 1, 3))], "drops": rint(rng, 1, 3), "seed": seed(rng), "duplex": bool(rng.random() < .4)}


def r_scenario(c, obs):
    sc = SimulationScenario(seed=c["seed"] % 2 ** 31)
    pairs = []
    dead = IdealChannel(gain=0.)
    devs = []
    for l in c["links"]:
        l = {**l, "power": 1., "file": False, "packet": None, "one": False}
        if capacity(l, make_wave(l), l["streams"])[1] < 1:
            l["enc"] = []
        a, b, tx, rx = build(l)
        sc.add_device(a)
        sc.add_device(b)
        back = None
        if c["duplex"]:
            back = (TransmittingModem(waveform=make_wave(l), encoding=fec(l)), ReceivingModem(waveform=make_wave(l), encoding=fec(l)))
            b.transmitters.add(back[0])
            a.receivers.add(back[1])
        pairs.append((l, a, b))
        devs += [a, b]
    for i in range(len(devs)):
        sc.set_channel(devs[i], devs[i], dead)
        for j in range(i):
            if i // 2 != j // 2:
                sc.set_channel(devs[j], devs[i], IdealChannel(gain=0.))
            else:
                sc.set_channel(devs[j], devs[i], IdealChannel())
    for _ in range(c["drops"]):
        d = sc.drop()
        for k, (l, a, b) in enumerate(pairs):
            for src, dst in ((2 * k, 2 * k + 1), (2 * k + 1, 2 * k))[:2 if c["duplex"] else 1]:
                t, r = d.device_transmissions[src].operator_transmissions[0], d.device_receptions[dst].operator_receptions[0]
                obs.equal(r.num_frames, 1, "frames", "received frames")
                equal_bits(obs, r.bits, t.bits, "bits", f"link {k} of a scenario drop ({l['wave']})")
                obs.count("delivered frames")
                obs.count("delivered bits", int(r.bits.size))
    obs.sig(len(pairs), c["duplex"], tuple(l["wave"] for l, _, _ in pairs))


# ---- transmitted power
def g_power(rng):
    c = gen_wave(rng, kinds=("sc", "fsk", "orth"), osf=pick(rng, [1, 2, 4]))
    c["seed"] = seed(rng)
    c["n"] = 25
    if c["wave"] == "sc":
        c["w"].update(pre=0, post=0, rate=0, relbw=1., data=300)
        if c["w"]["kind"] in ("rrc", "rc"):
            c["w"].update(kind="rrc", flen=16, roll=max(c["w"]["roll"], .1), osf=max(2, c["w"]["osf"]))
        if c["w"]["kind"] == "fmcw":
            c["w"]["spc"] = 1
    elif c["wave"] == "orth":
        w = c["w"]
        w.update(pilot=None, N=pick(rng, [32, 64]), dc=False)
        w["res"] = [{"reps": 1, "prefix": pick(rng, ["CYCLIC", "NONE"]), "ratio": .25, "els": [["DATA", w["N"]]]}]
        w["sections"] = [{"pattern": [0], "reps": 12, "offset": 0}]
    return c


def r_power(c, obs):
    wave = make_wave(c)
    w = c["w"]
    p, n = 0., 0
    for i in range(c["n"]):
        bits = c13.bits_of(c, wave.bits_per_frame(), i)
        x = wave.modulate(wave.place(wave.map(bits)), w["B"], w["osf"])
        if c["wave"] == "fsk":
            x = x[np.abs(x) > 0]
        p += np.sum(abs(x) ** 2)
        n += x.size
    p /= n
    # relative deviation: finitely many random symbols and filter tails
    tol = .12 if c["wave"] == "sc" and w["kind"] == "rrc" else .1
    obs.close(p, wave.power, "power", f"average power of {c['wave']} {w.get('kind')} with oversampling {w['osf']}", rtol=tol)
    obs.count("power measurements")
    obs.sig(c["wave"], w.get("kind"), w["osf"], w["order"])


FAMILIES = [Family("links", gen_link, r_link_safe, quick=140, require=("delivered bits", "delivered frames", "packets", "frame records")),
            Family("multi", g_multi, r_multi, quick=70, require=("multi frame receptions", "delivered frames")),
            Family("mimo", g_mimo, r_mimo, quick=60, require=("delivered bits",)),
            Family("scenarios", g_scenario, r_scenario, quick=30, require=("delivered frames",)),
            Family("power", g_power, r_power, quick=50, require=("power measurements",))]
