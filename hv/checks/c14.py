"""C14: precoding followed by its decoding restores the streams."""
from fractions import Fraction

import numpy as np
import sparse
from hermespy.core import Signal
from hermespy.core.precoding import ReceiveSignalCoding, ReceiveStreamDecoder, TransmitSignalCoding, TransmitStreamEncoder
from hermespy.modem import StatedSymbols
from hermespy.modem.precoding.dft import DFT, DFTNorm
from hermespy.modem.precoding.ratio_combining import MaximumRatioCombining
from hermespy.modem.precoding.single_carrier import SingleCarrier
from hermespy.modem.precoding.space_time_block_coding import Alamouti, Ganesan
from hermespy.modem.precoding.symbol_precoding import ReceiveSymbolCoding, TransmitSymbolCoding
from hv import chan
from hv.runner import Family
from hv.ref import arr, nd, pick, rint, seed, snapshot

PROPERTY = "C14"
RULE = ("random chains of DFT precoders, space-time block codes, combiners and linear signal encoders transport random symbols and signals over random full-rank channel states (dense and "
        "sparse, one to five receive antennas, several blocks and subcarriers); streams, block counts, rates and channel states after decoding are compared with closed-form combining and the "
        "original data; distinct = distinct (chain, antennas, storage) signatures")
ASSUMPTIONS = ["the channel is constant over the blocks of one space-time code word", "DFT precoding is followed by a channel that is constant over the precoded blocks, since it decodes before equalization"]
NORMS = ["BACKWARD", "ORTHO", "FORWARD"]


def gen_symbols(rng):
    code = pick(rng, [None, "alamouti", "alamouti", "ganesan", "ganesan"])
    return {"code": code, "dft": [pick(rng, NORMS) for _ in range(pick(rng, [0, 0, 1, 1, 2]))], "words": rint(rng, 1, 6), "syms": rint(rng, 1, 4), "nr": rint(rng, 1, 5),
            "combine": pick(rng, [None, "mrc", "sel"]), "sparse": bool(rng.random() < .3), "gain": float(10 ** rng.uniform(-3, 3)), "seed": seed(rng), "via": pick(rng, ["set", "set", "pop"])}


def run_symbols(c, obs):
    nt, bi, bo = {None: (1, 1, 1), "alamouti": (2, 2, 2), "ganesan": (4, 3, 4)}[c["code"]]
    tx, rx = TransmitSymbolCoding(), ReceiveSymbolCoding()
    steps = [DFT(DFTNorm[n]) for n in c["dft"]] + ({None: [], "alamouti": [Alamouti()], "ganesan": [Ganesan()]}[c["code"]])
    for s in steps:
        tx[len(tx)] = s
    back = list(reversed(steps))
    for s in back:
        rx[len(rx)] = s
    if c["via"] == "pop" and len(steps) > 0:
        extra = DFT()
        rx[len(rx)] = extra
        obs.check(rx.pop_precoder(len(rx) - 1) is extra, "chain.pop", "popped precoder")
        tx[-1] = DFT()
        tx.pop_precoder(0)
    obs.equal([id(x) for x in tx], [id(x) for x in steps], "chain.order", "encoder order")
    obs.equal([id(x) for x in rx], [id(x) for x in back], "chain.order", "decoder order")
    rate = Fraction(bi, bo)
    obs.equal(tx.encode_rate, rate, "rate.encode", "announced encoding rate")
    obs.equal(rx.decode_rate, rate, "rate.decode", "announced decoding rate")
    nb = bi * c["words"]
    obs.equal(tx.num_encoded_blocks(nb), bo * c["words"], "rate.encoded_blocks", "announced number of encoded blocks")
    obs.equal(rx.num_decoded_blocks(bo * c["words"]), nb, "rate.decoded_blocks", "announced number of decoded blocks")
    obs.equal(tx.num_transmit_input_streams(nt), 1, "streams.encode", "announced number of input streams")
    obs.equal(rx.num_receive_output_streams(c["nr"]), c["nr"], "streams.decode", "announced number of output streams")
    if c["code"]:
        obs.raises(lambda: tx.num_transmit_input_streams(nt + 1), "streams.invalid", "streams that the code cannot serve are refused", (ValueError,))
    S = arr(c["seed"], 1, nb, c["syms"])
    inp = StatedSymbols(S.copy(), np.ones((1, 1, nb, c["syms"]), complex))
    enc = tx.encode_symbols(inp, nt)
    obs.equal(inp.raw.tobytes(), S.tobytes(), "input", "symbols handed to the encoder")
    obs.equal(tuple(enc.raw.shape), (nt, bo * c["words"], c["syms"]), "counts.encoded", "encoded streams, blocks and symbols")
    if c["code"] and not c["dft"]:
        obs.close(np.sum(np.abs(enc.raw) ** 2), nt * np.sum(np.abs(S) ** 2), "code.energy", "every symbol is sent by every antenna once per code word", rtol=1e-9)
    # a channel constant over each code word (and over everything below a DFT)
    const = bool(c["dft"]) and c["code"] is None
    H = c["gain"] * arr(c["seed"] + 1, c["nr"], nt, 1 if const else c["words"], 1 if const else c["syms"])
    H = np.repeat(np.broadcast_to(H, (c["nr"], nt, c["words"], c["syms"])), bo, axis=2).copy()
    y = np.einsum("rtbs,tbs->rbs", H, enc.raw)
    states = sparse.GCXS.from_numpy(H) if c["sparse"] else H
    arrived = StatedSymbols(y.copy(), states)
    dec = rx.decode_symbols(arrived)
    obs.equal(arrived.raw.tobytes(), y.tobytes(), "input", "symbols handed to the decoder")
    obs.equal(tuple(dec.raw.shape), (c["nr"], nb, c["syms"]), "counts.decoded", "decoded streams, blocks and symbols")
    st = dec.dense_states()
    obs.equal(st.shape[1], 1, "state.streams", "one effective transmit stream")
    for r in range(c["nr"]):
        cond = 1.0
        if c["code"]:
            cond = np.max(np.linalg.norm(H, axis=1)) / np.min(np.linalg.norm(H[r], axis=0))
        obs.close(dec.raw[r] / st[r, 0], S[0], "symbols", "decoded symbols of every receive antenna", rtol=1e-8, atol=1e-9 * cond * np.max(np.abs(S)))
    obs.count("chains_" + str(c["code"]))
    if c["combine"]:
        comb = ReceiveSymbolCoding()
        comb[0] = MaximumRatioCombining() if c["combine"] == "mrc" else SingleCarrier()
        out = comb.decode_symbols(dec)
        obs.equal(tuple(out.raw.shape), (1, nb, c["syms"]), "counts.combined", "combined stream")
        obs.close(out.raw[0] / out.dense_states().sum(axis=1)[0], S[0], "combined", "combined and equalized symbols", rtol=1e-8, atol=1e-6)
        obs.count("combined_codes")
    obs.sig((c["code"], len(c["dft"]), c["nr"], c["sparse"], c["combine"]))


def gen_combine(rng):
    return {"kind": pick(rng, ["mrc", "sel"]), "nr": rint(rng, 1, 6), "nt": pick(rng, [1, 1, 2, 3, 4]), "nb": rint(rng, 1, 8), "ns": rint(rng, 1, 5), "noise": float(10 ** rng.uniform(-4, 0)),
            "sparse": bool(rng.random() < .3), "seed": seed(rng)}


def run_combine(c, obs):
    nt = 1 if c["kind"] == "mrc" else c["nt"]
    H = arr(c["seed"], c["nr"], nt, c["nb"], c["ns"])
    s = arr(c["seed"] + 1, c["nb"], c["ns"])
    n = c["noise"] * arr(c["seed"] + 2, c["nr"], c["nb"], c["ns"])
    h = H.sum(axis=1)
    y = h * s + n
    states = sparse.GCXS.from_numpy(H) if c["sparse"] else H
    step = MaximumRatioCombining() if c["kind"] == "mrc" else SingleCarrier()
    coding = ReceiveSymbolCoding()
    coding[0] = step
    obs.equal(coding.num_receive_output_streams(c["nr"]), 1, "combine.streams", "one stream after combining")
    obs.equal(coding.num_decoded_blocks(c["nb"]), c["nb"], "combine.blocks", "announced blocks after combining")
    out = coding.decode_symbols(StatedSymbols(y.copy(), states))
    obs.equal(tuple(out.raw.shape), (1, c["nb"], c["ns"]), "combine.shape", "combined symbols")
    st = out.dense_states()
    eff = out.raw[0] / st.sum(axis=1)[0]
    if c["kind"] == "mrc":
        ref = np.sum(h.conj() * y, axis=0) / np.sum(np.abs(h) ** 2, axis=0)
        gain = np.sum(np.abs(h) ** 2, axis=0)
    else:
        best = np.argmax(np.abs(h), axis=0)
        ref = np.take_along_axis(y, best[None], 0)[0] / np.take_along_axis(h, best[None], 0)[0]
        gain = np.max(np.abs(h) ** 2, axis=0)
        obs.close(out.raw[0], np.take_along_axis(y, best[None], 0)[0], "combine.selected", "the strongest stream is selected", rtol=1e-12)
        obs.close(st[0], np.take_along_axis(H, best[None, None].repeat(nt, 1), 0)[0], "combine.selected_state", "state of the selected stream", rtol=1e-12)
        obs.equal(st.shape[1], nt, "combine.transmit_streams", "transmit streams of the selected state")
    obs.close(eff, ref, "combine.value", "equalized combined symbols vs closed form", rtol=1e-8, atol=1e-9)
    # never worse than the strongest branch: the noise gain is at most the strongest branch's
    obs.check(np.all(1 / gain <= 1 / np.max(np.abs(h) ** 2, axis=0) * (1 + 1e-9)), "combine.gain", "combining gain")
    obs.count("combined_" + c["kind"])
    obs.sig((c["kind"], c["nr"], nt, c["sparse"]))


# ---------------------------------------------------------------- signal coding chains

class Mix(TransmitStreamEncoder, ReceiveStreamDecoder):
    """A linear stream encoder expanding n streams to n + grow streams, and its inverse."""

    def __init__(self, s, grow, log):
        TransmitStreamEncoder.__init__(self)
        ReceiveStreamDecoder.__init__(self)
        self.s, self.grow, self.log = s, grow, log

    def m(self, n):
        return arr(self.s, n + self.grow, n) + np.eye(n + self.grow, n)

    def num_transmit_input_streams(self, num_output_streams):
        return num_output_streams - self.grow

    def num_receive_output_streams(self, num_input_streams):
        return num_input_streams - self.grow

    def encode_streams(self, streams, num_output_streams, device):
        self.log.append(("enc", self.s, streams.num_streams, num_output_streams))
        return Signal.Create(self.m(streams.num_streams) @ nd(streams), streams.sampling_rate, streams.carrier_frequency)

    def decode_streams(self, streams, num_output_streams, device):
        self.log.append(("dec", self.s, streams.num_streams, num_output_streams))
        return Signal.Create(np.linalg.pinv(self.m(num_output_streams)) @ nd(streams), streams.sampling_rate, streams.carrier_frequency)


def gen_signal(rng):
    grow = [rint(rng, 0, 2) for _ in range(rint(rng, 0, 4))]
    return {"grow": grow, "n": rint(rng, 1, 3), "len": rint(rng, 1, 20), "seed": seed(rng)}


def run_signal(c, obs):
    total = c["n"] + sum(c["grow"])
    dev = chan.device(dict(CASE, modes=["D"] * total), 1e9, 1e6)
    ts, rs = dev.state(0.), dev.state(0.)
    obs.equal((ts.num_transmit_rf_ports, ts.num_receive_rf_ports), (total, total), "signal.ports", "device ports")
    log = []
    steps = [Mix(c["seed"] + i, g, log) for i, g in enumerate(c["grow"])]
    tx, rx = TransmitSignalCoding(), ReceiveSignalCoding()
    for s in steps:
        tx[len(tx)] = s
    for s in reversed(steps):
        rx[len(rx)] = s
    obs.equal(tx.num_transmit_input_streams(total), c["n"], "signal.inputs", "announced input streams")
    obs.equal(rx.num_receive_output_streams(total), c["n"], "signal.outputs", "announced output streams")
    x = Signal.Create(arr(c["seed"], c["n"], c["len"]), 1e6, 1e9)
    before = snapshot(x)
    y = tx.encode_streams(x, ts)
    obs.equal(y.num_streams, total, "signal.encoded", "encoded streams")
    ref = nd(x)
    for s in steps:
        ref = s.m(ref.shape[0]) @ ref
    obs.close(nd(y), ref, "signal.order", "encoders apply in order", rtol=1e-9)
    mid = snapshot(y)
    z = rx.decode_streams(y, rs)
    obs.equal(z.num_streams, c["n"], "signal.decoded", "decoded streams")
    obs.close(nd(z), nd(x), "signal.restored", "restored streams", rtol=1e-6, atol=1e-7)
    obs.equal((snapshot(x), snapshot(y)), (before, mid), "signal.input", "signals handed to the chains")
    seen = [e[:2] for e in log]
    obs.equal(seen, [("enc", s.s) for s in steps] + [("dec", s.s) for s in reversed(steps)], "signal.once", "every step runs exactly once")
    if steps:
        obs.raises(lambda: tx.encode_streams(Signal.Create(arr(1, c["n"] + 1, 4), 1e6, 1e9), ts), "signal.mismatch", "mismatching stream counts are refused", (ValueError,))
        obs.count("signal_chains")
    obs.sig((tuple(c["grow"]), c["n"]))


CASE = chan.gen_device(np.random.default_rng(5), duplex=True)

FAMILIES = [
    Family("symbols", gen_symbols, run_symbols, quick=300, require=("chains_None", "chains_alamouti", "chains_ganesan", "combined_codes")),
    Family("combine", gen_combine, run_combine, quick=150, require=("combined_mrc", "combined_sel")),
    Family("signal", gen_signal, run_signal, quick=100, require=("signal_chains",)),
]
