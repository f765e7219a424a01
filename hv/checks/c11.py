"""Forward error correction decodes what it encoded."""
import numpy as np
from hv.runner import Family
from hv.ref import pick, rint, seed
from hermespy.fec import (BlockInterleaver, CyclicRedundancyCheck, Encoder, EncoderManager, RepetitionEncoder, Scrambler3GPP, Scrambler80211a)
from hermespy.fec.scrambler import PseudoRandomGenerator

PROPERTY = "C11"
RULE = ("random chains of zero to four encoders (repetition, interleaver, cyclic check, both scramblers, user-defined shift codes) with random block sizes, "
        "disabled stages, message lengths, requested code lengths, padding and truncation flags and sequences of frames, with fault injection below every "
        "repetition stage inside its correction capability; distinct = distinct (encoder kinds, divisibility, lengths, flags) signatures")
ASSUMPTIONS = ["chains with scramblers are decoded in the order in which they were encoded", "the AFF3CT encoders are not built in this environment"]


class Monitor:
    """Log of stage calls observed during a case."""
    def __init__(self):
        self.enc = self.dec = self.flips = 0


class FaultyRepetition(RepetitionEncoder):
    """Repetition code whose code words are hit by errors within the correction capability."""
    def __init__(self, k, r, rng, mon, level):
        RepetitionEncoder.__init__(self, k, r)
        self.hv_rng, self.hv_mon, self.hv_level = rng, mon, level

    def decode(self, encoded_bits):
        bits = np.array(encoded_bits).astype(int)
        t = (self.repetitions - 1) // 2
        for j in range(self.bit_block_size):
            n = t if self.hv_level == 2 else int(self.hv_rng.integers(0, t + 1)) if self.hv_level else 0
            where = self.hv_rng.permutation(self.repetitions)[:n]
            for i in where:
                bits[i * self.bit_block_size + j] ^= 1
                self.hv_mon.flips += 1
        return RepetitionEncoder.decode(self, bits)


class ShiftCode(Encoder):
    """User-defined encoder: cyclic shift plus prefix copied from the block's end."""
    def __init__(self, k, extra):
        Encoder.__init__(self)
        self.k, self.extra = k, extra

    def encode(self, bits):
        assert len(bits) == self.k
        b = np.roll(bits, 1)
        return np.append(b, np.resize(b, self.extra))

    def decode(self, encoded_bits):
        assert len(encoded_bits) == self.k + self.extra
        return np.roll(encoded_bits[:self.k], -1)

    @property
    def bit_block_size(self):
        return self.k

    @property
    def code_block_size(self):
        return self.k + self.extra

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        pass


def make(e, rng, mon):
    k = e["kind"]
    if k == "rep":
        return FaultyRepetition(e["k"], e["r"], rng, mon, e["level"])
    if k == "int":
        return BlockInterleaver(e["k"], e["m"])
    if k == "crc":
        return CyclicRedundancyCheck(e["k"], e["c"])
    if k == "s3":
        return Scrambler3GPP(None if e["seed"] is None else np.array(e["seed"]))
    if k == "s80":
        s = Scrambler80211a(None if e["seed"] is None else np.array(e["seed"][:7]))
        return s
    return ShiftCode(e["k"], e["c"])


def gen_encoder(rng):
    kind = pick(rng, ["rep", "rep", "int", "int", "crc", "crc", "s3", "s80", "shift"])
    e = {"kind": kind, "enabled": bool(rng.random() < .88)}
    if kind == "rep":
        e.update(k=rint(rng, 1, 24), r=pick(rng, [1, 3, 3, 5, 7]), level=rint(rng, 0, 2))
    elif kind == "int":
        m = rint(rng, 1, 8)
        e.update(k=m * rint(rng, 1, 8), m=m)
    elif kind in ("crc", "shift"):
        e.update(k=rint(rng, 1, 30), c=pick(rng, [0, 1, 4, 8, 16]))
    else:
        e["seed"] = None if rng.random() < .4 else [int(b) for b in rng.integers(0, 2, 7)]
        if e["seed"] is not None and sum(e["seed"]) == 0:
            e["seed"][0] = 1
    return e


def gen_chain(rng):
    n = pick(rng, [0, 1, 1, 2, 2, 2, 3, 3, 4])
    return {"enc": [gen_encoder(rng) for _ in range(n)], "seed": seed(rng), "pad": bool(rng.random() < .8), "trunc": bool(rng.random() < .8),
            "frames": [{"code": [float(rng.uniform(0, 5)), rint(rng, 0, 3)], "free": rint(rng, 0, 60), "mode": pick(rng, ["frame", "frame", "free", "blocks"])} for _ in range(rint(rng, 1, 4))],
            "order": bool(rng.random() < .3), "resize": bool(rng.random() < .15)}


def run_chain(case, obs):
    rng = np.random.default_rng(case["seed"])
    mon = Monitor()
    manager = EncoderManager(allow_padding=case["pad"], allow_truncating=case["trunc"], seed=case["seed"] % 1000)
    encs = []
    for e in case["enc"]:
        enc = make(e, rng, mon)
        enc.enabled = e["enabled"]
        manager.add_encoder(enc)
        encs.append(enc)
        obs.check(enc.manager is manager, "manager_link", "encoder does not know its manager")
    obs.equal(sorted(map(id, manager.encoders)), sorted(map(id, encs)), "chain_members", "managed encoders")
    obs.check(all(a.bit_block_size <= b.bit_block_size for a, b in zip(manager.encoders, manager.encoders[1:])), "chain_order", "encoders are not ordered by block size")
    if case["resize"]:
        for enc in encs:
            if isinstance(enc, RepetitionEncoder):
                enc.bit_block_size = enc.bit_block_size + 3
            elif isinstance(enc, CyclicRedundancyCheck):
                enc.check_block_size = enc.check_block_size + 1
    active = [e for e in manager.encoders if e.enabled]
    kinds = tuple(type(e).__name__ for e in active)
    for e in active:
        obs.close(e.rate, e.bit_block_size / e.code_block_size, "stage_rate", f"rate of {type(e).__name__}")
    B, C = manager.bit_block_size, manager.code_block_size
    obs.check(isinstance(B, (int, np.integer)) and B >= 1 and isinstance(C, (int, np.integer)) and C >= 1, "block_sizes", "block sizes must be positive", kinds=kinds, B=B, C=C)
    obs.close(manager.rate, B / C, "rate", "announced code rate", kinds=kinds)
    clean = all(b.bit_block_size % a.code_block_size == 0 for a, b in zip(active, active[1:]))
    if clean and active:
        f = 1.0
        for e in active:
            f *= e.rate
        obs.close(B / C, f, "rate_product", "rate of a chain of matching blocks", kinds=kinds)
    if len(active) == 1:
        obs.equal((B, C), (active[0].bit_block_size, active[0].code_block_size), "single_block_sizes", "block sizes of a single encoder")
    obs.sig("chain", kinds, clean, case["pad"], case["trunc"], len(case["frames"]), case["resize"])
    pending = []
    for f in case["frames"]:
        num_code = int(round(f["code"][0] * C)) + f["code"][1]
        if f["mode"] == "frame":
            m = manager.required_num_data_bits(num_code)
            obs.equal(m, (num_code // C) * B, "required_bits", "required number of data bits")
        elif f["mode"] == "free":
            m, num_code = f["free"], None
        else:
            m, num_code = f["free"] % 4 * B, None
        data = rng.integers(0, 2, m).astype(pick(rng, [int, np.uint8, bool]))
        before = data.copy()
        blocks = -(-m // B)
        try:
            code = manager.encode(data, num_code) if num_code is not None else manager.encode(data)
        except RuntimeError as e:
            obs.check(not case["pad"], "padding_rejected", f"encoding failed although padding is allowed: {e}", kinds=kinds, m=m, num_code=num_code, B=B, C=C)
            if clean and m % B == 0 and (num_code is None or num_code in (0, blocks * C)):
                obs.check(False, "needless_padding", f"encoding full blocks was rejected: {e}", kinds=kinds, m=m, B=B, C=C)
            obs.count("rejections")
            continue
        obs.equal(data, before, "encode_mutates", "message after encoding")
        code = np.asarray(code)
        expected = num_code if num_code else blocks * C if active else m
        obs.equal(len(code), expected, "code_length", "number of code bits", kinds=kinds, m=m, B=B, C=C, num_code=num_code)
        obs.check(np.all((code == 0) | (code == 1)), "code_alphabet", "code contains values other than bits")
        if not case["pad"]:
            obs.check(m % B == 0 and (not num_code or num_code == blocks * C), "padding_forbidden", "bits were padded although padding is forbidden", m=m, B=B, num_code=num_code)
        pending.append((data, code, m))
        obs.count("frames_encoded")
        if not case["order"]:
            decode_all(case, obs, manager, pending, B, C, kinds)
    decode_all(case, obs, manager, pending, B, C, kinds)
    obs.count("injected_errors", mon.flips)


def decode_all(case, obs, manager, pending, B, C, kinds):
    while pending:
        data, code, m = pending.pop(0)
        full = len(code) // C * B
        before = code.copy()
        try:
            out = manager.decode(code, m)
        except RuntimeError as e:
            obs.check(not case["trunc"] and m != full, "decode_rejected", f"decoding a valid code failed: {e}", kinds=kinds, m=m, full=full)
            obs.count("rejections")
            out = manager.decode(code)
            obs.equal(len(out), full, "decode_full_length", "all decoded bits")
            out = out[:m]
        else:
            if not case["trunc"]:
                obs.equal(m, full, "truncating_forbidden", "bits were truncated although truncating is forbidden")
        obs.equal(code, before, "decode_mutates", "code after decoding")
        obs.equal(len(out), m, "decoded_length", "number of decoded bits", kinds=kinds)
        obs.equal(np.asarray(out).astype(int), data.astype(int), "roundtrip", "decoded message", kinds=kinds, B=B, C=C, m=m)
        obs.count("frames_decoded")
        obs.count("bits_decoded", m)
        obs.raises(lambda: manager.decode(code, full + 1), "overlong_request", "more bits than decoded were delivered", exceptions=(RuntimeError,)) if not any("Scrambler" in k for k in kinds) else None


def gen_stage(rng):
    e = gen_encoder(rng)
    e["seed2"] = seed(rng)
    e["blocks"] = rint(rng, 1, 5)
    return e


def scramble_80211a(bits, state):
    """IEEE 802.11a scrambler, x^7 + x^4 + 1."""
    state = list(state)
    out = []
    for b in bits:
        f = state[3] ^ state[6]
        state = [f] + state[:6]
        out.append(int(b) ^ f)
    return out, state


def run_stage(case, obs):
    rng = np.random.default_rng(case["seed2"])
    mon = Monitor()
    enc = make(case, rng, mon)
    obs.sig("stage", case["kind"], case.get("k"), case.get("r") or case.get("m") or case.get("c"))
    k, n = enc.bit_block_size, enc.code_block_size
    obs.check(enc.enabled is True, "default_enabled", "encoders are enabled by default")
    state = list(np.array([0, 1, 0, 1, 1, 0, 1]) if case.get("seed") is None else case["seed"])[:7]
    codes, msgs = [], []
    for _ in range(case["blocks"]):
        size = k if case["kind"] not in ("s3", "s80") else rint(rng, 1, 40)
        msg = rng.integers(0, 2, size)
        code = np.asarray(enc.encode(msg.copy())).astype(int)
        obs.equal(len(code), n * size // k, "stage_code_length", f"code length of {case['kind']}")
        if case["kind"] == "rep":
            ref = np.concatenate([msg] * case["r"])
        elif case["kind"] == "int":
            ref = np.array([msg[(i % case["m"]) * (k // case["m"]) + i // case["m"]] for i in range(k)])
            obs.equal(np.sort(code), np.sort(msg), "interleaver_permutes", "interleaved bits")
        elif case["kind"] == "crc":
            ref, code_ = msg, code[:k]
            obs.check(np.all((code == 0) | (code == 1)), "stage_alphabet", "non-binary check bits")
        elif case["kind"] == "s80":
            ref, state = scramble_80211a(msg, state)
        if case["kind"] == "crc":
            obs.equal(code_, ref, "stage_code", "systematic part")
            flip = code.copy()
            flip[k:] ^= 1  # errors in the check bits only
            obs.equal(np.asarray(enc.decode(flip)).astype(int), msg, "crc_check_errors", "data with corrupted check bits")
        elif case["kind"] in ("rep", "int", "s80"):
            obs.equal(code, np.asarray(ref), "stage_code", f"code word of {case['kind']}")
        codes.append(code)
        msgs.append(msg)
    for code, msg in zip(codes, msgs):
        obs.equal(np.asarray(enc.decode(code.copy())).astype(int), msg, "stage_roundtrip", f"decoded block of {case['kind']}", case=case)
    obs.count("stages")
    obs.count("injected_errors", mon.flips)
    if case["kind"] == "s3":
        sd = np.array([0, 1, 0, 1, 1, 0, 1] if case.get("seed") is None else case["seed"])
        g = PseudoRandomGenerator(sd)
        total = sum(len(m) for m in msgs)
        a = g.generate_sequence(total)
        obs.equal(np.concatenate(codes), (np.concatenate(msgs) + a) % 2, "stage_code", "scrambling sequence across blocks")
        g.reset()
        obs.equal(np.array([g.generate() for _ in range(total)]), a, "prng_reset", "sequence after reset")
    if case["kind"] == "s80":
        enc.seed = np.array(state0(case))
        obs.equal(np.asarray(enc.encode(msgs[0])), np.asarray(codes[0]), "reseed", "scrambling after resetting the seed")
        obs.equal(np.asarray(enc.decode(codes[0])), msgs[0], "reseed", "descrambling after resetting the seed")


def state0(case):
    return [0, 1, 0, 1, 1, 0, 1] if case.get("seed") is None else case["seed"][:7]


FAMILIES = [
    Family("chain", gen_chain, run_chain, 1500, require=("frames_decoded", "injected_errors", "rejections"), pinned=[
        {"enc": [{"kind": "rep", "enabled": True, "k": 1, "r": 3, "level": 2}, {"kind": "int", "enabled": True, "k": 2, "m": 2}], "seed": 3, "pad": True, "trunc": True,
         "frames": [{"code": [2.2, 1], "free": 5, "mode": "frame"}, {"code": [2.2, 1], "free": 5, "mode": "free"}], "order": False, "resize": False},
        {"enc": [{"kind": "s80", "enabled": True, "seed": None}], "seed": 3, "pad": True, "trunc": True,
         "frames": [{"code": [20.2, 1], "free": 25, "mode": "free"}] * 3, "order": True, "resize": False}]),
    Family("stage", gen_stage, run_stage, 700, require=("stages", "injected_errors")),
]
