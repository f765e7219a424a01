"""C08: identical seeds reproduce identical simulations."""
import hashlib, json, os, subprocess, sys
import numpy as np
from hv.runner import Family
from hv.ref import arr, nd, pick, rint, seed
from hv import chan
from hermespy.core import RandomNode, Signal, SignalReceiver
from hermespy.fec import CyclicRedundancyCheck, EncoderManager, RepetitionEncoder
from hermespy.modem import RandomBitsSource, ReceivingModem, RootRaisedCosineWaveform, SimplexLink, TransmittingModem
from hermespy.radar import FMCW, MaxDetector, Radar
from hermespy.simulation import (N0, NormalTrigger, RandomTrigger, SelectiveLeakage, SimulatedDevice, SimulationScenario, StaticTrigger, TimeOffsetTrigger)
from hermespy.simulation.rf import ADC, AWGN, DAC, IdealMixer, Mixer, MixerType, OscillatorPhaseNoise, RFChain, Source
from hermespy.simulation.simulation import SimulationActor

PROPERTY = "C08"
RULE = ("random scenarios of several devices with arrays, noisy block-level front-ends, phase noise, leakage, random and shared triggers, modems, padded and checksummed coding chains, radars, "
        "stochastic channels, default channels and noise models are constructed repeatedly, with differently seeded and previously used components, within other processes and after re-seeding; all samples, bits, "
        "realizations and receptions of several drops are digested and compared; trees of random nodes are compared with a reference model; distinct = distinct (components, digest) signatures")
ASSUMPTIONS = ["components are constructed in the same order", "random quantities drawn at construction are drawn from the generators available then, so components are handed the same parameters"]
B, CF = 1e6, 1e9


# ------------------------------------------------------------------ digests
def digest(drop, parts=None):
    """Digest of everything random within a drop."""
    out = []

    def add(name, *v):
        h = hashlib.sha256()
        for x in v:
            x = np.ascontiguousarray(x)
            h.update(str(x.shape).encode() + x.tobytes())
        out.append((name, h.hexdigest()[:16]))

    for i, t in enumerate(drop.device_transmissions):
        for j, o in enumerate(t.operator_transmissions):
            add(f"tx{i}.{j}.signal", nd(o.signal))
            if hasattr(o, "bits"):
                add(f"tx{i}.{j}.bits", np.asarray(o.bits).astype(int))
        add(f"tx{i}.mixed", nd(t.mixed_signal))
        for s in list(t.emerging_signals) + list(t.leaking_signals):
            add(f"tx{i}.front-end", nd(s))
        add(f"tx{i}.trigger", np.array([t.trigger_realization.num_offset_samples]))
    for i, r in enumerate(drop.device_receptions):
        for s in r.impinging_signals:
            add(f"rx{i}.impinging", nd(s))
        for s in r.operator_inputs:
            add(f"rx{i}.input", nd(s))
        for j, o in enumerate(r.operator_receptions):
            for n in ("bits", "equalized_symbols", "cube"):
                if getattr(o, n, None) is not None:
                    v = getattr(o, n)
                    add(f"rx{i}.{j}.{n}", getattr(v, "raw", getattr(v, "data", v)))
    return out


def differences(a, b):
    return sorted({x[0] for x, y in zip(a, b) if x != y} | ({"length"} if len(a) != len(b) else set()))


# ------------------------------------------------------------------ scenarios
KINDS = [k for k in chan.CHEAP]


def plain(c):
    """Standard correlations are only defined for some antenna counts."""
    return {**c, "corr": None} if c.get("corr") == "standard" else c


def gen_sc(rng):
    n = rint(rng, 1, 3)
    devs = []
    for _ in range(n):
        d = chan.gen_device(rng, duplex=True, maxn=3)
        d.update(rf=pick(rng, [None, None, "noise", "phase"]), trigger=pick(rng, ["static", "random", "normal", "offset", "shared"]), noise=pick(rng, [None, .1, .1]), leak=bool(rng.random() < .3), sep=bool(rng.random() < .2))
        if d["rf"] == "phase":
            d["modes"] = ["D"]
        d["ops"] = [pick(rng, ["tx", "tx", "link", "radar", "rx"]) for _ in range(rint(rng, 0, 2))]
        devs.append(d)
    pairs = [[i, j] for i in range(n) for j in range(i, n)]
    return {"devs": devs, "links": [[p, plain(chan.gen_channel(rng, KINDS))] for p in pairs if rng.random() < .7], "default": None if rng.random() < .6 else plain(chan.gen_channel(rng, KINDS)), "noise": pick(rng, [None, .2]), "model": bool(rng.random() < .4),
            "seed": seed(rng), "enc": pick(rng, [[], ["crc"], ["rep"], ["crc", "rep"]]), "drops": rint(rng, 1, 3), "when": pick(rng, ["constructor", "late", "middle"]), "scalars": rint(rng, 4, 40)}


def waveform(c):
    return RootRaisedCosineWaveform(relative_bandwidth=.5, roll_off=.5, filter_length=8, num_preamble_symbols=0, num_data_symbols=c["scalars"], modulation_order=4)


class World:
    """Scenario built from its description; components may be handed a seed of their own and may have been used before."""

    def __init__(self, c, child=None, used=0):
        self.c, self.child, self.used, self.k = c, child, used, 0
        sc = self.sc = SimulationScenario(seed=c["seed"] if c["when"] == "constructor" else None, default_channel=None if c["default"] is None else self.rand(self.channel(c["default"])))
        self.devices, shared = [], RandomTrigger()
        for i, d in enumerate(c["devs"]):
            n = len(d["modes"])
            dev = chan.device(d, CF, B)
            dev.operator_separation = d["sep"]
            if d["rf"]:
                dev.rf = self.chain(d["rf"], n)
            dev.trigger_model = {"static": StaticTrigger, "random": RandomTrigger, "normal": lambda: NormalTrigger(5 / B, 3 / B), "offset": lambda: TimeOffsetTrigger(3 / B), "shared": lambda: shared}[d["trigger"]]()
            if d["noise"]:
                dev.noise_level = N0(d["noise"] / B)
                dev.noise_model = self.rand(AWGN(seed=self.next()))
            if d["leak"]:
                dev.isolation = SelectiveLeakage(.1 * arr(c["seed"] + i, n, n, 5))
            for o in d["ops"]:
                self.operator(dev, o)
            self.rand(dev)
            sc.add_device(dev)
            self.devices.append(dev)
        if c["when"] == "middle":
            sc.seed = c["seed"]
        for (i, j), ch in c["links"]:
            sc.set_channel(self.devices[i], self.devices[j], self.rand(self.channel(ch)))
        if c["noise"]:
            sc.noise_level = N0(c["noise"] / B)
        if c["model"]:
            sc.noise_model = self.rand(AWGN(seed=self.next()))
        if c["when"] == "late":
            sc.seed = c["seed"]

    def next(self, default=None):
        self.k += 1
        return default if self.child is None else int((self.child * 1000003 + self.k * 7919) % 2 ** 31)

    def channel(self, c):
        ch = chan.channel(c)
        ch.seed = self.next(c["seed"])
        return ch

    def rand(self, node):
        """The component was used before."""
        if self.used:
            node._rng.integers(0, 10, self.used)
        return node

    def chain(self, kind, n):
        rf = RFChain(seed=self.next())
        kw = dict(noise_level=N0(.01 / B))
        for _ in range(n):
            dac, adc, down = rf.new_block(DAC, **kw, seed=self.next()), rf.new_block(ADC, **kw, seed=self.next()), rf.new_block(IdealMixer, mixer_type=MixerType.DOWN)
            rf.connect(down.port("o"), adc.port("i"))
            if kind == "phase":
                up, lo = rf.new_block(Mixer, mixer_type=MixerType.UP, **kw, seed=self.next()), rf.new_block(Source, phase_noise=OscillatorPhaseNoise(K0=1e-9, K2=1., K3=10., seed=self.next()), seed=self.next())
                rf.connect(lo.port("o"), up.port("lo"))
            else:
                up = rf.new_block(IdealMixer, mixer_type=MixerType.UP, **kw)
            rf.connect(dac.port("o"), up.port("i"))
        return rf

    def encoding(self):
        m = EncoderManager(seed=self.next())
        for e in self.c["enc"]:
            m.add_encoder(CyclicRedundancyCheck(rint_fixed(self.c, 3, 8), 4) if e == "crc" else RepetitionEncoder(repetitions=3))
        return m

    def operator(self, dev, kind):
        # operators without a seed of their own draw from their device
        kw = dict(selected_transmit_ports=[0]) if kind in ("tx", "link") else {}
        if kind == "tx":
            dev.transmitters.add(self.rand(TransmittingModem(waveform=waveform(self.c), encoding=self.encoding(), bits_source=self.rand(RandomBitsSource(seed=self.next())), **kw)))
        elif kind == "rx":
            dev.receivers.add(self.rand(ReceivingModem(waveform=waveform(self.c), encoding=self.encoding(), selected_receive_ports=[0])))
        elif kind == "link":
            link = self.rand(SimplexLink(waveform=waveform(self.c), encoding=self.encoding(), selected_transmit_ports=[0], selected_receive_ports=[0]))
            dev.transmitters.add(link)
            dev.receivers.add(link)
        else:
            r = self.rand(Radar(FMCW(2, 20 / B, 25 / B), selected_transmit_ports=[0], selected_receive_ports=[0]))
            r.detector = MaxDetector()
            dev.transmitters.add(r)
            dev.receivers.add(r)

    def run(self, n):
        return [digest(self.sc.drop()) for _ in range(n)]


def rint_fixed(c, lo, hi):
    return lo + c["seed"] % (hi - lo + 1)


def random_parts(c):
    """Whether two successive drops of the scenario have to differ at all."""
    tx = [o for d in c["devs"] for o in d["ops"] if o in ("tx", "link")]
    rx = [d for d in c["devs"] if any(o != "tx" for o in d["ops"])]
    return bool(tx)


def run_sc(c, obs):
    ref = World(c).run(c["drops"])
    n = sum(len(r) for r in ref)
    # another identically constructed simulation
    a = World(c)
    np.random.seed(c["seed"] % 1000)
    got = a.run(c["drops"])
    for k, (x, y) in enumerate(zip(ref, got)):
        obs.check(x == y, "reproduce", f"drop {k} of an identically constructed and seeded simulation differs: {differences(x, y)[:6]}")
    # re-seeding restarts the sequence
    a.sc.seed = c["seed"]
    got = a.run(c["drops"])
    if c["when"] == "late":
        for k, (x, y) in enumerate(zip(ref, got)):
            obs.check(x == y, "restart", f"drop {k} after re-seeding differs: {differences(x, y)[:6]}")
        obs.count("restarts")
    a.sc.seed = c["seed"]
    again = a.run(c["drops"])
    for k, (x, y) in enumerate(zip(got, again)):
        obs.check(x == y, "restart", f"drop {k} after repeated re-seeding differs: {differences(x, y)[:6]}")
    # the components' own seeds and histories are irrelevant
    got = World(c, child=17, used=5).run(c["drops"])
    other = World(c, child=99, used=0).run(c["drops"])
    for k, (x, y) in enumerate(zip(got, other)):
        obs.check(x == y, "parent", f"drop {k} depends on seeds and histories of components within the scenario: {differences(x, y)[:6]}")
    # another seed and later drops are different
    if random_parts(c):
        d = World({**c, "seed": c["seed"] + 1, "enc": []}).run(1)[0]
        e = World({**c, "enc": []}).run(1)[0]
        bits = [x for x in e if x[0].endswith(".bits") and x[0].startswith("tx")]
        dits = [x for x in d if x[0].endswith(".bits") and x[0].startswith("tx")]
        obs.check(c["scalars"] < 16 or all(x != y for x, y in zip(bits, dits)), "seed ignored", "another seed transmits the same bits")
        flat = [x for r in ref for x in r if x[0].endswith(".bits") and x[0].startswith("tx")]
        if c["scalars"] >= 24 and not c["enc"]:
            obs.check(len({h for _, h in flat}) == len(flat), "repeats", "transmitted bits repeat within a simulation")
            obs.count("independent_bits", len(flat))
        obs.count("different_seeds")
    obs.count("digests", n)
    obs.count("simulations")
    for d in c["devs"]:
        obs.count(f"rf_{d['rf']}")
        obs.count(f"trigger_{d['trigger']}")
    obs.sig("sc", tuple(x[1]["kind"] for x in c["links"]), tuple(tuple(d["ops"]) for d in c["devs"]), c["when"], ref[0][0][1] if ref[0] else "")


# ------------------------------------------------------------------ other processes
def run_process(c, obs):
    ref = World(c).run(c["drops"])
    env = {**os.environ, "PYTHONHASHSEED": str(c["hash"])}
    code = f"import sys,json; junk=[object() for _ in range({c['hash']})]; from hv.checks.c08 import World; c=json.load(sys.stdin); print('RESULT'+json.dumps(World(c).run(c['drops'])))"
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path[:0]=" + repr([x for x in sys.path if x]) + ";" + code], input=json.dumps(c), capture_output=True, text=True, timeout=150, env=env, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    lines = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
    assert lines, p.stderr[-500:]
    got = [[tuple(x) for x in d] for d in json.loads(lines[0][6:])]
    for k, (x, y) in enumerate(zip(ref, got)):
        obs.check(x == y, "process", f"drop {k} within another process differs: {differences(x, y)[:6]}")
    obs.count("processes")
    obs.count("digests", sum(len(r) for r in ref))
    obs.sig("process", c["hash"])


# ------------------------------------------------------------------ single devices
def gen_dev(rng):
    c = gen_sc(rng)
    d = c["devs"][0]
    d["ops"] = d["ops"] or ["link"]
    return {**c, "devs": [d], "links": [], "child": rint(rng, 1, 1000)}


def dev_drop(dev, c, k):
    t = dev.transmit()
    r = dev.receive(Signal.Create(arr(c["seed"] + k, dev.num_receive_antennas, 300), B, CF))
    h = lambda x: hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]
    out = [(f"tx{j}.bits", h(np.asarray(o.bits).astype(int))) for j, o in enumerate(t.operator_transmissions) if hasattr(o, "bits")]
    out += [("mixed", h(nd(t.mixed_signal)))] + [("emerging", h(nd(s))) for s in t.emerging_signals] + [("trigger", str(t.trigger_realization.num_offset_samples))]
    return out + [("input", h(nd(s))) for s in r.operator_inputs]


def run_dev(c, obs):
    out = []
    for child in (None, c["child"], c["child"] + 1):
        w = World.__new__(World)
        w.c, w.child, w.used, w.k = c, child, 0 if child is None else child % 7, 0
        d = c["devs"][0]
        dev = chan.device(d, CF, B)
        dev.seed = c["seed"]
        if d["rf"]:
            dev.rf = w.chain(d["rf"], len(d["modes"]))
        dev.trigger_model = {"random": RandomTrigger, "shared": RandomTrigger, "normal": lambda: NormalTrigger(5 / B, 3 / B)}.get(d["trigger"], StaticTrigger)()
        if d["noise"]:
            dev.noise_level = N0(d["noise"] / B)
            dev.noise_model = w.rand(AWGN(seed=w.next()))
        for o in d["ops"]:
            w.operator(dev, o)
        if d["leak"]:
            dev.isolation = SelectiveLeakage.Normal(dev, num_samples=4)
        a = [dev_drop(dev, c, k) for k in range(c["drops"])]
        dev.seed = c["seed"] + 5
        b = [dev_drop(dev, c, k) for k in range(c["drops"])]
        dev.seed = c["seed"] + 5
        b2 = [dev_drop(dev, c, k) for k in range(c["drops"])]
        for k, (x, y) in enumerate(zip(b, b2)):
            obs.check(x == y, "device restart", f"transmission {k} of a re-seeded device differs: {differences(x, y)}")
        out.append(a)
    for x in out[1:]:
        for k, (p, q) in enumerate(zip(out[0], x)):
            obs.check(p == q, "device", f"transmission {k} depends on more than the device's seed: {differences(p, q)}")
    # operators with a seed of their own reproduce their bits on any device
    bits = []
    for k in range(3):
        dev = chan.device(c["devs"][0], CF, B)
        if k:
            dev.seed = c["seed"] + k
        m = TransmittingModem(waveform=waveform(c), selected_transmit_ports=[0], seed=None if k == 2 else c["seed"] % 7919)
        dev.transmitters.add(m)
        if k == 2:
            m.seed = c["seed"] % 7919
        bits.append([np.asarray(dev.transmit().operator_transmissions[0].bits) for _ in range(2)])
    for k in (1, 2):
        for n, (x, y) in enumerate(zip(bits[0], bits[k])):
            obs.equal(x, y, "operator seed", f"bits of transmission {n} of an operator with a seed of its own ({'assigned' if k == 2 else 'constructor'})")
    obs.count("device_simulations", 3)
    obs.sig("dev", tuple(d["ops"]), d["rf"], d["trigger"], out[0][0][0][1])


# ------------------------------------------------------------------ node trees
def gen_nodes(rng):
    n = rint(rng, 2, 6)
    return {"n": n, "init": [[rint(rng, -1, n - 1), None if rng.random() < .5 else seed(rng)] for _ in range(n)], "ops": [[pick(rng, ["seed", "mother", "draw", "draw", "draw", "root"]), rint(rng, 0, n - 1), rint(rng, -1, n - 1), seed(rng)] for _ in range(rint(rng, 5, 40))]}


def run_nodes(c, obs):
    nodes, gens, mothers, seeds = [], [], [], []
    for i, (m, s) in enumerate(c["init"]):
        m = m if 0 <= m < i else None
        nodes.append(RandomNode(None if m is None else nodes[m], s))
        # nodes without a seed of their own draw from their mother's stream
        gens.append(None if m is not None and s is None else np.random.default_rng(s) if s is not None else "free")
        mothers.append(m)
        seeds.append(s)

    def root(i):
        while gens[i] is None:
            i = mothers[i]
        return i

    def ancestors(i):
        out = []
        while i is not None:
            out.append(i)
            i = mothers[i]
        return out

    for k, i, j, s in c["ops"]:
        if k == "seed":
            nodes[i].seed = s
            gens[i], seeds[i] = np.random.default_rng(s), s
        elif k == "mother" and j != i:
            if j < 0:
                nodes[i].random_mother = None
                gens[i], mothers[i] = np.random.default_rng(seeds[i]) if seeds[i] is not None else "free", None
            elif i not in ancestors(j):
                nodes[i].random_mother = nodes[j]
                gens[i], mothers[i] = None, j
        elif k == "draw":
            r = root(i)
            v = nodes[i]._rng.integers(0, 2 ** 40, 3)
            if isinstance(gens[r], str):
                obs.check(nodes[i]._rng is nodes[r]._rng, "node stream", "node doesn't share the stream of its root")
            else:
                obs.equal(v.tolist(), gens[r].integers(0, 2 ** 40, 3).tolist(), "node stream", f"numbers drawn by node {i} of root {r}")
                obs.count("draws")
        obs.equal(nodes[i].is_random_root, gens[i] is not None, "node root", "root indicator")
        obs.equal(nodes[i].seed, seeds[i], "node seed", "seed")
        obs.check(nodes[i].random_mother is (None if mothers[i] is None else nodes[mothers[i]]), "node mother", "mother")
    obs.sig("nodes", tuple(o[0] for o in c["ops"])[:12], tuple(mothers))


# ------------------------------------------------------------------ independence
def gen_ind(rng):
    return {"seed": seed(rng), "n": rint(rng, 2, 4), "T": 4000, "drops": rint(rng, 2, 4), "ants": rint(rng, 1, 3), "shared": bool(rng.random() < .5)}


def run_ind(c, obs):
    """Noise of devices, antennas and drops is mutually uncorrelated."""
    sc = SimulationScenario(seed=c["seed"])
    devs = []
    for i in range(c["n"]):
        d = chan.device({"modes": ["D"] * c["ants"], "kind": "ideal", "pos": [100. * i, 0, 0], "rpy": [0, 0, 0], "vel": [0, 0, 0], "spacing": .1}, CF, B)
        d.noise_level = N0((4. if c["shared"] else 1.) / B)
        d.add_dsp(SignalReceiver(c["T"]))
        sc.add_device(d)
        devs.append(d)
    if c["shared"]:
        sc.noise_level, sc.noise_model = N0(1. / B), AWGN()
    rows = []
    for _ in range(c["drops"]):
        p = sc.process_inputs([[Signal.Create(np.zeros((c["ants"], c["T"]), complex), B, CF)] for _ in devs])
        for q in p:
            rows.append(nd(q.operator_inputs[0])[:, :c["T"]])
            r = q.noise_realization
            z = [nd(r.add_to(Signal.Create(np.zeros((c["ants"], 30), complex), B, CF))) for _ in range(2)]
            obs.close(z[0], z[1], "realization", "one noise realization applied twice", rtol=1e-12)
    X = np.concatenate(rows)
    C = np.abs(X @ X.conj().T) / X.shape[1]
    obs.close(np.diag(C), np.ones(len(X)), "noise power", "noise power per antenna", rtol=6 / np.sqrt(c["T"]))
    obs.check(np.max(C - np.diag(np.diag(C))) < 6.5 / np.sqrt(c["T"]), "independence", f"noise of distinct devices, antennas or drops is correlated ({np.max(C - np.diag(np.diag(C))):.3f})")
    obs.count("noise_rows", len(X))
    obs.sig("ind", c["n"], c["drops"], c["ants"], c["shared"])


# ------------------------------------------------------------------ channel realizations
def gen_chr(rng):
    k = pick(rng, [k for k in KINDS + list(chan.CDLS if rng.random() < .2 else []) if k != "ideal"])
    return {"ch": plain(chan.gen_channel(rng, [k])), "a": chan.gen_device(rng, maxn=2), "b": chan.gen_device(rng, maxn=2), "seed": seed(rng), "n": rint(rng, 2, 4)}


def run_chr(c, obs):
    a, b = chan.device(c["a"], CF, B), chan.device(c["b"], CF, B)
    seqs, kinds = [], []
    for k in range(3):
        # a channel of its own, and channels adopted by seeded scenarios
        ch = chan.channel(c["ch"])
        ch.seed = c["seed"] + k
        if k:
            sc = SimulationScenario(seed=c["seed"])
            sc.add_device(a2 := chan.device(c["a"], CF, B))
            sc.add_device(b2 := chan.device(c["b"], CF, B))
            sc.set_channel(a2, b2, ch)
        for _ in range(2):
            out = []
            for _ in range(c["n"]):
                r = ch.realize()
                s = r.sample(a, b)
                H = nd(s.propagate(Signal.Create(np.ones((chan.n_tx(c["a"]), 3), complex), B, CF)))
                H2 = nd(r.sample(a, b).propagate(Signal.Create(np.ones((chan.n_tx(c["a"]), 3), complex), B, CF)))
                if c["ch"]["kind"] not in ("single", "multi"):
                    obs.close(H2, H, "consistent sample", "a realization sampled twice at equal states", rtol=1e-9, atol=1e-15)
                out.append(H)
            seqs.append(out)
            (ch if k == 0 else sc).seed = c["seed"]
    for name, i, j in (("re-seeded channel", 0, 1), ("re-seeded scenario", 2, 3), ("identically seeded scenario", 2, 4)):
        for x, y in zip(seqs[i], seqs[j]):
            obs.check(x.shape == y.shape and np.array_equal(x, y), "channel", f"realizations of a {c['ch']['kind']} channel of a {name} differ")
            obs.count("realizations")
    if c["ch"]["kind"] in chan.FADING:
        obs.check(not np.array_equal(seqs[0][0], seqs[0][1]), "channel repeats", f"successive realizations of a {c['ch']['kind']} channel are equal")
        obs.count("independent_realizations")
    obs.sig("chr", c["ch"]["kind"], hashlib.sha256(seqs[0][0].tobytes()).hexdigest()[:8])


# ------------------------------------------------------------------ actors
class Queue:
    def __getattr__(self, k):
        raise AttributeError(k)


def gen_act(rng):
    c = gen_sc(rng)
    for d in c["devs"][:1]:
        d["ops"] = ["tx"]
    return {**c, "scalars": 40, "enc": [], "idx": sorted(rng.choice(20, rint(rng, 2, 4), replace=False).tolist()), "when": "late"}


def run_act(c, obs):
    """Parallel workers draw distinct, reproducible realizations."""
    out = {}
    for rep in range(2):
        for i in c["idx"]:
            w = World(c)
            actor = SimulationActor.__new__(SimulationActor)
            SimulationActor.__init__(actor, None, (w.sc, [], []), i)
            sc = actor._investigated_object
            out[rep, i] = [x for _ in range(c["drops"]) for x in digest(sc.drop())]
    for i in c["idx"]:
        obs.check(out[0, i] == out[1, i], "actor", f"worker {i} isn't reproducible: {differences(out[0, i], out[1, i])[:5]}")
    bits = [h for i in c["idx"] for n, h in out[0, i] if n.endswith(".bits") and n.startswith("tx0")]
    obs.check(len(set(bits)) == len(bits), "actor repeats", "workers or drops transmit the same bits")
    obs.count("actors", 2 * len(c["idx"]))
    obs.sig("actors", tuple(c["idx"]))


FAMILIES = [
    Family("scenarios", gen_sc, run_sc, quick=260, require=("simulations", "restarts", "different_seeds", "digests", "independent_bits", "rf_noise", "rf_phase", "trigger_random", "trigger_shared")),
    Family("processes", lambda rng: {**gen_sc(rng), "hash": rint(rng, 1, 5000)}, run_process, quick=24, require=("processes",)),
    Family("devices", gen_dev, run_dev, quick=200, require=("device_simulations",)),
    Family("nodes", gen_nodes, run_nodes, quick=600, require=("draws",)),
    Family("independence", gen_ind, run_ind, quick=60, require=("noise_rows",)),
    Family("channels", gen_chr, run_chr, quick=200, require=("realizations", "independent_realizations")),
    Family("actors", gen_act, run_act, quick=60, require=("actors",)),
]
