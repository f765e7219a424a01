"""In-process stand-in for the ray runtime used by the Monte Carlo engine.

The real queue manager, worker and collector classes run in threads with the
concurrency limits the engine configures.  Arguments and results cross actor
boundaries by (cloud)pickle, exactly as they do between ray processes, so no state is
shared by accident; object references and actor handles keep their identity.
Every dispatch, get, put and wait is a seeded delay point.
"""
from __future__ import annotations

import itertools, queue, random, sys, threading, time
from contextlib import contextmanager
from unittest.mock import patch

from ray import cloudpickle

_REG: dict = {}
_IDS = itertools.count(1)
_LOCK = threading.Lock()


class Stopped(BaseException):
    """The emulated runtime has been shut down"""


def _lookup(key):
    return _REG[key]


class Ref:
    """Object reference"""

    def __init__(self):
        self.key = next(_IDS)
        _REG[self.key] = self
        self.event = threading.Event()
        self.payload = None
        self.error = None

    def __reduce__(self):
        return _lookup, (self.key,)

    def __hash__(self):
        return self.key

    def __eq__(self, other):
        return self is other

    def resolve(self, payload=None, error=None, rt=None):
        self.payload, self.error = payload, error
        self.event.set()
        if rt is not None:
            with rt.cond:
                rt.cond.notify_all()


class _Method:
    def __init__(self, handle, name):
        self.handle, self.name = handle, name

    def remote(self, *args, **kwargs):
        return self.handle._rt.submit(self.handle, self.name, args, kwargs)


class Handle:
    """Actor handle"""

    def __init__(self, rt, cls, concurrency):
        self._key = next(_IDS)
        _REG[self._key] = self
        self._rt, self._cls, self._n = rt, cls, concurrency
        self._queue = queue.SimpleQueue()
        self._ready = threading.Event()
        self._obj = None

    def __reduce__(self):
        return _lookup, (self._key,)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return _Method(self, name)


class _Remote:
    def __init__(self, rt, cls, **opts):
        self.rt, self.cls, self.opts = rt, cls, opts

    def options(self, **opts):
        return _Remote(self.rt, self.cls, **{**self.opts, **opts})

    def remote(self, *args, **kwargs):
        return self.rt.create(self.cls, self.opts.get("max_concurrency", 1), args, kwargs)


class Runtime:
    """Emulated ray runtime"""

    def __init__(self, seed, intensity=1.0, probability=0.3, cpus=4):
        self.rng = random.Random(seed)
        self.intensity, self.probability = intensity, probability
        self.cond = threading.Condition()
        self.dead = False
        self.cpus = cpus
        self.handles = []
        self.calls = {}
        self.trace = []  # order in which remote methods started
        self.errors = []
        self.sleeps = 0

    # -- delay points -----------------------------------------------------
    def point(self, where):
        if self.dead:
            raise Stopped()
        with _LOCK:
            hit = self.rng.random() < self.probability
            delay = self.rng.random() ** 3 * 0.004 * self.intensity
        if hit:
            self.sleeps += 1
            time.sleep(delay)

    # -- actor life cycle ---------------------------------------------------
    def remote(self, cls):
        return _Remote(self, cls)

    def create(self, cls, concurrency, args, kwargs):
        handle = Handle(self, cls, concurrency)
        handle._index = len(self.handles)
        self.handles.append(handle)
        payload = cloudpickle.dumps((cls, args, kwargs))
        for t in range(concurrency):
            threading.Thread(target=self._serve, args=(handle, payload if t == 0 else None), daemon=True).start()
        return handle

    def _serve(self, handle, payload):
        try:
            if payload is not None:
                try:
                    cls, args, kwargs = cloudpickle.loads(payload)
                    handle._obj = cls(*args, **kwargs)
                except Exception as e:  # noqa: BLE001
                    handle._failed = e
                    self.errors.append((handle._index, "__init__", e))
                handle._ready.set()
            else:
                handle._ready.wait()
            while not self.dead:
                try:
                    ref, name, payload = handle._queue.get(timeout=0.2)
                except queue.Empty:
                    continue
                self.point("start")
                self.trace.append((handle._index, name))
                try:
                    if handle._obj is None:
                        raise handle.__dict__["_failed"]
                    args, kwargs = cloudpickle.loads(payload)
                    result = getattr(handle._obj, name)(*args, **kwargs)
                    ref.resolve(cloudpickle.dumps(result), rt=self)
                except Exception as e:  # noqa: BLE001
                    self.errors.append((handle._index, name, e))
                    ref.resolve(error=e, rt=self)
        except Stopped:
            return

    def submit(self, handle, name, args, kwargs):
        self.point("submit")
        ref = Ref()
        self.calls[name] = self.calls.get(name, 0) + 1
        handle._queue.put((ref, name, cloudpickle.dumps((args, kwargs))))
        return ref

    # -- object store -------------------------------------------------------
    def get(self, ref, timeout=None):
        if isinstance(ref, (list, tuple)):
            return [self.get(r) for r in ref]
        self.point("get")
        while not ref.event.wait(0.2):
            if self.dead:
                raise Stopped()
        if ref.error is not None:
            raise ref.error
        return cloudpickle.loads(ref.payload)

    def put(self, value):
        self.point("put")
        ref = Ref()
        ref.resolve(cloudpickle.dumps(value), rt=self)
        return ref

    def wait(self, refs, *, num_returns=1, timeout=None, fetch_local=True):
        refs = list(refs)
        if len(set(map(id, refs))) != len(refs):
            raise ValueError("Wait requires a list of unique object refs.")
        if len(refs) == 0:
            return [], []
        if num_returns <= 0 or num_returns > len(refs):
            raise ValueError("num_returns out of range")
        self.point("wait")
        end = None if timeout is None else time.monotonic() + timeout
        while True:
            if self.dead:
                raise Stopped()
            with _LOCK:
                order = refs[:]
                self.rng.shuffle(order)  # readiness order is up to the runtime
            ready = [r for r in order if r.event.is_set()][:num_returns]
            if len(ready) >= num_returns or (end is not None and time.monotonic() >= end):
                return ready, [r for r in refs if r not in ready]
            with self.cond:
                self.cond.wait(0.02)

    def is_initialized(self):
        return True

    def available_resources(self):
        return {"CPU": self.cpus}

    def init(self, *a, **k):
        raise RuntimeError("the emulated runtime is already initialized")

    def shutdown(self):
        self.dead = True
        for h in self.handles:
            h._ready.set()
        with self.cond:
            self.cond.notify_all()

    @contextmanager
    def installed(self):
        """Route the engine's ray calls through this runtime"""

        import hermespy.core.pymonte.actors as A
        import hermespy.core.pymonte.monte_carlo as M

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        start = max(_REG) if _REG else 0
        try:
            with patch.object(A, "get", self.get), patch.object(A, "put", self.put), patch.object(
                A, "wait", self.wait
            ), patch.object(M, "ray", self):
                yield self
        finally:
            self.shutdown()
            sys.setswitchinterval(old)
            for k in [k for k in _REG if k > start]:
                _REG.pop(k, None)


def deadline(fn, seconds):
    """Run fn in a thread, returning (finished, result, exception)"""

    out = {}

    def target():
        try:
            out["r"] = fn()
        except BaseException as e:  # noqa: BLE001
            out["e"] = e

    t = threading.Thread(target=target, daemon=True)
    t.start()
    t.join(seconds)
    return not t.is_alive(), out.get("r"), out.get("e")


# ---------------------------------------------------------------------------
# Monitored campaign: a pipeline of stages over a multi-parameter object
# ---------------------------------------------------------------------------
LOG: list = []  # every evaluation performed by any worker, as (uid, evaluator, config)
STAGES: list = []  # every stage execution, as (worker, stage, config)


def build(case):
    """Investigated object, dimensions, actor type and evaluators of a case.

    case: params: [{name, kind, points, first, last, reads: [stages], objs}], deps: [[...]],
    args: {stage: [values]}, evals: [...]
    """

    import numpy as np
    from hermespy.core.pymonte.actors import MonteCarloActor
    from hermespy.core.pymonte.artifact import Artifact, ArtifactTemplate
    from hermespy.core.pymonte.evaluation import Evaluation, EvaluationResult, Evaluator
    from hermespy.core.pymonte.grid import GridDimension, RegisteredDimension, ScalarDimension
    from hermespy.core.pymonte.scalar import ScalarEvaluationResult, ScalarEvaluator

    K = len(case["deps"])
    names = [f"stage{k}" for k in range(K)]

    class Level(ScalarDimension):
        def __init__(self):
            self.level = -1.0

        def __lshift__(self, scalar):
            self.level = scalar

        @property
        def title(self):
            return "Level"

    class Sub:
        """Configured part"""

    class Obj:
        def __init__(self):
            self.sub = Sub()
            self.twin = Sub()
            self.state = {}

        def config(self):
            out = {}
            for p in case["params"]:
                out[p["name"]] = _read(self, p)
            return out

    def _holders(o, p):
        h = {"sub": [o.sub], "multi": [o.sub, o.twin]}.get(p["kind"], [o])
        return h

    def _read(o, p):
        vals = []
        for h in _holders(o, p):
            v = getattr(h, "_v_" + p["name"])
            vals.append(v.level if isinstance(v, Level) else v)
        return vals[0] if len(set(map(str, vals))) == 1 else tuple(vals)

    obj = Obj()
    for p in case["params"]:
        nm = p["name"]
        for o in _holders(obj, p):
            setattr(o, "_v_" + nm, Level() if p["kind"] == "level" else None)
    # property definitions
    done = set()
    for p in case["params"]:
        nm = p["name"]
        for hi, cls in enumerate({"sub": [Sub], "multi": [Sub]}.get(p["kind"], [Obj])):
            if (cls, nm) in done:
                continue
            done.add((cls, nm))
            if p["kind"] == "method":
                def m(self, value, nm=nm):
                    setattr(self, "_v_" + nm, value)
                setattr(cls, nm, m)
                continue
            def g(self, nm=nm):
                return getattr(self, "_v_" + nm)
            def s(self, value, nm=nm):
                setattr(self, "_v_" + nm, value)
            if p.get("registered"):
                setattr(cls, nm, RegisteredDimension(property(g, s), p.get("first"), p.get("last"), p.get("rtitle")))
            else:
                setattr(cls, nm, property(g, s))

    dims = []
    for p in case["params"]:
        kw = {"title": p["title"]} if p.get("title") else {}
        if p["kind"] == "sub":
            dims.append(GridDimension(obj, "sub." + p["name"], list(p["points"]), **kw))
        elif p["kind"] == "multi":
            dims.append(GridDimension((obj.sub, obj.twin), p["name"], list(p["points"]), **kw))
        else:
            dims.append(GridDimension(obj, p["name"], list(p["points"]), **kw))

    class Actor(MonteCarloActor):
        @staticmethod
        def stage_identifiers():
            return list(names)

        def stage_executors(self):
            return [self.make(k) for k in range(K)]

        def make(self, k):
            def run(*args):
                o = self._investigated_object
                cfg = o.config()
                mine = tuple(cfg[p["name"]] for p in case["params"] if k in p["reads"])
                ins = tuple(o.state[d] for d in case["deps"][k])
                o.serial = getattr(o, "serial", 0) + 1
                uid = (self.index, o.serial)
                o.worker = self.index
                o.state[k] = {
                    "uid": uid,
                    "value": (k, mine, tuple(args), tuple(i["value"] for i in ins)),
                    "ins": tuple(i["uid"] for i in ins),
                    "args": tuple(args),
                }
                import hv.mc as monitor

                monitor.STAGES.append((self.index, k))
                if case.get("work"):
                    time.sleep(case["work"] * ((o.serial * 7919 + self.index * 104729) % 11) / 1e4)
            return run

    class Record(Artifact):
        def __init__(self, data):
            self.data = data

        def __str__(self):
            return "record"

        def to_scalar(self):
            return self.data["scalar"]

    class Eval(Evaluation):
        def __init__(self, art):
            self.art = art

        def artifact(self):
            return self.art

        def _prepare_visualization(self, *a, **k):
            raise NotImplementedError

        _update_visualization = _prepare_visualization

    def scalar_of(cfg):
        return float(sum((i + 1) * 1.37 * p["points"].index(cfg[p["name"]]) * 10 ** i for i, p in enumerate(case["params"])
                         if cfg[p["name"]] in p["points"]))

    def snapshot(o, index):
        cfg = o.config()
        o.evals = getattr(o, "evals", 0) + 1
        return {
            "uid": (o.worker, o.serial, index),
            "config": cfg,
            "final": o.state[K - 1]["value"],
            "stages": {k: dict(v) for k, v in o.state.items()},
            "scalar": scalar_of(cfg),
        }

    class RecordResult(EvaluationResult):
        def __init__(self, grid, evaluator):
            EvaluationResult.__init__(self, grid, evaluator)
            self.data = np.empty([g.num_sample_points for g in grid], dtype=object)
            for c in np.ndindex(self.data.shape):
                self.data[c] = []

        def add_artifact(self, coordinates, artifact, compute_confidence=True):
            self.data[tuple(coordinates)].append((artifact.data, bool(compute_confidence)))
            return False

        def runtime_estimates(self):
            return None

        def to_array(self):
            return np.vectorize(len, otypes=[int])(self.data)

    class RecordEvaluator(Evaluator):
        def __init__(self, o):
            Evaluator.__init__(self)
            self.o = o

        def evaluate(self):
            data = snapshot(self.o, 0)
            import hv.mc as monitor

            monitor.LOG.append((data["uid"], 0))
            return Eval(Record(data))

        @property
        def abbreviation(self):
            return "REC"

        @property
        def title(self):
            return "Recorder"

        def initialize_result(self, grid):
            return RecordResult(grid, self)

    class MeanEvaluator(ScalarEvaluator):
        """Deterministic function of the configuration plus known noise"""

        def __init__(self, o, spec, index):
            ScalarEvaluator.__init__(self, confidence=spec["conf"], tolerance=spec["tol"], min_num_samples=spec["min"])
            self.o, self.spec, self.index = o, spec, index

        def evaluate(self):
            o = self.o
            v = scalar_of(o.config())
            if self.spec["noise"]:
                v += self.spec["noise"] * (((o.serial * 2654435761 + o.worker * 97) % 1009) / 1009 - 0.5)  # dither()
            import hv.mc as monitor

            monitor.LOG.append(((o.worker, o.serial, 0), self.index))
            return Eval(ArtifactTemplate(v))

        @property
        def abbreviation(self):
            return f"M{self.index}"

        @property
        def title(self):
            return f"Mean {self.index}"

    # Publish the classes, so that they are exchanged by reference like any importable class
    module = sys.modules[__name__]
    for cls in (Level, Sub, Obj, Actor, Record, Eval, RecordResult, RecordEvaluator, MeanEvaluator):
        cls.__module__, cls.__qualname__ = __name__, cls.__name__
        setattr(module, cls.__name__, cls)

    evaluators = [RecordEvaluator(obj)] + [MeanEvaluator(obj, s, i + 1) for i, s in enumerate(case["evals"])]
    return obj, dims, Actor, evaluators, scalar_of, names


def dither(serial, worker):
    return ((serial * 2654435761 + worker * 97) % 1009) / 1009 - 0.5


def campaign(case, seconds=30):
    """Run one campaign under the emulated runtime; returns the observations"""

    import warnings

    from hermespy.core.definitions import ConsoleMode
    from hermespy.core.pymonte import MonteCarlo

    obj, dims, actor, evaluators, scalar_of, names = build(case)
    LOG.clear()
    STAGES.clear()
    rt = Runtime(case["schedule"], case["intensity"], case["delays"], cpus=case["actors"])
    with rt.installed(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mc = MonteCarlo(obj, case["num_samples"], evaluators, num_actors=case["actors"], batch_size=case.get("batch"),
                        console_mode=ConsoleMode.SILENT, progress_log_interval=case.get("poll", 0.003), catch_exceptions=False)
        extra = set()
        for d, p in zip(dims, case["params"]):
            if p.get("additional"):
                extra.add(d)
            else:
                mc.add_dimension(d)
        stage_arguments = {names[int(k)]: [tuple(a) for a in v] for k, v in case.get("args", {}).items()}
        kw = {}
        if extra:
            kw["additional_dimensions"] = extra
        if stage_arguments:
            kw["stage_arguments"] = stage_arguments
        finished, result, error = deadline(lambda: mc.simulate(actor, **kw), seconds)
        log = list(LOG)
        stages = len(STAGES)
    return dict(rt=rt, mc=mc, dims=dims, finished=finished, result=result, error=error, log=log, evaluators=evaluators,
                scalar_of=scalar_of, stages=stages)
