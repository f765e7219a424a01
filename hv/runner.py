"""Runtime-monitoring harness.

A check module (hv/checks/cNN.py) declares PROPERTY, RULE and a list of workload
families.  A family generates a plain JSON case from a seeded random generator and
drives the real code of the repository under observation.  The monitors inside the
family's run function compare what they observe against a reference model and report
through the Observer.

Verdicts are three-valued:
  exit 0  held on everything observed (and every required observation was made)
  exit 1  at least one violation that is not a listed finding
  exit 2  inconclusive: the harness failed, or a deciding monitor was never reached
"""
from __future__ import annotations

import os, sys

_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "RAY_USAGE_STATS_ENABLED": "0",
    "RAY_DEDUP_LOGS": "0", "NUMBA_NUM_THREADS": "1",
}
# The sparse tensor library spends half a minute per process compiling kernels for tiny
# tensors; properties listed here involve no just-in-time compiled code of the repository.
if len(sys.argv) > 1 and sys.argv[1].upper() in ("C14", "C18"):
    _ENV["NUMBA_DISABLE_JIT"] = "1"
for _k, _v in _ENV.items():
    os.environ[_k] = _v

import argparse, atexit, importlib, json, multiprocessing as mp, random, re, shutil, signal, tempfile
import time, traceback, warnings, zlib
from collections import Counter

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("HV_REPO", "/repo"))
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
if REPO != "/repo":  # development only: observe a scratch copy despite the editable install
    sys.meta_path[:] = [f for f in sys.meta_path if "ditable" not in type(f).__module__ and "Redirecting" not in type(f).__name__]

# ---------------------------------------------------------------------------
# Determinism: unseeded generators created by the code under test draw their seed
# from a per-case counter instead of the operating system's entropy.  Two
# generators are still never identical, but every case replays exactly.
# ---------------------------------------------------------------------------
_real_default_rng = np.random.default_rng


class _Entropy:
    base = 0
    counter = 0


def _default_rng(seed=None):
    if seed is None:
        _Entropy.counter += 1
        return _real_default_rng([_Entropy.base, _Entropy.counter, 0x5EED])
    return _real_default_rng(seed)


np.random.default_rng = _default_rng


class Violation(Exception):
    def __init__(self, mechanism, message):
        super().__init__(f"[{mechanism}] {message}")
        self.mechanism = mechanism
        self.message = message


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Family:
    def __init__(self, name, gen, run, quick, thorough=None, require=(), pinned=(), group=None, timeout=240):
        self.name, self.gen, self.run = name, gen, run
        self.quick = quick
        self.thorough = thorough if thorough is not None else 12 * quick
        self.require = tuple(require)  # counters that must be positive
        self.pinned = list(pinned)  # fixed cases run on every tier
        self.timeout = timeout


class Observer:
    """Collects what the monitors of one case observed."""

    def __init__(self):
        self.counts = Counter()
        self.sigs = set()
        self.violations = []

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def sig(self, *parts):
        self.sigs.add(repr(parts))

    def check(self, cond, mechanism, message="", **witness):
        """A decided observation; ends the case on a violation."""
        self.counts["decisions"] += 1
        if not bool(cond):
            raise Violation(mechanism, _fmt(message, witness))
        return True

    def soft(self, cond, mechanism, message="", **witness):
        """As check, but the case goes on."""
        self.counts["decisions"] += 1
        if not bool(cond):
            self.violations.append((mechanism, _fmt(message, witness)))
            return False
        return True

    def close(self, a, b, mechanism, message="", rtol=1e-9, atol=1e-12, **witness):
        a, b = np.asarray(a), np.asarray(b)
        self.counts["decisions"] += 1
        if a.shape != b.shape:
            raise Violation(mechanism, _fmt(f"{message}: shape {a.shape} != expected {b.shape}", witness))
        if a.size == 0:
            return
        self.counts["values_compared"] += a.size
        if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
            ok = bool(np.all(a == b))
            err = "unequal"
        else:
            finite = np.isfinite(a) & np.isfinite(b)
            same_nonfinite = (a == b) | (np.isnan(a) & np.isnan(b))
            if not np.all(finite | same_nonfinite):
                raise Violation(mechanism, _fmt(f"{message}: undefined values observed", witness))
            d = np.abs(np.where(finite, a, 0) - np.where(finite, b, 0))
            scale = np.max(np.abs(np.where(finite, b, 0))) if b.size else 0
            err = float(np.max(d))
            ok = err <= atol + rtol * scale
        if not ok:
            idx = None
            if isinstance(err, float):
                idx = np.unravel_index(int(np.argmax(d)), d.shape)
                message = f"{message}: max error {err:.3e} at {tuple(map(int, idx))}: got {a[idx]!r} expected {b[idx]!r} (scale {scale:.3e})"
            raise Violation(mechanism, _fmt(message, witness))

    def equal(self, a, b, mechanism, message="", **witness):
        self.counts["decisions"] += 1
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            self.counts["values_compared"] += a.size
            ok = a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"))
            if not ok:
                d = ""
                if a.shape == b.shape and a.size:
                    w = np.argwhere(a != b)
                    if len(w):
                        i = tuple(w[0])
                        d = f"first difference at {tuple(map(int, i))}: got {a[i]!r} expected {b[i]!r}; {len(w)} differ"
                raise Violation(mechanism, _fmt(f"{message}: arrays differ, shapes {a.shape} / expected {b.shape} {d}", witness))
        else:
            ok = a == b
            if not ok:
                raise Violation(mechanism, _fmt(f"{message}: got {a!r}, expected {b!r}", witness))

    def raises(self, fn, mechanism, message="", exceptions=(Exception,), **witness):
        self.counts["decisions"] += 1
        try:
            fn()
        except exceptions:
            self.counts["rejections"] += 1
            return True
        raise Violation(mechanism, _fmt(message or "no error was raised", witness))


def _fmt(message, witness):
    if witness:
        message = f"{message} | " + ", ".join(f"{k}={_short(v)}" for k, v in witness.items())
    return message[:1500]


def _short(v):
    r = repr(v).replace("\n", " ")
    return r if len(r) < 300 else r[:300] + "..."


def case_rng(seed, family, idx):
    return _real_default_rng([int(seed), zlib.crc32(family.encode()), int(idx)])


def _jsonable(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (tuple, set)):
        return list(o)
    raise TypeError(type(o))


class CaseTimeout(Exception):
    pass


def _alarm(_s, _f):
    raise CaseTimeout()


def run_case(family, case, watchdog=True):
    """Run one case; returns (status, payload, observer)."""
    obs = Observer()
    key = zlib.crc32(json.dumps(case, sort_keys=True, default=_jsonable).encode())
    _Entropy.base, _Entropy.counter = key, 0
    np.random.seed(key)
    random.seed(key)
    old = None
    if watchdog:
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(family.timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            family.run(case, obs)
    except Violation as v:
        obs.violations.append((v.mechanism, v.message))
    except Skip:
        obs.counts["skipped"] += 1
        return "skip", None, obs
    except CaseTimeout:
        return "timeout", traceback.format_exc()[-1500:], obs
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(REPO + "/hermespy")]
        text = traceback.format_exc()[-1800:]
        if inside:
            f = inside[-1]
            rel = os.path.relpath(os.path.realpath(f.filename), REPO)
            obs.violations.append((f"exception:{type(e).__name__}:{rel}:{f.name}",
                                   f"unexpected {type(e).__name__}: {e} in {rel}:{f.lineno} {f.name}\n{text}"))
        else:
            return "error", text, obs
    finally:
        if watchdog:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    return ("violation" if obs.violations else "ok"), list(obs.violations), obs


_STATE = {}


def _work(job):
    fi, idx, pinned = job
    fam = _STATE["families"][fi]
    if time.monotonic() > _STATE["deadline"] and not pinned:
        return fi, idx, pinned, None, "late", None, None, None
    if pinned:
        case = fam.pinned[idx]
    else:
        case = fam.gen(case_rng(_STATE["seed"], fam.name, idx))
    case = json.loads(json.dumps(case, default=_jsonable))
    t0 = time.monotonic()
    status, payload, obs = run_case(fam, case)
    return fi, idx, pinned, case, status, payload, (dict(obs.counts), obs.sigs), time.monotonic() - t0


def _work_chunk(chunk):
    return [_work(j) for j in chunk]


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == prop]


def scratch():
    d = tempfile.mkdtemp(prefix="hv_")
    atexit.register(_cleanup, d, os.getpid())
    os.chdir(d)
    tempfile.tempdir = d
    os.environ["TMPDIR"] = d
    return d


def _cleanup(d, pid):
    if os.getpid() == pid:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only this family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("HV_PROCS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.property.upper()
    t_start = time.monotonic()
    scratch()
    # the import of the code under test prints noise about missing optional backends
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        saved = os.dup(2)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 2)
        try:
            import hermespy.simulation  # noqa
            err = None
        except Exception as e:  # pragma: no cover
            err = e
        finally:
            os.dup2(saved, 2)
            os.close(dn)
        if err is None:
            import hermespy
            real = os.path.realpath(hermespy.__path__[0])
            if not real.startswith(REPO + "/"):
                print(f"INCONCLUSIVE property={prop}: hermespy resolves to {real}, not {REPO}")
                return 2
            try:
                mod = importlib.import_module(f"hv.checks.{prop.lower()}")
            except Exception:
                print(f"INCONCLUSIVE property={prop}: {traceback.format_exc()[-1500:]}")
                return 2
        else:
            print(f"INCONCLUSIVE property={prop}: import failed: {err!r}")
            return 2
    families = [f for f in mod.FAMILIES if a.only is None or f.name == a.only]
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    findings = load_findings(prop)

    if a.replay:
        rec = json.load(open(a.replay))
        fam = next(f for f in mod.FAMILIES if f.name == rec["family"])
        status, payload, obs = run_case(fam, rec["case"])
        print(status)
        for p in payload or []:
            print(p if isinstance(p, str) else f"{p[0]}: {p[1]}", end="" if isinstance(p, str) else "\n")
        print(dict(obs.counts))
        if status == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if status in ("ok", "skip") else 2

    jobs = []
    for fi, f in enumerate(families):
        for i in range(len(f.pinned)):
            jobs.append((fi, i, True))
    main_jobs = []
    for fi, f in enumerate(families):
        n = f.quick if tier == "quick" else f.thorough
        n = int(round(n * a.scale)) if f.quick else 0
        main_jobs += [(i / max(n, 1), (fi, i, False)) for i in range(n)]
    main_jobs.sort()
    jobs += [j for _, j in main_jobs]
    budget = 420 if tier == "quick" else float(os.environ.get("HV_THOROUGH_BUDGET", "780"))
    _STATE.update(families=families, seed=a.seed, deadline=t_start + budget)
    setup = getattr(mod, "setup", None)
    if setup:
        setup(tier, a.seed)
    counts, sigs, per_family = Counter(), set(), {}
    statuses = Counter()
    violations, errors, samples = [], [], {}
    fam_counts = {f.name: Counter() for f in families}
    slow = []
    ctx = mp.get_context("fork")
    inline = getattr(mod, "INLINE", False) or a.procs <= 1
    if inline:
        it = map(_work, jobs)
        pool = None
    else:
        pool = ctx.Pool(min(a.procs, max(1, len(jobs))))
        size = max(1, min(16, len(jobs) // (a.procs * 12) or 1))
        it = pool.imap_unordered(_work_chunk, [jobs[i:i + size] for i in range(0, len(jobs), size)])
    hard = t_start + budget + 60
    done = 0
    lost = False
    stopped, failing = False, 0
    ready = []
    while done < len(jobs):
        try:
            if pool is None:
                r = next(it)
            else:
                if not ready:
                    ready = it.next(timeout=max(1.0, hard - time.monotonic()))
                r = ready.pop()
        except StopIteration:
            break
        except mp.TimeoutError:
            lost = True
            break
        done += 1
        fi, idx, pinned, case, status, payload, o, dt = r
        fam = families[fi]
        statuses[status] += 1
        if status == "late":
            continue
        c, s = o
        counts.update(c)
        fam_counts[fam.name].update(c)
        sigs |= {f"{fam.name}:{x}" for x in s}
        per_family[fam.name] = per_family.get(fam.name, 0) + 1
        slow.append((dt, fam.name, idx))
        if status == "violation":
            for m, msg in payload:
                violations.append((fam.name, case, m, msg))
            if not any(e["family"] == fam.name and re.fullmatch(e["mechanism"], m) for e in findings for m, _ in payload):
                failing += 1
            if failing >= 25 and time.monotonic() - t_start > 60 and tier == "quick":
                stopped = True  # the verdict is clear: do not wait out slow failures
                break
        elif status in ("error", "timeout"):
            errors.append((fam.name, case, status, payload))
        elif status == "ok" and fam.name not in samples:
            samples[fam.name] = {"family": fam.name, "case": case, "observed": c}
    if pool is not None:
        if lost or stopped:
            pool.terminate()
        else:
            pool.close()
            pool.join()

    # verdict -----------------------------------------------------------------
    known_seen, new = {}, {}
    for fname, case, m, msg in violations:
        hit = next((e for e in findings if e["family"] == fname and re.fullmatch(e["mechanism"], m)), None)
        if hit is not None:
            known_seen.setdefault(hit["id"], (hit, 0))
            known_seen[hit["id"]] = (hit, known_seen[hit["id"]][1] + 1)
        else:
            new.setdefault((fname, m), []).append((case, msg))
    for e in findings:
        n = known_seen.get(e["id"], (None, 0))[1]
        if n:
            print(f"KNOWN-FINDING: property={prop} {e['what']} (finding {e['id']}, observed in {n} executions)")
    rc = 0
    for n, ((fname, m), items) in enumerate(sorted(new.items())):
        case, msg = min(items, key=lambda x: len(json.dumps(x[0])))
        path = os.path.join(replay_dir, f"{prop}_{fname}_{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "family": fname, "mechanism": m, "message": msg, "case": case,
                       "seed": a.seed, "tier": tier, "occurrences": len(items)}, f, indent=1)
        print(f"  {fname}: {m} ({len(items)} executions): {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    if a.v or (rc == 0 and errors):
        for e in errors[:3]:
            print("HARNESS", e[0], e[2], json.dumps(e[1])[:600], e[3])
    missing = []
    if rc == 0 and a.only is None:
        for f in families:
            for req in f.require:
                if fam_counts[f.name][req] <= 0:
                    missing.append(f"{f.name}.{req}")
            if f.quick and per_family.get(f.name, 0) == 0:
                missing.append(f"{f.name} (no execution)")
        if errors or missing or lost:
            rc = 2
            print(f"INCONCLUSIVE property={prop}: harness errors={len(errors)} unreached={missing} lost={lost}")
    wall = time.monotonic() - t_start
    if a.only is None:
        ev = {
            "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": int(sum(per_family.values())),
                "distinct_nontrivial": len(sigs),
                "rule": mod.RULE,
                "samples": list(samples.values())[:8],
                "executions_per_family": per_family,
                "observations": {k: dict(v) for k, v in fam_counts.items()},
                "case_statuses": dict(statuses),
                "monitor_decisions": counts["decisions"],
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2),
            "violations": len(violations) - sum(x[1] for x in known_seen.values()),
        }
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=_jsonable)
    if a.v:
        slow.sort(reverse=True)
        print("slowest", [(round(x[0], 2), x[1], x[2]) for x in slow[:6]])
        bt = Counter()
        for d, n, _ in slow:
            bt[n] += d
        print("cpu per family", {k: round(v, 1) for k, v in bt.items()}, dict(per_family))
        print({k: dict(v) for k, v in fam_counts.items()})
    print(f"property={prop} tier={tier} seed={a.seed} executions={sum(per_family.values())} distinct={len(sigs)} "
          f"decisions={counts['decisions']} statuses={dict(statuses)} wall={wall:.1f}s rc={rc}")
    sys.stdout.flush()
    return rc
