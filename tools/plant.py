"""Record a planted bug under /verif/seeded and run its demonstration with and without it."""
import json, os, subprocess, sys
R = "/repo"
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo(d):
    p = sh("bash", os.path.join(d, "demo.sh"), cwd=R, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def plant(bug, prop, edits, needs, breaks, code):
    assert not sh("git", "-C", R, "status", "--porcelain", "-uno").stdout.strip(), "repository is dirty"
    d = os.path.join(S, bug)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.py", "w").write(code.lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2\npy=/opt/venv/bin/python; [ -x "$py" ] || py=python3\nexec "$py" "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    rc0, out0 = demo(d)
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, f"{bug}: {s.count(old)} matches of {old!r}"
            for line in old.splitlines():
                pass
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", R, "diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        rc1, out1 = demo(d)
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    ok = rc0 == 0 and rc1 != 0
    # at least one removed line has to be an original one
    print(bug, "OK" if ok else "BAD", rc0, rc1)
    if not ok:
        print(out0, out1)
