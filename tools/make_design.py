#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, the check modules, known findings and the planted bugs."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
known = json.load(open(f"{V}/known_findings.json"))
catches = json.load(open(f"{V}/tools/catches.json")) if os.path.exists(f"{V}/tools/catches.json") else {}
notes = json.load(open(f"{V}/tools/design_notes.json"))


def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    fam = re.findall(r'^\s+Family\("([^"]+)",.*?,\s*(\d+)', open(path).read(), re.M)
    d["FAM"] = fam
    return d


out = [open(f"{V}/tools/design_head.md").read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    pid = p["id"]
    path = f"{V}/hv/checks/{pid.lower()}.py"
    out += [f"### {pid} {p['title']}", "", p["statement"], ""]
    if os.path.exists(path):
        c = consts(path)
        out += [f"* Workload and oracle: {c['RULE']}"]
        out += [f"* Assumption: {a}" for a in c.get("ASSUMPTIONS", [])]
        if c["FAM"]:
            out += ["* Families (executions of the quick tier; the thorough tier runs about twelve times as many): " + ", ".join(f"{n} {k}" for n, k in c["FAM"])]
        out += [f"* Beyond the tests: {p['why_tests_cant']}"]
    else:
        out += [f"* No check yet. Plan: {notes.get('plan', {}).get(pid, 'drive the anchored code with randomized histories and compare with a plain reference')}"]
    out += [f"* {n}" for n in notes.get(pid, [])]
    out += [f"* Repaired: {f.split(' ', 2)[2]}" for f in known["fixed"] if f.startswith(f"fixed: property={pid} ")]
    out += [f"* Known finding: {f.get('what', f)}" for f in known["findings"] if f["property"] == pid]
    bugs = []
    for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        b = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        if d["property"] == pid:
            bugs.append(f"{b} ({d['what_it_breaks']}; needs {d['needs']}): {catches.get(b, 'not run yet')}")
    out += [f"* Planted: {b}" for b in bugs] + [""]
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
