#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = f"{V}/hv/checks/{pid.lower()}.py"
    if os.path.exists(path):
        src = open(path).read()
        m = re.search(r'^RULE\s*=\s*\(?((?:\s*"[^"\n]*"\s*)+)\)?', src, re.M)
        rule = " ".join(re.findall(r'"([^"\n]*)"', m.group(1))) if m else p["title"]
        t = re.search(r'^TECHNIQUE\s*=\s*"([^"]*)"', src, re.M)
        checks.append({
            "property": pid,
            "quick_cmd": f"./run.sh {pid} --tier quick",
            "thorough_cmd": f"./run.sh {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": t.group(1) if t else "runtime monitoring: randomized workloads on the real code, judged online by an independent reference oracle",
            "level": "exploration",
            "level_note": (re.sub(r"\s+", " ", rule) + " Seeded workloads; bounded by the families and counts in the evidence file.")[:900],
        })
    else:
        na.append({"property": pid, "reason": "No check has been built for this property yet."})
json.dump({"version": 1, "setup_cmd": "chmod +x run.sh && mkdir -p evidence && /opt/venv/bin/python -c 'import numpy, scipy, h5py'",
           "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "unclaimed")
