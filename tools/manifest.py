"""Writes MANIFEST.json from the check modules that exist (python3 tools/manifest.py)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {
    "model_checking": "explicit-state model checking: exhaustive event-word enumeration of an executable model, replayed in lockstep on the implementation",
    "fault_enumeration": "exhaustive fault/crash-point enumeration on the implementation with lockstep model",
    "exploration": "exhaustive bounded enumeration of the input/configuration space on the implementation against a model",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    src = open(path).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
    note = re.search(r'^NOTE = "(.*)"', src, re.M)
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid}",
        "thorough_cmd": f"./check.sh {pid} --tier thorough",
        "technique": tech.group(1) if tech else TECH[level],
        "level": level,
        "level_note": note.group(1) if note else "Exhaustive within the bounds stated in the evidence file; trusts PyTorch, the float64 reference mc/spec.py and float tolerances stated there.",
    })
doc = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import torch, numpy'",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: the checks drive the public API and observe with their own PyTorch hooks.",
}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
