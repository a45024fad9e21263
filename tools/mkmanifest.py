#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p)
    if not c:
        na.append(dict(property=p, reason="check not built yet"))
        continue
    specs = sorted({j.get("cfg", j["module"]) for j in c.get("models", [])} | {j["module"] for j in c["traces"]} |
                   {j["generate"]["module"] for j in c["traces"] if j.get("generate")})
    checks.append(dict(
        property=p, level="model_checking",
        technique="TLA+ specification checked with TLC (%s); conformance by %s" % (", ".join(specs), c.get(
            "conform", "validating traces recorded from the real code against the specification with TLC")),
        level_note=c["note"], evidence_file="evidence/%s.json" % p,
        quick_cmd="python3 /verif/harness/vp.py %s quick" % p,
        thorough_cmd="python3 /verif/harness/vp.py %s thorough" % p))
m = dict(version=1, setup_cmd="java -version && /opt/venv/bin/python -c 'import numpy, cv2, scipy, PIL'",
         checks=checks, not_applicable=na,
         notes="One runner (harness/vp.py) per property: builds a scratch copy of /repo, model-checks the TLA+ modules, "
               "runs the real code and validates its traces with TLC. Known and repaired defects: known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
