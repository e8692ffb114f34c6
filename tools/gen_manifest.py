#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, props/*.py and tools/not_applicable.json."""
import json, os, importlib.util, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/props")
na = json.load(open(R + "/tools/not_applicable.json"))
checks = []; nap = []
for l in open(R + "/properties.jsonl"):
    i = json.loads(l)["id"]
    p = "%s/props/%s.py" % (R, i)
    if os.path.exists(p) and i not in na:
        s = importlib.util.spec_from_file_location("prop_" + i, p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": "model_checking", "level_note": m.LEVEL_NOTE})
    else:
        nap.append({"property": i, "reason": na.get(i, "no check built yet")})
fixes = json.load(open(R + "/known_findings.json")) if os.path.exists(R + "/known_findings.json") else {}
json.dump({"version": 1, "setup_cmd": "make -s -j3 -C engine OUT=../build", "checks": checks, "not_applicable": nap,
           "notes": "Solver-based checking of the real code: /verif/run.py compiles /repo's sources to LLVM bitcode and executes them symbolically (engine/), Z3 decides every branch, memory access and assertion; counterexamples are replayed against a native build of the same sources. No hooks are needed in /repo."}, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(nap), "not applicable")
