"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "hooks": {"guard": "VERYPY_VMC", "enable": "no hooks are needed: the checks import the unmodified code of /repo", "source_commits": []},
       "notes": "Every check is ./check <id> [quick|thorough]; ./check replay FILE re-runs a recorded violation."}
for p in props:
    i = p["id"]
    path = os.path.join(ROOT, "vmc", "checks", i.lower() + ".py")
    if os.path.exists(path):
        m = importlib.import_module("vmc.checks." + i.lower())
        man["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i,
                              "thorough_cmd": "./check %s thorough" % i,
                              "evidence_file": "evidence/%s.json" % i,
                              "technique": m.TECHNIQUE, "level": m.LEVEL,
                              "level_note": m.NOTE})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
