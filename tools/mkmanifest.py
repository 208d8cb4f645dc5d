"""Writes MANIFEST.json from the check classes."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(10000)
from vf import run

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "C01": "model-based property testing: generated zone trees, exact query set and brute-force coverage of concrete names",
    "C02": "model-based property testing of zone lookups with record-order metamorphism",
    "C03": "model-based property testing: whole resolution graphs against a reference resolver",
    "C17": "round-trip property testing over a grammar of presentations",
    "C18": "model-based property testing of record acceptance and lint",
    "C19": "structure-aware and coverage-guided fuzzing under ASan/UBSan with a semantic oracle",
    "C20": "stateful property testing of job sequences against each job run alone",
    "C21": "randomised controlled-schedule exploration (PCT/random walk) plus ThreadSanitizer runs",
    "C22": "metamorphic property testing",
    "C23": "metamorphic and model-based property testing with large fan-out",
    "C24": "property testing of the built program end to end",
    "C25": "fault-injection fuzzing of the built program's inputs and outputs (plain and ASan/UBSan builds)",
    "C26": "model-based property testing of the built program's statistics",
}
NOTES = {
    "default": "Holds on every generated case of the run; trusts the reference model in vf/model.py and the harness. "
               "Generated systems are small (up to about 8 zones) and capped in size.",
}
checks, na = [], []
for p in props:
    cid = p["id"]
    try:
        c = run.get_check(cid)
    except SystemExit:
        na.append({"property": cid, "reason": "check under construction"})
        continue
    checks.append({"property": cid, "quick_cmd": "python3 -m vf.run %s --tier quick" % cid,
                   "thorough_cmd": "python3 -m vf.run %s --tier thorough" % cid,
                   "evidence_file": "evidence/%s.json" % cid,
                   "technique": TECH.get(cid, "model-based property testing: reports of generated systems against a reference model"),
                   "level": "exploration", "level_note": getattr(c, "note", NOTES["default"])})
m = {"version": 1, "setup_cmd": "python3 -m vf.setup", "checks": checks, "not_applicable": na,
     "notes": "Checks build the sources of /repo themselves (object cache in /verif/build, keyed by content)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
