"""Rewrites MANIFEST.json from the harnesses that exist (python3 tools/gen_manifest.py)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {}
NOTE = ("Bounded: every execution of the real source within the bounds of the evidence file is "
        "covered by a symbolic path whose assertions the solver discharges; counterexamples are "
        "replayed on the uninstrumented package. Trusts the executor's models of str, re, dict and "
        "list operations (every completed shape is cross-checked on concrete witnesses against "
        "CPython), z3, and the stubs listed in DESIGN.md.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(root + "/props/%s.py" % i.lower()):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "concolic symbolic execution of the instrumented real source with z3 deciding "
                         "branches and assertions",
            "level": "model_checking",
            "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the executor instruments a copy of the source at run time."},
          open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
