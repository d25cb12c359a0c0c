"""Regenerates MANIFEST.json from pyvc/plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "pyvc"))
import plan
NA = {"C31": "needs a live PostgreSQL server and driver, neither of which exists in this sandbox; the code's effect is on an external SQL engine that no "
             "contract on the Python functions can express (the SQL text generation it shares with SQLite is covered by C13/C14)"}
TECH = {"proof": "contract-based deductive verification of the parsed source (pyvc VC generator, z3/cvc5); contracts also evaluated on the real code to replay failing inputs",
        "exploration": "run-time evaluation of the contract on the real code (bounded, labelled; no obligation within the verifier's reach)"}
checks = []
for pid, p in plan.PLAN.items():
    if pid in NA: continue
    note = p["explanation"]
    if p.get("bounded"): note += " BOUNDED (never counted as proved): " + p["bounded"]
    note += " Trusts: pyvc engine, z3, cvc5; floats as reals with infinities and NaN." + (" " + "; ".join(p.get("trusted", [])) if p.get("trusted") else "")
    checks.append({"property": pid, "quick_cmd": "python3-vt pyvc/check.py %s" % pid, "thorough_cmd": "python3-vt pyvc/check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": TECH[p["level"]], "level": p["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3\" && /opt/venv/bin/python -c \"import pandas\"", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo. All commits there are minimal fix: commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
