"""Puts DESIGN.md together: hand-written parts (design_head.md, design_tail.md) and, in section 2, what plan.py and the contract modules say of each property."""
import sys, os, json, importlib, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/pyvc", ROOT + "/pyvc/contracts"]
from plan import PLAN
ORACLE = json.load(open(ROOT + "/tools/oracles.json"))
out = [open(ROOT + "/tools/design_head.md").read().rstrip(), "", "## 2. The properties", "",
       "For each: what is specified and proved (with the functions under contract), what is evaluated at run time instead and against what, and what is assumed. The contract modules are "
       "`pyvc/contracts/<module>.py`; the run-time part is `search/s_<id>.py`. Why this reaches what tests cannot: a contract speaks of every schema, cell and iteration at once; the run-time part draws schemas and "
       "data from the whole grammar of the property instead of the few the tests use.", ""]
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l); id = p["id"]
    if id not in PLAN:
        out += ["### %s %s" % (id, p["title"]), "", "Not applicable: " + ORACLE[id], ""]; continue
    pl = PLAN[id]
    fns = []
    for m in pl["contracts"]:
        for c in importlib.import_module("contracts." + m).CONTRACTS:
            if (c.name.split(".")[0] == id or id in getattr(c, "covers", ())) and c.target not in fns: fns.append(c.target)
    out += ["### %s %s" % (id, p["title"]), "", "* level: %s%s" % (pl["level"], "; modules " + ", ".join(pl["contracts"]) if pl["contracts"] else "")]
    if fns: out += ["* specified: " + pl["explanation"], "* functions under contract (%d): %s" % (len(fns), ", ".join("`%s`" % f for f in fns))]
    out += ["* bounded: " + (pl.get("bounded") or "nothing is left to it; it serves to find failing inputs"), "* run-time oracle: " + ORACLE[id]]
    if pl.get("trusted"): out += ["* assumed: " + "; ".join(pl["trusted"])]
    out += [""]
catch = ["| planted bug | result | failed obligations | input found |", "|---|---|---|---|"]
if os.path.exists(ROOT + "/tools/catch.txt"):
    for l in open(ROOT + "/tools/catch.txt"):
        a, o, i = (l.rstrip("\n").split(" | ") + ["", ""])[:3]
        w = a.split()
        o = o.replace("obligations failed: ", "")
        catch.append("| %s | %s | %s | %s |" % (w[0], w[2].lower(), o.strip() if not o.startswith("0") else "none (no contract on it)" , "yes" if i.strip() else "no"))
out += [open(ROOT + "/tools/design_tail.md").read().strip().replace("@@CATCH@@", "\n".join(catch))]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
