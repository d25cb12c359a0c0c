"""Writes /verif/properties.jsonl (kept as a program so that the quoting stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe_at=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe_at: a["observe_at"] = observe_at
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
U, T, N = "ticdat/utils.py", "ticdat/ticdatfactory.py", "ticdat/pandatfactory.py"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_body.py")).read())
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
