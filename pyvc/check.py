"""Decide one property on /repo's current source.

  python3-vt pyvc/check.py C02 [--tier quick|thorough] [--no-search] [--contract NAME]

1. every contract of the property is executed symbolically over the freshly parsed source and each obligation is discharged
   by z3 / cvc5 (one process per contract);
2. the same contracts are evaluated at run time on the real code (search/), always lightly, and hard when an obligation
   is not discharged, to replay a failing input;
3. evidence/<id>.json is rewritten.
"""
import sys, os, json, time, subprocess, argparse, concurrent.futures, hashlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
PY_REAL = "/opt/venv/bin/python"

import plan


def contracts_of(prop):
    import importlib, ast
    out = []
    for mod in plan.PLAN[prop].get("contracts", ()):
        m = importlib.import_module("contracts." + mod)
        out += [(mod, c) for c in m.CONTRACTS if c.name.split(".")[0] == prop or prop in c.covers]
    return out


def run_one(mod, c, timeout):
    t0 = time.time()
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "runcontract.py"), mod, c.name], capture_output=True, text=True, timeout=timeout)
        if "@@RESULT@@" in r.stdout:
            return json.loads(r.stdout.split("@@RESULT@@")[1])[0]
        d = (r.stderr or r.stdout)[-800:]
        st = "unknown"
    except subprocess.TimeoutExpired:
        d, st = "verifier stopped after %d s" % timeout, "unknown"
    return {"contract": c.name, "target": c.target, "note": c.note, "executed": [], "extern": [], "overrides": [], "wall": time.time() - t0,
            "obligations": [{"obligation": c.name + "/all", "status": st, "backend": "engine", "seconds": time.time() - t0, "detail": d}]}


def search(prop, seconds, seed, workers, tag, max_cases):
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYVC_REPO=REPO, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    for w in range(workers):
        procs.append(subprocess.Popen([PY_REAL, "-B", os.path.join(ROOT, "search", "run.py"), prop, "--seconds", str(seconds), "--seed", str(seed),
                                       "--worker", str(w), "--workers", str(workers), "--max-cases", str(max_cases)],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/tmp"))
    out = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "errors": [], "tests": {}, "rule": ""}
    for p in procs:
        try:
            so, se = p.communicate(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill(); so, se = p.communicate()
        if "@@RESULT@@" in so:
            d = json.loads(so.split("@@RESULT@@")[1])
            out["evaluations"] += d["evaluations"]; out["distinct"] += d["distinct"]
            out["samples"] += d["samples"]; out["failures"] += d["failures"]; out["errors"] += d["errors"]
            for k, v in d["tests"].items(): out["tests"][k] = out["tests"].get(k, 0) + v
            out["rule"] = d["rule"]
        else:
            out["errors"].append("search worker gave no result: " + (se or so)[-1500:])
    return out


def known_findings(prop):
    known = {}
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = l.strip().split(" ", 2)[2]
                sig, text = rest.split(" ", 1)
                known[sig.split("=", 1)[1]] = text
    except FileNotFoundError: pass
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-search", action="store_true"); ap.add_argument("--contract"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = plan.PLAN[prop]
    cs = contracts_of(prop)
    if a.contract: cs = [x for x in cs if a.contract in x[1].name]
    budget = 300 if tier == "quick" else 600
    results, sr = [], None
    with concurrent.futures.ThreadPoolExecutor(10) as ex:
        fs = [ex.submit(run_one, m, c, budget) for m, c in cs]
        sfut = None
        if not a.no_search:
            light = P.get("light", 10) if tier == "quick" else P.get("deep", 240)
            sfut = ex.submit(search, prop, light, seed if tier == "quick" else seed + 7919, 4 if tier == "quick" else 6, "light",
                             P.get("max_cases", 400000) if tier == "quick" else 10**9)
        results = [f.result() for f in fs]
        if sfut: sr = sfut.result()
    obls = [o for r in results for o in r["obligations"]]
    bad = [o for o in obls if o["status"] != "proved"]
    known = known_findings(prop)
    known_bad = [o for o in bad if o["obligation"] in known]
    bad = [o for o in bad if o["obligation"] not in known]
    evals = sr["evaluations"] if sr else 0
    fails = list(sr["failures"]) if sr else []
    errors = list(sr["errors"]) if sr else []
    if bad and not [f for f in fails if f["sig"] not in known] and not a.no_search:
        s2 = search(prop, P.get("strong", 90), seed + 104729, 8, "strong", 10**9)
        evals += s2["evaluations"]; fails += s2["failures"]; errors += s2["errors"]
        sr["distinct"] += s2["distinct"]; sr["samples"] += s2["samples"]
        for k, v in s2["tests"].items(): sr["tests"][k] = sr["tests"].get(k, 0) + v
    news = [f for f in fails if f["sig"] not in known]
    hit = {f["sig"] for f in fails if f["sig"] in known} | {o["obligation"] for o in known_bad}
    for sig in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))
    # ---- evidence
    disch = sum(o["status"] == "proved" for o in obls)
    level = P["level"]
    be = {}
    for o in obls:
        if o["status"] == "proved": be[o["backend"]] = be.get(o["backend"], 0) + 1
    execd = sorted({f for r in results for f in r["executed"]})
    cov = {"explanation": P["explanation"],
           "obligations": len(obls), "discharged": disch, "backends": be, "solver_seconds": round(sum(o["seconds"] for o in obls), 2),
           "checker_cmd": "python3-vt /verif/pyvc/check.py %s" % prop,
           "trusted_base": plan.TRUSTED + P.get("trusted", []),
           "functions_under_contract": sorted({r["target"] for r in results}), "functions_executed": execd,
           "contracts": [{"contract": r["contract"], "target": r["target"], "note": r["note"], "assumed_callee_contracts": r["overrides"],
                          "external_contracts_used": r["extern"], "wall_s": round(r["wall"], 2),
                          "obligations": [{k: o[k] for k in ("obligation", "status", "backend", "seconds")} for o in r["obligations"]]} for r in results],
           "evaluations": evals, "distinct_nontrivial": sr["distinct"] if sr else 0,
           "rule": (sr["rule"] if sr else "search not run"), "samples": (sr["samples"] if sr else [])[:4] or ["none"],
           "bounded_stand_in": P.get("bounded", ""), "bounded_tests": sr["tests"] if sr else {}, "search_errors": errors[:5]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": P.get("assumptions", []) + plan.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(news) + (1 if bad and not news else 0)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged, %d contract evaluations on the real code, %.1f s" % (prop, disch, len(obls), evals, time.time() - t0))
    if a.v or bad:
        for o in obls:
            if o["status"] != "proved" or a.v: print("  %-9s %-12s %6.2fs %s %s" % (o["status"], o["backend"], o["seconds"], o["obligation"], o["detail"][:300].replace("\n", " ")))
    for e in errors[:3]: print("search error:", e)
    if not obls and not evals:
        print("nothing was checked"); return 3
    if not bad and not news:
        if errors and not a.no_search:
            # the run-time evaluation itself broke: the code raised where the harness calls it outside any contract
            news = [{"test": "harness", "sig": "harness-error", "seed": seed, "message": errors[0], "input": ""}]
        else:
            return 0
    rdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    if news:
        f = news[0]
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.md5(json.dumps(f, default=str).encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "failed_obligations": [o["obligation"] for o in bad], "failure": f,
                       "replay_cmd": "%s -B %s %s --replay %s" % (PY_REAL, os.path.join(ROOT, "search", "run.py"), prop, path)}, fh, indent=1)
        print("failing input (%s): %s" % (f["test"], f["message"][:1500]))
        for o in bad: print("failed obligation: " + o["obligation"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        path = os.path.join(rdir, "%s-obligation.json" % prop)
        with open(path, "w") as fh:
            json.dump({"property": prop, "failed_obligations": bad, "note": "no failing input was found by %d evaluations on the real code" % evals,
                       "replay_cmd": "python3-vt %s/check.py %s -v" % (HERE, prop)}, fh, indent=1)
        for o in bad: print("failed obligation: " + o["obligation"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
