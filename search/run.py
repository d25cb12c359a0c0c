"""Run-time evaluation of the contracts on the real code.

 run.py PROP --seconds N --seed S --worker w --workers k
 run.py PROP --replay FILE
Every case is a pure function of (test name, integer seed); a failing one is therefore replayed exactly.
"""
import sys, os, json, time, argparse, random, importlib, traceback, warnings, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seconds", type=float, default=10); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--worker", type=int, default=0); ap.add_argument("--workers", type=int, default=1); ap.add_argument("--replay")
    ap.add_argument("--max-cases", type=int, default=10**9); ap.add_argument("--test")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="ticdatverif")
    if not a.replay: sys.stdout = open(os.devnull, "w")
    try:
        import lib
        lib.SCRATCH = scratch
        os.chdir(scratch)
        try:
            m = importlib.import_module("s_" + a.prop.lower())
        except Exception:
            tb = traceback.format_exc()
            return emit({"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "tests": {}, "rule": "", "errors": ["import failed: " + tb[-1500:]]})
        tests = lib.tests_of(m)
        if a.replay:
            f = json.load(open(a.replay))["failure"]
            r = lib.run_case(tests[f["test"]], f["seed"])
            print("reproduced:" if r.fail else "passes:", (r.fail or {}).get("message", ""), r.desc)
            return 1 if r.fail else 0
        ev, seen, samples, fails, errors, counts = 0, set(), [], [], [], {}
        names = [n for n in tests if not a.test or a.test == n]
        t0 = time.time()
        done = {n: False for n in names}
        k = 0
        while not fails and ev < a.max_cases // a.workers and (time.time() - t0 < a.seconds) and not all(done.values()):
            for n in names:
                t = tests[n]
                if done[n]: continue
                if t.once:
                    done[n] = True
                    if a.worker != (names.index(n) % a.workers): continue
                if t.weight < 1 and k % int(round(1 / t.weight)): continue
                for rep in range(max(1, int(t.weight))):
                    sd = (a.seed * 1000003 + (k * max(1, int(t.weight)) + rep) * a.workers + a.worker) * 64 + (hash_name(n) % 64)
                    r = lib.run_case(t, sd)
                    ev += 1; counts[n] = counts.get(n, 0) + 1
                    if r.nontrivial and r.key is not None: seen.add((n, r.key))
                    if r.fail:
                        fails.append(r.fail)
                        if len(fails) > 5: break
                    elif len(samples) < 3 and r.nontrivial and r.desc: samples.append({"test": n, "seed": sd, "case": str(r.desc)[:700]})
                if time.time() - t0 > a.seconds and k > 0: break
            k += 1
            if fails and all(lib.is_known(a.prop, f) for f in fails):
                keep = {f["sig"]: f for f in fails}; known_hits.update(keep); fails = []
        emit({"evaluations": ev, "distinct": len(seen), "samples": samples, "failures": fails + list(known_hits.values()), "tests": counts,
              "rule": getattr(m, "RULE", lib.RULE), "errors": errors})
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


known_hits = {}


def hash_name(n):
    h = 7
    for ch in n: h = (h * 31 + ord(ch)) % 1000003
    return h


def emit(d):
    sys.__stdout__.write("\n@@RESULT@@" + json.dumps(d, default=str))
    sys.__stdout__.flush()


if __name__ == "__main__":
    sys.exit(main() or 0)
