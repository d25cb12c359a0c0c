"""Builds /verif/seeded/<id> from a bug description and confirms it in a scratch copy of /repo.

  python3 tools/seed.py FILE.py [--no-tests]     FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
"""
import sys, os, json, subprocess, shutil, concurrent.futures, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD\"\n"
TEST = open("/opt/vp/test.sh").read()


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(bug, tests):
    id = bug["id"]
    wt = "/tmp/seedwt_" + id
    shutil.rmtree(wt, ignore_errors=True)
    sh("git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)" % (wt, wt))
    sh("cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm base" % wt)
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.py"), "w").write(bug["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + HEAD + "exec python -W ignore \"$(dirname \"$0\")/demo.py\"\n")
    out = [id]
    r0 = sh("bash %s/demo.sh" % d, cwd=wt)
    if r0.returncode: out.append("DEMO FAILS UNPATCHED " + r0.stderr[-500:])
    for f, a, b in bug["edits"]:
        p = os.path.join(wt, "ticdat", f)
        s = open(p).read()
        if s.count(a) != 1: out.append("EDIT MATCHES %d TIMES: %s" % (s.count(a), a[:80]))
        open(p, "w").write(s.replace(a, b))
    diff = sh("git diff", cwd=wt).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # only lines of the original repository
    fixed = sh("git -C /repo diff 6384514 HEAD").stdout
    added = {l[1:] for l in fixed.split("\n") if l.startswith("+") and l[1:].strip()}
    gone = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    if any(l in added for l in gone): out.append("TOUCHES FIX LINES: " + str([l for l in gone if l in added])[:300])
    r1 = sh("bash %s/demo.sh" % d, cwd=wt)
    if r1.returncode == 0: out.append("DEMO PASSES PATCHED")
    if tests:
        t = TEST.replace("/repo", wt).replace("PYTHONPATH=/opt/vp/pytest_plugin", "PYTHONPATH=%s:/opt/vp/pytest_plugin" % wt)
        sp = "/tmp/seedtest_%s.sh" % id
        open(sp, "w").write(t)
        os.chmod(wt, 0o755)
        o = "/tmp/seedout_%s.json" % id
        sh("TICDAT_JOBS=3 bash %s %s" % (sp, o))
        b = json.load(open("/opt/vp/BASELINE.json"))
        try: miss = sorted(set(b["stable"]) - set(json.load(open(o))["passed"]))
        except Exception as e: miss = ["no result %s" % e]
        if miss: out.append("TESTS FAIL: %s" % miss[:4])
    shutil.rmtree(wt, ignore_errors=True)
    return " | ".join(out) if len(out) > 1 else id + " ok"


bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = [a for a in sys.argv[2:] if not a.startswith("--")]
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for r in ex.map(lambda b: one(b, "--no-tests" not in sys.argv), [b for b in bugs if not only or b["id"] in only]): print(r, flush=True)
