"""Runs each planted bug's check on a patched scratch copy: python3 tools/catch.py [ids...]"""
import sys, os, json, subprocess, shutil, concurrent.futures, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(id):
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = "/tmp/catch_" + id
    shutil.rmtree(wt, ignore_errors=True); os.makedirs(wt)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git apply %s/patch.diff" % (wt, wt, d), shell=True, check=True)
    r = subprocess.run(["python3-vt", ROOT + "/pyvc/check.py", prop], capture_output=True, text=True, cwd=ROOT, env=dict(os.environ, PYVC_REPO=wt, VERIF_SEED="1"))
    shutil.rmtree(wt, ignore_errors=True)
    obl = [l for l in r.stdout.split("\n") if l.startswith("failed obligation")]
    fi = [l for l in r.stdout.split("\n") if l.startswith("failing input")]
    v = re.search("VIOLATION.*", r.stdout)
    m = re.search(r", ([\d.]+) s\n", r.stdout)
    return "%-28s rc=%d %s %s s | obligations failed: %d %s | %s" % (id, r.returncode, "NOINPUT" if v and "no-failing" in v.group(0) else "CAUGHT" if v else "MISSED", m.group(1) if m else "?",
           len(obl), obl[0][19:100] if obl else "", (fi[0][:140] if fi else "") + (r.stderr[-300:] if r.returncode not in (0, 1) else ""))


ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(x)) for x in glob.glob(ROOT + "/seeded/*/meta.json"))
with concurrent.futures.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
