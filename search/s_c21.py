from lib import *
import lib, sqlite3, shutil
from ticdat import TicDatFactory, PanDatFactory
_n = [0]
NM = ["foods", "min_nutrition", "a_b_c", "t", "Big_Table_1"]


def snap(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds: out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = sql_dump(p) if x.endswith(".db") else open(p, "rb").read()
    return out


def sql_dump(p):
    con = sqlite3.connect(p)
    try: return sorted(con.iterdump())
    except sqlite3.DatabaseError: return open(p, "rb").read()
    finally: con.close()


def pretty(t):
    return " ".join(w[:1].upper() + w[1:] for w in t.split("_"))


@test(weight=8)
def refuses(rng, rec):
    _n[0] += 1
    root = os.path.join(lib.SCRATCH, "c21_%d" % _n[0]); os.makedirs(root)
    try:
        kind = rng.choice(["csv", "csv", "json", "xlsx", "xls", "db", "db", "sql", "pan_db"])
        ts = rng.sample(NM, rng.randint(1, 4))
        generic = [t for t in ts if rng.random() < .15] if kind not in ("pan_db", "json") else []
        keyless = [t for t in ts if rng.random() < .2 and t not in generic]
        spec = {t: "*" if t in generic else [[], ["a", "b"]] if t in keyless else [["a"], ["b"]] for t in ts}
        def data(k):
            import pandas as pd
            out = {}
            for t in ts:
                n = k if rng.random() < .8 else 0
                if t in generic: out[t] = pd.DataFrame({"a": list(range(n)), "b": ["x"] * n})
                elif t in keyless: out[t] = [[i, "x%d" % i] for i in range(n)]
                else: out[t] = {i: {"b": "x%d" % i} for i in range(n)}
            return out
        f = (PanDatFactory if kind == "pan_db" else TicDatFactory)(**spec)
        mk = f.PanDat if kind == "pan_db" else f.TicDat
        def pd_data(k):
            import pandas as pd
            return {t: pd.DataFrame([[i, "x%d" % i] for i in range(k)], columns=["a", "b"]) for t in ts}
        dat = mk(**(pd_data(3) if kind == "pan_db" else data(3)))
        cs = rng.random() < .5
        if generic and len(generic) == len(ts): return
        # a generic table without rows has no columns to write and replaces nothing
        written = [t for t in ts if t not in generic or len(getattr(dat, t))]
        other = os.path.join(root, "unrelated.txt")
        with open(other, "w") as fh: fh.write("keep me")
        target = os.path.join(root, {"csv": "dir", "json": "x.json", "xlsx": "x.xlsx", "xls": "x.xls", "db": "x.db", "pan_db": "x.db", "sql": "x.sql"}[kind])
        blocked = False; how = "nothing there"
        r = rng.random()
        if kind == "csv":
            if r < .8:
                os.makedirs(target)
                names = {t: (pretty(t) if cs else t) for t in ts}
                pick = [t for t in ts if rng.random() < .35]
                for t in pick:
                    with open(os.path.join(target, names[t] + ".csv"), "w") as fh: fh.write("a,b\n99,old\n")
                blocked = any(t in written for t in pick)
                alt = rng.choice(ts)
                nm = (alt if cs else pretty(alt))
                if nm != names[alt] and rng.random() < .4:
                    with open(os.path.join(target, nm + ".csv"), "w") as fh: fh.write("a,b\n98,old\n")
                if rng.random() < .3:
                    with open(os.path.join(target, "zzz.csv"), "w") as fh: fh.write("keep")
                how = "files of %r there" % pick
        elif kind in ("json", "xlsx", "xls", "sql"):
            if r < .6:
                with open(target, "w") as fh: fh.write(rng.choice(["", "old content", "{}"]))
                blocked = True; how = "file there"
        elif kind == "db":
            if r < .75:
                g = TicDatFactory(**{t: [[], ["a", "b"]] if t in keyless or t in generic else [["a"], ["b"]] for t in ts})
                d = {}
                for t in ts:
                    n = rng.choice([0, 0, 2])
                    d[t] = [[i, "old"] for i in range(n)] if (t in keyless or t in generic) else {i: ["old"] for i in range(n)}
                    if n and rng.random() < .4:
                        z = rng.choice([0, "", None] if (t in keyless or t in generic) else [0, ""])       # rows that look like nothing
                        d[t] = [[z, "old"]] * n if (t in keyless or t in generic) else {z: ["old"]}
                    if n and t in written: blocked = True
                g.sql.write_db_data(g.TicDat(**d), target)
                if rng.random() < .3:
                    con = sqlite3.connect(target); con.execute("create table extra (q)"); con.execute("insert into extra values (1)"); con.commit(); con.close()
                how = "database with %r" % {t: len(d[t]) for t in ts}
        else:
            if r < .75:
                con = sqlite3.connect(target)
                for t in ts:
                    if rng.random() < .4:
                        con.execute("create table [%s] (a, b)" % t); con.execute("insert into [%s] values (77, 'old')" % t)
                        if not cs or pretty(t) == t: blocked = True
                con.commit(); con.close()
                if cs and any(pretty(t).lower() == t.lower() for t in ts): cs = False; blocked = snap(root) and any("CREATE TABLE" in x and any("[%s]" % t in x for t in ts) for x in sql_dump(target))
                how = "database there"
        verbose, topd, schema, hdr = rng.random() < .4, rng.random() < .3, rng.random() < .5, rng.random() < .7
        if generic: schema = False if kind == "sql" else schema
        before = snap(root)
        rec.note((kind, spec, cs, how, verbose, topd, schema, hdr))
        go = {"csv": lambda: f.csv.write_directory(dat, target, write_header=hdr, case_space_table_names=cs),
              "json": lambda: f.json.write_file(dat, target, **({"to_pandas": True} if topd else {"verbose": verbose})),
              "xlsx": lambda: f.xls.write_file(dat, target, case_space_sheet_names=cs), "xls": lambda: f.xls.write_file(dat, target, case_space_sheet_names=cs),
              "sql": lambda: f.sql.write_sql_file(dat, target, include_schema=schema), "db": lambda: f.sql.write_db_data(dat, target),
              "pan_db": lambda: f.sql.write_file(dat, target, if_exists="fail", case_space_table_names=cs)}[kind]
        e = raises(go)
        after = snap(root)
        if blocked:
            need(e is not None, lambda: "%s: wrote over what was there (%s)" % (kind, how))
            if kind == "pan_db":
                lost = [l for l in before["x.db"] if l not in after["x.db"]]
                need(not lost, lambda: "content lost: %r" % lost)
            else: need(after == before, lambda: "%s: refused, but the content changed" % kind)
        else:
            need(e is None, lambda: "%s: refused although nothing would be replaced (%s): %r" % (kind, how, e))
            for p, c in before.items():
                if p.endswith(".db"): need(not [l for l in c if l not in after[p]], lambda: "content lost in %s" % p)
                else: need(after.get(p, 0) == c, lambda: "%s changed" % p)
            need(os.path.exists(target), "nothing was written")
    finally:
        shutil.rmtree(root, ignore_errors=True)


@test(weight=1)
def replaces_when_allowed(rng, rec):
    """the permission is a permission: with it the new content replaces the old"""
    _n[0] += 1
    root = os.path.join(lib.SCRATCH, "c21_%d" % _n[0]); os.makedirs(root)
    try:
        kind = rng.choice(["json", "xlsx", "db", "sql", "csv"])
        f = TicDatFactory(t=[["a"], ["b"]], s=[[], ["c"]])
        for x in ("t", "s"):
            for y in {"t": "ab", "s": "c"}[x]: f.set_data_type(x, y)
        rec.note((kind,))
        p = os.path.join(root, {"csv": "dir", "json": "x.json", "xlsx": "x.xlsx", "db": "x.db", "sql": "x.sql"}[kind])
        w = {"csv": lambda d, o: f.csv.write_directory(d, p, allow_overwrite=o), "json": lambda d, o: f.json.write_file(d, p, allow_overwrite=o),
             "xlsx": lambda d, o: f.xls.write_file(d, p, allow_overwrite=o), "db": lambda d, o: f.sql.write_db_data(d, p, allow_overwrite=o),
             "sql": lambda d, o: f.sql.write_sql_file(d, p, include_schema=True, allow_overwrite=o)}[kind]
        r = {"csv": lambda: f.csv.create_tic_dat(p), "json": lambda: f.json.create_tic_dat(p), "xlsx": lambda: f.xls.create_tic_dat(p),
             "db": lambda: f.sql.create_tic_dat(p), "sql": lambda: f.sql.create_tic_dat_from_sql(p, includes_schema=True)}[kind]
        old = f.TicDat(t={i: [i] for i in range(1, 9)}, s=[[i] for i in range(5)]); new = f.TicDat(t={i: [2 * i] for i in range(rng.randint(0, 3))}, s=[[7]])
        w(old, False); need(raises(lambda: w(new, False)) is not None, "second write accepted")
        need(f._same_data(r(), old), "content after the refused write"); w(new, True)
        need(f._same_data(r(), new), "content after the allowed write")
    finally:
        shutil.rmtree(root, ignore_errors=True)
