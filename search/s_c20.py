from lib import *
import lib, csv, sqlite3, shutil
from ticdat import TicDatFactory, PanDatFactory
from ticdat.utils import TicDatError, case_space_to_pretty, all_underscore_replacements
NAMES = ["foods", "min_nutrition", "a_b_c", "Big_Table_1", "x_y", "y_", "min_nutrition_quantities", "a__b", "t", "minnutrition", "a_b", "inflow_1"]
LONG = "this_is_a_very_long_table_name"     # 30 characters


def spell(rng, t):
    return "".join((" " if c == "_" and rng.random() < .5 else c.swapcase() if rng.random() < .3 else c) for c in t)


def same(a, t): return a.lower().replace(" ", "_") == t.lower()


def store(kind, content, path):
    """content: {name: marker or None for no rows}; each table has fields a, b"""
    if kind == "csv":
        os.makedirs(path)
        for n, m in content.items():
            with open(os.path.join(path, n + ".csv"), "w", newline="") as f:
                w = csv.writer(f); w.writerow(["a", "b"])
                if m is not None: w.writerow([m, m + 1])
    elif kind == "json":
        with open(path, "w") as f: json.dump({n: ([] if m is None else [[m, m + 1]]) for n, m in content.items()}, f)
    elif kind == "xlsx":
        import openpyxl
        wb = openpyxl.Workbook(); wb.remove(wb.active)
        for n, m in content.items():
            ws = wb.create_sheet(n); ws.append(["a", "b"])
            if m is not None: ws.append([m, m + 1])
        wb.save(path)
    else:
        con = sqlite3.connect(path)
        for n, m in content.items():
            con.execute("create table [%s] (a, b)" % n)
            if m is not None: con.execute("insert into [%s] values (?, ?)" % n, (m, m + 1))
        con.commit(); con.close()


def fac(pan, ts):
    f = (PanDatFactory if pan else TicDatFactory)(**{t: [["a"], ["b"]] for t in ts})
    for t in ts: f.set_data_type(t, "a"); f.set_data_type(t, "b")
    return f


def read(kind, f, pan, path):
    if pan: return {"csv": f.csv, "json": f.json, "xlsx": f.xls, "db": f.sql}[kind].create_pan_dat(path) if pan else None
    return {"csv": f.csv, "json": f.json, "xlsx": f.xls, "db": f.sql}[kind].create_tic_dat(path)


def rows(dat, t, pan):
    tb = getattr(dat, t)
    if pan: return [tuple(map(int, r)) for r in tb[["a", "b"]].values.tolist()]
    return [(k, r["b"]) for k, r in tb.items()]


_n = [0]


def newpath(kind):
    _n[0] += 1
    return os.path.join(lib.SCRATCH, "c20_%d" % _n[0] + {"csv": "", "json": ".json", "xlsx": ".xlsx", "db": ".db"}[kind])


@test(weight=6)
def matching(rng, rec):
    kind = rng.choice(["csv", "json", "xlsx", "db"])
    ts = rng.sample(NAMES, rng.randint(1, 4))
    content, expect, dup = {}, {}, False
    ids = set()
    def add(n, m):
        key = n if kind in ("csv", "json") else n.lower()
        if key in ids: return False
        ids.add(key); content[n] = m; return True
    m = 10
    for t in ts:
        expect[t] = []
        if rng.random() < .15: continue
        n = spell(rng, t)
        if len(n) > 31: n = t
        m += 10
        mm = None if rng.random() < .1 else m
        if add(n, mm): expect[t] = [] if mm is None else [(m, m + 1)]
        if rng.random() < .12:
            n2 = spell(rng, t)
            if n2 != n and add(n2, 999): dup = True
    for d in ("extra", "min-nutrition", "foodsx", "a b", "a  b"):
        if rng.random() < .2 and not any(same(d, t) for t in ts): add(d, 777)
    if not content: return
    # names of two requested tables never coincide
    items = list(content.items()); rng.shuffle(items); content = dict(items)
    pan = rng.random() < .35
    rec.note((kind, ts, content, pan))
    path = newpath(kind)
    try:
        store(kind, content, path)
        f = fac(pan, ts)
        try: dat = read(kind, f, pan, path)
        except TicDatError as e:
            need(dup, lambda: "%s refused although no two candidates match a table: %s" % (kind, e)); return
        need(not dup, lambda: "two candidates for one table were accepted (%s, %r)" % (kind, list(content)))
        for t in ts: need(rows(dat, t, pan) == expect[t], lambda: "table %s got %r instead of %r from %r" % (t, rows(dat, t, pan), expect[t], content))
    finally:
        shutil.rmtree(path, ignore_errors=True) if os.path.isdir(path) else os.path.exists(path) and os.remove(path)


@test(weight=3)
def pretty_names(rng, rec):
    kind = rng.choice(["csv", "json", "xlsx", "db"])
    ts = rng.sample(NAMES, rng.randint(1, 5))
    pan = rng.random() < .35
    rec.note((kind, ts, pan))
    f = fac(pan, ts)
    data = {t: [] if rng.random() < .15 else [(10 * i + 1, i)] for i, t in enumerate(ts)}
    path = newpath(kind)
    try:
        if pan:
            import pandas as pd
            dat = f.PanDat(**{t: pd.DataFrame(data[t], columns=["a", "b"]) for t in ts})
            {"csv": lambda: f.csv.write_directory(dat, path, case_space_table_names=True), "json": lambda: f.json.write_file_pd(dat, path, case_space_table_names=True),
             "xlsx": lambda: f.xls.write_file(dat, path, case_space_sheet_names=True), "db": lambda: f.sql.write_file(dat, path, case_space_table_names=True)}[kind]()
        else:
            dat = f.TicDat(**{t: {a: {"b": b} for a, b in data[t]} for t in ts})
            if kind == "db": return
            {"csv": lambda: f.csv.write_directory(dat, path, case_space_table_names=True), "json": lambda: f.json.write_file(dat, path),
             "xlsx": lambda: f.xls.write_file(dat, path, case_space_sheet_names=True)}[kind]()
        got = read(kind, f, pan, path)
        for t in ts: need(rows(got, t, pan) == data[t], lambda: "table %s came back as %r instead of %r (%s)" % (t, rows(got, t, pan), data[t], kind))
    finally:
        shutil.rmtree(path, ignore_errors=True) if os.path.isdir(path) else os.path.exists(path) and os.remove(path)


@test(weight=6)
def pure_names(rng, rec):
    t = "".join(rng.choice("abZ__ 1_") for _ in range(rng.randint(0, 9))).replace(" ", "")
    rec.note((t,))
    p = case_space_to_pretty(t)
    need(same(p, t), lambda: "pretty name %r does not match %r" % (p, t))
    c = all_underscore_replacements(t)
    want = {""}
    for ch in t: want = {w + x for w in want for x in ((ch, " ") if ch == "_" else (ch,))}
    need(len(c) == len(set(c)) and set(c) == want, lambda: "candidates for %r: %r" % (t, c))


@test(weight=1)
def long_sheets(rng, rec):
    """sheet names are cut: tables that agree on the part kept are refused, all others keep their own sheet"""
    base = LONG if rng.random() < .8 else LONG[:-1]
    ts = []
    for i in range(rng.randint(1, 3)):
        x = base + rng.choice(["", "1", "_a", "2b"])
        x = "".join(c.upper() if rng.random() < .1 else c for c in x)
        if x.lower() not in [y.lower() for y in ts]: ts.append(x)
    collide = len({t[:30].lower() for t in ts}) < len(ts)
    pan = rng.random() < .3
    rec.note((ts, pan))
    f = fac(pan, ts)
    data = {t: [(10 * i + 1, i)] for i, t in enumerate(ts)}
    path = newpath("xlsx")
    try:
        def go():
            if pan:
                import pandas as pd
                f.xls.write_file(f.PanDat(**{t: pd.DataFrame(data[t], columns=["a", "b"]) for t in ts}), path)
                return f.xls.create_pan_dat(path)
            f.xls.write_file(f.TicDat(**{t: {a: {"b": b} for a, b in data[t]} for t in ts}), path)
            return f.xls.create_tic_dat(path)
        try: got = go()
        except TicDatError as e: need(collide, lambda: "refused %r: %s" % (ts, e)); return
        for t in ts: need(rows(got, t, pan) == data[t], lambda: "table %s got %r instead of %r; tables %r" % (t, rows(got, t, pan), data[t], ts))
    finally:
        if os.path.exists(path): os.remove(path)
