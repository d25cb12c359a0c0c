from lib import *
from ticdat import TicDatFactory, PanDatFactory
import lib, datetime, tempfile, shutil, io, contextlib
import pandas as pd
NUM = dict(PK_DEFAULT, strings_allowed=())
INT = dict(NUM, must_be_int=True)
STR = dict(PK_DEFAULT, number_allowed=False)
KINDS = ["num", "num", "str", "str", "int", "date", "nullnum", "nullstr"]


def text(rng, fmt, cls):
    al = {"csv": "abAB '\"_1,;é\n|", "json": "abAB '\"_1,;é\n\\/{}", "xls": "abAB '\"_1,;é=<&", "db": "abAB '\"_1,;é\n[%", "sql": "abAB \"_1,é[%-"}[fmt]
    for _ in range(50):
        x = "".join(rng.choice(al) for _ in range(rng.randrange(1, 7)))
        if rng.random() < .2: x = rng.choice(["1", "1.5", "007", "1e5", "2020-01-01", "x" * 300, "-", "a,b", " a", "b "])
        if x.strip() != x and (fmt == "xls" or rng.random() < .3): continue
        if x.startswith("="): continue
        if rng.random() < .1 and fmt in ("json", "db") and cls is TicDatFactory: return ""
        if x.strip(" \n") == "": continue
        return x
    return "z"


def value(rng, kind, fmt, cls):
    if kind.startswith("null"):
        if rng.random() < .35: return None
        kind = kind[4:]
    if kind == "num": return rng.choice([0, 1, -3, 2.5, 1e-7, 123456.789, 10**14, -0.125, 1e200, 5.0, round(rng.uniform(-9, 9), 5) if cls is PanDatFactory and fmt == 'json' else rng.uniform(-9, 9)])
    if kind == "int": return rng.choice([0, 1, -7, 12, 10**12])
    if kind == "date": return rng.choice([datetime.datetime(2020, 1, 2), datetime.datetime(1999, 12, 31, 23, 59, 5), datetime.datetime(2001, 5, 6, 7, 8)])
    return text(rng, fmt, cls)


def schema(rng, fmt, cls):
    s = rschema(rng, types=0, defaults=0, fks=2, ntab=(1, 3), keyless=.3, fnames=["name", "Cost", "qty", "source", "destination", "k 1", "Min Nutrition", "max_nutrition", "f", "g"])
    s.kinds = {}
    for t in s.tables:
        for x in s.fields(t):
            k = rng.choice(KINDS)
            if x in s.pk(t) and k.startswith("null"): k = k[4:]
            if x in s.pk(t) and k == "date": k = "str"
            s.kinds[t, x] = k
            s.types[t, x] = dict({"num": NUM, "str": STR, "int": INT, "date": dict(PK_DEFAULT, number_allowed=False, strings_allowed=(), datetime=True)}[k.replace("null", "")], nullable=k.startswith("null"))
            if k.endswith("str") and (fmt in ("db", "sql") or rng.random() < .7): s.defaults[t, x] = rng.choice(["", "d"])   # the column's default decides its SQL type
            elif k in ("date",): s.defaults[t, x] = None
            elif rng.random() < .3: s.defaults[t, x] = rng.choice([0, 1, 2.5]) if k != "int" else 3
    return s


def data(rng, s, fmt, cls):
    out = {}
    for t in s.tables:
        n = rng.randint(0, 5)
        rows = [{x: value(rng, s.kinds[t, x], fmt, cls) for x in s.fields(t)} for _ in range(n)]
        if s.pk(t):
            d = {}
            for r in rows:
                k = tuple(r[x] for x in s.pk(t))
                d[k[0] if len(k) == 1 else k] = {x: r[x] for x in s.df(t)}
            out[t] = d
        else:
            if rows and rng.random() < .5: rows += [dict(rng.choice(rows)) for _ in range(2)]
            if fmt == "xls":
                while rows and all(v is None for v in rows[-1].values()): rows.pop()
            out[t] = rows
    return out


def cellsame(a, b):
    if isnull(a) or isnull(b): return isnull(a) and isnull(b)
    if isinstance(a, datetime.datetime) or isinstance(b, datetime.datetime): return isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime) and abs((pd.Timestamp(a) - pd.Timestamp(b)).total_seconds()) < .001
    if isinstance(a, str) != isinstance(b, str): return False
    return a == b or (not isinstance(a, str) and abs(a - b) <= 1e-14 * max(abs(a), abs(b)))


def rowsame(a, b): return set(a) == set(b) and all(cellsame(a[x], b[x]) for x in a)


def compare(s, d, got, what):
    for t in s.tables:
        w = [r for _, r in full_rows(s, d, t)]
        g = got[t]
        need(len(w) == len(g), lambda: "%s: table %s has %d rows, wrote %d: %r, wrote %r" % (what, t, len(g), len(w), g, w))
        left = list(g)
        for r in w:
            i = next((i for i, x in enumerate(left) if rowsame(r, x)), None)
            need(i is not None, lambda: "%s: row %r of %s did not come back, read %r" % (what, r, t, g))
            left.pop(i)
        if not s.pk(t): need(all(rowsame(a, b) for a, b in zip(w, g)), "%s: row order of %s changed" % (what, t))


def no_null_tail(rng, s, d, fmt): pass


@test(weight=4)
def row_tables(rng, rec):
    fmt = rng.choice(["csv", "csv", "json", "xls", "db", "sql"])
    s = schema(rng, fmt, TicDatFactory)
    d = data(rng, s, fmt, TicDatFactory)
    if rng.random() < .2:
        s.generators = [t for t in s.tables if not s.pk(t)][:1]
        if fmt in ("sql", "json"): s.generators = []
    f = build(s, TicDatFactory)
    opt = rng.random() < .5
    if len({t.lower() for t in s.tables}) < len(s.tables): return
    rec.note((fmt, opt, s, d, s.generators))
    dat = make(f, d)
    p = tempfile.mkdtemp(dir=lib.SCRATCH)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if fmt == "csv":
                q = os.path.join(p, "c"); f.csv.write_directory(dat, q, case_space_table_names=opt); r = f.csv.create_tic_dat(q)
            elif fmt == "json":
                if rng.random() < .3:
                    x = f.json.write_file(dat, "", verbose=opt); r = f.json.create_tic_dat(x)
                else:
                    q = os.path.join(p, "a.json"); f.json.write_file(dat, q, verbose=opt); r = f.json.create_tic_dat(q)
            elif fmt == "xls":
                q = os.path.join(p, "a.xlsx"); f.xls.write_file(dat, q, case_space_sheet_names=opt); r = f.xls.create_tic_dat(q, treat_inf_as_infinity=not s.generators)
            elif fmt == "db":
                q = os.path.join(p, "a.db")
                if opt: f.sql.write_db_schema(q)
                try: f.sql.write_db_data(dat, q)
                except Exception as e:
                    if "FOREIGN KEY" in str(e).upper() or "foreign key" in str(e): return
                    raise
                r = f.sql.create_tic_dat(q)
            else:
                q = os.path.join(p, "a.sql"); f.sql.write_sql_file(dat, q, include_schema=opt)
                try: r = f.sql.create_tic_dat_from_sql(q, includes_schema=opt)
                except Exception as e:
                    if "foreign key" in str(e).lower(): return
                    raise
            def rows(t):
                tb = getattr(r, t)
                if t in s.generators: return [dict(x) if hasattr(x, "items") else dict(zip(s.fields(t), x if isinstance(x, (tuple, list)) else [x])) for x in tb()]
                if s.pk(t): return [dict(dict(zip(s.pk(t), (k,) if len(s.pk(t)) == 1 else k)), **x) for k, x in tb.items()]
                return [dict(x) for x in tb]
            compare(s, d, {t: rows(t) for t in s.tables}, fmt)
    finally: shutil.rmtree(p)
    need(fmt and all(t in s.generators or same_plain({t: plain_table(s, dat, t)}, {t: d[t]}) for t in s.tables), "writing changed the data")


def plain_table(s, dat, t):
    tb = getattr(dat, t)
    return {k: dict(r) for k, r in tb.items()} if s.pk(t) else [dict(r) for r in tb]


BAD = {"null", "none", "nan", "na", "n/a", "inf", "-inf", "true", "false", "-"}


@test(weight=4)
def frames(rng, rec):
    fmt = rng.choice(["csv", "json", "json2", "xls", "db"])
    base = "json" if fmt == "json2" else fmt
    s = schema(rng, base, PanDatFactory)
    d = data(rng, s, base, PanDatFactory)
    f = build(s, PanDatFactory)
    opt = rng.random() < .5
    if any(isinstance(v, str) and (v.lower() in BAD or v.strip() == "" or v.strip() != v) for t in s.tables for _, r in full_rows(s, d, t) for v in r.values()): return
    if fmt == "xls":
        for t in s.tables:
            rs = full_rows(s, d, t)
            if rs and all(isnull(v) for v in rs[-1][1].values()): return
    if fmt == "csv" and any(rs and all(isnull(v) for v in r.values()) and len(r) == 1 for t in s.tables for rs in [full_rows(s, d, t)] for _, r in rs): return   # pandas skips blank lines
    dfs = {t: pd.DataFrame([r for _, r in full_rows(s, d, t)], columns=list(s.fields(t))) for t in s.tables}
    for t, df in dfs.items():
        if rng.random() < .2: df.index = ["r%d" % i for i in range(len(df))]
        if rng.random() < .2: df["not in the schema"] = 1
    rec.note((fmt, opt, s, d))
    dat = f.PanDat(**dfs)
    before = {t: getattr(dat, t).copy(deep=True) for t in s.tables}
    p = tempfile.mkdtemp(dir=lib.SCRATCH)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if fmt == "csv": q = os.path.join(p, "c"); f.csv.write_directory(dat, q, case_space_table_names=opt); r = f.csv.create_pan_dat(q)
            elif fmt == "json":
                q = os.path.join(p, "a.json") if opt else ""
                x = f.json.write_file(dat, q); r = f.json.create_pan_dat(q or x)
            elif fmt == "json2":
                orient = rng.choice(["split", "columns", "index", "records"]) if False else "split"
                q = os.path.join(p, "a.json"); f.json.write_file_pd(dat, q, case_space_table_names=opt, orient=orient); r = f.json.create_pan_dat(q, orient=orient)
            elif fmt == "xls": q = os.path.join(p, "a.xlsx"); f.xls.write_file(dat, q, case_space_sheet_names=opt); r = f.xls.create_pan_dat(q)
            else: q = os.path.join(p, "a.db"); f.sql.write_file(dat, q, case_space_table_names=opt); r = f.sql.create_pan_dat(q)
    finally: shutil.rmtree(p)
    got = {}
    for t in s.tables:
        df = getattr(r, t)
        need(set(s.fields(t)) <= set(df.columns), "columns missing")
        got[t] = [dict(zip(s.fields(t), x)) for x in df[list(s.fields(t))].itertuples(index=False, name=None)]
    compare(s, d, got, "frames " + fmt)
    for t in s.tables: need(getattr(dat, t).equals(before[t]), "writing changed the data object")
