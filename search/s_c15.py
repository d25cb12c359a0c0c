from lib import *
from ticdat import TicDatFactory, PanDatFactory
from ticdat.utils import find_duplicates_from_dict_ticdat, find_duplicates, create_duplicate_focused_tdf
import sqlite3, json, csv, tempfile, collections


def scr(): return tempfile.mkdtemp(dir=__import__("lib").SCRATCH)


def raw(rng, s, keyvals, nrows=(0, 9)):
    out = {}
    for t in s.tables:
        n = rng.randint(*nrows)
        out[t] = [[rng.choice(keyvals) for _ in s.pk(t)] + [rng.choice([1, 2, "a"]) for _ in s.df(t)] for _ in range(n)]
    return out


def expected(s, rows):
    out = {}
    for t in s.tables:
        n = len(s.pk(t))
        if not n: continue
        c = collections.Counter(r[0] if n == 1 else tuple(r[:n]) for r in rows[t])
        d = {k: v for k, v in c.items() if v > 1}
        if d: out[t] = d
    return out


def check(got, exp, what):
    need({t: dict(v) for t, v in got.items()} == exp, lambda: "%s: duplicates %r reported as %r" % (what, exp, {t: dict(v) for t, v in got.items()}))


@test(weight=6)
def row_reports(rng, rec):
    s = rschema(rng, types=0, defaults=0, fks=1)
    rows = raw(rng, s, rng.choice([[1, 2, 3], ["a", "b", "it's"], [0, 1, "a", "b"], [0, 1], [None, 0, ""], [NAN, 1], [INF, -INF, 2]]))
    f = build(s, TicDatFactory)
    rec.note((s, rows))
    exp = expected(s, rows)
    src = {t: ([list(r) for r in rs] if rng.random() < .6 else [dict(zip(s.fields(t), r)) for r in rs]) for t, rs in rows.items()}
    check(find_duplicates_from_dict_ticdat(f, src) or {}, exp, "dict of lists")
    tdf = create_duplicate_focused_tdf(f)
    if tdf:
        td = tdf.TicDat(**{t: [r[:len(s.pk(t))] for r in rows[t]] for t in s.tables if s.pk(t)})
        check(find_duplicates(td, tdf), exp, "row object")
    else: need(not any(s.pk(t) for t in s.tables), "no duplicate focused factory")


def spaced(rng, t):
    return "".join(c.upper() if rng.random() < .3 else c for c in ("".join(" " if c == "_" and rng.random() < .5 else c for c in t)))


@test(weight=1)
def file_reports(rng, rec):
    s = rschema(rng, types=0, defaults=0, ntab=(1, 3))
    fmt = rng.choice(["json", "jsondict", "csv", "sql", "xlsx"])
    kv = ["a", "b", "it"] if fmt == "csv" else rng.choice([[1, 2, 3], ["a", "b", "it"]])
    rows = raw(rng, s, kv, nrows=(0, 6))
    f = build(s, TicDatFactory)
    p = scr()
    rec.note((fmt, s, rows))
    exp = expected(s, rows)
    name = {t: spaced(rng, t) for t in s.tables}
    if fmt.startswith("json"):
        path = os.path.join(p, "a.json")
        json.dump({name[t]: [dict(zip(s.fields(t), r)) if fmt == "jsondict" else r for r in rs] for t, rs in rows.items()}, open(path, "w"))
        got = f.json.find_duplicates(path)
    elif fmt == "csv":
        for t, rs in rows.items():
            with open(os.path.join(p, name[t] + ".csv"), "w", newline="") as fp:
                w = csv.writer(fp); w.writerow(s.fields(t)); w.writerows(rs)
        got = f.csv.find_duplicates(p)
    elif fmt == "sql":
        path = os.path.join(p, "a.db")
        con = sqlite3.connect(path)
        for t, rs in rows.items():
            con.execute("create table [%s] (%s)" % (name[t], ",".join("[%s]" % x for x in s.fields(t))))
            for r in rs: con.execute("insert into [%s] values (%s)" % (name[t], ",".join("?" for _ in r)), r)
        con.commit(); con.close()
        got = f.sql.find_duplicates(path)
    else:
        import openpyxl
        path = os.path.join(p, "a.xlsx")
        wb = openpyxl.Workbook(); wb.remove(wb.active)
        for t, rs in rows.items():
            sh = wb.create_sheet(name[t]); sh.append(list(s.fields(t)))
            for r in rs: sh.append(r)
        wb.save(path)
        got = f.xls.find_duplicates(path)
    check(got, exp, fmt)


@test(weight=2)
def frame_reports(rng, rec):
    import pandas as pd
    s = rschema(rng, types=0, defaults=0, ntab=(1, 3))
    rows = raw(rng, s, rng.choice([[1, 2, 3], ["a", "b"], [0, 1.5]]), nrows=(0, 8))
    f = build(s, PanDatFactory)
    idx = rng.choice(["range", "dup", "str"])
    rec.note((s, rows, idx))
    dfs = {}
    for t in s.tables:
        df = pd.DataFrame(rows[t], columns=list(s.fields(t)))
        if idx == "dup": df.index = [rng.choice([0, 1]) for _ in range(len(df))]
        elif idx == "str": df.index = ["r%d" % (5 - i) for i in range(len(df))]
        dfs[t] = df
    dat = f.PanDat(**{t: df.copy(deep=True) for t, df in dfs.items()})
    for keep in ("first", "last", False):
        exp = {}
        for t in s.tables:
            n = len(s.pk(t))
            if not n: continue
            ks = [tuple(r[:n]) for r in rows[t]]
            m = [(ks.count(k) > 1) if keep is False else (k in ks[:i] if keep == "first" else k in ks[i + 1:]) for i, k in enumerate(ks)]
            if any(m): exp[t] = m
        got = f.find_duplicates(dat, keep=keep, as_table=False)
        need(set(got) == set(exp) and all(list(got[t]) == exp[t] for t in exp), lambda: "keep=%r: %r reported as %r" % (keep, exp, got))
        got = f.find_duplicates(dat, keep=keep)
        need(set(got) == set(exp) and all(got[t].values.tolist() == [r for r, m in zip(dfs[t].values.tolist(), exp[t]) if m] for t in exp), lambda: "keep=%r rows: %r" % (keep, got))
    need(all(getattr(dat, t).equals(dfs[t]) for t in dfs), "the data was altered")
