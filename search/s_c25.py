from lib import *
from ticdat import TicDatFactory, PanDatFactory
from ticdat import pandatfactory, xls
import pandas as pd, tempfile, shutil


def pattern(rng, lim=40):
    """for each row, is it entirely empty; boundaries at the end are favoured"""
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, rng.randrange(lim)])
    k = rng.random()
    if k < .15: return [True] * n
    if k < .25: return [False] * n
    e = [rng.random() < rng.choice([.1, .5, .9]) for _ in range(n)]
    for i in range(min(n, rng.randrange(n + 1))): e[n - 1 - i] = True
    if rng.random() < .3 and n: e[-1] = False
    return e


def last(e):
    k = 0
    while k < len(e) and e[len(e) - 1 - k]: k += 1
    return k


@test(weight=10)
def frame_pruning(rng, rec):
    e = pattern(rng)
    w = rng.randint(1, 3)
    null = lambda: rng.choice([None, NAN, pd.NaT])
    rows = []
    for x in e:
        r = [null() if x or rng.random() < .4 else rng.choice([1, "a", 0, "", False, 2.5]) for _ in range(w)]
        if not x and all(isnull(c) for c in r): r[rng.randrange(w)] = rng.choice([0, "", False, "x"])
        rows.append(r)
    df = pd.DataFrame(rows, columns=["c%d" % i for i in range(w)], dtype=object if rng.random() < .6 else None)
    e = [all(isnull(c) for c in r) for r in df.itertuples(index=False, name=None)]
    if rng.random() < .3: df.index = [rng.choice([0, 1, "z"]) for _ in rows]
    rec.note((rows, list(df.index)))
    before = df.copy(deep=True)
    got = pandatfactory.remove_trailing_all_nan(df)
    want = before.iloc[:len(before) - last(e)]
    same = lambda a, b: list(a.index) == list(b.index) and list(a.columns) == list(b.columns) and [list(map(lambda x: ("n",) if isnull(x) else x, r)) for r in a.values.tolist()] == [list(map(lambda x: ("n",) if isnull(x) else x, r)) for r in b.values.tolist()]
    need(same(got, want), lambda: "emptiness %r: kept %d rows, expected %d" % (e, len(got), len(want)))
    need(same(df, before), "the frame given was altered")
    need(pandatfactory._find_number_all_nan_last_rows(df, 0, len(df)) == last(e), "number of trailing empty rows")


def sheet(path, tables):
    import openpyxl
    wb = openpyxl.Workbook(); wb.remove(wb.active)
    for t, (offset, header, rows) in tables.items():
        sh = wb.create_sheet(t)
        rr = 1 + offset
        for j, h in enumerate(header): sh.cell(rr, 1 + j, h)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                c = sh.cell(rr + 1 + i, 1 + j)
                if v is not None: c.value = v
                else: c.number_format = "0.00"      # the cell exists, empty
    wb.save(path)


@test(weight=2)
def excel_files(rng, rec):
    cls = rng.choice([TicDatFactory, PanDatFactory])
    prune = rng.random() < .75
    pk = rng.random() < .3
    f = cls(t=[["a"], ["b"]] if pk else [[], ["a", "b"]], u=[[], ["x"]])
    if not prune: f.set_xlsx_trailing_empty_rows("ignore")
    for fl in "ab": f.set_data_type("t", fl, nullable=True, strings_allowed="*")
    f.set_data_type("u", "x", nullable=True, strings_allowed="*")
    e = pattern(rng, 15)
    rows = []
    for i, x in enumerate(e):
        if x: rows.append([None, None])
        else:
            r = [100 + i, rng.choice([i, "s%d" % i, None])]
            if not pk and rng.random() < .3: r = [None, "only"]
            rows.append(r)
    if pk and sum(r[0] is None for r in rows[:len(rows) - last(e)]) > 1: return
    if pk and not prune: return
    e2 = pattern(rng, 9)
    rows2 = [[None if x else i] for i, x in enumerate(e2)]
    offset = rng.choice([0, 0, 1, 3]) if cls is TicDatFactory else 0
    rec.note((cls.__name__, prune, pk, rows, rows2, offset))
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        p = os.path.join(d, "a.xlsx")
        sheet(p, {"t": (offset, ["a", "b"], rows), "u": (0, ["x"], rows2)})
        dat = f.xls.create_tic_dat(p, row_offsets={"t": offset}) if cls is TicDatFactory else f.xls.create_pan_dat(p)
    finally: shutil.rmtree(d)
    for t, rs, em in (("t", rows, e), ("u", rows2, e2)):
        want = rs[:len(rs) - last(em)] if prune else None
        if want is None:
            tb = getattr(dat, t)
            keep = rs[:len(rs) - last(em)]
            need(len(tb) >= len(keep), "without pruning rows were lost")
            want = keep + [[None] * len(rs[0])] * (len(tb) - len(keep)) if rs else []
            need(len(tb) <= len(rs), "rows appeared")
        if cls is TicDatFactory:
            if t == "t" and pk: got = [[k, r["b"]] for k, r in dat.t.items()]
            else: got = [list(r.values()) for r in getattr(dat, t)]
        else: got = getattr(dat, t).values.tolist()
        n = lambda x: [[None if isnull(c) else c for c in r] for r in x]
        need(n(got) == n(want), lambda: "%s: read %r, expected %r" % (t, got, want))
