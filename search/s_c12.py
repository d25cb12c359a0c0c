from lib import *
from ticdat import TicDatFactory, PanDatFactory
import datetime


def isn(x):
    import numbers
    return isinstance(x, numbers.Number) and not isinstance(x, bool)


def bias(ty):
    """the infinity that null stands for with a null flag, 'refuse', or None"""
    if not ty or not ty["number_allowed"] or ty["datetime"]: 
        if not ty or not ty["number_allowed"]: return None
    if valid(ty, None): return None
    p, m = valid(ty, INF), valid(ty, -INF)
    if p and m: return "refuse"
    return INF if p else (-INF if m else None)


def itype(rng):
    ty = rtype(rng)
    if rng.random() < .6: ty.update(number_allowed=True, strings_allowed=())
    if rng.random() < .6: ty.update(max=INF, inclusive_max=rng.random() < .7)
    if rng.random() < .3: ty.update(min=-INF, inclusive_min=rng.random() < .7)
    if rng.random() < .7: ty.update(nullable=False)
    if ty["min"] > ty["max"]: ty["min"], ty["max"] = ty["max"], ty["min"]
    return ty


@test(weight=8)
def cell_rules(rng, rec):
    cls = TicDatFactory
    params = rng.random() < .3
    tbl = rng.choice(["t", "parameters", "parameters", "t"]) if params else rng.choice(["t", "t", "t", "parameters"])
    kw = {tbl: [["k"], ["f"]], "other": [["a"], ["b"]]}
    f = cls(**kw)
    if params and "parameters" in kw: f.add_parameter("p", 1)
    declared = params and tbl == "parameters"
    flag = rng.choice(["N/A", None, 999, 1e6, 1, 0.5, rng.uniform(.1, 1e4)])
    ty = itype(rng) if not declared and rng.random() < .75 else None
    field = rng.choice(["k", "f"])
    if declared: field = rng.choice(["k", "f"])
    order = rng.random() < .5
    if order: f.set_infinity_io_flag(flag)
    munge = rng.random() < .5
    f.set_automunge_multitype_fields(munge)
    if rng.random() < .4: f._none_as_infinity_bias(tbl, field) if ty is None or bias(ty) != "refuse" else None   # fill the cache before the settings change
    if ty: f.set_data_type(tbl, field, **ty)
    if not order: f.set_infinity_io_flag(flag)
    x = rcell(rng)
    if isn(flag) and rng.random() < .5: x = rng.choice([flag, -flag, flag * 1.0000001, -flag * 1.0000001, flag / 2, INF, -INF, -flag / 2, flag - .001, 0])
    rec.note((tbl, declared, flag, ty, field, x))
    refuse = flag is None and not declared and bias(ty) == "refuse"
    if refuse:
        need(raises(lambda: f._infinity_flag_write_cell(tbl, field, x)) is not None, "field allowing both infinities not refused on writing")
        need(raises(lambda: f._general_read_cell(tbl, field, None)) is not None, "field allowing both infinities not refused on reading null")
        return
    w = f._infinity_flag_write_cell(tbl, field, x)
    if declared: exp = None if isnull(x) else x
    elif flag == "N/A" or not isn(x) or isnull(x): exp = x
    elif isn(flag): exp = flag if x > flag else (-flag if x < -flag else x)
    else: exp = None if bias(ty) is not None and x == bias(ty) else x
    need(veq(w, exp), lambda: "writing %r gives %r instead of %r" % (x, w, exp))
    if isn(x) or isnull(x):
        r = f._general_read_cell(tbl, field, x)
        if ty and not ty["datetime"] and ty["strings_allowed"] and ty["number_allowed"] and munge and isn(x): exp = float(x)
        else: exp = x
        if declared: exp = x
        elif isn(flag) and isn(x) and not isnull(x): exp = INF if x >= flag else (-INF if x <= -flag else exp)
        elif flag is None and x is None and bias(ty) is not None: exp = bias(ty)
        need(veq(r, exp), lambda: "reading %r gives %r instead of %r" % (x, r, exp))
        if isn(x) and not isnull(x) and not declared and isn(flag) and (abs(x) < flag or abs(x) == INF):
            need(veq(f._general_read_cell(tbl, field, w), float(x) if isinstance(exp, float) else x), "write then read loses %r" % (x,))


@test(weight=2)
def pan_rules(rng, rec):
    import pandas as pd
    params = rng.random() < .3
    kw = {"t": [["k"], ["f", "g"]]}
    if params: kw["parameters"] = [["key"], ["value"]]
    p = PanDatFactory(**kw)
    if params: p.add_parameter("p", 1)
    flag = rng.choice(["N/A", None, 999, 1, 0.5, 1e6])
    tys = {}
    for fl in ("k", "f", "g"):
        if rng.random() < .7:
            tys[fl] = itype(rng); tys[fl]["datetime"] = False
            p.set_data_type("t", fl, **tys[fl])
    p.set_infinity_io_flag(flag)
    pool = [0, 1, -3, 2.5, INF, -INF, 1e5, "a", None] + ([flag, -flag, flag * 1.5, -flag / 2] if isn(flag) else [])
    rows = [[i, rng.choice(pool), rng.choice(pool)] for i in range(rng.randint(1, 6))]
    if rng.random() < .5: rows = [[k, f if not isinstance(f, str) else 1, g if g is not None else 0] for k, f, g in rows]
    df = pd.DataFrame([[k, f, g] for k, f, g in rows], columns=["k", "f", "g"])
    dat = p.PanDat(t=df)
    if params: dat.parameters = pd.DataFrame([["p", INF], ["q", -INF], ["r", "abc"]], columns=["key", "value"])
    rec.note((flag, tys, rows, params))
    before = dat.t.copy(deep=True)
    refuse = flag is None and any(bias(tys.get(fl)) == "refuse" for fl in ("k", "f", "g"))
    if refuse:
        need(raises(lambda: p._pre_write_adjustment(dat)) is not None, "field allowing both infinities not refused")
        return
    w = p._pre_write_adjustment(dat)
    need(dat.t.equals(before) and list(dat.t.columns) == list(before.columns), "writing changed the data object")
    for fl in ("k", "f", "g"):
        for x, y in zip(before[fl], w.t[fl]):
            if flag == "N/A" or isnull(x) or not isn(x): exp = x
            elif isn(flag): exp = flag if x > flag else (-flag if x < -flag else x)
            else: exp = None if bias(tys.get(fl)) is not None and x == bias(tys.get(fl)) else x
            need((isnull(exp) and isnull(y)) or veq(exp, y), lambda: "field %s: writing %r gives %r instead of %r" % (fl, x, y, exp))
    if params:
        need(all(veq(a, b) for a, b in zip(w.parameters["value"], [INF, -INF, "abc"])), "parameters adjusted on writing")
    if isn(flag):
        p.set_automunge_multitype_fields(False)
        r = p._general_post_read_adjustment(p.copy_pan_dat(w), push_parameters_to_be_valid=True)
        for fl in ("k", "f", "g"):
            for x, y in zip(before[fl], r.t[fl]):
                if isn(x) and not isnull(x) and (abs(x) < flag or abs(x) == INF): need(y == x, lambda: "write then read turns %r into %r" % (x, y))
    elif flag is None:
        p.set_automunge_multitype_fields(False)
        r = p._general_post_read_adjustment(p.copy_pan_dat(w), push_parameters_to_be_valid=True)
        for fl in ("k", "f", "g"):
            b = bias(tys.get(fl))
            for x, y in zip(w.t[fl], r.t[fl]):
                exp = b if isnull(x) and b is not None else x
                need((isnull(exp) and isnull(y)) or veq(exp, y), lambda: "field %s: reading %r gives %r instead of %r" % (fl, x, y, exp))


@test(weight=.5)
def through_files(rng, rec):
    s = rschema(rng, ntab=(1, 2), types=0, defaults=0, maxdf=2)
    for t in s.tables:
        for x in s.fields(t): s.types[t, x] = dict(PK_DEFAULT, strings_allowed=())
    f = build(s, TicDatFactory)
    flag = rng.choice([999, 1e5, 12345.5])
    f.set_infinity_io_flag(flag)
    cell = lambda r: r.choice([0, 1.5, INF, -INF, flag - 1, -flag + 1, 7])
    kc = lambda r: r.choice([1, 2, 3, INF, -INF, -4])
    d = rdat(rng, s, keycell=kc, cell=cell, nrows=(1, 4))
    fmt = rng.choice(["csv", "sql", "json", "sqltext", "xlsx"])
    rec.note((fmt, flag, s, d))
    dat = make(f, d)
    import tempfile
    p = tempfile.mkdtemp(dir=SCRATCH_DIR())
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        if fmt == "csv": f.csv.write_directory(dat, p, allow_overwrite=True); r = f.csv.create_tic_dat(p)
        elif fmt == "json": f.json.write_file(dat, os.path.join(p, "a.json")); r = f.json.create_tic_dat(os.path.join(p, "a.json"))
        elif fmt == "xlsx": f.xls.write_file(dat, os.path.join(p, "a.xlsx")); r = f.xls.create_tic_dat(os.path.join(p, "a.xlsx"))
        elif fmt == "sql": f.sql.write_db_data(dat, os.path.join(p, "a.db")); r = f.sql.create_tic_dat(os.path.join(p, "a.db"))
        else:
            f.sql.write_sql_file(dat, os.path.join(p, "a.sql")); r = f.sql.create_tic_dat_from_sql(os.path.join(p, "a.sql"))
    got = plain(s, r)
    for t in d:
        if isinstance(d[t], dict):
            need(set(d[t]) == set(got[t]), lambda: "keys of %s: %r became %r" % (t, list(d[t]), list(got[t])))
            for k in d[t]: need(all(d[t][k][x] == got[t][k][x] for x in d[t][k]), lambda: "row %r: %r became %r" % (k, d[t][k], got[t][k]))
        else:
            need(len(d[t]) == len(got[t]) and all(a[x] == b[x] for a, b in zip(d[t], got[t]) for x in a), lambda: "rows %r became %r" % (d[t], got[t]))


def SCRATCH_DIR():
    import lib
    return lib.SCRATCH
