from lib import *
from ticdat import TicDatFactory
import pandas as pd, datetime
from s_c23 import as_date, as_number, TEXTS as T0
TEXTS = T0 + ["5", "100", "1000", "-1000", "1000000", "999.5", "Inf", "-INF", "TRUE", "False", "FALSE", "truely", "1e2", "7.5", "foo", "None", "null", "Jan 3, 1999", "12", "9999999999999999", "-inf "]
NONE = object()


def case(rng):
    ty = rtype(rng) if rng.random() < .7 else None
    dv = rng.choice([NONE, 0, 5, None, "", "a", 2.5])
    flag = rng.choice(["N/A", "N/A", 1000, 999, 5, None])
    auto = rng.random() < .8
    key = rng.random() < .3
    par = rng.random() < .12
    if par and not key: ty, dv = None, NONE
    return ty, dv, flag, auto, key, par


def factory(ty, dv, flag, auto, key, par):
    t = "parameters" if par else "t"
    f = TicDatFactory(**{t: [["k"], ["x"]], "zz": [["a"], []]})
    fl = "k" if key else "x"
    if ty is not None: f.set_data_type(t, fl, **ty)
    if dv is not NONE: f.set_default_value(t, fl, dv)
    f.set_infinity_io_flag(flag); f.set_automunge_multitype_fields(auto)
    if par: f.add_parameter("p", 3)
    return f, t, fl


def norm(ty):
    """the settings the stored type works with: a date type accepts no other kind"""
    return None if ty is None else dict(ty, number_allowed=False, strings_allowed=(), must_be_int=False) if ty["datetime"] else ty


def bias(ty):
    if ty is None or not ty["number_allowed"] or ty["nullable"] or ty["datetime"]: return None
    p, m = valid(ty, INF), valid(ty, -INF)
    if p and m: return "refused"
    return 1 if p else -1 if m else None


def general(ty, flag, auto, par, x):
    if par: return x
    if ty is not None and ty["datetime"]:
        d = None if isnull(x) else as_date(x)
        if d is not None: return d
    if ty is not None and not ty["datetime"] and ty["strings_allowed"] and ty["number_allowed"] and auto and isinstance(x, str):
        n = as_number(x)
        x = x if n is None else n
    if isinstance(flag, (int, float)) and isinstance(x, (int, float)) and not isinstance(x, bool):
        if x >= flag: return INF
        if x <= -flag: return -INF
    if flag is None and x is None and bias(ty) in (1, -1): return INF * bias(ty)
    return x


def same(g, w, exact):
    if isinstance(w, datetime.datetime): return isinstance(g, datetime.datetime) and g == w
    if isinstance(w, (int, float)) and not isinstance(w, bool):
        return veq(g, w) and (not exact or type(g) is type(w))
    return veq(g, w)


def run(rng, rec, what, reader, texts, spec):
    ty, dv, flag, auto, key, par = case(rng)
    cells = [texts(rng) for _ in range(8)]
    rec.note((what, ty, None if dv is NONE else (dv,), flag, auto, key, par, cells))
    f, t, fl = factory(ty, dv, flag, auto, key, par)
    nt = norm(ty)
    d = dv if dv is not NONE else (NONE if key else 0)
    if flag is None and bias(nt) == "refused" and not par: return
    read = reader(f, t, fl)
    for x in cells:
        w = spec(nt, d, flag, auto, par, x)
        g = read(x)
        need(same(g, w, False), lambda: "%s: %r reads as %r, expected %r" % (what, x, g, w))
        need(not (isinstance(w, int) and not isinstance(w, bool) and abs(w) > 2**53) or g == w, "%r lost digits" % (x,))


def is_num(x): return isinstance(x, (int, float)) and not isinstance(x, bool)


@test(weight=6)
def csv_cells(rng, rec):
    def spec(ty, dv, flag, auto, par, x):
        if par: return x
        if x == "" and ((ty and ty["nullable"]) or (ty is None and dv is None) or (flag is None and bias(ty) in (1, -1))): return general(ty, flag, auto, par, None)
        if (ty and ty["number_allowed"] and not ty["datetime"]) or (ty is None and dv is not NONE and is_num(dv)):
            n = as_number(x)
            if n is not None:
                x = n
        return general(ty, flag, auto, par, x)
    run(rng, rec, "csv", lambda f, t, fl: lambda x: f.csv._read_cell(t, fl, x), lambda r: r.choice(TEXTS), spec)


def anycell(r):
    k = r.random()
    if k < .55: return r.choice(TEXTS)
    if k < .8: return r.choice([0, 1, 2.5, -3, 1000, 999.5, -1000, 1e6, 4.0, 10**12, 5, -5.0])
    if k < .9: return None
    return r.choice([INF, -INF, datetime.datetime(2020, 1, 2), True, False])


@test(weight=6)
def sqlite_cells(rng, rec):
    def spec(ty, dv, flag, auto, par, x):
        if isinstance(x, str) and x.lower() in ("inf", "-inf") and flag == "N/A" and not par: return float(x)
        if isinstance(x, str) and x.lower() in ("true", "false"): return x.lower() == "true"
        return general(ty, flag, auto, par, x)
    run(rng, rec, "SQLite", lambda f, t, fl: lambda x: f.sql._read_data_cell(t, fl, x), anycell, spec)


@test(weight=6)
def excel_cells(rng, rec):
    tiai = rng.random() < .8

    def spec(ty, dv, flag, auto, par, x):
        if x == "" and isinstance(x, str) and ((ty and ty["nullable"]) or (ty is None and dv is None)): return None
        if tiai and flag == "N/A" and not par and isinstance(x, str) and x.lower() in ("inf", "-inf"): return float(x)
        if x == "" and isinstance(x, str) and flag is None and not par and bias(ty) in (1, -1): return INF * bias(ty)
        if is_num(x) and ty and ty["must_be_int"] and abs(x) != INF and x == int(x): x = int(x)
        return general(ty, flag, auto, par, x)

    def reader(f, t, fl):
        pos = rng.randrange(4)
        rd = f.xls._sub_tuple(t, (fl,), {fl: pos, "zz": 0}, tiai, object())
        other = "x" if fl == "k" else "k"
        return lambda x: rd(["pad"] * pos + [x, "pad"])
    run(rng, rec, "Excel", reader, anycell, spec)


@test(weight=1)
def dates_in_excel_numbers(rng, rec):
    """a date number of an old Excel sheet becomes its date; other columns are placed by field order"""
    f = TicDatFactory(t=[["a", "b"], ["c"]])
    f.set_data_type("t", "b", datetime=True)

    class Sheet:
        def xldate_as_tuple_munge(self, x): return datetime.datetime(1899, 12, 30) + datetime.timedelta(days=x)
    n = rng.randrange(1, 60000)
    order = rng.sample(["a", "b", "c"], 3)
    rec.note((n, order))
    ix = {x: i for i, x in enumerate(order)}
    row = [None] * 3
    row[ix["a"]], row[ix["b"]], row[ix["c"]] = n, n, n
    got = f.xls._sub_tuple("t", ("a", "b"), ix, True, Sheet())(row)
    need(got == (n, datetime.datetime(1899, 12, 30) + datetime.timedelta(days=n)) and f.xls._sub_tuple("t", ("c",), ix, True, Sheet())(row) == n, lambda: "read %r" % (got,))
