from lib import *
from ticdat import TicDatFactory, PanDatFactory
import pandas as pd, datetime
TEXTS = ["1", "2.0", "-3", "1e3", "0.5", "abc", "", "12345678901234567890", "9007199254740993", "inf", "-inf", "nan", "true", "2020-01-01", "2021-03-04 05:06:07", "1_0", " 7 ", "1,5",
         "x y", "None", "1e400", "-0.0", "00012", "0x10"]
DTEXT = ["2020-01-01", "2021-03-04 05:06:07", "Jan 3, 1999"]


def as_date(x):
    """the date a text or date value stands for, or None"""
    import dateutil.parser
    if isinstance(x, datetime.datetime): return x
    if not isinstance(x, str): return None
    for p in (pd.Timestamp, dateutil.parser.parse):
        try: r = p(x)
        except Exception: continue
        if r is not None and not isnull(r): return r
    return None


def as_number(x):
    """the number a text reads as: integers exactly, integral values as integers; None if it is no number"""
    try: v = float(x)
    except (ValueError, OverflowError): return None
    try: return int(x)
    except (ValueError, OverflowError): pass
    if math.isnan(v) or math.isinf(v): return v
    return int(v) if v == int(v) else v


def declare(rng, f, kinds=("untyped", "number", "integer", "text", "both", "date", "none")):
    decl = {}
    for p in rng.sample(["p", "q", "r", "Some param", "s s", "in_stock"], rng.randint(1, 5)):
        k = rng.choice(kinds)
        null = rng.random() < .3
        if k == "untyped": dv = rng.choice([1, "a", None, 2.5, "2020-01-01"]); f.add_parameter(p, dv, enforce_type_rules=False)
        elif k == "number": dv = rng.choice([1, 2.5, 0]); f.add_parameter(p, dv, number_allowed=True, strings_allowed=(), nullable=null)
        elif k == "integer": dv = rng.choice([1, 7]); f.add_parameter(p, dv, must_be_int=True, nullable=null)
        elif k == "text": dv = rng.choice(["a", "1", "2020-01-01"]); f.add_parameter(p, dv, number_allowed=False, strings_allowed="*", nullable=null)
        elif k == "both": dv = rng.choice(["a", 3]); f.add_parameter(p, dv, number_allowed=True, strings_allowed="*", nullable=null)
        elif k == "date":
            dv = rng.choice(DTEXT + [datetime.datetime(2000, 1, 2)] + ([None] if null else [])); f.add_parameter(p, dv, datetime=True, nullable=null)
        else: dv = None; f.add_parameter(p, dv, number_allowed=False, strings_allowed=["a", "b"], nullable=True); null = True
        decl[p] = (k, dv, null)
    return decl


@test(weight=4)
def full_dictionary(rng, rec):
    cls = rng.choice([TicDatFactory, PanDatFactory])
    kf, vf = rng.choice([("Key", "Value"), ("name", "val")])
    f = cls(parameters=[[kf], [vf]], t=[["a"], []])
    decl = declare(rng, f)
    ks = rng.sample(list(decl) + ["other", "P", "zzz"], rng.randint(0, len(decl) + 3))
    tab = {k: rng.choice([5, "z", 1.5, "2020-01-01", True, datetime.datetime(2001, 1, 1), 0, "", False] + [None] * (cls is TicDatFactory)) for k in ks}
    rec.note((cls.__name__, decl, tab))
    if cls is TicDatFactory: dat = f.TicDat(parameters={k: {vf: v} for k, v in tab.items()})
    else:
        df = pd.DataFrame({kf: list(tab), vf: pd.Series(list(tab.values()), dtype=object)})
        if rng.random() < .3: df = df[[vf, kf]]
        if rng.random() < .3: df["more"] = 3
        dat = f.PanDat(parameters=df)
    got = f.create_full_parameters_dict(dat)
    want = {}
    for p, (k, dv, null) in decl.items():
        d = as_date(dv) if k == "date" else None
        want[p] = d if d is not None else dv
    want.update(tab)
    need(set(got) == set(want), lambda: "entries %r, expected %r" % (got, want))
    for k in want: need(veq(got[k], want[k]) or (isinstance(want[k], datetime.datetime) and isinstance(got[k], datetime.datetime) and got[k] == want[k]), lambda: "%r is %r, expected %r" % (k, got[k], want[k]))


def typed(decl, k, v):
    kind, null = (decl[k][0], decl[k][2]) if k in decl else ("untyped", False)
    if v == "" and null and kind in ("number", "integer", "date", "none"): return None
    if kind == "date":
        d = as_date(v)
        return v if d is None else d
    if kind in ("text", "none"): return v
    n = as_number(v)
    return v if n is None else n


@test(weight=4)
def typing_on_reading(rng, rec):
    vf = rng.choice(["Value", "val"])
    f = TicDatFactory(parameters=[["Key"], [vf]], t=[["a"], ["b"]])
    decl = declare(rng, f)
    tab = {k: rng.choice(TEXTS) for k in rng.sample(list(decl) + ["other", "1", "2020-01-01"], rng.randint(1, len(decl) + 3))}
    rec.note((decl, tab))
    dat = f.TicDat(parameters={k: {vf: v} for k, v in tab.items()}, t={"1": "1"})
    got = f._parameter_table_post_read_adjustment(dat)
    need(got is dat, "another object is returned")
    need(list(dat.parameters) == list(tab) and dict(dat.t["1"]) == {"b": "1"}, lambda: "names or other tables changed: %r" % (list(dat.parameters),))
    for k, v in tab.items():
        w, g = typed(decl, k, v), dat.parameters[k][vf]
        need(veq(g, w) and type(g) in (type(w), type(pd.Timestamp(0)) if isinstance(w, datetime.datetime) else type(w)), lambda: "%r of %r reads as %r, expected %r" % (v, decl.get(k), g, w))


@test(weight=4)
def typing_on_reading_frames(rng, rec):
    f = PanDatFactory(parameters=[["Key"], ["Value"]], t=[["a"], ["b"]])
    decl = declare(rng, f)
    tab = {k: rng.choice(TEXTS) for k in rng.sample(list(decl) + ["other", "1", "2020-01-01"], rng.randint(1, len(decl) + 3))}
    tab = {k: v for k, v in tab.items() if not (k in decl and decl[k][0] == "date" and v in ("inf", "-inf", "nan", "", "1e400"))}
    rec.note((decl, tab))
    dat = f.PanDat(parameters=pd.DataFrame({"Key": list(tab), "Value": list(tab.values())}, dtype=object), t=pd.DataFrame({"a": ["1"], "b": ["1"]}))
    dat.parameters = dat.parameters.astype(object)
    f._general_post_read_adjustment(dat, push_parameters_to_be_valid=True)
    need(list(dat.parameters["Key"]) == list(tab) and dat.t.values.tolist() == [["1", "1"]], "names or other tables changed")
    for k, g in zip(dat.parameters["Key"], dat.parameters["Value"]):
        v = tab[k]
        if v == "": continue
        kind = decl.get(k, ("untyped", None, None))[0]
        w = typed(decl, k, v)
        need((isnull(w) and isnull(g)) or veq(g, w) or (g == w and not isinstance(w, str)) or (isinstance(w, int) and abs(w) > 2**53 and isinstance(g, float) and g == float(w)), lambda: "%r of %r reads as %r, expected %r" % (v, decl.get(k), g, w))


@test(weight=1)
def through_files(rng, rec):
    import tempfile, shutil
    cls = rng.choice([TicDatFactory, PanDatFactory])
    f = cls(parameters=[["Key"], ["Value"]])
    decl = declare(rng, f, ("number", "integer", "text", "date", "both"))
    pick = {"number": [1, 2.5, -7, 10**12, INF], "integer": [3, 10], "text": ["a b", "1", "2020-01-01", "x,y"], "date": [pd.Timestamp(2020, 1, 2), pd.Timestamp(1999, 5, 6, 7, 8, 9)], "both": ["abc", 5, 2.5]}
    tab = {k: rng.choice(pick[decl[k][0]]) for k in decl}
    fmt = rng.choice(["csv", "json", "sql", "xls"])
    if any(v == INF for v in tab.values() if not isinstance(v, str)) and cls is PanDatFactory and fmt == "json": return
    rec.note((cls.__name__, fmt, decl, tab))
    dat = f.TicDat(parameters={k: {"Value": v} for k, v in tab.items()}) if cls is TicDatFactory else f.PanDat(parameters=pd.DataFrame({"Key": list(tab), "Value": pd.Series(list(tab.values()), dtype=object)}))
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        p = os.path.join(d, {"csv": "c", "json": "a.json", "sql": "a.db", "xls": "a.xlsx"}[fmt])
        w = getattr(f, fmt)
        if fmt == "csv": w.write_directory(dat, p)
        elif fmt == "sql" and cls is TicDatFactory: w.write_db_schema(p); w.write_db_data(dat, p)
        else: w.write_file(dat, p)
        r = (w.create_tic_dat if cls is TicDatFactory else w.create_pan_dat)(p)
    finally: shutil.rmtree(d)
    got = f.create_full_parameters_dict(r)
    need(set(got) == set(tab), "entries %r" % (got,))
    for k, v in tab.items():
        need((got[k] == v) and isinstance(got[k], str) == isinstance(v, str) and isinstance(got[k], datetime.datetime) == isinstance(v, datetime.datetime), lambda: "%s: %r came back as %r" % (k, v, got[k]))
