from lib import *
from ticdat import TicDatFactory, PanDatFactory, freeze_me
from ticdat.utils import deep_copy, deep_freeze, FrozenDict
import pandas as pd
FN = [x for x in FNAMES if x != "name"]      # the class refuses DataFrames for tables with a field of that name


def add_generic(rng, s):
    """names of generic tables to put beside the schema"""
    return [g for g in ("gen_a", "gen_b") if rng.random() < .35]


def bld(s, cls, gens):
    f = cls(**dict({t: [list(p), list(d)] for t, (p, d) in s.tables.items()}, **{g: "*" for g in gens}))
    for (t, fl), d in s.defaults.items(): f.set_default_value(t, fl, d)
    for a, b, m in s.fks: f.add_foreign_key(a, b, m[0] if len(m) == 1 else m)
    return f


def frame(rng):
    n = rng.randint(0, 4)
    return pd.DataFrame({c: [rng.choice([1, 2.5, "a", 7]) for _ in range(n)] for c in rng.sample(["x", "y", "z"], rng.randint(1, 3))})


def everything(s, gens, dat):
    return plain(s, dat), {g: getattr(dat, g).to_dict("split") for g in gens}


def same_all(a, b): return same_plain(a[0], b[0]) and repr(a[1]) == repr(b[1])


def vandalise(rng, s, gens, dat):
    """change everything reachable, in random order"""
    ts = list(s.tables); rng.shuffle(ts)
    for t in ts:
        tb = getattr(dat, t)
        rs = list(tb.values()) if s.pk(t) else list(tb)
        for r in rs:
            if s.df(t) and rng.random() < .8: r[rng.choice(s.df(t))] = "vandal"
        k = rng.random()
        if s.pk(t):
            if rs and k < .3: tb.pop(next(iter(tb)))
            elif k < .5: tb["vandal" if len(s.pk(t)) == 1 else ("vandal",) * len(s.pk(t))] = {}
            elif k < .6: tb.clear()
        else:
            if rs and k < .3: del tb[0]
            elif k < .6: tb.append({f: "vandal" for f in s.df(t)})
    for g in gens:
        df = getattr(dat, g)
        if len(df): df.iloc[:, 0] = df.iloc[:, 0].astype(object); df.iloc[0, 0] = "vandal"; df.loc[df.index[0], df.columns[-1]] = -99
        df["new"] = 3


def vandalise_frame(rng, df):
    if len(df):
        for j in range(df.shape[1]):
            if rng.random() < .7:
                v = df.values if rng.random() < .3 else None
                df.iloc[rng.randrange(len(df)), j] = -77 if pd.api.types.is_numeric_dtype(df.dtypes.iloc[j]) and not pd.api.types.is_bool_dtype(df.dtypes.iloc[j]) else df.iloc[rng.randrange(len(df)), j]
                if v is not None:
                    try: v[0, j] = -77
                    except (ValueError, TypeError): pass
        if rng.random() < .3: df.drop(df.index[0], inplace=True)
    df["new"] = 1


@test(weight=4)
def copy_rows(rng, rec):
    s = rschema(rng, fks=2); gens = add_generic(rng, s)
    f = bld(s, TicDatFactory, gens)
    d = rdat(rng, s)
    g = {x: frame(rng) for x in gens}
    dat = f.TicDat(**dict({t: (dict((k, dict(r)) for k, r in v.items()) if isinstance(v, dict) else [dict(r) for r in v]) for t, v in d.items()}, **g))
    frozen, frz_orig = rng.random() < .2, rng.random() < .2
    if frz_orig: freeze_me(dat)
    rec.note((s, gens, d, frozen, frz_orig))
    before = everything(s, gens, dat)
    way = rng.random()
    c = f.copy_tic_dat(dat, freeze_it=frozen) if way < .7 else f.TicDat(**{t: getattr(dat, t) for t in f.all_tables})
    need(same_all(everything(s, gens, c), before), lambda: "the copy differs: %r" % (everything(s, gens, c),))
    need(same_all(everything(s, gens, dat), before), "copying changed the original")
    if not (frozen and way < .7):
        vandalise(rng, s, gens, c)
        need(same_all(everything(s, gens, dat), before), lambda: "changing the copy changed the original: %r" % (everything(s, gens, dat),))
        c = f.copy_tic_dat(dat)
    if not frz_orig:
        vandalise(rng, s, gens, dat)
        need(same_all(everything(s, gens, c), before), "changing the original changed the copy")


def cell(rng):
    r = rng.random()
    return rng.choice(["a", "b c", "", "1", "x,y", "nan"]) if r < .4 else rng.choice([0, 1, 2, 5, 2.5, -1, INF, 10**9]) if r < .85 else rng.choice([True, False, None, NAN])


def key(rng): return rng.choice([0, 1, 2, 3, 2.5, "a", "b", "", "c d"])


def same_loose(s, a, b):
    """equal up to None/NaN and the order of dictionary tables"""
    for t in s.tables:
        if s.pk(t):
            if len(a[t]) != len(b[t]) or set(a[t]) != set(b[t]): return False
            prs = [(a[t][k], b[t][k]) for k in a[t]]
        else:
            if len(a[t]) != len(b[t]): return False
            prs = list(zip(a[t], b[t]))
        for x, y in prs:
            if list(x) != list(y): return False
            for f in x:
                if isnull(x[f]) and isnull(y[f]): continue
                if isinstance(x[f], str) != isinstance(y[f], str) or x[f] != y[f]: return False
    return True


@test(weight=2)
def to_frames_and_back(rng, rec):
    s = rschema(rng, types=0, defaults=.2, fnames=FN); gens = add_generic(rng, s)
    f = bld(s, TicDatFactory, gens)
    d = rdat(rng, s, keycell=key, cell=cell)
    g = {x: frame(rng) for x in gens}
    dat = f.TicDat(**dict({t: (dict((k, dict(r)) for k, r in v.items()) if isinstance(v, dict) else [dict(r) for r in v]) for t, v in d.items()}, **g))
    way = rng.choice(["default", "nodrop", "drop", "reset"])
    if rng.random() < .3: freeze_me(dat)
    rec.note((s, gens, d, way))
    before = everything(s, gens, dat)
    kw = {"default": {}, "nodrop": {"drop_pk_columns": False}, "drop": {"drop_pk_columns": True}, "reset": {"reset_index": True}}[way]
    if way == "drop" and any(not s.df(t) for t in s.tables): kw = {}
    p = f.copy_to_pandas(dat, **kw)
    need(same_all(everything(s, gens, dat), before), "the conversion changed its input")
    for t in s.tables:
        df = getattr(p, t); need(len(df) == len(d[t]), lambda: "frame of %s has %d rows for %d" % (t, len(df), len(d[t])))
    for x in gens: need(isinstance(getattr(p, x), pd.DataFrame) and getattr(p, x).equals(getattr(dat, x)), "generic table %s is not the same DataFrame" % x)
    frames = {t: getattr(p, t) for t in list(s.tables) + gens}
    back = f.TicDat(**frames)
    need(same_loose(s, plain(s, back), d), lambda: "back: %r" % plain(s, back))
    if way in ("nodrop", "reset"):
        pf = bld(s, PanDatFactory, gens)
        fr = {t: x.reset_index(drop=True) for t, x in frames.items()}
        pan = pf.PanDat(**fr)
        need(pf.good_pan_dat_object(pan), "not a good pan dat object")
        back2 = pf.copy_to_tic_dat(pan)
        need(same_loose(s, plain(s, back2), d), lambda: "copy_to_tic_dat: %r" % plain(s, back2))
        for t in s.tables: need(list(getattr(pan, t).columns) == list(s.fields(t)), "columns of %s" % t)
    for t in frames: vandalise_frame(rng, frames[t])
    need(same_all(everything(s, gens, dat), before), "changing the frames changed the original")
    need(same_loose(s, plain(s, back), d), "changing the frames changed the converted copy")


@test(weight=2)
def copy_frames(rng, rec):
    s = rschema(rng, types=0, defaults=.2, fnames=FN); gens = add_generic(rng, s)
    f = bld(s, PanDatFactory, gens)
    d = {t: [[cell(rng) for _ in s.fields(t)] for _ in range(rng.randint(0, 4))] for t in s.tables}
    frames = {}
    for t in s.tables:
        df = pd.DataFrame(d[t], columns=list(s.fields(t)))
        if rng.random() < .3: df = df[rng.sample(list(df.columns), df.shape[1])]
        if rng.random() < .2: df["extra"] = 1
        if rng.random() < .2: df.index = [3 * i for i in range(len(df))]
        frames[t] = df
    frames.update({x: frame(rng) for x in gens})
    rec.note((s, gens, d))
    src = {t: x.copy(deep=True) for t, x in frames.items()}
    dat = f.PanDat(**frames)
    for t in s.tables: need(dat.__dict__[t][list(s.fields(t))].equals(src[t][list(s.fields(t))]), "content of %s after construction" % t)
    ref = {t: getattr(dat, t).copy(deep=True) for t in f.all_tables}
    for t in frames: vandalise_frame(rng, frames[t])
    for t in ref: need(getattr(dat, t).equals(ref[t]), "the data object shares %s with the frame it was made from" % t)
    c = f.copy_pan_dat(dat)
    for t in ref: need(getattr(c, t).equals(ref[t]) and list(getattr(c, t).columns) == list(ref[t].columns), "copy of %s differs" % t)
    for t in ref: vandalise_frame(rng, getattr(c, t))
    for t in ref: need(getattr(dat, t).equals(ref[t]), "changing the copy changed %s" % t)
    c = f.copy_pan_dat(dat)
    for t in ref: vandalise_frame(rng, getattr(dat, t))
    for t in ref: need(getattr(c, t).equals(ref[t]), "changing the original changed the copy of %s" % t)
    clean = f.PanDat(**{t: x.drop(columns=["extra"], errors="ignore") for t, x in ref.items()})
    keep = {t: getattr(clean, t).copy(deep=True) for t in ref}
    if all(s.pk(t) == () or not ref[t][list(s.pk(t))].duplicated().any() and not ref[t][list(s.pk(t))].isnull().any().any() for t in s.tables):
        td = f.copy_to_tic_dat(clean)
        before = plain(s, td)
        for t in ref:
            need(getattr(clean, t).equals(keep[t]), "the conversion changed its input")
            vandalise_frame(rng, getattr(clean, t))
        need(same_plain(plain(s, td), before), "changing the frames changed the row tables")
        for t in s.tables:
            exp = [dict(zip(s.fields(t), r)) for r in src[t][list(s.fields(t))].values.tolist()]
            got = [r for _, r in full_rows(s, before, t)]
            need(len(exp) == len(got) and all(all(isnull(x[q]) and isnull(y[q]) or x[q] == y[q] for q in x) for x, y in zip(exp, got)), lambda: "%s: %r from %r" % (t, got, exp))


def nested(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < .35: return rng.choice([1, 2.5, "a", None, True, "", INF])
    n = rng.randint(0, 3)
    if r < .55: return [nested(rng, depth + 1) for _ in range(n)]
    if r < .65: return tuple(nested(rng, depth + 1) for _ in range(n))
    if r < .72: return {rng.choice("abc") for _ in range(n)}
    if r < .76: return frozenset(rng.choice("abc") for _ in range(n))
    d = {rng.choice(["a", "b", 1, ("x", 2)]): nested(rng, depth + 1) for _ in range(n)}
    return FrozenDict(d) if rng.random() < .25 else d


def spoil(x):
    if isinstance(x, list):
        for y in x: spoil(y)
        x.append("spoilt")
    elif isinstance(x, set): x.add("spoilt")
    elif isinstance(x, dict):
        for y in list(x.values()): spoil(y)
        if not isinstance(x, FrozenDict): x["spoilt"] = 1
    elif isinstance(x, (tuple,)):
        for y in x: spoil(y)


@test(weight=20)
def deep_copies(rng, rec):
    x = nested(rng)
    rec.note(repr(x))
    r = repr(x)
    c = deep_copy(x)
    need(c == x, lambda: "%r copied as %r" % (x, c))
    def kinds(a, b):
        if isinstance(a, dict): return isinstance(b, dict) and not isinstance(b, FrozenDict) and all(kinds(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)): return type(a) is type(b) and all(map(kinds, a, b))
        return type(a) is type(b)
    need(kinds(x, c), lambda: "%r copied with other kinds %r" % (x, c))
    spoil(c)
    need(repr(x) == r, lambda: "changing the copy changed the original: %r" % (x,))
    c = deep_copy(x); rc = repr(c)
    spoil(x)
    need(repr(c) == rc, "changing the original changed the copy")


@test(weight=1)
def deep_copy_factory(rng, rec):
    s = rschema(rng, fks=2)
    f = build(s, rng.choice([TicDatFactory, PanDatFactory]))
    rec.note(s)
    st = schema_state(f)
    c = deep_copy({"f": [f]})["f"][0]
    def canon(x):
        if isinstance(x, dict): return {k: sorted(map(repr, map(canon, v))) if k == "foreign_keys" else canon(v) for k, v in x.items()}
        return [canon(y) for y in x] if isinstance(x, (list, tuple)) else x
    need(type(c) is type(f) and canon(c.schema(True)) == canon(f.schema(True)), lambda: "the copy of the factory differs: %r %r" % (canon(c.schema(True)), canon(f.schema(True))))
    t = rng.choice(list(s.tables)); c.set_default_value(t, rng.choice(s.fields(t)), "other")
    c.clear_foreign_keys()
    need(schema_state(f) == st, "changing the copied factory changed the original")
    if s.types:
        t, fl = next(iter(s.types))
        sch = f.schema(include_ancillary_info=True)
        x = deep_copy(sch); spoil(x)
        need(schema_state(f) == st, "changing a copied description changed the factory")
