from lib import *
from ticdat import TicDatFactory
from ticdat.utils import TicDatError
import io, contextlib
import pandas as pd


@test(weight=5)
def every_form_of_table(rng, rec):
    s = rschema(rng, types=0, defaults=.5, ntab=(1, 2), keyless=.2, fnames=[x for x in FNAMES if x != "name"])
    t = list(s.tables)[0]
    pk, df = s.pk(t), s.df(t)
    dupmode = rng.choice(["assert", "warn", "ignore"])
    kc = lambda r: r.choice([0, 1, 2, "a", "b", "c d"])
    n = rng.randint(0, 6)
    rows = []
    for _ in range(n): rows.append({f: (kc(rng) if f in pk else rng.choice([0, 1, "x", None, 2.5, -3])) for f in pk + df})
    f = build(s, TicDatFactory)
    f.set_duplicates_ticdat_init(dupmode)
    key = lambda r: r[pk[0]] if len(pk) == 1 else tuple(r[x] for x in pk)
    forms = ["lists", "dicts", "partial", "frame"] + (["keyed", "keyedlist", "assign"] if pk else ["append"])
    form = rng.choice(forms)
    dflt = lambda x: s.defaults.get((t, x), 0)
    rec.note((s, t, rows, form, dupmode))
    want_rows = [dict(r) for r in rows]
    lossy = bool(pk) and len({repr(key(r)) for r in rows}) < len(rows)
    if form == "lists": src = [list(r[x] for x in pk + df) if rng.random() < .5 else tuple(r[x] for x in pk + df) for r in rows]
    elif form == "dicts":
        src = []
        for r in rows:
            it = list(r.items()); rng.shuffle(it); src.append(dict(it))
    elif form == "partial":
        src = []
        for r, w in zip(rows, want_rows):
            drop = [x for x in df if rng.random() < .4]
            src.append({k: v for k, v in r.items() if k not in drop})
            for x in drop: w[x] = dflt(x)
    elif form == "frame":
        cols = list(pk + df); rng.shuffle(cols)
        src = pd.DataFrame({c: pd.Series([r[c] for r in rows], dtype=object) for c in cols})
        if rng.random() < .3 and df:
            x = rng.choice(df); src = src.drop(columns=[x])
            for w in want_rows: w[x] = dflt(x)
        if pk and rng.random() < .3: src = src.set_index(list(pk))
        src0 = src.copy(deep=True)
    elif form == "keyed" or form == "keyedlist":
        src = {}
        for r in rows: src[key(r)] = {x: r[x] for x in df} if form == "keyed" or len(df) != 1 or rng.random() < .5 else [r[x] for x in df]
        if form == "keyed" and df:
            for k in src:
                if rng.random() < .3:
                    x = rng.choice(df)
                    src[k].pop(x, None)
                    for w in want_rows:
                        if key(w) == k: w[x] = dflt(x)
        lossy = False
    if form == "partial" and not df: return
    if not df and form in ("lists", "dicts", "partial") and len(pk) == 1 and form == "lists": src = [r[pk[0]] for r in rows]
    fresh_keys = []
    if form in ("assign", "append"):
        dat = f.TicDat()
        for r in rows:
            v = {x: r[x] for x in df} if rng.random() < .5 else [r[x] for x in df]
            if form == "assign": getattr(dat, t)[key(r)] = v
            else: getattr(dat, t).append(v) if rng.random() < .7 else getattr(dat, t).insert(len(getattr(dat, t)), v)
        out = ""
    else:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            try:
                dat = f.TicDat(**{t: src})
            except AssertionError as e:
                need(lossy and dupmode == "assert", lambda: "assertion without duplicates or against the setting %s: %s" % (dupmode, e))
                return
        out = buf.getvalue()
        need(not (lossy and dupmode == "assert"), "duplicates were not an assertion failure")
        need(("duplicate" in out) == (lossy and dupmode == "warn"), lambda: "setting %s, duplicates %s, printed %r" % (dupmode, lossy, out))
    tb = getattr(dat, t)
    if pk:
        want = {}
        for w in want_rows: want[key(w)] = {x: w[x] for x in df}
        need(set(tb) == set(want), lambda: "keys %r, expected %r" % (list(tb), list(want)))
        def eq(k): return list(tb[k].keys()) == list(df) and all(veq(tb[k][x], want[k][x]) for x in df)
        if not lossy or form in ("assign",): need(all(eq(k) for k in want), lambda: "rows %r, expected %r" % (dict(tb), want))
        else: need(all(any(all(veq(tb[k][x], w[x]) for x in df) for w in want_rows if key(w) == k) for k in want), "a row of no input row")
    else:
        need(len(tb) == len(want_rows) and all(list(r.keys()) == list(df) and all(veq(r[x], w[x]) for x in df) for r, w in zip(tb, want_rows)),
             lambda: "rows %r, expected %r" % (list(tb), want_rows))
    if form == "frame": need(src.equals(src0) and list(src.columns) == list(src0.columns), "the DataFrame given was changed")
    for o in s.tables:
        if o != t: need(len(getattr(dat, o)) == 0, "a table not given is not empty")


@test(weight=4)
def bad_keys_and_tables_refused(rng, rec):
    s = rschema(rng, types=0, defaults=0, ntab=(1, 2), keyless=0)
    t = list(s.tables)[0]
    pk, df = s.pk(t), s.df(t)
    f = build(s, TicDatFactory)
    row = {x: 1 for x in df}
    n = rng.choice([k for k in (1, 2, 3, 4) if k != len(pk)])
    bad = 1 if n == 1 else tuple(range(n))
    dat = f.TicDat()
    rec.note((s, bad))
    need(isinstance(raises(lambda: getattr(dat, t).__setitem__(bad, row)), TicDatError), "key %r accepted for primary key %r" % (bad, pk))
    need(bad not in getattr(dat, t), "refused key stored")
    e = raises(lambda: f.TicDat(**{t: {bad: row}}))
    need(isinstance(e, TicDatError), lambda: "table with key %r accepted for primary key %r (%r)" % (bad, pk, e))
    need(isinstance(raises(lambda: f.TicDat(nosuchtable={})), TicDatError), "unexpected table accepted")
    k = 1 if len(pk) == 1 else tuple(range(len(pk)))
    need(isinstance(raises(lambda: f.TicDat(**{t: {k: dict(row, nosuch=1)}})), TicDatError), "unexpected field accepted")
    need(isinstance(raises(lambda: f.TicDat(**{t: [list(range(len(pk) + len(df) + 1))]})), (TicDatError,)), "row list of the wrong length accepted")


@test(weight=2)
def missing_key_makes_default_row(rng, rec):
    s = rschema(rng, types=0, defaults=.6, ntab=(1, 1), keyless=0)
    t = list(s.tables)[0]
    f = build(s, TicDatFactory)
    dat = f.TicDat()
    k = 5 if len(s.pk(t)) == 1 else tuple(range(len(s.pk(t))))
    rec.note((s, k))
    r = getattr(dat, t)[k]
    need(dict(r) == {x: s.defaults.get((t, x), 0) for x in s.df(t)} and list(getattr(dat, t)) == [k], "implicit row %r" % (dict(r),))


@test
def pickled_dictionary_round_trip(rng, rec):
    s = rschema(rng, types=0)
    d = rdat(rng, s)
    f = build(s, TicDatFactory)
    rec.note((s, d))
    dat = make(f, d)
    need(same_plain(plain(s, dat), d), lambda: "stored %s, given %s" % (short(plain(s, dat)), short(d)))
    need(same_plain(plain(s, f.TicDat(**f.as_dict(dat))), d), "as_dict does not rebuild the data")


@test(weight=1)
def generator_tables_are_not_duplicates(rng, rec):
    f = TicDatFactory(g=[[], ["a", "b"]], t=[["k"], ["x"]])
    f.set_generator_tables(["g"])
    mode = rng.choice(["assert", "warn", "ignore"])
    f.set_duplicates_ticdat_init(mode)
    rows = [[rng.choice([1, 2]), 0] for _ in range(rng.randrange(4))]
    form = rng.choice(["list", "tuple", "call"])
    rec.note((mode, rows, form))
    dat = f.TicDat(g=rows if form == "list" else tuple(rows) if form == "tuple" else (lambda: rows), t={1: 2})
    need([list(r) if not hasattr(r, "values") else list(r.values()) for r in dat.g()] == rows, "rows of the generator table")
