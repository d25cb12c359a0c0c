from lib import *
from ticdat import PanDatFactory
import pandas as pd, datetime


def frames(rng, s, cell, keycell=None, nrows=(0, 6), extra=True):
    """{t: DataFrame} with unusual indexes and, sometimes, columns the schema does not mention"""
    out = {}
    for t in s.tables:
        n = rng.randint(*nrows)
        cols = list(s.fields(t))
        pools = {c: rng.random() < .3 for c in cols}
        rows = []
        for _ in range(n):
            rows.append([keycell(rng) if (keycell and c in s.pk(t)) else rrow_cell(rng, s, t, c, cell) for c in cols])
        df = pd.DataFrame(rows, columns=cols)
        if rng.random() < .3: df = df.astype(object)
        if extra and rng.random() < .3: df["other col"] = range(len(df))
        if extra and rng.random() < .15: df["_0_"] = True
        k = rng.random()
        if k < .15: df.index = [rng.choice([0, 1]) for _ in range(len(df))]
        elif k < .3: df.index = ["r%d" % (5 - i) for i in range(len(df))]
        elif k < .4: df = df.iloc[::-1]
        out[t] = df
    return out


def make_pan(rng, f, dfs):
    if rng.random() < .3:
        dat = f.PanDat()
        for t, df in dfs.items(): setattr(dat, t, df.copy(deep=True))
        return dat
    return f.PanDat(**{t: df.copy(deep=True) for t, df in dfs.items()})


def rows_of(df):
    cols = list(df.columns)
    return [dict(zip(cols, r)) for r in df.itertuples(index=False, name=None)]


def cells(df): return [[("null",) if isnull(x) else (isinstance(x, bool), x) for x in r] for r in df.itertuples(index=False, name=None)]


def frame_same(a, b): return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and cells(a) == cells(b)


def untouched(dat, before): need(all(frame_same(getattr(dat, t), df) for t, df in before.items()), "the data was altered")


def snapshot(s, dat): return {t: getattr(dat, t).copy(deep=True) for t in s.tables}


def okfun(s, t, f):
    ty = s.types.get((t, f))
    if ty is None:
        return (lambda x: not isnull(x)) if f in s.pk(t) else None
    return lambda x: valid(ty, None if isnull(x) else x)


def type_oracle(s, dat):
    out = {}
    for t in s.tables:
        rs = rows_of(getattr(dat, t))
        for fl in s.fields(t):
            ok = okfun(s, t, fl)
            if ok is None: continue
            m = [not ok(r[fl]) for r in rs]
            if any(m): out[t, fl] = m
    return out


def agree(dat, got_mask, got_table, want, what):
    need({tuple(k)[:2] for k in got_mask} == set(want), lambda: "%s: reported %s, expected %s" % (what, sorted(map(str, got_mask)), sorted(map(str, want))))
    for k, v in got_mask.items():
        need(list(map(bool, v)) == want[tuple(k)[:2]], lambda: "%s %s: rows %r, expected %r" % (what, tuple(k), list(v), want[tuple(k)[:2]]))
    need(set(got_table) == set(got_mask), "%s: the row report and the mask report differ" % what)
    for k, v in got_table.items():
        src = getattr(dat, k[0]); m = want[tuple(k)[:2]]
        need(cells(v[list(src.columns)]) == [r for r, b in zip(cells(src), m) if b], lambda: "%s %s: table of rows is %r" % (what, tuple(k), v))


@test(weight=5)
def type_failures(rng, rec):
    s = rschema(rng, types=.6)
    f = build(s, PanDatFactory)
    dat = make_pan(rng, f, frames(rng, s, rcell, rkeycell))
    before = snapshot(s, dat); rec.note((s, {t: d.to_dict("split") for t, d in before.items()}))
    want = type_oracle(s, dat)
    agree(dat, f.find_data_type_failures(dat, as_table=False), f.find_data_type_failures(dat), want, "types")
    total = sum(map(sum, want.values()))
    lim = rng.choice([1, 2, 3, total or 1, total + 1])
    n = 0
    for k, v in f.find_data_type_failures(dat, as_table=False, max_failures=lim).items():
        need(tuple(k) in want and all(not g or w for g, w in zip(v, want[tuple(k)])), "limited report lists good rows"); n += sum(map(bool, v))
    need(n >= min(lim, total), "limit %s of %s failures, only %s reported" % (lim, total, n))
    untouched(dat, before)


@test(weight=5)
def type_repair(rng, rec):
    s = rschema(rng, types=.7, defaults=.5)
    f = build(s, PanDatFactory)
    dat = make_pan(rng, f, frames(rng, s, rcell, rkeycell))
    before = snapshot(s, dat)
    want = type_oracle(s, dat)
    repl = {}
    for t in s.tables:
        for fl in s.fields(t):
            if rng.random() < .3:
                ty = s.types.get((t, fl), PK_DEFAULT)
                v = next((x for x in [rcell(rng) for _ in range(8)] if valid(ty, x)), None)
                repl[t, fl] = v if rng.random() < .9 else rcell(rng)
    bogus = rng.random() < .1
    if bogus: repl[("nosuch", "x") if rng.random() < .5 else (next(iter(s.tables)), "no such field")] = 1
    rec.note((s, {t: d.to_dict("split") for t, d in before.items()}, repl))
    use = {}
    for (t, fl) in want:
        if (t, fl) in repl: use[t, fl] = repl[t, fl]
        elif (t, fl) in s.defaults: use[t, fl] = s.defaults[t, fl]
        elif fl in s.df(t): use[t, fl] = 0
    bad = bogus or any(not okfun(s, t, fl)(v) for (t, fl), v in use.items())
    if bad:
        e = raises(lambda: f.replace_data_type_failures(dat, repl))
        need(e is not None, lambda: "replacements %r (needed %r) accepted" % (repl, use))
        untouched(dat, before); return
    r = f.replace_data_type_failures(dat, repl) if repl or rng.random() < .5 else f.replace_data_type_failures(dat)
    need(r is dat, "the repaired object is not the argument")
    for t in s.tables:
        df, b = getattr(dat, t), before[t]
        need(list(df.columns) == list(b.columns) and list(df.index) == list(b.index), "columns or index changed")
        exp = rows_of(b)
        for fl in s.fields(t):
            if (t, fl) in use:
                for m, row in zip(want[t, fl], exp):
                    if m: row[fl] = use[t, fl]
        got = rows_of(df)
        for g, w in zip(got, exp):
            need(all((isnull(g[c]) and isnull(w[c])) or (not isnull(g[c]) and not isnull(w[c]) and g[c] == w[c]) for c in w), lambda: "%s: row %r should be %r" % (t, g, w))


def fk_oracle(s, dat):
    out = {}
    null = lambda x: ("null",) if isnull(x) else x
    for a, b, m in s.fks:
        ps = {tuple(null(r[y]) for _, y in m) for r in rows_of(getattr(dat, b))}
        mask = [tuple(null(r[x]) for x, _ in m) not in ps for r in rows_of(getattr(dat, a))]
        if any(mask): out[a, b, frozenset(m)] = mask
    return out


def fkkey(k):
    m = k.mapping
    return k.native_table, k.foreign_table, frozenset([tuple(m)] if hasattr(m, "native_field") else map(tuple, m))


@test(weight=5)
def foreign_key_failures(rng, rec):
    names = rng.sample(FNAMES, 6) if rng.random() < .6 else FNAMES
    s = rschema(rng, types=0, fks=4, fnames=names)
    if not s.fks: return
    f = build(s, PanDatFactory)
    mode = rng.choice(["int", "str", "mix", "intnull"])
    kc = {"int": lambda r: r.randrange(3), "str": lambda r: r.choice("abc"), "mix": lambda r: r.choice([0, 1, "a", "b"]), "intnull": lambda r: r.choice([0, 1, 2, None] if r.random() < .2 else [0, 1, 2])}[mode]
    dfs = frames(rng, s, kc, kc)
    if mode == "intnull": dfs = {t: df.astype({c: float for c in s.fields(t)}) for t, df in dfs.items()}
    dat = make_pan(rng, f, dfs)
    before = snapshot(s, dat); rec.note((s, {t: d.to_dict("split") for t, d in before.items()}))
    want = fk_oracle(s, dat)
    got = f.find_foreign_key_failures(dat, as_table=False)
    need({fkkey(k) for k in got} == set(want), lambda: "reported %s, expected %s" % ([fkkey(k) for k in got], list(want)))
    for k, v in got.items(): need(list(map(bool, v)) == want[fkkey(k)], lambda: "%s: %r, expected %r" % (fkkey(k), v, want[fkkey(k)]))
    tb = f.find_foreign_key_failures(dat)
    need(set(tb) == set(got), "row report and mask report differ")
    for k, v in tb.items():
        src = getattr(dat, k.native_table)
        need(cells(v[list(src.columns)]) == [r for r, b in zip(cells(src), want[fkkey(k)]) if b], "rows reported differ from the failing rows")
    total = sum(map(sum, want.values()))
    lim, n = rng.choice([1, 2, 3, total or 1, total + 1]), 0
    for k, v in f.find_foreign_key_failures(dat, as_table=False, max_failures=lim).items():
        need(fkkey(k) in want and all(not g or w for g, w in zip(v, want[fkkey(k)])), "limited report lists good rows"); n += sum(map(bool, v))
    need(n >= min(lim, total), "limit %s of %s failures, only %s reported" % (lim, total, n))
    untouched(dat, before)
    # removal
    need(f.remove_foreign_key_failures(dat) is dat, "removal returns another object")
    cur = snapshot(s, f.PanDat(**before)) if False else {t: df.copy(deep=True) for t, df in before.items()}
    class D: pass
    o = D()
    for t, df in cur.items(): setattr(o, t, df)
    while True:
        w = fk_oracle(s, o)
        if not w: break
        for (a, b, m), mask in w.items():
            pass
        keep = {t: [True] * len(getattr(o, t)) for t in s.tables}
        for (a, b, m), mask in w.items(): keep[a] = [x and not y for x, y in zip(keep[a], mask)]
        for t in s.tables: setattr(o, t, getattr(o, t)[keep[t]])
    for t in s.tables: need(cells(getattr(dat, t)) == cells(getattr(o, t)) and list(getattr(dat, t).columns) == list(before[t].columns) and list(getattr(dat, t).index) == list(getattr(o, t).index),
                            lambda: "after removal %s is\n%s\nexpected\n%s" % (t, getattr(dat, t), getattr(o, t)))


class Boom(Exception): pass


@test(weight=5)
def row_failures(rng, rec):
    s = rschema(rng, types=0, fnames=FNAMES + ["Error Message"])
    f = build(s, PanDatFactory)
    dfs = frames(rng, s, lambda r: r.choice([0, 1, 2, "a", 3.5]))
    preds = {}
    for t in s.tables:
        for i in range(rng.randint(0, 3)):
            msg, kind, salt = rng.random() < .4, rng.choice(["hash", "hash", "raise", "always", "never", "kw"]), rng.randrange(99)
            def p(row, _m=msg, _k=kind, _s=salt, _t=t, **kw):
                b = (sum(ord(c) for c in "".join(str(float(row[x])) if not isinstance(row[x], str) else row[x] for x in s.fields(_t))) + _s) % 5
                if _k == "raise" and b == 0: raise Boom("bad row")
                if _k == "kw": b = (b + sum(kw.values())) % 5
                if _k == "always": b = 4
                if _k == "never": b = 0
                return ([True, "msg%d" % b, True, 1, None] if _m else [False, True, 0, "yes", True])[b]
            mkind = rng.choice(["none", "none", "ok", "raise", "notdict"])
            mk = None
            if mkind != "none":
                def mk(dat, _k=mkind):
                    if _k == "raise": raise Boom("no args")
                    return {"z": 2} if _k == "ok" else 7
            f.add_data_row_predicate(t, p, predicate_name="p%d" % i, predicate_kwargs_maker=mk, predicate_failure_response="Error Message" if msg else "Boolean")
            preds[t, "p%d" % i] = (p, mk, mkind, msg)
    dat = make_pan(rng, f, dfs)
    before = snapshot(s, dat)
    handled = rng.random() < .6
    rec.note((s, {t: d.to_dict("split") for t, d in before.items()}, sorted((k, v[2], v[3]) for k, v in preds.items()), handled))
    want, esc, msgs = {}, False, {}
    for (t, n), (p, mk, mkind, msg) in preds.items():
        if mkind == "raise" and not handled: esc = True
        if mkind in ("raise", "notdict"): want[t, n] = "*"; continue
        kw = {"z": 2} if mk else {}
        mask, ms = [], []
        for row in rows_of(before[t]):
            try: r = p(row, **kw)
            except Boom:
                if not handled: esc = True
                r = "Exception<bad row>" if msg else False
            mask.append(r is not True if msg else not r); ms.append(r)
        if any(mask): want[t, n] = mask; msgs[t, n] = [m for m, b in zip(ms, mask) if b]
    call = lambda **kw: f.find_data_row_failures(dat, exception_handling="Handled as Failure" if handled else "Unhandled", **kw)
    if esc:
        need(isinstance(raises(call), Boom), "the exception of a predicate did not reach the caller"); untouched(dat, before); return
    got = call(as_table=False)
    need({tuple(k) for k in got} == set(want), lambda: "reported %s, expected %s" % (list(got), list(want)))
    for k, v in got.items():
        w = want[tuple(k)]
        if w == "*": need(v.primary_key == "*" and isinstance(v.error_message, str), "failing argument maker reported as %r" % (v,))
        else: need(list(map(bool, v)) == w, lambda: "%s: %r, expected %r" % (tuple(k), list(v), w))
    for k, v in call().items():
        w = want[tuple(k)]
        if w == "*": continue
        src = before[k[0]]
        need(cells(v[list(src.columns)]) == [r for r, b in zip(cells(src), w) if b], lambda: "rows of %s: %r" % (tuple(k), v))
        if preds[tuple(k)][3]:
            extra = [c for c in v.columns if c not in src.columns]
            need(len(extra) == 1, "a message report should have one more column")
            need(all(isnull(a) and b is None or a == b for a, b in zip(v[extra[0]], msgs[tuple(k)])), lambda: "messages %r, expected %r" % (list(v[extra[0]]), msgs[tuple(k)]))
    total = sum(1 if w == "*" else sum(w) for w in want.values())
    lim, n = rng.choice([1, 2, 3, total or 1, total + 1]), 0
    for k, v in call(as_table=False, max_failures=lim).items():
        w = want.get(tuple(k)); need(w is not None, "limited report has a passing predicate")
        if w == "*": n += 1
        else: need(all(not g or b for g, b in zip(v, w)), "limited report lists good rows"); n += sum(map(bool, v))
    need(n >= min(lim, total), "limit %s of %s failures, only %s reported" % (lim, total, n))
    untouched(dat, before)


@test(weight=2)
def parameters_rows(rng, rec):
    f = PanDatFactory(parameters=[["Key"], ["Value"]], t=[["a"], ["b"]])
    tys = {}
    for p in rng.sample(["p", "q", "r", "some param"], rng.randint(1, 3)):
        ty = rtype(rng)
        dv = next((x for x in (rcell(rng) for _ in range(30)) if valid(ty, x)), None)
        if not valid(ty, dv) or rng.random() < .3: f.add_parameter(p, dv, enforce_type_rules=False); tys[p] = None
        else: f.add_parameter(p, dv, **ty); tys[p] = ty
    names = rng.sample(["Good Name/Value Check", "Good Name/Value Check_0", "x"], rng.randint(0, 3))
    for nm in names: f.add_data_row_predicate("parameters", lambda row: True, predicate_name=nm)
    ks = rng.sample(["p", "q", "r", "some param", "bad", "P"], rng.randint(0, 5))
    df = pd.DataFrame({"Key": ks, "Value": [rcell(rng) for _ in ks]})
    rec.note((tys, df.to_dict("split"), names))
    dat = f.PanDat(parameters=df)
    vals = list(dat.parameters["Value"])
    bad = [k not in tys or (tys[k] is not None and not valid(tys[k], None if isnull(v) else v)) for k, v in zip(ks, vals)]
    got = f.find_data_row_failures(dat, as_table=False)
    need(len(got) == int(any(bad)), lambda: "reported %r, expected %r" % (got, bad))
    for k, v in got.items(): need(k.table == "parameters" and k.predicate_name not in names and list(map(bool, v)) == bad, lambda: "%r: %r, expected %r" % (k, list(v), bad))


@test(weight=3)
def duplicates(rng, rec):
    s = rschema(rng, types=0)
    f = build(s, PanDatFactory)
    kc = rng.choice([lambda r: r.randrange(2), lambda r: r.choice("ab"), lambda r: r.choice([0, "a", None])])
    dat = make_pan(rng, f, frames(rng, s, kc, kc))
    before = snapshot(s, dat); rec.note((s, {t: d.to_dict("split") for t, d in before.items()}))
    for keep in ("first", "last", False):
        want = {}
        for t in s.tables:
            if not s.pk(t): continue
            ks = [tuple(("null",) if isnull(r[c]) else r[c] for c in s.pk(t)) for r in rows_of(before[t])]
            m = [ks.count(k) > 1 if keep is False else k in (ks[:i] if keep == "first" else ks[i + 1:]) for i, k in enumerate(ks)]
            if any(m): want[t] = m
        got = f.find_duplicates(dat, keep=keep, as_table=False)
        need({t: list(map(bool, m)) for t, m in got.items()} == want, lambda: "keep=%r: %r, expected %r" % (keep, got, want))
        tb = f.find_duplicates(dat, keep=keep)
        need(set(tb) == set(want) and all(cells(tb[t]) == [r for r, b in zip(cells(before[t]), want[t]) if b] for t in want), "rows reported differ")
    untouched(dat, before)
