from lib import *
from ticdat import TicDatFactory


def oracle(s, d):
    """{(t, f): (set of keys, set of values)}"""
    out = {}
    for t in s.tables:
        for f in s.fields(t):
            ty = s.types.get((t, f))
            if ty is None:
                if f not in s.pk(t): continue
                ok = lambda x: not isnull(x)
            else: ok = lambda x, ty=ty: valid(ty, x)
            bad = [(k, r[f]) for k, r in full_rows(s, d, t) if not ok(r[f])]
            if bad: out[t, f] = ([k for k, _ in bad], [v for _, v in bad])
    return out


def keys_set(ks): return {tuple(("nan",) if isnan(x) else x for x in k) if isinstance(k, tuple) else ("nan",) if isnan(k) else k for k in ks}


def case(rng, rec, **kw):
    s = rschema(rng, types=.6, fks=1, **kw)
    if rng.random() < .2:
        kc = lambda r: r.choice([True, False, None, NAN, DATES[0], 0, 1, "a"])
    else: kc = rkeycell
    d = rdat(rng, s, keycell=kc)
    rec.note((s, d))
    return s, d


@test(weight=6)
def failures_listed_exactly(rng, rec):
    s, d = case(rng, rec)
    f = build(s, TicDatFactory)
    dat = make(f, d)
    before, sch = plain(s, dat), schema_state(f)
    got = f.find_data_type_failures(dat)
    want = oracle(s, d)
    need({tuple(k) for k in got} == set(want), lambda: "reported pairs %s, expected %s" % (sorted(map(tuple, got)), sorted(want)))
    for (t, fl), v in got.items():
        need(got[t, fl].pks is v.pks and v == tuple(v) and len(v) == 2, "result is not the documented pair")
        need(len(v.pks) == len(want[t, fl][0]) and keys_set(v.pks) == keys_set(want[t, fl][0]), lambda: "%s.%s: keys %r, expected %r" % (t, fl, v.pks, want[t, fl][0]))
        need(vset(v.bad_values) == vset(want[t, fl][1]) or {repr(x) for x in v.bad_values} == {repr(x) for x in want[t, fl][1]} or
             set(map(lambda x: ("nan",) if isnan(x) else x, v.bad_values)) == set(map(lambda x: ("nan",) if isnan(x) else x, want[t, fl][1])),
             lambda: "%s.%s: values %r, expected %r" % (t, fl, v.bad_values, want[t, fl][1]))
    need(same_plain(before, plain(s, dat)), "the check changed the data")
    need(sch == schema_state(f), "the check changed the schema")


@test(weight=3)
def limited_failures(rng, rec):
    s, d = case(rng, rec)
    f = build(s, TicDatFactory)
    dat = make(f, d)
    want = oracle(s, d)
    total = sum(len(k) for k, _ in want.values())
    lim = rng.choice([1, 1, 2, 3, 5, total or 1, total + 1, max(1, total - 1)])
    got = f.find_data_type_failures(dat, max_failures=lim)
    n = 0
    for (t, fl), v in got.items():
        need((t, fl) in want, "limited report has pair %s.%s which does not fail" % (t, fl))
        need(keys_set(v.pks or ()) <= keys_set(want[t, fl][0]), lambda: "limited report lists good rows %r" % (v.pks,))
        need(set(map(repr, v.bad_values)) <= set(map(repr, want[t, fl][1])), "limited report lists good values")
        n += len(v.pks or ())
    need(n >= min(lim, total), "limit %s of %s failures, only %s reported" % (lim, total, n))
