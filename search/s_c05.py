from lib import *
from s_c04 import fk_case, oracle
from ticdat import TicDatFactory


def remove_once(s, d):
    bad = {}
    for a, b, m, ks, vs in oracle(s, d): bad.setdefault(a, set()).update(ks)
    out = {}
    for t, v in d.items():
        if isinstance(v, dict): out[t] = {k: r for k, r in v.items() if k not in bad.get(t, ())}
        else: out[t] = [r for i, r in enumerate(v) if i not in bad.get(t, ())]
    return out, bool(bad)


@test(weight=6)
def removal(rng, rec):
    s, d = fk_case(rng, rec, fks=5)
    f = build(s, TicDatFactory)
    dat = make(f, d)
    objs = {t: (dict(getattr(dat, t).items()) if s.pk(t) else list(getattr(dat, t))) for t in s.tables}
    once, _ = remove_once(s, d)
    propagate = rng.random() < .7
    want, more = once, True
    while propagate and more: want, more = remove_once(s, want)
    r = f.remove_foreign_key_failures(dat, propagate=propagate) if not propagate or rng.random() < .5 else f.remove_foreign_key_failures(dat)
    need(r is dat, "does not return the data object")
    got = plain(s, dat)
    need(same_plain(got, want), lambda: "propagate=%s left %s, expected %s" % (propagate, short(got), short(want)))
    if propagate: need(not f.find_foreign_key_failures(dat), "failures remain after propagation")
    for t in s.tables:
        if s.pk(t): need(all(objs[t][k] is r for k, r in getattr(dat, t).items()), "surviving rows were replaced")
        else: need(all(any(r is o for o in objs[t]) for r in getattr(dat, t)), "surviving rows were replaced")


@test(weight=2)
def long_keyless(rng, rec):
    """keyless tables long enough that row positions differ from their textual order"""
    s = Schema()
    s.tables["p"] = [["k"], ["x"]]
    s.tables["q"] = [[], ["k", "p"]]
    s.tables["c"] = [["k"], ["q"]]
    s.fks = [("q", "p", [("p", "k")])] + ([("q", "p", [("k", "k")])] if rng.random() < .4 else []) + ([("c", "q", [("q", "k")])] if rng.random() < .5 else [])
    kc = lambda r: r.choice(range(6))
    d = rdat(rng, s, keycell=kc, cell=kc, nrows=(3, 28))
    rec.note((s, d))
    f = build(s, TicDatFactory)
    dat = make(f, d)
    want, more = d, True
    while more: want, more = remove_once(s, want)
    f.remove_foreign_key_failures(dat)
    need(same_plain(plain(s, dat), want), lambda: "left %s, expected %s" % (short(plain(s, dat)), short(want)))


@test(weight=2)
def cascades(rng, rec):
    n = rng.randint(2, 5)
    s = Schema()
    for i in range(n): s.tables["t%d" % i] = [["k"], ["p"]] if rng.random() < .7 or i < n - 1 else [[], ["k", "p"]]
    for i in range(n):
        for j in range(n):
            if (j == i + 1 and rng.random() < .8 or rng.random() < .12) and s.pk("t%d" % i): s.fks.append(("t%d" % j, "t%d" % i, [("p", "k")]))
    kc = lambda r: r.choice(range(5))
    d = rdat(rng, s, keycell=kc, cell=kc, nrows=(1, 6))
    rec.note((s, d))
    f = build(s, TicDatFactory)
    dat = make(f, d)
    want, more = d, True
    while more: want, more = remove_once(s, want)
    f.remove_foreign_key_failures(dat)
    need(same_plain(plain(s, dat), want), lambda: "cascade left %s, expected %s" % (short(plain(s, dat)), short(want)))
