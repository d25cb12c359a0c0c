from lib import *
from ticdat import TicDatFactory
from ticdat.utils import td_row_factory, TicDatError


def fieldlist(rng):
    fs = list(FNAMES) + ["keys", "values", "items", "_data", "0"]; rng.shuffle(fs)
    return fs[:rng.randint(1, 5)]


@test(weight=15)
def row_state_machine(rng, rec):
    dfs = fieldlist(rng)
    pks = [x for x in ("pk1", "pk2") if rng.random() < .5]
    defaults = {f: rcell(rng) for f in dfs + pks if rng.random() < .4}
    via = rng.random()
    if via < .5: cls = td_row_factory("t", tuple(pks), tuple(dfs), dict(defaults))
    else:
        defaults = {k: v for k, v in defaults.items() if not isinstance(v, datetime.datetime)}
        f = TicDatFactory(t=[pks, dfs])
        for k, v in defaults.items(): f.set_default_value("t", k, v)
        if pks:
            def cls(x):
                d = f.TicDat()
                k = tuple(range(len(pks))) if len(pks) > 1 else 0
                if rng.random() < .5: d.t[k] = x
                else: d = f.TicDat(t={k: x})
                return d.t[k]
        else:
            def cls(x):
                d = f.TicDat()
                if rng.random() < .5: d.t.append(x)
                else: d = f.TicDat(t=[x])
                return d.t[0]
        if via > .5 : defaults = {**{k: 0 for k in dfs}, **defaults}
    kind = rng.choice(["dict", "dict", "seq", "single", "bad"])
    rec.note((dfs, defaults, kind, via < .5))
    bad = False
    if kind == "dict":
        sub = rng.sample(dfs, rng.randint(0, len(dfs)))
        x = {k: rcell(rng) for k in sub}
        if rng.random() < .15: x["nosuch"] = 1; bad = True
        if pks and rng.random() < .1: x[pks[0]] = 1; bad = True
        want = {k: x.get(k, defaults.get(k, 0)) for k in dfs}
    elif kind == "seq":
        n = len(dfs) if rng.random() < .8 else rng.randint(0, 6)
        x = rng.choice([list, tuple])(rcell(rng) for _ in range(n))
        bad = n != len(dfs)
        want = dict(zip(dfs, x))
    else:
        x = rcell(rng)
        bad = len(dfs) != 1
        want = {dfs[0]: x}
    if bad:
        e = raises(lambda: cls(x))
        need(isinstance(e, TicDatError), lambda: "row %r for fields %r should be refused, got %r" % (x, dfs, e))
        return
    r = cls(x)

    def compare(where):
        need(list(r.keys()) == dfs, lambda: "%s: keys %r for fields %r" % (where, r.keys(), dfs))
        need(len(r) == len(dfs) and [k for k in r] == dfs, "%s: length or iteration" % where)
        need(len(r.values()) == len(dfs) and all(veq(a, want[k]) for a, k in zip(r.values(), dfs)), lambda: "%s: values %r, expected %r" % (where, r.values(), want))
        need([k for k, _ in r.items()] == dfs and all(veq(v, want[k]) for k, v in r.items()), "%s: items" % where)
        need(all(veq(r[k], want[k]) for k in dfs), lambda: "%s: reading gives %r, expected %r" % (where, {k: r[k] for k in dfs}, want))
        need(all(k in r for k in dfs) and "nosuch" not in r and not any(p in r for p in pks), "%s: membership" % where)
        need(dict(r).keys() == want.keys(), "%s: conversion to dict" % where)
    compare("after construction from %r" % (x,))
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(dfs + ["nosuch"] + pks)
        v = rcell(rng)
        if k in want:
            r[k] = v; want[k] = v
            compare("after writing %r" % k)
        else:
            need(isinstance(raises(lambda: r.__setitem__(k, v)), TicDatError), "writing unknown field %r accepted" % k)
            need(isinstance(raises(lambda: r[k]), TicDatError), "reading unknown field %r accepted" % k)
            compare("after a refused write")
    need(isinstance(raises(lambda: r[rng.choice([0, -1, None, ("a",)])]), TicDatError), "reading by a non field accepted")


@test
def rows_are_independent(rng, rec):
    dfs = fieldlist(rng)
    cls = td_row_factory("t", (), tuple(dfs), {})
    src = {k: rcell(rng) for k in dfs}
    a, b = cls(src), cls(src)
    rec.note((dfs, src))
    k = rng.choice(dfs)
    a[k] = "changed"
    need(veq(b[k], src[k]) and src[k] != "changed", "rows share state")
    lst = [rcell(rng) for _ in dfs]
    c = cls(lst); lst[0] = "other"
    need(c[dfs[0]] != "other", "row shares the sequence it was made from")


@test
def no_data_fields(rng, rec):
    f = TicDatFactory(t=[["a"], []])
    d = f.TicDat()
    ok = rng.choice([{}, [], ()])
    d.t[1] = ok
    rec.note(repr(ok))
    need(len(d.t[1]) == 0 and list(d.t[1].keys()) == [] and "a" not in d.t[1], "row without data fields is not empty")
    for bad in ([1], {"a": 1}, 5, (None,)):
        need(isinstance(raises(lambda: d.t.__setitem__(2, bad)), TicDatError), "data %r accepted for a table without data fields" % (bad,))
    need(2 not in d.t, "refused row was stored")
