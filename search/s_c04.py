from lib import *
from ticdat import TicDatFactory


def fk_case(rng, rec=None, **kw):
    kc = lambda r: r.choice([0, 1, 2, "a", "b"] if r.random() < .93 else [None, 1.5, True])
    kw = dict(dict(types=0, fks=4, ntab=(1, 4)), **kw)
    s = rschema(rng, **kw)
    d = rdat(rng, s, keycell=kc, cell=kc, nrows=(0, 5))
    if rec is not None: rec.note((s, d))
    return s, d


def oracle(s, d):
    """[(child, parent, mapping list, [failing keys], [failing values])]"""
    out = []
    for a, b, m in s.fks:
        prows = [r for _, r in full_rows(s, d, b)]
        bad = [(k, tuple(r[x] for x, _ in m)) for k, r in full_rows(s, d, a) if not any(all(r[x] == p[y] for x, y in m) for p in prows)]
        if bad: out.append((a, b, m, [k for k, _ in bad], [v for _, v in bad]))
    return out


def key_of(fk):
    m = fk.mapping
    m = [tuple(m)] if hasattr(m, "native_field") else [tuple(x) for x in m]
    return fk.native_table, fk.foreign_table, frozenset(m)


def check_full(s, d, got, want):
    w = {(a, b, frozenset(m)): (m, ks, vs) for a, b, m, ks, vs in want}
    g = {key_of(k): (k, v) for k, v in got.items()}
    need(len(g) == len(got), "two entries for one foreign key")
    need(set(g) == set(w), lambda: "keys reported %s, expected %s" % (sorted(map(str, g)), sorted(map(str, w))))
    for kk, (fk, v) in g.items():
        m, ks, vs = w[kk]
        need(set(v.native_pks) == set(ks) and len(v.native_pks) == len(set(ks)), lambda: "%s: rows %r, expected %r" % (kk, v.native_pks, ks))
        if hasattr(fk.mapping, "native_field"): ev = {x[0] for x in vs}
        else:
            order = [[x for x, _ in m].index(y.native_field) for y in fk.mapping]
            ev = {tuple(x[i] for i in order) for x in vs}
        need(set(v.native_values) == ev and len(v.native_values) == len(ev), lambda: "%s: values %r, expected %r" % (kk, v.native_values, ev))


@test(weight=6)
def failures_listed_exactly(rng, rec):
    s, d = fk_case(rng, rec)
    f = build(s, TicDatFactory)
    dat = make(f, d)
    before = plain(s, dat)
    check_full(s, d, f.find_foreign_key_failures(dat), oracle(s, d))
    need(same_plain(before, plain(s, dat)), "the check changed the data")


@test(weight=2)
def shared_parent_fields(rng, rec):
    """several keys onto the same parent, differently ordered mappings, one child field used in several keys"""
    s = Schema()
    s.tables["p"] = [["a", "b"], ["c"]]
    s.tables["q"] = [["k"], ["x", "y", "z"]]
    s.tables["r"] = [[], ["a", "b", "c"]]
    fl = {"p": ["a", "b", "c"], "q": ["k", "x", "y", "z"], "r": ["a", "b", "c"]}
    for _ in range(rng.randint(1, 4)):
        a, b = rng.choice("pqr"), rng.choice("pqr")
        n = rng.randint(1, 3)
        m = list(zip(rng.sample(fl[a], n), rng.sample(fl[b], n)))
        if not any(x[0] == a and x[1] == b and set(x[2]) == set(m) for x in s.fks): s.fks.append((a, b, m))
    kc = lambda r: r.choice([0, 1, "a"])
    d = rdat(rng, s, keycell=kc, cell=kc, nrows=(0, 4))
    rec.note((s, d))
    f = build(s, TicDatFactory)
    check_full(s, d, f.find_foreign_key_failures(make(f, d)), oracle(s, d))


@test(weight=2)
def many_children_of_one_parent_field(rng, rec):
    """one parent field referenced twice by the same compound key"""
    s = Schema()
    s.tables["p"] = [["a"], ["c"]]
    s.tables["q"] = [["k"], ["x", "y", "z"]]
    ff = rng.choice([("a", "a"), ("a", "c"), ("c", "c"), ("a", "a", "c")])
    s.fks.append(("q", "p", list(zip(rng.sample(["k", "x", "y", "z"], len(ff)), ff))))
    kc = lambda r: r.choice([0, 1, "a"])
    d = rdat(rng, s, keycell=kc, cell=kc, nrows=(0, 4))
    rec.note((s, d))
    f = build(s, TicDatFactory)
    check_full(s, d, f.find_foreign_key_failures(make(f, d)), oracle(s, d))


@test(weight=2)
def low_verbosity_and_limit(rng, rec):
    s, d = fk_case(rng, rec)
    f = build(s, TicDatFactory)
    dat = make(f, d)
    want = oracle(s, d)
    low, high = f.find_foreign_key_failures(dat, verbosity="Low"), f.find_foreign_key_failures(dat)
    need(len(low) == len(high), "low verbosity drops keys")
    for k, v in high.items():
        kk = (k.native_table, k.foreign_table, tuple(k.mapping))
        need(kk in low and set(low[kk][0]) == set(v.native_values) and set(low[kk][1]) == set(v.native_pks), "low verbosity differs from high for %s" % (kk,))
    total = sum(len(x[3]) for x in want)
    lim = rng.choice([1, 2, 3, total or 1, total + 1, max(1, total - 1)])
    got = f.find_foreign_key_failures(dat, max_failures=lim)
    w = {(a, b, frozenset(m)): (m, ks, vs) for a, b, m, ks, vs in want}
    n = 0
    for k, v in got.items():
        need(key_of(k) in w, "limited report has a foreign key without failures")
        need(set(v.native_pks) <= set(w[key_of(k)][1]), "limited report lists good rows")
        n += len(v.native_pks)
    need(n >= min(lim, total), "limit %s of %s failures, only %s reported" % (lim, total, n))
