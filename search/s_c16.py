from lib import *
from ticdat import TicDatFactory, PanDatFactory, freeze_me
from ticdat.utils import baseConverter
import re


def rents(rng):
    """a schema of entity tables and tables that reference them, directly and through chains"""
    s = Schema()
    names = ["foods", "fruits", "Places", "I_i", "p", "places_2", "f", "FO"]; rng.shuffle(names)
    ents = names[:rng.randint(1, 4)]
    for e in ents: s.tables[e] = [["name"], rng.choice([[], ["cost"], ["cost", "x"]])]
    for i in range(rng.randint(0, 3)):
        t = "rel%d" % i
        k = rng.randint(1, 2)
        fs = ["a", "b", "c", "d"]
        npk = rng.randint(0, 3)
        s.tables[t] = [fs[:npk], fs[npk:] + (["v"] if rng.random() < .5 else [])]
        for f in fs:
            r = rng.random()
            if r < .55: s.fks.append((t, rng.choice(ents), [(f, "name")]))
        # chains: through another relation's primary key
        prev = [p for p in s.tables if p.startswith("rel") and p != t and s.pk(p)]
        if prev and rng.random() < .5:
            p = rng.choice(prev)
            m = list(zip(rng.sample(fs, len(s.pk(p))), s.pk(p)))
            s.fks = [x for x in s.fks if not (x[0] == t and {a for a, _ in x[2]} & {a for a, _ in m})]
            s.fks.append((t, p, m))
    # an entity that is a special case of another
    if len(ents) > 1 and rng.random() < .35: s.fks.append((ents[1], ents[0], [("name", "name")]))
    # a reference from a data field of an entity
    if len(ents) > 1 and rng.random() < .3 and s.df(ents[-1]): s.fks.append((ents[-1], ents[0], [(s.df(ents[-1])[0], "name")]))
    return s, ents


def refers(s):
    """{(t, f): entity table it refers to}, through all chains; entities that are one-to-one children are not entities"""
    base = {}
    for a, b, m in s.fks:
        for x, y in m: base.setdefault((a, x), set()).add((b, y))
    clos = {}
    for k in base:
        seen, todo = set(), list(base[k])
        while todo:
            z = todo.pop()
            if z in seen: continue
            seen.add(z); todo += list(base.get(z, ()))
        clos[k] = seen
    onepk = {t for t in s.tables if len(s.pk(t)) == 1}
    ent = {t for t in onepk if not any(b in onepk and y == s.pk(b)[0] for b, y in clos.get((t, s.pk(t)[0]), ()) if b != t)}
    return clos, ent


@test(weight=4)
def obfuscation(rng, rec):
    s, ents = rents(rng)
    clos, ent = refers(s)
    # every referring field must resolve to at most one entity
    res = {}
    # a one-field key that is part of a longer reference: entity or not is the factory's choice
    if any((t, s.pk(t)[0]) in clos and t not in ents for t in s.tables if len(s.pk(t)) == 1): return
    for k, zs in clos.items():
        es = {b for b, y in zs if b in ent and s.pk(b) == (y,)}
        if len(es) > 1: return
        if es: res[k] = next(iter(es))
    keys = {e: rng.sample([0, 1, 2, 3, 7, 10, 11] if rng.random() < .4 else ["a", "A1", "P1", "zz", "b c", "F1", "F2"], rng.randint(1, 5)) for e in s.tables if e in ents}
    for a, b, m in s.fks:
        if a in ents and b in ents and m[0][0] == "name": keys[a] = rng.sample(keys[b], rng.randint(1, len(keys[b])))
    d = {}
    def cellfor(t, f):
        if (t, f) in res: return rng.choice(keys[res[t, f]] if res[t, f] in keys else list(d.get(res[t, f], ())) or [0])
        return rng.choice([1, 2.5, "a", "P1", "F1", None, 0])
    # fill in parents-first order, drawing compound references from existing rows
    done = []
    def order(t, stack=()):
        if t in done or t in stack: return
        for a, b, m in s.fks:
            if a == t: order(b, stack + (t,))
        done.append(t)
    for t in s.tables: order(t)
    for t in done:
        rows = []
        if t in ents: rows = [{"name": k} for k in keys[t]]
        else: rows = [{} for _ in range(rng.randint(0, 6))]
        ok = []
        for r in rows:
            good = True
            for a, b, m in s.fks:
                if a != t or (t in ents and m[0][0] == "name"): continue
                if b in ents: r[m[0][0]] = rng.choice(keys[b]); continue
                cand = full_rows(s, d, b)
                if not cand: good = False; break
                _, pr = rng.choice(cand)
                for x, y in m: r[x] = pr[y]
            if not good: continue
            for f in s.fields(t): r.setdefault(f, cellfor(t, f))
            ok.append(r)
        if s.pk(t): d[t] = {(r[s.pk(t)[0]] if len(s.pk(t)) == 1 else tuple(r[x] for x in s.pk(t))): {x: r[x] for x in s.df(t)} for r in ok}
        else: d[t] = [{x: r[x] for x in s.df(t)} for r in ok]
    f = build(s, TicDatFactory)
    dat = make(f, d)
    if f.find_foreign_key_failures(dat): return
    for e in ent:
        try: sorted(d[e])
        except TypeError: return
    skip = [e for e in sorted(ent) if rng.random() < .15]
    pre = {}
    pool = ["P", "F", "FO", "X", "AB"]; rng.shuffle(pool)
    for e in sorted(ent - set(skip)):
        if rng.random() < .25: pre[e] = pool.pop()
    rec.note((s, d, pre, skip))
    if rng.random() < .3: freeze_me(dat)
    before = plain(s, dat)
    r = f.obfusimplify(dat, table_prepends=dict(pre), skip_tables=list(skip), freeze_it=rng.random() < .3)
    need(same_plain(before, plain(s, dat)), "the data itself was changed")
    ren = dict(r.renamings)
    renamed = ent - set(skip)
    need(all(re.fullmatch("[A-Z]+[0-9]+", n) for n in ren), lambda: "names %r" % list(ren))
    need(sorted(map(repr, ren.values())) == sorted(repr((t, k)) for t in renamed for k in d[t]), lambda: "renamings %r do not cover the entities of %r" % (ren, sorted(renamed)))
    new = {v: k for k, v in ren.items()}
    for t in pre: need(all(re.fullmatch(pre[t] + "[0-9]+", new[t, k]) for k in d[t]), lambda: "prefix of %s not used: %r" % (t, ren))

    def fix(t, x, v):
        if s.pk(t) == (x,) and t in renamed: return new[t, v]
        e = res.get((t, x))
        return new[e, v] if e in renamed else v
    for t in d:
        got = {t: [x for _, x in full_rows(s, plain(s, r.copy), t)]}[t]
        exp = [{x: fix(t, x, v) for x, v in row.items()} for _, row in full_rows(s, d, t)]
        need(sorted(map(repr, [sorted(x.items()) for x in got])) == sorted(map(repr, [sorted(x.items()) for x in exp])), lambda: "%s: %r should be %r" % (t, got, exp))


@test(weight=4)
def many_prefixes(rng, rec):
    """prefix names never run out or collide, however many are taken"""
    n = rng.choice([1, 3, 26, 30, 60, 700]) if rng.random() < .3 else rng.randint(1, 12)
    ts = []
    for i in range(rng.randint(2, 8)): ts.append(rng.choice(["i", "Ii", "a", "ab", "a_", "A1", "b"]) + "_" * i)
    tl = {}
    for t in ts: tl[t.lower()] = t
    ts = list(tl.values())
    f = TicDatFactory(**{t: [["k"], []] for t in ts})
    rec.note((ts,))
    dat = f.TicDat(**{t: [["x%d" % j] for j in range(rng.randint(1, 3))] for t in ts})
    r = f.obfusimplify(dat)
    need(len(r.renamings) == sum(len(getattr(dat, t)) for t in ts), "names collide")
    need(all(re.fullmatch("[A-Z]+[0-9]+", x) for x in r.renamings), lambda: "names %r" % list(r.renamings))


@test(weight=10)
def digits(rng, rec):
    b = rng.randint(2, 30); n = rng.choice([rng.randint(0, 50), rng.randint(0, 10**6), b ** rng.randint(1, 5) + rng.randint(-1, 1)])
    rec.note((n, b))
    ds = baseConverter(n, b)
    v = 0
    for x in ds:
        need(isinstance(x, int) and 0 <= x < b, lambda: "digit %r of %d in base %d" % (x, n, b))
        v = v * b + x
    need(v == n and (len(ds) == 1 or ds[0] != 0), lambda: "%d in base %d gives %r" % (n, b, ds))


@test(weight=.1)
def many_tables(rng, rec):
    """more tables than letters want the same prefix"""
    k = rng.choice([30, 60])
    ts = ["i_" + "".join("_" if j != i else "1" for j in range(k)) for i in range(k)]
    rec.note((k,))
    f = TicDatFactory(**{t: [["k"], []] for t in ts})
    dat = f.TicDat(**{t: [["x"]] for t in ts})
    r = f.obfusimplify(dat)
    need(len(r.renamings) == k, "names collide")
    need(all(re.fullmatch("[A-Z]+[0-9]+", x) for x in r.renamings), lambda: "names %r" % list(r.renamings)[:5])


@test(weight=.5)
def frames(rng, rec):
    import pandas as pd
    f = PanDatFactory(foods=[["name"], ["cost"]], q=[["food", "cat"], ["x"]], cats=[["name"], []])
    f.add_foreign_key("q", "foods", ["food", "name"]); f.add_foreign_key("q", "cats", ["cat", "name"])
    fs, cs = rng.sample(["a", "b", "F1", "C2", "zz"], 3), rng.sample(["x", "C1", "F2"], 2)
    q = [[a, b, rng.randint(0, 9)] for a in fs for b in cs if rng.random() < .6]
    rec.note((fs, cs, q))
    dat = f.PanDat(foods=pd.DataFrame([[a, 1] for a in fs], columns=["name", "cost"]), cats=pd.DataFrame([[a] for a in cs], columns=["name"]),
                   q=pd.DataFrame(q, columns=["food", "cat", "x"]))
    r = f.obfusimplify(dat)
    need(sorted(r.renamings.values()) == sorted([("foods", a) for a in fs] + [("cats", a) for a in cs]), "renamings")
    inv = dict(r.renamings)
    back = sorted((inv[a][1], inv[b][1], x) for a, b, x in r.copy.q[["food", "cat", "x"]].values.tolist())
    need(back == sorted(map(tuple, q)), lambda: "%r became %r" % (q, back))
    need(sorted(inv[a][1] for a in r.copy.foods["name"]) == sorted(fs), "entities")
