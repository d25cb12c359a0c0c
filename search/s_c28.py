from lib import *
from ticdat import TicDatFactory, PanDatFactory
import contextlib, io


def mset(fk):
    m = fk.mapping
    return frozenset([tuple(m)] if hasattr(m, "native_field") else map(tuple, m))


def declared(f): return [(k.native_table, k.foreign_table, mset(k)) for k in f.foreign_keys]


def quiet(g):
    with contextlib.redirect_stdout(io.StringIO()) as o: r = g()
    return r, o.getvalue()


def circular(edges, a, b):
    """does a -> b close a circle over the edges"""
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x == a: return True
        if x not in seen:
            seen.add(x); todo += [y for p, y in edges if p == x]
    return False


def rmap(rng, s, a, b):
    nf, ff = list(s.fields(a)), list(s.fields(b))
    rng.shuffle(nf); rng.shuffle(ff)
    if rng.random() < .5 and s.pk(b): ff = list(s.pk(b)); rng.shuffle(ff)
    n = min(len(nf), len(ff)); n = rng.randint(1, n)
    m = list(zip(nf[:n], ff[:n]))
    if rng.random() < .1: m.append((m[0][0], rng.choice(s.fields(b))))
    return list(dict.fromkeys(m))


@test(weight=6)
def declaring(rng, rec):
    cls = rng.choice([TicDatFactory, PanDatFactory])
    s = rschema(rng, types=0, defaults=0)
    gen = rng.random() < .2
    f = cls(**dict({t: [list(p), list(d)] for t, (p, d) in s.tables.items()}, **({"gen": "*"} if gen else {})))
    want, log = [], []
    ts = list(s.tables)
    for _ in range(rng.randint(1, 6)):
        a, b = rng.choice(ts), rng.choice(ts)
        m = rmap(rng, s, a, b)
        bad = None
        k = rng.random()
        if k < .05: a = "nosuch"; bad = 1
        elif k < .1: b = "nosuch"; bad = 1
        elif k < .15: m[-1] = ("no field", m[-1][1]); bad = 1
        elif k < .2: m[-1] = (m[-1][0], "no field"); bad = 1
        elif k < .23 and gen: a = "gen"; bad = 1
        elif k < .26 and gen: b = "gen"; bad = 1
        elif k < .29: m = []; bad = 1
        elif k < .4 and want:
            a, b, m = rng.choice(want)[3]       # once more
        form = list(m[0]) if len(m) == 1 and rng.random() < .7 else [list(x) if rng.random() < .5 else tuple(x) for x in m]
        if rng.random() < .3: form = tuple(form)
        log.append((a, b, form))
        before = sorted(map(repr, declared(f)))
        e = None
        try: _, out = quiet(lambda: f.add_foreign_key(a, b, form))
        except Exception as x: e = x
        if bad:
            need(e is not None, lambda: "declared %r on %r" % (log[-1], s)); need(sorted(map(repr, declared(f))) == before, "a refused key changed the schema"); continue
        need(e is None, lambda: "key %r refused: %s" % (log[-1], e))
        circ = circular([(x[0], x[1]) for x in want], a, b)
        need(("circular" in out.lower()) == circ, lambda: "%r %s said to close a circle" % (log[-1], "is not" if circ else "is"))
        ent = (a, b, frozenset(m))
        if not any(w[3] == (a, b, m) for w in want): want.append(ent + ((a, b, m),))
    rec.note((cls.__name__, s, log))
    got = f.foreign_keys
    need(sorted(map(repr, [(a, b, sorted(m)) for a, b, m in declared(f)])) == sorted(repr((a, b, sorted(m))) for a, b, m, _ in want), lambda: "declared %r, schema has %r" % (log, got))
    for fk in got:
        m = mset(fk)
        half = lambda t, fs: "one" if s.pk(t) and set(s.pk(t)) <= fs else "many"
        c = "%s-to-%s" % (half(fk.native_table, {x for x, _ in m}), half(fk.foreign_table, {y for _, y in m}))
        need(fk.cardinality == c, lambda: "%r should be %s" % (fk, c))
        need(hasattr(fk.mapping, "native_field") == (len(m) == 1) and all(x.native_field == x[0] and x.foreign_field == x[1] for x in ([fk.mapping] if len(m) == 1 else fk.mapping)), "mapping shape")
    # clearing
    t = rng.choice(ts + [None])
    f.clear_foreign_keys(t) if t or rng.random() < .5 else f.clear_foreign_keys()
    need(set(declared(f)) == {(a, b, m) for a, b, m, _ in want if t is not None and a != t}, "clearing the keys of %r" % t)


@test(weight=4)
def implied(rng, rec):
    s = rschema(rng, types=0, defaults=0, ntab=(2, 4), keyless=.1, maxdf=3)
    ts = list(s.tables)
    for _ in range(rng.randint(1, 5)):
        a, b = rng.choice(ts), rng.choice(ts)
        nf, ff = list(s.fields(a)), list(s.pk(b)) if s.pk(b) and rng.random() < .8 else list(s.fields(b))
        rng.shuffle(nf); rng.shuffle(ff)
        n = len(ff) if len(ff) <= len(nf) and rng.random() < .8 else 1
        m = list(zip(nf[:n], ff[:n]))
        if not any(x[0] == a and x[1] == b and set(x[2]) == set(m) for x in s.fks): s.fks.append((a, b, m))
    rec.note((s,))
    f, _ = quiet(lambda: build(s, TicDatFactory))
    base = {(a, b, frozenset(m)) for a, b, m in s.fks}
    need(set(declared(f)) == base, "declared keys")
    f.add_implied_foreign_keys()
    want = set(base)
    while True:     # follow declared (and so obtained) keys into a declared key that covers the key of its parent
        new = set()
        for a, b, m in want:
            for b2, c, m2 in want:
                if b2 != b: continue
                b2n = {}
                for x, y in m: b2n.setdefault(y, set()).add(x)
                ch = frozenset((x, z) for y, z in m2 for x in b2n.get(y, ()))
                if ch and s.pk(c) and {z for _, z in ch} == set(s.pk(c)) and len(ch) == len(s.pk(c)): new.add((a, c, ch))
        if new <= want: break
        want |= new
    need(set(declared(f)) == want, lambda: "implied %r, expected %r" % (set(declared(f)) - base, want - base))
