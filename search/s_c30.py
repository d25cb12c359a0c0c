from lib import *
from ticdat import TicDatFactory, freeze_me
import itertools


def link_schema(rng):
    """keyed tables whose keys are all onto exactly the primary key of the parent, given in any order"""
    s = rschema(rng, types=0, defaults=0, ntab=(2, 4), keyless=.1)
    ts = list(s.tables)
    for _ in range(rng.randint(1, 4)):
        a, b = rng.choice(ts), rng.choice(ts)
        nf, ff = list(s.fields(a)), list(s.pk(b))
        if not ff or len(nf) < len(ff): continue
        rng.shuffle(nf); rng.shuffle(ff)
        if a == b and rng.random() < .5: continue
        m = list(zip(nf, ff))
        if any(x[0] == a and x[1] == b and {y for y, _ in x[2]} == {y for y, _ in m} for x in s.fks): continue
        s.fks.append((a, b, m))
    return s


def names(s, a, b, m):
    """the attribute names the link of a key may have"""
    sets = [frozenset(x for x, _ in y[2]) for y in s.fks if y[0] == a and y[1] == b]
    me = frozenset(x for x, _ in m)
    if len(set(sets)) == 1: return [a]
    own = me
    for o in sets:
        if o != me: own = own - o
    return ["_".join((a,) + p) for p in itertools.permutations(own or me)]


def check(s, f, dat):
    for a, b, m in s.fks:
        if not s.pk(a): continue
        ln = names(s, a, b, m)
        to = dict((y, x) for x, y in m)
        rest = [x for x in s.pk(a) if x not in to.values()]
        child = getattr(dat, a)
        rows = [(k, dict(dict(zip(s.pk(a), (k,) if len(s.pk(a)) == 1 else k)), **r), r) for k, r in child.items()]
        for pk, prow in getattr(dat, b).items():
            key = dict(zip(s.pk(b), (pk,) if len(s.pk(b)) == 1 else pk))
            mine = [(k, full, r) for k, full, r in rows if all(full[to[y]] == key[y] for y in s.pk(b))]
            have = [n for n in ln if n in vars(prow) or hasattr(prow, n)]
            if not rest:
                need(len(mine) <= 1, "two children")
                need(bool(mine) == bool(have), lambda: "%s -> %s: parent %r has children %r and link %r" % (a, b, pk, [k for k, _, _ in mine], have))
                if mine: need(getattr(prow, have[0]) is mine[0][2], "the linked row is not the row of the child table")
            else:
                need(len(have) == 1, lambda: "%s -> %s: parent row has no link named %r" % (a, b, ln))
                l = getattr(prow, have[0])
                want = {}
                for k, full, r in mine:
                    kk = tuple(full[x] for x in rest)
                    want[kk[0] if len(kk) == 1 else kk] = r
                need(set(l.keys()) == set(want) and len(l) == len(want), lambda: "%s -> %s by %r: parent %r links %r, expected %r" % (a, b, m, pk, dict(l), want))
                need(all(l[k] is want[k] for k in want), "a linked row is not the row of the child table")


@test(weight=4)
def links(rng, rec):
    s = link_schema(rng)
    f = build(s, TicDatFactory)
    f.enable_foreign_key_links()
    d = rdat(rng, s, keycell=lambda r: r.choice([0, 1, 2, "a"]), cell=lambda r: r.choice([0, 1, 2, "a"]), nrows=(0, 6))
    frz = rng.random() < .2
    rec.note((s, d, frz))
    dat = make(f, d)
    if rng.random() < .2: dat = f.copy_tic_dat(dat)
    if frz: freeze_me(dat)
    if any(d.values()): check(s, f, dat)
    need(same_plain(plain(s, dat), d), "linking changed the data")


@test(weight=1)
def without_links(rng, rec):
    s = link_schema(rng)
    f = build(s, TicDatFactory)
    d = rdat(rng, s, keycell=lambda r: r.choice([0, 1, 2]), cell=lambda r: r.choice([0, 1, 2]))
    rec.note((s, d))
    dat = make(f, d)
    for t in s.tables:
        if s.pk(t):
            for r in getattr(dat, t).values(): need(not [x for x in vars(r) if not x.startswith("_")], "links without having been enabled")


@test(once=True)
def two_keys_over_the_same_fields(rng, rec):
    """two keys between the same tables that pair the same child fields differently need two links"""
    s = Schema()
    s.tables["p"] = [["a", "b"], ["c"]]
    s.tables["q"] = [["k"], ["x", "y"]]
    s.fks = [("q", "p", [("x", "a"), ("y", "b")]), ("q", "p", [("x", "b"), ("y", "a")])]
    f = build(s, TicDatFactory); f.enable_foreign_key_links()
    d = {"p": {(1, 2): {"c": 0}, (2, 1): {"c": 0}}, "q": {0: {"x": 1, "y": 2}}}
    rec.note((s, d))
    dat = make(f, d)
    found = [[n for n in vars(dat.p[k]) if not n.startswith("_") and isinstance(getattr(dat.p[k], n), dict) and 0 in getattr(dat.p[k], n)] for k in ((1, 2), (2, 1))]
    need(all(len(x) == 1 for x in found) and found[0] != found[1], lambda: "links %r: the links of the two keys share one attribute, the later key's link replaces the earlier's" % (found,), sig="shared-link-name")
