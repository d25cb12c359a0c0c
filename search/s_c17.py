from lib import *
from ticdat import utils
from ticdat import Slicer


class FakeList(list):
    def select(self, *a): return [t for t in self if all(p == "*" or p == x for p, x in zip(a, t))]


class FakeGu:
    tuplelist = FakeList


def elems(rng, containers):
    v = [0, 1, 2, "a", "b", "", None, 1.5, -1, True]
    if containers: v += [(1, 2), ("a",), frozenset([1])]
    return v


def collection(rng, containers=True):
    n = rng.randint(0, 4)
    v = rng.sample(elems(rng, containers), rng.randint(1, 4))
    return n, v, [tuple(rng.choice(v) for _ in range(n)) for _ in range(rng.randint(0, 9))]


def oracle(items, pat): return [t for t in items if all(p == "*" or p == x for p, x in zip(pat, t))]


@test(weight=20)
def slices(rng, rec):
    acc = rng.random() < .3
    n, v, items = collection(rng, not acc or rng.random() < .3)
    old = utils.gu
    utils.gu = FakeGu if acc else None
    try:
        form = rng.choice([list, tuple, lambda x: [list(y) for y in x], lambda x: (y for y in x), lambda x: iter([iter(y) for y in x])])
        s = Slicer(form(items))
        rec.note((n, items, acc))
        log = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < .1: s.clear(); continue
            if r < .15 and acc: s._forceguout(); continue
            pat = [("*" if rng.random() < .45 else rng.choice(v + [99])) for _ in range(n)]
            got = s.slice(*pat)
            exp = oracle(items, pat)
            log.append(pat)
            need(list(got) == exp and all(type(x) is tuple for x in got), lambda: "slice %r of %r gives %r instead of %r after %r" % (pat, items, got, exp, log))
            if rng.random() < .5: got.append("junk"); got[:] = got[::-1]      # a caller's list is its own
            if items and rng.random() < .1:
                need(raises(lambda: s.slice(*(pat + ["*"]))) is not None, "a pattern that is too long is not refused")
                if n: need(raises(lambda: s.slice(*pat[1:])) is not None, "a pattern that is too short is not refused")
    finally:
        utils.gu = old


@test(weight=3)
def refusals(rng, rec):
    n, v, items = collection(rng)
    if not items or not n: return
    i = rng.randrange(len(items))
    kind = rng.choice(["ragged", "ragged2", "star"])
    bad = list(items)
    if kind == "star":
        j = rng.randrange(n); bad[i] = bad[i][:j] + ("*",) + bad[i][j + 1:]
    else:
        if len(items) < 2: return
        bad[i] = bad[i] + (0,) if kind == "ragged" else bad[i][:-1]
    rec.note((bad, kind))
    need(raises(lambda: Slicer(bad)) is not None, lambda: "%s collection %r not refused" % (kind, bad))
