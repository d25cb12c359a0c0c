from lib import *
from ticdat import utils
from ticdat.utils import per_error, nearly_same, Progress
TINY = 1e-10


def num(rng):
    r = rng.random()
    if r < .25: return rng.choice([0, 0.0, -0.0, 1, -1, 1.0, 5, -5, 1e-10, -1e-10, 1e-11, -1e-11, 1.1e-10, 2e-10, 1e-300, 1e6, 1e15, 10**18, INF, -INF])
    if r < .5: return rng.randrange(-6, 7)
    if r < .8: return rng.uniform(-10, 10) * 10 ** rng.randint(-13, 12)
    return rng.choice([1, -1]) * 10.0 ** rng.randint(-12, 12)


def pair(rng):
    a = num(rng)
    b = num(rng) if rng.random() < .6 else a * (1 + rng.choice([0, 1e-6, -1e-6, 1e-4, .01, -.5])) if abs(a) != INF else rng.choice([a, -a, 1])
    return a, b


def spec(a, b):
    a, b = float(a), float(b)
    if INF in (abs(a), abs(b)): return 0 if a == b else INF
    m = max(abs(a), abs(b))
    return 0 if m <= TINY else abs(a - b) / m


@test(weight=50)
def relative_difference(rng, rec):
    a, b = pair(rng)
    rec.note((a, b))
    g = per_error(a, b)
    need(g == g and g >= 0, "per_error(%r, %r) = %r" % (a, b, g))
    need(per_error(b, a) == g, lambda: "per_error(%r, %r) = %r but %r the other way" % (a, b, g, per_error(b, a)))
    need(per_error(-a, -b) == g, lambda: "per_error(%r, %r) = %r but %r for the negated pair" % (a, b, g, per_error(-a, -b)))
    if a == b: need(g == 0, "equal numbers differ by %r" % g)
    if g == 0: need(float(a) == float(b) or max(abs(a), abs(b)) <= TINY, "%r and %r differ by 0" % (a, b))
    e = spec(a, b)
    need(g == e or abs(g - e) <= 1e-12 * max(1, abs(e)), lambda: "per_error(%r, %r) = %r, expected %r" % (a, b, g, e))
    for tol in (1e-6, .01, 0.5, 0, g, g * 2, rng.uniform(0, 2)):
        need(nearly_same(a, b, tol) is (g < tol) or nearly_same(a, b, tol) == (g < tol), "nearly_same(%r, %r, %r)" % (a, b, tol))


@test(weight=50)
def progress_bounds(rng, rec):
    a, b = pair(rng)
    if rng.random() < .4 and abs(b) != INF:
        a = b + abs(b) * rng.choice([.00001, .000005, .00002, .0000099, .000011, -.1])
    rec.note((a, b))
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()) as o:
        e = raises(lambda: need(Progress(quiet=rng.random() < .5).mip_progress("x", a, b) is True, "result is not True"))
    if isinstance(e, Fail): raise e
    if a <= b: ok = True
    elif INF in (abs(a), abs(b)): ok = False
    else:
        ok = a - abs(a) * .00001 <= b
    need((e is None) == ok, lambda: "bounds %r, %r: %r" % (a, b, e))
    need(e is None or isinstance(e, utils.TicDatError), lambda: repr(e))


@test(weight=5)
def bad_arguments(rng, rec):
    bad = rng.choice([None, "1", [1], "x"])
    rec.note((bad,))
    P = Progress(quiet=True)
    need(raises(lambda: P.mip_progress("x", bad, 1)) is not None and raises(lambda: P.mip_progress("x", 1, bad)) is not None, "bound %r accepted" % (bad,))
    need(raises(lambda: P.mip_progress(3, 1, 1)) is not None and raises(lambda: P.numerical_progress(3, 1)) is not None, "theme that is no text accepted")
    need(raises(lambda: P.numerical_progress("x", bad)) is not None and P.numerical_progress("x", 2) is True, "numerical progress")
