from lib import *
from ticdat.utils import TypeDictionary, TicDatError
from ticdat import TicDatFactory
import itertools


def near(rng, ty):
    r = rng.random()
    if r < .3 and all(isinstance(ty[k], (int, float)) for k in ("min", "max")):
        b = rng.choice([ty["min"], ty["max"]])
        return rng.choice([b, b + 1e-9, b - 1e-9, b + 1, b - 1, float(b)])
    if r < .4 and ty["strings_allowed"] != "*" and len(ty["strings_allowed"]): return rng.choice([list(ty["strings_allowed"])[0], list(ty["strings_allowed"])[-1] + "z", list(ty["strings_allowed"])[0].upper()])
    if r < .5: return rng.choice([(), (1, 2), [1], {"a": 1}, object, {1}, 2**70, -2**70, 10**400, -10**400, 1e300, True, False, INF, -INF, NAN, None, complex(1, 2)][:17])
    return rcell(rng)


@test(weight=20)
def valid_data_on_real_types(rng, rec):
    ty = rtype(rng)
    td = TypeDictionary.safe_creator(**ty)
    for _ in range(6):
        x = near(rng, ty)
        rec.note((ty, x))
        got = td.valid_data(x)
        need(bool(got) == valid(ty, x), "valid_data(%r) is %r but the type settings %r say %r" % (x, got, ty, valid(ty, x)))


@test(once=True)
def valid_data_product(rng, rec):
    vals = [None, NAN, True, False, 0, 1, 3, -3, 0.5, INF, -INF, 3.0, "a", "", "b", (), datetime.datetime(2020, 1, 1), "2020-01-01", 2 ** 80, 10 ** 400, -10 ** 400]
    for na, imn, imx, mbi, nl, dtm in itertools.product([True, False], repeat=6):
        for mn, mx in [(0, 3), (-INF, INF), (INF, INF), (-INF, 3), (0, INF), (0.5, 0.5), (-INF, -INF)]:
            for sa in [(), "*", ("a",)]:
                ty = dict(number_allowed=na, inclusive_min=imn, inclusive_max=imx, min=mn, max=mx, must_be_int=mbi, strings_allowed=sa, nullable=nl, datetime=dtm)
                if dtm and (na or not imn): continue
                td = TypeDictionary.safe_creator(**ty)
                for x in vals:
                    need(bool(td.valid_data(x)) == valid(ty, x), "valid_data(%r) differs from the rule for %r" % (x, ty))
    rec.note("product of settings and values")


@test(weight=5)
def safe_creator_normalises_or_refuses(rng, rec):
    ty = rtype(rng)
    bad = None
    r = rng.random()
    if r < .15: ty["min"], ty["max"] = 5, 3; bad = bool(ty["number_allowed"])
    elif r < .25: ty["strings_allowed"] = rng.choice([[1], ("a", 2), (None,), "abc", "a", 5, None, ["a", ("b",)]]); bad = True
    elif r < .35: ty[rng.choice(["min", "max"])] = rng.choice(["x", None, (1,)]); bad = bool(ty["number_allowed"])
    elif r < .5: ty["strings_allowed"] = rng.choice([["a", "b"], {"a"}, ("a", "a"), frozenset(["q"]), []])
    for k in ("number_allowed", "inclusive_min", "inclusive_max", "must_be_int", "nullable", "datetime"):
        if rng.random() < .3: ty[k] = rng.choice([1, "y", [0]]) if ty[k] else rng.choice([0, "", None, []])
    rec.note((ty, bad))
    if bad and not ty["datetime"]:
        # with datetime set the other settings are ignored
        e = raises(lambda: TypeDictionary.safe_creator(**ty))
        need(e is not None, "ill-formed settings accepted: %r" % (ty,))
        need(isinstance(e, TicDatError), "ill-formed settings raised %r" % (e,))
        return
    if bad: return
    td = TypeDictionary.safe_creator(**ty)
    for _ in range(5):
        x = near(rng, ty)
        need(bool(td.valid_data(x)) == valid(ty, x), "after normalising %r, valid_data(%r) is %r" % (ty, x, td.valid_data(x)))


@test(weight=3)
def factory_stores_the_type(rng, rec):
    ty = rtype(rng)
    f = TicDatFactory(t=[["a"], ["b"]])
    f.set_data_type("t", rng.choice(["a", "b"]), **ty)
    rec.note(ty)
    [(fl, td)] = f.data_types["t"].items()
    for _ in range(4):
        x = near(rng, ty)
        need(bool(td.valid_data(x)) == valid(ty, x), "stored type for %r: valid_data(%r) is %r" % (ty, x, td.valid_data(x)))
