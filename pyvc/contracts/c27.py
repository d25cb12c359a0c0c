from contracts.common import *

def exact(x): return z3.Q(*x.as_integer_ratio())


SMALL = exact(1e-10)


def number(v): return And(is_number(v), Not(U.is_nan(v)))


def ab(x): return z3.If(x < 0, -x, x)
def larger(x, y): return z3.If(ab(x) >= ab(y), ab(x), ab(y))
def relative(x, y, v): return And(Implies(larger(x, y) > SMALL, v * larger(x, y) == ab(x - y)), Implies(larger(x, y) <= SMALL, v == 0))


def induction_hypothesis(eng, st, args, kw):
    """the contract of per_error itself, used for its recursive call (which recurses no further: both arguments are then positive)"""
    a, b = to_u(args[0]), to_u(args[1])
    r = fresh_const("recursive_result", U)
    eng.oblige("the recursive call is the last one", st, Not(And(VV.num_lt(a, U.int(0)), VV.num_lt(b, U.int(0)))))
    fin = And(VV.is_fin(a), VV.is_fin(b))
    st.assume(And(Implies(fin, And(U.is_real(r), relative(VV.rv(a), VV.rv(b), U.r(r)))), Implies(Not(fin), r == z3.If(a == b, U.int(0), U.pinf))))
    return Sym(r)


def call(c, a, b):
    c.eng.recursive["utils.per_error"] = induction_hypothesis
    return to_u(c.call(c.fn("utils.per_error"), [Sym(a), Sym(b)]))


KINDS = [("float", lambda n: U.real(z3.Const(n, z3.RealSort()))), ("int", lambda n: U.int(z3.Const(n, z3.IntSort()))), ("inf", lambda n: U.pinf), ("-inf", lambda n: U.ninf)]


def per_error(c):
    """every pair of numbers that are not NaN, kind by kind"""
    for na, ka in KINDS:
        for nb, kb in KINDS:
            a, b = ka("x1"), kb("x2")
            r = call(c, a, b)
            label = " (%s, %s)" % (na, nb)
            if na in ("inf", "-inf") or nb in ("inf", "-inf"):
                c.ensure("an infinity is infinitely far from everything but itself" + label, r == U.pinf if na != nb else And(VV.is_fin(r), VV.rv(r) == 0))
                continue
            x, y = z3.simplify(VV.rv(a)), z3.simplify(VV.rv(b))
            m = larger(x, y)
            c.ensure("a finite number" + label, VV.is_fin(r))
            v = VV.rv(r)
            c.ensure("the difference relative to the larger magnitude" + label, v * m == ab(x - y), hyps=[m > SMALL])
            c.ensure("zero below the tiny-value cut-off" + label, v == 0, hyps=[m <= SMALL])


def laws(c):
    """consequences of per_error's contract  v * max(|x|,|y|) == |x - y|  above the cut-off, 0 below"""
    x, y, v, w, n = [z3.Const(q, z3.RealSort()) for q in ("x", "y", "d_xy", "d_yx", "d_neg")]
    spec, m = relative, larger(x, y)
    c.ensure("never negative", v >= 0, hyps=[spec(x, y, v)])
    c.ensure("zero exactly for equal numbers up to the tiny-value cut-off", (v == 0) == Or(x == y, m <= SMALL), hyps=[spec(x, y, v)])
    c.ensure("symmetric", v == w, hyps=[spec(x, y, v), spec(y, x, w)])
    c.ensure("unchanged by negating both", v == n, hyps=[spec(x, y, v), spec(-x, -y, n)])


def to_bool(c, r): return c.eng.truthy(c.st, r)


def nearly_same(c):
    a, b, e = z3.Const("x1", U), z3.Const("x2", U), z3.Const("epsilon", z3.RealSort())
    c.assume(And(number(a), number(b)))
    R = z3.Const("relative_difference", U)
    def relative(eng, st, args, kw):
        ok = And(to_u(args[0]) == a, to_u(args[1]) == b)
        return Sym(R) if eng.surely(st, ok) else Sym(fresh_u("other"))
    c.eng.overrides["utils.per_error"] = relative
    c.assume(Or(R == U.pinf, And(U.is_real(R), U.r(R) >= 0)))
    r = c.call(c.fn("utils.nearly_same"), [Sym(a), Sym(b), Sym(U.real(e))])
    c.ensure("nearly the same exactly when the relative difference is below the tolerance", to_bool(c, r) == And(R != U.pinf, U.r(R) < e))


def progress(c): return c.eng.alloc(c.st, ObjC(c.eng.global_name("Progress", source.module("utils")), {"_quiet": Sym(z3.Const("quiet", z3.BoolSort()))}))


def mip_progress(c):
    a, b, th = z3.Const("lower_bound", U), z3.Const("upper_bound", U), z3.Const("theme", U)
    c.assume(And(Not(U.is_nan(a)), Not(U.is_nan(b)), U.is_str(th)))
    plain_obj(c, a); plain_obj(c, b)
    nums = And(is_number(a), is_number(b))
    ra = VV.rv(a)
    slack = Or(VV.num_le(a, b), And(VV.is_fin(a), Or(b == U.pinf, And(VV.is_fin(b), ra - z3.If(ra < 0, -ra, ra) * exact(.00001) <= VV.rv(b)))))
    me = progress(c)
    kinds = lambda v: [U.is_int(v), U.is_real(v), v == U.pinf, v == U.ninf, Not(is_number(v))]
    c.split(*[And(p, q) for p in kinds(a) for q in kinds(b)])
    c.allow_raise("TicDatError", lambda st: Or(Not(nums), Not(slack)))
    r = c.call(c.eng.find_method(c.eng.global_name("Progress", source.module("utils")), "mip_progress"), [me, Sym(th), Sym(a), Sym(b)])
    c.ensure("accepted bounds are numbers and the lower one is not above the upper one by more than the relative slack", And(nums, slack))
    c.ensure("accepted bounds let the solve go on", to_bool(c, r))


def numerical_progress(c):
    v, th = z3.Const("progress", U), z3.Const("theme", U)
    plain_obj(c, v); plain_obj(c, th)
    me = progress(c)
    c.allow_raise("TicDatError", lambda st: Or(Not(is_number(v)), Not(U.is_str(th))))
    r = c.call(c.eng.find_method(c.eng.global_name("Progress", source.module("utils")), "numerical_progress"), [me, Sym(th), Sym(v)])
    c.ensure("accepted reports are numbers with a text theme", And(is_number(v), U.is_str(th)))
    c.ensure("the solve goes on", to_bool(c, r))


CONTRACTS = [Contract("C27.per_error", "utils.per_error", per_error), Contract("C27.laws", "utils.per_error", laws, note="lemma over the contract of per_error"),
             Contract("C27.nearly_same", "utils.nearly_same", nearly_same), Contract("C27.mip_progress", "utils.Progress.mip_progress", mip_progress),
             Contract("C27.numerical_progress", "utils.Progress.numerical_progress", numerical_progress)]
