"""Cell level contracts shared by the properties about reading and writing (C12, C23, C26)."""
from contracts.model import *

PARAMETERS = U.str(z3.StringVal("parameters"))
READ_NUM = z3.Function("text_as_number", U, U)


def use_read_number(c):
    """contract of utils.read_number (proved as C26.read_number): raises, or the number the value reads as"""
    def f(eng, st, args, kw):
        u = to_u(args[0])
        eng.raise_(st, "ValueError", U.is_none(READ_NUM(u)))
        return Sym(READ_NUM(u))
    c.eng.overrides["utils.read_number"] = f
    y = fresh_u("y")
    c.eng.axioms.append(z3.ForAll([y], And(Or(U.is_none(READ_NUM(y)), is_number(READ_NUM(y))),
                                           Implies(is_number(y), And(Not(U.is_none(READ_NUM(y))), Or(num_eq(READ_NUM(y), y), And(U.is_nan(y), U.is_nan(READ_NUM(y)))))),
                                           Implies(Not(Or(U.is_str(y), is_number(y))), U.is_none(READ_NUM(y)))), patterns=[READ_NUM(y)]))


def applicable(fa, t, f):
    sp = fa.type_spec(t, f)
    return And(fa.typed(t, f), sp["number_allowed"], Not(sp["nullable"]))


def both(fa, t, f):
    sp = fa.type_spec(t, f)
    return And(applicable(fa, t, f), valid_spec(sp, U.pinf), valid_spec(sp, U.ninf))


def bias_spec(fa, t, f):
    """property C12: nulls stand for an infinity only for number fields that forbid null and allow exactly one infinity"""
    sp = fa.type_spec(t, f)
    return z3.If(And(applicable(fa, t, f), valid_spec(sp, U.pinf)), U.int(1), z3.If(And(applicable(fa, t, f), valid_spec(sp, U.ninf)), U.int(-1), U.none))


def minus(u): return z3.If(U.is_int(u), U.int(-U.i(u)), U.real(-U.r(u)))
def numeric(u): return And(is_number(u), Not(U.is_nan(u)))


def general_spec(fa, t, f, x):
    """what _general_read_cell returns, case by case, from the text of C12 and C26"""
    sp = fa.type_spec(t, f)
    par = And(t == PARAMETERS, fa.has_params)
    typed = fa.typed(t, f)
    isdate = And(typed, sp["datetime"], Not(is_null(x)), Or(U.is_dt(x), DATE_OK(x)))
    strs = Or(sp["star"], sp["n"] > 0)
    munge = And(typed, Not(sp["datetime"]), strs, sp["number_allowed"], fa.munge)
    x2 = z3.If(And(munge, Not(U.is_none(READ_NUM(x)))), READ_NUM(x), x)
    b = bias_spec(fa, t, f)
    return z3.If(par, x, z3.If(isdate, z3.If(U.is_dt(x), x, DATE_VAL(x)),
           z3.If(And(fa.flag_num, numeric(x2), num_le(fa.flag, x2)), U.pinf,
           z3.If(And(fa.flag_num, numeric(x2), num_le(x2, minus(fa.flag))), U.ninf,
           z3.If(And(fa.flag_null, U.is_none(x2), b == U.int(1)), U.pinf,
           z3.If(And(fa.flag_null, U.is_none(x2), b == U.int(-1)), U.ninf, x2))))))


GENERAL = z3.Function("general_read", U, U, U, U)


def use_general_read(c, fa):
    """contract of _general_read_cell: GENERAL(t, f, x) is the value general_spec gives (proved as C12.general_read_cell)"""
    def f(eng, st, args, kw):
        return Sym(GENERAL(to_u(args[1]), to_u(args[2]), to_u(args[3])))
    c.eng.overrides["ticdatfactory.TicDatFactory._general_read_cell"] = f


def cell_factory(c):
    c.eng.eq_mode = "numeric"
    use_date_contract(c)
    fa = Factory(c)
    fa.types(); fa.io_flag(); fa.automunge(); fa.params(); fa.defaults()
    CACHED = F("bias_cached", U, B())
    key = lambda k: (UL.hd(U.l(k)), UL.hd(UL.tl(U.l(k))))
    fa.attrs["_none_as_infinity_bias_cache"] = MapC(lambda k: CACHED(k), lambda k: Sym(bias_spec(fa, *key(k))))   # cache invariant
    fa.build()
    return fa


def table_field(c, fa):
    t, f = z3.Const("table", U), z3.Const("field", U)
    c.assume(fa.TABLE(t)); c.assume(U.is_str(f))
    return t, f
