from contracts.cells import *


def bias(c):
    fa = cell_factory(c)
    t, f = table_field(c, fa)
    c.allow_raise("TicDatError", lambda st: And(fa.flag_null, both(fa, t, f)))
    r = to_u(c.call(fa.method("_none_as_infinity_bias"), [Sym(t), Sym(f)]))
    c.ensure("no bias without a null flag", Implies(Not(fa.flag_null), U.is_none(r)))
    c.ensure("bias is the one infinity allowed in place of null", Implies(fa.flag_null, r == bias_spec(fa, t, f)))


def cell_write(c):
    fa = cell_factory(c)
    t, f = table_field(c, fa)
    x = z3.Const("cell", U); plain_obj(c, x)
    c.allow_raise("TicDatError", lambda st: And(fa.flag_null, both(fa, t, f)))
    r = to_u(c.call(fa.method("_infinity_flag_write_cell"), [Sym(t), Sym(f), Sym(x)]))
    par = And(t == PARAMETERS, fa.has_params)
    num = numeric(x)
    c.ensure("declared parameters are left alone", Implies(And(par, Not(is_null(x))), r == x))
    c.ensure("null parameters are written as null", Implies(And(par, is_null(x)), U.is_none(r)))
    n = And(Not(par), fa.flag_num, num)
    neg = minus(fa.flag)
    c.ensure("above the flag becomes the flag", Implies(And(n, num_lt(fa.flag, x)), r == fa.flag))
    c.ensure("below minus the flag becomes minus the flag", Implies(And(n, num_lt(x, neg)), r == neg))
    c.ensure("numbers within the flag keep their value", Implies(And(n, num_le(neg, x), num_le(x, fa.flag)), num_eq(r, x)))
    c.ensure("other cells are left alone under a numeric flag", Implies(And(Not(par), fa.flag_num, Not(num)), r == x))
    c.ensure("cells pass unchanged without a flag", Implies(And(Not(par), fa.flag_na), r == x))
    b = bias_spec(fa, t, f)
    hit = Or(And(U.is_pinf(x), b == U.int(1)), And(U.is_ninf(x), b == U.int(-1)))
    c.ensure("null flag: the allowed infinity becomes null", Implies(And(Not(par), fa.flag_null, hit), U.is_none(r)))
    c.ensure("null flag: anything else is left alone", Implies(And(Not(par), fa.flag_null, Not(hit)), r == x))


def cell_read(c):
    fa = cell_factory(c)
    t, f = table_field(c, fa)
    x = z3.Const("cell", U); plain_obj(c, x)
    use_read_number(c)
    c.allow_raise("TicDatError", lambda st: And(fa.flag_null, both(fa, t, f)))
    r = to_u(c.call(fa.method("_general_read_cell"), [Sym(t), Sym(f), Sym(x)]))
    par = And(t == PARAMETERS, fa.has_params)
    sp = fa.type_spec(t, f)
    want = general_spec(fa, t, f, x)
    isdate = And(fa.typed(t, f), sp["datetime"], Not(is_null(x)), Or(U.is_dt(x), DATE_OK(x)))
    c.ensure("declared parameters are left alone", Implies(par, r == want))
    c.ensure("date fields: readable text becomes that date", Implies(And(Not(par), isdate), r == want))
    rest = And(Not(par), Not(isdate))
    c.ensure("numeric flag: numbers at or beyond it become infinite, others pass", Implies(And(rest, fa.flag_num), r == want))
    c.ensure("null flag: null becomes the allowed infinity, others pass", Implies(And(rest, fa.flag_null), r == want))
    c.ensure("no flag: cells are converted by type only", Implies(And(rest, fa.flag_na), r == want))


def lemma_round_trip(c):
    """over the two contracts above: reading what was written gives the cell back, below the flag or infinite"""
    flag, x = z3.Const("flag", U), z3.Const("x", U)
    c.assume(And(Or(U.is_int(flag), U.is_real(flag)), rv(flag) > 0))
    neg, num = minus(flag), numeric
    w, r = z3.Const("written", U), z3.Const("read", U)
    c.pre_pc = c.st.pc
    # written per the writer's contract
    c.assume(Implies(And(num(x), num_lt(flag, x)), w == flag))
    c.assume(Implies(And(num(x), num_lt(x, neg)), w == neg))
    c.assume(Implies(And(num(x), num_le(neg, x), num_le(x, flag)), num_eq(w, x)))
    c.assume(Implies(Not(num(x)), w == x))
    # read per the reader's contract (no textual conversion involved)
    c.assume(Implies(And(num(w), num_le(flag, w)), U.is_pinf(r)))
    c.assume(Implies(And(num(w), num_le(w, neg)), U.is_ninf(r)))
    c.assume(Implies(Not(And(num(w), Or(num_le(flag, w), num_le(w, neg)))), r == w))
    small = And(num(x), num_lt(neg, x), num_lt(x, flag))
    c.ensure("infinities come back", Implies(Or(U.is_pinf(x), U.is_ninf(x)), r == x))
    c.ensure("numbers below the flag come back", Implies(small, num_eq(r, x)))
    c.ensure("cells that are not numbers come back", Implies(Not(num(x)), r == x))


CONTRACTS = [Contract("C12.none_as_infinity_bias", "ticdatfactory.TicDatFactory._none_as_infinity_bias", bias),
             Contract("C12.infinity_flag_write_cell", "ticdatfactory.TicDatFactory._infinity_flag_write_cell", cell_write),
             Contract("C12.general_read_cell", "ticdatfactory.TicDatFactory._general_read_cell", cell_read, covers=("C26",)),
             Contract("C12.round_trip", "ticdatfactory.TicDatFactory._general_read_cell", lemma_round_trip, note="lemma over the two cell contracts")]
