from contracts.cells import *


def read_number(c):
    c.eng.eq_mode = "numeric"
    c.eng.float_rounding = True
    x = z3.Const("x", U)
    c.assume(Not(U.is_obj(x)))
    s, i = z3.Const("s", S()), z3.Const("i", Z())
    ok_int = lambda u: PB.INT_OK(u)
    c.eng.axioms += [z3.ForAll([s], And(is_number(PB.FLOAT_OF_STR(s)), Not(U.is_int(PB.FLOAT_OF_STR(s)))), patterns=[PB.FLOAT_OF_STR(s)]),
                     z3.ForAll([s], Implies(ok_int(U.str(s)), PB.FLOAT_OK(s)), patterns=[PB.FLOAT_OK(s)])]
    reads = Or(And(U.is_str(x), PB.FLOAT_OK(U.s(x))), U.is_int(x), U.is_real(x), U.is_pinf(x), U.is_ninf(x), U.is_nan(x))
    huge = And(U.is_int(x), Not(PB.FLOAT_INT_OK(U.i(x))))
    for cls in ("TicDatError", "ValueError", "TypeError", "OverflowError"): c.allow_raise(cls, lambda st: Or(Not(reads), huge))
    r = to_u(c.call(c.fn("utils.read_number"), [Sym(x)]))
    c.ensure("returns only for values that read as numbers", reads)
    c.ensure("the result is a number", is_number(r))
    c.ensure("text of an integer keeps its exact value", Implies(And(U.is_str(x), ok_int(x)), num_eq(r, U.int(PB.INT_OF_OBJ(x)))))
    c.ensure("other text gives the float it reads as", Implies(And(U.is_str(x), Not(ok_int(x))), r == PB.FLOAT_OF_STR(U.s(x))))
    c.ensure("integers keep their exact value", Implies(U.is_int(x), num_eq(r, x)))
    c.ensure("floats keep their value", Implies(Or(U.is_real(x), U.is_pinf(x), U.is_ninf(x), U.is_nan(x)), r == x))


def dv_dt_cache(fa):
    """cache invariant of _dv_dt: an entry is what the schema says (factories are frozen once used)"""
    CACHED = F("dvdt_cached", U, B())
    key = lambda k: (UL.hd(U.l(k)), UL.hd(UL.tl(U.l(k))))
    def get(k):
        t, f = key(k)
        return Tup([Ite(fa.has_default(t, f), Sym(fa.DV(t, f)), Con(("LIST", "NOT", "POSSIBLE"))), Ite(fa.typed(t, f), fa.type_rec(t, f), Con(None))])
    return MapC(lambda k: CACHED(k), get)


def reader(c, fa, mod, cls):
    use_read_number(c); use_general_read(c, fa); use_deep_freeze(c)
    k = c.eng.global_name(cls, source.module(mod))
    return k, c.eng.alloc(c.st, ObjC(k, {"tic_dat_factory": fa.ref and c.eng.content(c.st, fa.ref), "_dv_dt": dv_dt_cache(fa), "_isFrozen": Con(True)}))


def dv_dt_value(fa, t, f):
    return Tup([Ite(fa.has_default(t, f), Sym(fa.DV(t, f)), Con(("LIST", "NOT", "POSSIBLE"))), Ite(fa.typed(t, f), fa.type_rec(t, f), Con(None))])


def use_dv_dt(c, fa, qual):
    """contract of _get_dv_dt (proved below): default value and data type of the field, whatever was cached"""
    c.eng.overrides[qual] = lambda eng, st, a, k: dv_dt_value(fa, to_u(a[1]), to_u(a[2]))


def get_dv_dt(mod, clsname):
    def run(c):
        fa = cell_factory(c); defaults_are_scalars(c, fa)
        cls, ref = reader(c, fa, mod, clsname)
        t, f = table_field(c, fa)
        r = c.call(BoundFn(ref, c.eng.find_method(cls, "_get_dv_dt")), [Sym(t), Sym(f)])
        want = dv_dt_value(fa, t, f)
        dv, dt = c.eng.getitem(c.st, r, Con(0)), c.eng.getitem(c.st, r, Con(1))
        isnone = lambda v: c.eng.B.is_(c.eng, c.st, v, Con(None))
        num = lambda v: c.eng.truthy(c.st, c.eng.call(c.st, c.fn("utils.numericish"), [v], {}))
        c.ensure("the default is the declared one", Implies(fa.has_default(t, f), And(isnone(dv) == U.is_none(fa.DV(t, f)), num(dv) == is_number(fa.DV(t, f)))))
        c.ensure("a missing default is neither null nor a number", Implies(Not(fa.has_default(t, f)), And(Not(isnone(dv)), Not(num(dv)))))
        c.ensure("the type is the declared one, if any", isnone(dt) == Not(fa.typed(t, f)))
        rec = fa.type_rec(t, f)
        for nm in ("number_allowed", "nullable", "must_be_int", "datetime"):
            got = c.eng.truthy(c.st, typed_attr(c, dt, nm))
            c.ensure("the type's %s is the declared one" % nm, Implies(fa.typed(t, f), got == fa.type_spec(t, f)[nm]))
        m = c.eng.content(c.st, c.eng.getattr_(c.st, ref, "_dv_dt"))
        k2, f2 = fresh_u("t2"), fresh_u("f2")
        key = tup_u([k2, f2])
        e = m.get(key)
        d2, t2 = c.eng.getitem(c.st, e, Con(0)), c.eng.getitem(c.st, e, Con(1))
        c.ensure("cached entries keep saying what the schema says", Implies(m.dom(key), And(isnone(t2) == Not(fa.typed(k2, f2)),
                 Implies(fa.has_default(k2, f2), isnone(d2) == U.is_none(fa.DV(k2, f2))), Implies(Not(fa.has_default(k2, f2)), Not(isnone(d2))))))
    return run


def typed_attr(c, v, name):
    """attribute of a type record wherever it is one"""
    if isinstance(v, Ite):
        a, b = typed_attr(c, v.a, name), typed_attr(c, v.b, name)
        return b if a is None else a if b is None else mk_ite(v.c, a, b)
    if isinstance(v, Tup) and v.fields: return v.items[v.fields.index(name)]
    return None


def defaults_are_scalars(c, fa):
    t, f = fresh_u("t"), fresh_u("f")
    c.eng.axioms.append(z3.ForAll([t, f], Not(Or(U.is_obj(fa.DV(t, f)), U.is_tup(fa.DV(t, f)))), patterns=[fa.DV(t, f)]))


def csv_cell(c):
    fa = cell_factory(c); defaults_are_scalars(c, fa)
    cls, ref = reader(c, fa, "csvtd", "CsvTicFactory")
    use_dv_dt(c, fa, "csvtd.CsvTicFactory._get_dv_dt")
    t, f = table_field(c, fa)
    x = z3.Const("cell", U)
    c.assume(U.is_str(x))                                     # csv cells are text
    r = to_u(c.call(BoundFn(ref, c.eng.find_method(cls, "_read_cell")), [Sym(t), Sym(f), Sym(x)]))
    sp, typed = fa.type_spec(t, f), fa.typed(t, f)
    par = And(t == PARAMETERS, fa.has_params)
    has_dv, dv = fa.has_default(t, f), fa.DV(t, f)
    empty = x == U.str(z3.StringVal(""))
    nullok = Or(And(typed, sp["nullable"]), And(Not(typed), has_dv, U.is_none(dv)), is_number(GENERAL(t, f, U.none)))
    c.ensure("declared parameters are passed on", Implies(par, r == GENERAL(t, f, x)))
    c.ensure("empty text becomes null where null is allowed", Implies(And(Not(par), empty, nullok), r == GENERAL(t, f, U.none)))
    numbers = Or(And(typed, sp["number_allowed"]), And(Not(typed), has_dv, is_number(dv)), fa.GENERIC(t))
    n = READ_NUM(x)
    as_num = And(Not(par), Not(And(empty, nullok)), numbers, Not(U.is_none(n)))
    asint = And(typed, sp["must_be_int"], integral(n))
    c.ensure("text that reads as a number becomes that number", Implies(And(as_num, Not(asint)), r == GENERAL(t, f, n)))
    c.ensure("integral values of integer fields become integers", Implies(And(as_num, asint), r == GENERAL(t, f, U.int(z3.ToInt(rv(n))))))
    c.ensure("other text is converted by type only", Implies(And(Not(par), Not(And(empty, nullok)), Not(as_num)), r == GENERAL(t, f, x)))


def low(u): return u


def sqlite_cell(c):
    fa = cell_factory(c)
    cls, ref = reader(c, fa, "sqlitetd", "SQLiteTicFactory")
    t, f = table_field(c, fa)
    x = z3.Const("cell", U); plain_obj(c, x)
    r = to_u(c.call(BoundFn(ref, c.eng.find_method(cls, "_read_data_cell")), [Sym(t), Sym(f), Sym(x)]))
    par = And(t == PARAMETERS, fa.has_params)
    lo = PB.LOWER(U.s(x))
    is_ = lambda *w: And(U.is_str(x), Or([lo == z3.StringVal(y) for y in w]))
    inf = And(is_("inf", "-inf"), fa.flag_na, Not(par))
    fl = PB.FLOAT_OF_STR(U.s(x))
    s = z3.Const("s", S())
    # float() of a string ignores case: contract of the builtin
    c.eng.axioms += [z3.ForAll([s], Implies(PB.LOWER(s) == z3.StringVal("inf"), And(PB.FLOAT_OK(s), U.is_pinf(PB.FLOAT_OF_STR(s)))), patterns=[PB.LOWER(s)]),
                     z3.ForAll([s], Implies(PB.LOWER(s) == z3.StringVal("-inf"), And(PB.FLOAT_OK(s), U.is_ninf(PB.FLOAT_OF_STR(s)))), patterns=[PB.LOWER(s)])]
    c.ensure("infinity text becomes that infinity when no flag is set", Implies(inf, And(Implies(is_("inf"), U.is_pinf(r)), Implies(is_("-inf"), U.is_ninf(r)))))
    c.ensure("true text becomes True", Implies(is_("true"), r == U.bool(TRUE)))
    c.ensure("false text becomes False", Implies(is_("false"), r == U.bool(FALSE)))
    c.ensure("any other value is converted by type only", Implies(And(Not(inf), Not(is_("true", "false"))), r == GENERAL(t, f, x)))


XLDATE = z3.Function("excel_date", U, U)


class Sheet(Model):
    """an Excel sheet wrapper: only xls sheets (xlrd) carry dates as numbers"""
    def __init__(self, xlrd): self.xlrd = xlrd
    def has_attr(self, eng, st, name):
        if name != "xldate_as_tuple_munge": raise Unsupported("sheet attribute " + name)
        return self.xlrd
    def attr(self, eng, st, name):
        if name != "xldate_as_tuple_munge": raise Unsupported("sheet attribute " + name)
        return Prim(name, lambda e, s, a, k: Sym(XLDATE(to_u(a[0]))))


def xls_cell(c):
    fa = cell_factory(c); defaults_are_scalars(c, fa)
    cls, ref = reader(c, fa, "xls", "XlsTicFactory")
    use_dv_dt(c, fa, "xls.XlsTicFactory._get_dv_dt")
    t = z3.Const("table", U); c.assume(fa.TABLE(t))
    n = z3.Const("nfields", Z()); c.assume(n >= 1)
    FLD, IDX, CELL = F("xls_field", Z(), U), F("xls_index", U, Z()), F("xls_cell", Z(), U)
    w = z3.Const("width", Z())
    i = z3.Const("i!q", Z())
    c.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), And(U.is_str(FLD(i)), 0 <= IDX(FLD(i)), IDX(FLD(i)) < w)), patterns=[FLD(i)]))
    c.assume(z3.ForAll([i], Not(U.is_obj(CELL(i))), patterns=[CELL(i)]))       # sheet cells are scalars
    isf = lambda x: z3.Exists([i], And(0 <= i, i < n, FLD(i) == x))
    fields = SeqV(SeqC(n, lambda j: Sym(FLD(j)), "tuple"))
    idx = c.eng.alloc(c.st, MapC(lambda x: isf(x), lambda x: Sym(IDX(x))))
    row = SeqV(SeqC(w, lambda j: Sym(CELL(j)), "tuple"))
    treat, xlrd = z3.Const("treat_inf", B()), z3.Const("xlrd", B())
    s = z3.Const("s", S())
    LOW = PB.LOWER
    for word, isx in (("inf", U.is_pinf), ("-inf", U.is_ninf)):
        c.eng.axioms.append(And(PB.FLOAT_OK(z3.StringVal(word)), isx(PB.FLOAT_OF_STR(z3.StringVal(word)))))
    f = c.call(BoundFn(ref, c.eng.find_method(cls, "_sub_tuple")), [Sym(t), fields, idx, Sym(treat), Sheet(xlrd)])
    r = c.call(f, [row])
    par = And(t == PARAMETERS, fa.has_params)
    def spec(f):
        x = CELL(IDX(f))
        sp, typed = fa.type_spec(t, f), fa.typed(t, f)
        has_dv, dv = fa.has_default(t, f), fa.DV(t, f)
        empty = x == U.str(z3.StringVal(""))
        nullok = Or(And(typed, sp["nullable"]), And(Not(typed), has_dv, U.is_none(dv)))
        t_inf = And(treat, fa.flag_na, Not(par), U.is_str(x))
        y = z3.If(And(typed, sp["must_be_int"], integral(x), is_number(x)), U.int(z3.ToInt(rv(x))), x)
        gnull = GENERAL(t, f, U.none)
        z = z3.If(And(typed, sp["datetime"], is_number(y), xlrd), XLDATE(y), y)
        return z3.If(And(empty, nullok), U.none,
               z3.If(And(t_inf, LOW(U.s(x)) == z3.StringVal("inf")), U.pinf,
               z3.If(And(t_inf, LOW(U.s(x)) == z3.StringVal("-inf")), U.ninf,
               z3.If(And(empty, is_number(gnull)), gnull, GENERAL(t, f, z)))))
    single, many = (r.a, r.b) if isinstance(r, Ite) else (r, r)
    if isinstance(single, SeqV): single, many = many, single
    if isinstance(single, (Sym, Con, Ite)):
        c.ensure("a single field gives the converted cell", Implies(n == 1, to_u(single) == spec(FLD(z3.IntVal(0)))))
        if isinstance(r, Ite):                      # which alternative is taken is decided by the number of fields
            c.ensure("a bare value exactly for a single field", (r.c if r.a is single else Not(r.c)) == (n == 1))
    else: c.ensure("a single field gives a bare value", FALSE)
    if isinstance(many, SeqV):
        sq = c.eng.as_seqc(many.content)
        j = z3.Const("j!pos", Z())
        c.ensure("one value per field", Implies(n > 1, sq.n == n))
        c.ensure("each value is the field's cell, converted by type only", Implies(And(n > 1, 0 <= j, j < n), to_u(sq.at(j)) == spec(FLD(j))))
    else:
        c.ensure("several fields give a tuple", FALSE)


CONTRACTS = [Contract("C26.csv_get_dv_dt", "csvtd.CsvTicFactory._get_dv_dt", get_dv_dt("csvtd", "CsvTicFactory")),
             Contract("C26.xls_get_dv_dt", "xls.XlsTicFactory._get_dv_dt", get_dv_dt("xls", "XlsTicFactory")),
             Contract("C26.read_number", "utils.read_number", read_number),
             Contract("C26.csv_read_cell", "csvtd.CsvTicFactory._read_cell", csv_cell),
             Contract("C26.sqlite_read_data_cell", "sqlitetd.SQLiteTicFactory._read_data_cell", sqlite_cell),
             Contract("C26.xls_sub_tuple", "xls.XlsTicFactory._sub_tuple", xls_cell)]
