from contracts.common import *


def valid_data(c):
    c.eng.eq_mode = "numeric"
    use_date_contract(c)
    rec, sp = type_dictionary(c)
    u = z3.Const("cell", U)
    plain_obj(c, u)
    r = c.call(c.fn("utils.TypeDictionary.valid_data"), [rec, Sym(u)])
    got = as_bool(c, r)
    want = valid_spec(sp, u)
    for nm, k in [("null", is_null(u)), ("datetime type", And(Not(is_null(u)), sp["datetime"])), ("bool", And(U.is_bool(u), Not(sp["datetime"]))),
                  ("int", And(U.is_int(u), Not(sp["datetime"]))), ("real", And(U.is_real(u), Not(sp["datetime"]))),
                  ("+inf", And(U.is_pinf(u), Not(sp["datetime"]))), ("-inf", And(U.is_ninf(u), Not(sp["datetime"]))),
                  ("string", And(U.is_str(u), Not(sp["datetime"]))),
                  ("other", And(Or(U.is_dt(u), U.is_tup(u), U.is_obj(u)), Not(is_null(u)), Not(sp["datetime"])))]:
        c.ensure("valid iff allowed [%s]" % nm, Implies(k, got == want))


CONTRACTS = [Contract("C01.valid_data", "utils.TypeDictionary.valid_data", valid_data)]


def safe_creator(c):
    """any settings whatsoever: the stored type means what the settings say; a maximum below the minimum or ill-formed strings are refused"""
    c.eng.eq_mode = "numeric"
    names = ["number_allowed", "inclusive_min", "inclusive_max", "min", "max", "must_be_int", "nullable", "datetime"]
    a = {n: z3.Const(n, U) for n in names}
    for n in names: plain_obj(c, a[n])
    star, scalar = z3.Const("strings_star", B()), z3.Const("strings_scalar", B())
    n, at, sc = z3.Const("n_strings", Z()), F("strings_at", Z(), U), z3.Const("strings_value", U)
    c.assume(n >= 0); plain_obj(c, sc); c.assume(Not(U.is_tup(sc))); c.assume(Not(And(U.is_str(sc), U.s(sc) == z3.StringVal("*"))))
    i = z3.Const("i!at", Z())
    c.eng.axioms.append(z3.ForAll([i], Implies(U.is_obj(at(i)), And([Not(OBJ_HAS(U.o(at(i)), z3.StringVal(x))) for x in PROBED])), patterns=[at(i)]))
    strings = Ite(star, Con("*"), Ite(scalar, Sym(sc), SeqV(SeqC(n, lambda j: Sym(at(j)), "list"))))
    tr = {x: u_truthy(a[x]) for x in names}
    ok_strings = Or(tr["datetime"], star, And(Not(scalar), z3.ForAll([i], Implies(And(0 <= i, i < n), U.is_str(at(i))))))
    num = lambda u: Or(U.is_int(u), U.is_real(u), U.is_pinf(u), U.is_ninf(u), U.is_nan(u))
    ok_range = Or(tr["datetime"], Not(tr["number_allowed"]), And(num(a["min"]), num(a["max"]), num_le(a["min"], a["max"])))
    c.allow_raise("TicDatError", lambda st: Not(And(ok_strings, ok_range)))
    r = c.call(c.fn("utils.TypeDictionary.safe_creator"), [Sym(a[x]) for x in ("number_allowed", "inclusive_min", "inclusive_max", "min", "max", "must_be_int")] + [strings, Sym(a["nullable"]), Sym(a["datetime"])])
    fields = ("number_allowed", "inclusive_min", "inclusive_max", "min", "max", "must_be_int", "strings_allowed", "nullable", "datetime")
    got = {f: c.item(r, k) for k, f in enumerate(fields)}
    c.ensure("strings must be '*' or a list of strings", ok_strings)
    c.ensure("maximum not below minimum, both numbers", ok_range)
    c.ensure("datetime as set", as_bool(c, got["datetime"]) == tr["datetime"])
    c.ensure("nullable as set", as_bool(c, got["nullable"]) == tr["nullable"])
    on = And(Not(tr["datetime"]), tr["number_allowed"])
    c.ensure("numbers as set", as_bool(c, got["number_allowed"]) == on)
    for f in ("inclusive_min", "inclusive_max", "must_be_int"):
        c.ensure(f + " as set", Implies(on, as_bool(c, got[f]) == tr[f]))
    for f in ("min", "max"):
        c.ensure(f + " as set", Implies(on, to_u(got[f]) == a[f]))
    def strings_of(v):
        """(is '*', membership of a string)"""
        x = z3.Const("some_string", S())
        if isinstance(v, Ite):
            p, q = strings_of(v.a), strings_of(v.b)
            return VV.If(v.c, p[0], q[0]), VV.If(v.c, p[1], q[1]), x
        if isinstance(v, Con): return z3.BoolVal(v.v == "*"), z3.BoolVal(False), x
        if isinstance(v, Tup): return FALSE, Or([to_u(y) == U.str(x) for y in v.items]), x
        if isinstance(v, SeqV): return FALSE, c.eng.seq_mem(c.st, v.content, Sym(U.str(x))), x
        if isinstance(v, Sym): return to_u(v) == U.str(z3.StringVal("*")), FALSE, x
        if isinstance(v, Ref): return FALSE, c.eng.seq_mem(c.st, c.content(v), Sym(U.str(x))), x
        raise Unsupported("strings_allowed %r" % (v,))
    s, m, x = strings_of(got["strings_allowed"])
    nd = Not(tr["datetime"])
    c.ensure("all strings exactly when '*'", Implies(nd, s == star))
    c.ensure("exactly the listed strings", Implies(And(nd, Not(star)), m == z3.Exists([i], And(0 <= i, i < n, at(i) == U.str(x)))))


CONTRACTS.append(Contract("C01.safe_creator", "utils.TypeDictionary.safe_creator", safe_creator))
