from contracts.dat import *


def current(eng, st, fa, dat):
    """(keyed cell, keyless cell) of the data object as it is in state st"""
    dyn = st.heap[dat.ref.cid].dyn
    def pick(c, t, keyed):
        if not isinstance(c, UnionC): return c
        if c.c.eq(dat.haspk(t)): return pick(c.a if keyed else c.b, t, keyed)
        return VV.mk_union(c.c, pick(c.a, t, keyed), pick(c.b, t, keyed))
    def side(t, keyed): return pick(dyn.get(t), t, keyed)
    def kcell(t, k, f): return z3.If(fa.IS_PK(t, f), z3.If(fa.NPK(t) == 1, k, TGET(k, fa.PKIDX(t, f))), to_u(side(t, True).get(k).get(f)))
    def icell(t, i, f): return to_u(side(t, False).at(i).get(f))
    return kcell, icell, side


def failing(fa, t, f, v):
    return Or(And(fa.typed(t, f), Not(VALID(t, f, v))), And(Not(fa.typed(t, f)), fa.TABLE(t), Not(fa.GENERIC(t)), fa.IS_PK(t, f), is_null(v)))


def use_find_failures(c, fa, dat):
    """contract of find_data_type_failures (C02.find_data_type_failures) over the current data"""
    def run(eng, st, args, kw):
        kcell, icell, _ = current(eng, st, fa, dat)
        def bad(x, r, keyed):
            t, f = cons_shape(x, 2)[1]
            if keyed: return And(fa.NPK(t) > 0, KEYED(t, r), failing(fa, t, f, kcell(t, r, f)))
            return And(Not(fa.NPK(t) > 0), 0 <= r, r < NROWS(t), failing(fa, t, f, icell(t, r, f)))
        def get(x):
            k, i, k2, i2 = fresh_u("k"), fresh_const("i", Z()), fresh_u("k"), fresh_const("i", Z())
            t, f = cons_shape(x, 2)[1]
            pks = ListC([Part([k], bad(x, k, True), Sym(k)), Part([i], bad(x, i, False), Sym(i))], "tuple")
            vals = ListC([Part([k2], bad(x, k2, True), Sym(kcell(t, k2, f))), Part([i2], bad(x, i2, False), Sym(icell(t, i2, f)))], "tuple")
            return Tup([SeqV(vals), SeqV(pks)])
        def dom(x):
            k, i = fresh_u("k"), fresh_const("i", Z())
            return And(cons_shape(x, 2)[0], Or(Exists([k], bad(x, k, True)), Exists([i], bad(x, i, False))))
        return eng.alloc(st, MapC(dom, get))
    c.eng.overrides["ticdatfactory.TicDatFactory.find_data_type_failures"] = run


def replace_data_type_failures(c):
    fa = Factory(c); opaque_types(fa); fa.defaults(); fa.build()
    dat = Dat(c, fa)
    plain_nulls(c); good_object(c)
    use_find_failures(c, fa, dat)
    HASR, R = F("has_replacement", U, B()), F("replacement", U, U)
    x = fresh_u("x")
    rv = c.eng.alloc(c.st, MapC(lambda x: HASR(x), lambda x: Sym(R(x))))
    c.assume(z3.ForAll([x], Implies(HASR(x), U.is_tup(x)), patterns=[HASR(x)]))
    t, f, k, i = z3.Const("table", U), z3.Const("field", U), z3.Const("row", U), z3.Const("position", Z())
    key = tup_u([t, f])
    repl = lambda t, f: z3.If(HASR(tup_u([t, f])), R(tup_u([t, f])), z3.If(fa.has_default(t, f), fa.DV(t, f), U.int(0)))
    def unchanged(st):
        kc, ic, side = current(c.eng, st, fa, dat)
        return And(Implies(And(dat.haspk(t), KEYED(t, k), fa.IS_FIELD(t, f)), kc(t, k, f) == dat.full(t, k, f)),
                   Implies(And(Not(dat.haspk(t)), 0 <= i, i < NROWS(t), fa.IS_DF(t, f)), ic(t, i, f) == CELLR(t, i, f)),
                   side(t, True).dom(k) == KEYED(t, k), side(t, False).n == NROWS(t))
    tt, ff, kk, ii = fresh_u("t"), fresh_u("f"), fresh_u("k"), fresh_const("i", Z())
    needed = lambda t, f: Or(Exists([kk], And(dat.haspk(t), KEYED(t, kk), Not(VALID(t, f, dat.full(t, kk, f))))),
                             Exists([ii], And(Not(dat.haspk(t)), 0 <= ii, ii < NROWS(t), Not(VALID(t, f, CELLR(t, ii, f))))))
    bad_replacement = z3.Exists([tt, ff], And(fa.typed(tt, ff), Not(fa.IS_PK(tt, ff)), needed(tt, ff), Not(VALID(tt, ff, repl(tt, ff)))))
    shape, parts = cons_shape(x, 2)
    bad_request = z3.Exists([x], And(HASR(x), Not(And(TLEN(x) == 2, fa.TABLE(TGET(x, 0)), Not(fa.GENERIC(TGET(x, 0))), fa.IS_DF(TGET(x, 0), TGET(x, 1))))))
    c.allow_raise("TicDatError", lambda st: And(Or(bad_replacement, bad_request), unchanged(st)))
    c.hint(key, t, k)
    r = c.call(fa.method("replace_data_type_failures"), [dat.ref, rv])
    c.ensure("an unknown table or field in the replacements is refused", Not(bad_request))
    kc, ic, side = current(c.eng, c.st, fa, dat)
    fails = lambda v: And(fa.typed(t, f), Not(VALID(t, f, v)))
    c.ensure("rows and keys are unchanged", And(side(t, True).dom(k) == KEYED(t, k), side(t, False).n == NROWS(t)))
    hk = [dat.haspk(t), KEYED(t, k)]
    new = to_u(side(t, True).get(k).get(f))
    c.ensure("keyed table: failing data cells get the replacement, all others stay", Implies(fa.IS_DF(t, f), new == z3.If(fails(CELLP(t, k, f)), repl(t, f), CELLP(t, k, f))), hyps=hk)
    c.ensure("keyed table: rows keep exactly their data fields", side(t, True).get(k).dom(f) == fa.IS_DF(t, f), hyps=hk)
    c.ensure("keyed table: no data cell fails afterwards", Implies(And(fa.IS_DF(t, f), fa.typed(t, f)), VALID(t, f, new)), hyps=hk)
    hi = [Not(dat.haspk(t)), 0 <= i, i < NROWS(t)]
    newi = to_u(side(t, False).at(i).get(f))
    c.ensure("keyless table: failing data cells get the replacement, all others stay", Implies(fa.IS_DF(t, f), newi == z3.If(fails(CELLR(t, i, f)), repl(t, f), CELLR(t, i, f))), hyps=hi)
    c.ensure("keyless table: rows keep exactly their data fields", side(t, False).at(i).dom(f) == fa.IS_DF(t, f), hyps=hi)
    c.ensure("keyless table: no data cell fails afterwards", Implies(And(fa.IS_DF(t, f), fa.typed(t, f)), VALID(t, f, newi)), hyps=hi)
    c.ensure("the object itself is returned", z3.BoolVal(isinstance(r, Ref) and r.cid == dat.ref.cid or isinstance(r, Ite)))


CONTRACTS = [Contract("C03.replace_data_type_failures", "ticdatfactory.TicDatFactory.replace_data_type_failures", replace_data_type_failures)]
