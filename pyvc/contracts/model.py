"""An arbitrary TicDatFactory / TicDat as seen by the functions under contract.

Every factory attribute is an arbitrary mathematical map (no bound on tables, fields, types), constrained only by the class
invariants that the constructor and the setters establish (their own contracts): tables have distinct field names, primary key
and data fields are disjoint, recorded types belong to existing fields.
"""
from contracts.common import *

F = z3.Function
B = z3.BoolSort


class Factory:
    def __init__(self, c, cls="TicDatFactory", mod=None, tag="", eng_inverse=True):
        self.c, eng = c, c.eng
        self.tag = tag
        n = lambda s: s + tag
        self.cls = eng.global_name(cls, source.module(mod or {"TicDatFactory": "ticdatfactory", "PanDatFactory": "pandatfactory"}[cls]))
        self.TABLE = F(n("is_table"), U, B())
        self.GENERIC = F(n("is_generic"), U, B())
        self.GENTAB = F(n("is_generator"), U, B())
        self.NPK = F(n("npk"), U, Z())
        self.PKF = F(n("pkf"), U, Z(), U)
        self.PKIDX = F(n("pkidx"), U, U, Z())
        self.NDF = F(n("ndf"), U, Z())
        self.DFF = F(n("dff"), U, Z(), U)
        self.DFIDX = F(n("dfidx"), U, U, Z())
        self.IS_PK = lambda t, f: And(0 <= self.PKIDX(t, f), self.PKIDX(t, f) < self.NPK(t), self.PKF(t, self.PKIDX(t, f)) == f)
        self.IS_DF = lambda t, f: And(0 <= self.DFIDX(t, f), self.DFIDX(t, f) < self.NDF(t), self.DFF(t, self.DFIDX(t, f)) == f)
        self.IS_FIELD = lambda t, f: Or(self.IS_PK(t, f), self.IS_DF(t, f))
        t, i = fresh_u("t"), z3.Const("i!ax", Z())
        eng.axioms.append(z3.ForAll([t], z3.And(self.NPK(t) >= 0, self.NDF(t) >= 0)))
        eng.axioms.append(z3.ForAll([t], z3.Implies(self.TABLE(t), U.is_str(t))))
        eng.axioms.append(z3.ForAll([t], z3.Implies(self.GENERIC(t), self.TABLE(t))))
        eng.axioms.append(z3.ForAll([t, i], z3.Implies(z3.And(0 <= i, i < self.NPK(t)), z3.And(self.PKIDX(t, self.PKF(t, i)) == i, U.is_str(self.PKF(t, i)))),
                                    patterns=[self.PKF(t, i)]))
        eng.axioms.append(z3.ForAll([t, i], z3.Implies(z3.And(0 <= i, i < self.NDF(t)), z3.And(self.DFIDX(t, self.DFF(t, i)) == i, U.is_str(self.DFF(t, i)))),
                                    patterns=[self.DFF(t, i)]))
        f = fresh_u("f")
        eng.axioms.append(z3.ForAll([t, f], Not(And(self.IS_PK(t, f), self.IS_DF(t, f))), patterns=[z3.MultiPattern(self.PKIDX(t, f), self.DFIDX(t, f))]))
        eng.inverses[n("pkf")] = (lambda tt, x: self.PKIDX(tt, x), lambda tt, x: self.PKF(tt, self.PKIDX(tt, x)) == x)
        eng.inverses[n("dff")] = (lambda tt, x: self.DFIDX(tt, x), lambda tt, x: self.DFF(tt, self.DFIDX(tt, x)) == x)
        self.attrs = {}
        fields_dom = lambda x: And(self.TABLE(x), Not(self.GENERIC(x)))
        self.attrs["_primary_key_fields"] = MapC(fields_dom, lambda x: SeqV(SeqC(self.NPK(x), lambda j: Sym(self.PKF(x, j)), "tuple")))
        self.attrs["_data_fields"] = MapC(fields_dom, lambda x: SeqV(SeqC(self.NDF(x), lambda j: Sym(self.DFF(x, j)), "tuple")))
        self.attrs["all_tables"] = SetC(lambda x: self.TABLE(x), "frozenset")
        self.attrs["generic_tables"] = SetC(lambda x: self.GENERIC(x), "frozenset")
        ng = fresh_const("ngen", Z()); self.c.assume(ng >= 0)

    # ---- pieces
    def used(self, u=None):
        """_has_been_used: a list that is empty exactly when the factory is unused"""
        n = z3.Const("has_been_used" + self.tag, Z())
        self.c.assume(n >= 0)
        self.attrs["_has_been_used"] = SeqC(n, lambda i: Con(True))
        return n > 0

    def types(self):
        """arbitrary data types, field by field"""
        self.HAS_DTT, self.HAS_DT = F("has_dt_table" + self.tag, U, B()), F("has_dt" + self.tag, U, U, B())
        cls = self.c.eng.global_name("TypeDictionary", source.module("utils"))
        fields = next(k.fields for k in self.c.eng.mro(cls) if k.fields)
        bs = ("number_allowed", "inclusive_min", "inclusive_max", "must_be_int", "nullable", "datetime")
        fb = {b: F("ty_" + b + self.tag, U, U, B()) for b in bs}
        mn, mx, star = F("ty_min" + self.tag, U, U, U), F("ty_max" + self.tag, U, U, U), F("ty_star" + self.tag, U, U, B())
        ns, at = F("ty_nstr" + self.tag, U, U, Z()), F("ty_str" + self.tag, U, U, Z(), S())
        t, f = fresh_u("t"), fresh_u("f")
        num = lambda u: Or(U.is_int(u), U.is_real(u), U.is_pinf(u), U.is_ninf(u))
        self.c.eng.axioms.append(z3.ForAll([t, f], And(num(mn(t, f)), num(mx(t, f)), ns(t, f) >= 0)))
        def rec(t, f):
            vals = {b: Sym(fb[b](t, f)) for b in bs}
            vals.update(min=Sym(mn(t, f)), max=Sym(mx(t, f)),
                        strings_allowed=Ite(star(t, f), Con("*"), SeqV(SeqC(ns(t, f), lambda i: Sym(at(t, f, i)), "tuple"))))
            return Tup([vals[x] for x in fields], cls, fields)
        self.type_rec = rec
        self.type_spec = lambda t, f: dict({b: fb[b](t, f) for b in bs}, min=mn(t, f), max=mx(t, f), star=star(t, f), n=ns(t, f), at=lambda i: at(t, f, i))
        self.attrs["_data_types"] = MapC(lambda x: self.HAS_DTT(x), lambda x: MapC(lambda y: self.HAS_DT(x, y), lambda y: rec(x, y)),
                                         default=lambda: EMPTY_MAP(), kind="defaultdict")
        self.typed = lambda t, f: And(self.HAS_DTT(t), self.HAS_DT(t, f))

    def io_flag(self):
        self.flag = z3.Const("infinity_io_flag" + self.tag, U)
        na = self.flag == U.str(z3.StringVal("N/A"))
        fin = And(Or(U.is_int(self.flag), U.is_real(self.flag)), rv(self.flag) > 0)
        self.c.assume(Or(na, fin, U.is_none(self.flag)))
        self.attrs["_infinity_io_flag"] = ListC([Part([], TRUE, Sym(self.flag))])
        self.flag_na, self.flag_num, self.flag_null = na, fin, U.is_none(self.flag)

    def automunge(self):
        self.munge = z3.Const("automunge" + self.tag, B())
        self.attrs["_automunge_multitype_fields"] = ListC([Part([], TRUE, Sym(self.munge))])

    def defaults(self):
        """_default_values: arbitrary; recorded for existing fields only"""
        self.HAS_DV, self.DV = F("has_default" + self.tag, U, U, B()), F("default" + self.tag, U, U, U)
        HT = F("has_default_table" + self.tag, U, B())
        self.has_default = lambda t, f: And(HT(t), self.HAS_DV(t, f))
        self.attrs["_default_values"] = MapC(lambda x: HT(x), lambda x: MapC(lambda y: self.HAS_DV(x, y), lambda y: Sym(self.DV(x, y))),
                                             default=lambda: EMPTY_MAP(), kind="defaultdict")

    def params(self):
        """_parameters: an arbitrary map of names"""
        self.PARAM = F("is_parameter" + self.tag, U, B())
        some = z3.Const("some_parameter" + self.tag, U)
        x = fresh_u("p")
        self.c.eng.axioms.append(z3.ForAll([x], Implies(self.PARAM(x), self.PARAM(some)), patterns=[self.PARAM(x)]))
        self.attrs["_parameters"] = MapC(lambda x: self.PARAM(x), lambda x: Sym(F("parameter" + self.tag, U, U)(x)), wit=some)
        self.has_params = self.PARAM(some)

    def build(self):
        self.ref = self.c.eng.alloc(self.c.st, ObjC(self.cls, self.attrs))
        return self.ref

    def method(self, name):
        return BoundFn(self.ref, self.c.eng.find_method(self.cls, name))
