"""Shared specification vocabulary: type records, cells, rows, tables, schema objects."""
import z3
from values import *
import values as VV
from prover import Contract, Case
import pybuiltins as PB
import source

S = z3.StringSort
Z = z3.IntSort


B = z3.BoolSort
F = z3.Function
def fresh_u(name): return fresh_const(name, U)


def scalar_cell(u):
    """preconditon on opaque cell values: hashable scalars (no nested tuples), objects carry none of the probed attributes"""
    return TRUE


PROBED = ["lower", "upper", "strip", "__iter__", "__len__", "__contains__", "__getitem__", "keys", "values", "items", "next",
          "native_field", "foreign_field", "primary_key", "error_message"]


def plain_obj(c, u):
    """opaque objects of kind 'other': not strings, not containers, not numbers, not dates, not null"""
    o = U.o(u)
    c.assume(Implies(U.is_obj(u), And([Not(OBJ_HAS(o, z3.StringVal(n))) for n in PROBED] + [Not(PB.NULLISH(o))])))


def type_dictionary(c, name="ty"):
    """an arbitrary TypeDictionary satisfying safe_creator's postcondition; returns (Tup value, spec record)"""
    cls = c.eng.global_name("TypeDictionary", source.module("utils"))
    fields = next(k.fields for k in c.eng.mro(cls) if k.fields)
    b = {f: z3.Const("%s.%s" % (name, f), z3.BoolSort()) for f in ("number_allowed", "inclusive_min", "inclusive_max", "must_be_int", "nullable", "datetime")}
    mn, mx = z3.Const(name + ".min", U), z3.Const(name + ".max", U)
    star = z3.Const(name + ".strings_star", z3.BoolSort())
    n = z3.Const(name + ".nstrings", z3.IntSort())
    at = z3.Function(name + ".string_at", z3.IntSort(), z3.StringSort())
    num = lambda u: Or(U.is_int(u), U.is_real(u), U.is_pinf(u), U.is_ninf(u))
    c.assume(num(mn)); c.assume(num(mx)); c.assume(n >= 0)
    strings = Ite(star, Con("*"), SeqV(SeqC(n, lambda i: Sym(at(i)), "tuple")))
    vals = dict({k: Sym(v) for k, v in b.items()}, min=Sym(mn), max=Sym(mx), strings_allowed=strings)
    rec = Tup([vals[f] for f in fields], cls, fields)
    spec = dict(b, min=mn, max=mx, star=star, n=n, at=at)
    return rec, spec


def is_null(u): return Or(U.is_none(u), U.is_nan(u), And(U.is_obj(u), PB.NULLISH(U.o(u))))
def is_number(u): return Or(U.is_int(u), U.is_real(u), U.is_pinf(u), U.is_ninf(u), U.is_nan(u))


def integral(u):
    return Or(U.is_int(u), And(U.is_real(u), z3.IsInt(U.r(u))))


DATE_OK = z3.Function("readable_as_date", U, z3.BoolSort())
DATE_VAL = z3.Function("date_value", U, U)


def valid_spec(sp, u):
    """property C01, stated from its text"""
    i = fresh_const("i", z3.IntSort())
    lo = z3.If(sp["inclusive_min"], num_le(sp["min"], u), num_lt(sp["min"], u))
    hi = z3.If(sp["inclusive_max"], num_le(u, sp["max"]), num_lt(u, sp["max"]))
    integ = Or(Not(sp["must_be_int"]), integral(u), And(U.is_pinf(u), U.is_pinf(sp["max"]), sp["inclusive_max"]))
    number = And(sp["number_allowed"], lo, hi, integ)
    string = Or(sp["star"], z3.Exists([i], z3.And(0 <= i, i < sp["n"], sp["at"](i) == U.s(u))))
    return z3.If(is_null(u), sp["nullable"],
                 z3.If(sp["datetime"], Or(U.is_dt(u), DATE_OK(u)),
                       z3.If(is_number(u), number, z3.If(U.is_str(u), string, FALSE))))


def date_contract(eng, st, args, kwargs):
    """contract of utils.dateutil_adjuster (third-party date parsing): total, None exactly when not readable as a date"""
    u = to_u(args[0])
    ok = Or(U.is_dt(u), DATE_OK(u))
    return Sym(z3.If(U.is_dt(u), u, z3.If(DATE_OK(u), DATE_VAL(u), U.none)))


def use_date_contract(c):
    c.eng.overrides["utils.dateutil_adjuster"] = date_contract
    x = fresh_u("x")
    c.eng.axioms.append(z3.ForAll([x], U.is_dt(DATE_VAL(x))))


def as_bool(c, v): return c.eng.truthy(c.st, v)


def use_deep_freeze(c):
    """contract of utils.deep_freeze on lists and maps of scalars (proved as C09.deep_freeze): a frozen structure with the same content"""
    def f(eng, st, args, kw):
        v = args[0]
        if isinstance(v, Ref):
            k = eng.content(st, v)
            if isinstance(k, (SeqC, ListC)): return SeqV(SeqC(k.n, k.at, "tuple")) if isinstance(k, SeqC) else SeqV(ListC(k.parts, "tuple"))
            if isinstance(k, ObjC): k = k.attrs["%map"]
            cls = eng.global_name("FrozenDict", source.module("utils"))
            if isinstance(k, MapC): return eng.alloc(st, ObjC(cls, {"%map": MapC(k.dom, k.get, wit=k.wit), "_dataFrozen": Con(True), "_attributesFrozen": Con(True)}))
        raise Unsupported("deep_freeze contract on %s" % type(v).__name__)
    c.eng.overrides["utils.deep_freeze"] = f
