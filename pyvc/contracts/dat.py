"""An arbitrary data object of row tables for an arbitrary factory, and the callee contracts over it."""
from contracts.model import *

KEYED = F("row_key", U, U, B())            # KEYED(t, k): k is a primary key present in table t
CELLP = F("cell_keyed", U, U, U, U)        # data cell of the row with key k
NROWS = F("row_count", U, Z())
CELLR = F("cell_keyless", U, Z(), U, U)    # data cell of row i of a table without primary key
TLENF, TGETF = TLEN, TGET


class Dat:
    """precondition of the checks: good_tic_dat_object(tic_dat) - keys have the schema's length and rows the schema's data fields"""
    def __init__(self, c, fa, cls=None):
        self.c, self.fa, eng = c, fa, c.eng
        t, k = fresh_u("t"), fresh_u("k")
        eng.axioms.append(z3.ForAll([t], NROWS(t) >= 0, patterns=[NROWS(t)]))
        eng.axioms.append(z3.ForAll([t, k], Implies(And(KEYED(t, k), fa.NPK(t) > 1), And(U.is_tup(k), TLEN(k) == fa.NPK(t))), patterns=[KEYED(t, k)]))
        self.haspk = lambda t: fa.NPK(t) > 0
        def row(t, cell): return MapC(lambda f: fa.IS_DF(t, f), lambda f: Sym(cell(f)))
        keyed = lambda t: MapC(lambda k: KEYED(t, k), lambda k: row(t, lambda f: CELLP(t, k, f)))
        keyless = lambda t: SeqC(NROWS(t), lambda i: row(t, lambda f: CELLR(t, i, f)))
        self.dyn = MapC(lambda t: fa.TABLE(t), lambda t: UnionC(self.haspk(t), keyed(t), keyless(t)))
        self.ref = eng.alloc(c.st, ObjC(cls, {}, self.dyn))

    def full(self, t, k, f):
        """the cell of field f in the full row with primary key k"""
        fa = self.fa
        return z3.If(fa.IS_PK(t, f), z3.If(fa.NPK(t) == 1, k, TGET(k, fa.PKIDX(t, f))), CELLP(t, k, f))

    def is_row(self, t, k):
        """k identifies a row of t: a present key, or a position for tables without primary key"""
        return z3.If(self.haspk(t), KEYED(t, k), And(U.is_int(k), 0 <= U.i(k), U.i(k) < NROWS(t)))

    def cell(self, t, k, f):
        """content of field f in the row identified by k"""
        return z3.If(self.haspk(t), self.full(t, k, f), CELLR(t, U.i(k), f))


class TypeOf(Model):
    """the data type of field f of table t; validity is the opaque postcondition of TypeDictionary.valid_data (C01)"""
    def __init__(self, VALID, t, f): self.VALID, self.t, self.f = VALID, t, f
    def attr(self, eng, st, name):
        if name == "valid_data": return Prim(name, lambda e, s, a, k: Sym(self.VALID(self.t, self.f, to_u(a[0]))))
        raise Unsupported("data type attribute " + name)
    def subst(self, pairs): return TypeOf(self.VALID, subst(self.t, pairs), subst(self.f, pairs))


VALID = F("valid_for_type", U, U, U, B())


def opaque_types(fa):
    """declared data types, seen through valid_data's contract only"""
    fa.HAS_DTT, fa.HAS_DT = F("has_dt_table" + fa.tag, U, B()), F("has_dt" + fa.tag, U, U, B())
    fa.typed = lambda t, f: And(fa.HAS_DTT(t), fa.HAS_DT(t, f))
    t, f = fresh_u("t"), fresh_u("f")
    fa.c.eng.axioms.append(z3.ForAll([t, f], Implies(And(fa.HAS_DTT(t), fa.HAS_DT(t, f)), And(fa.TABLE(t), Not(fa.GENERIC(t)), fa.IS_FIELD(t, f))), patterns=[fa.HAS_DT(t, f)]))
    fa.c.eng.axioms.append(z3.ForAll([t], Implies(fa.HAS_DTT(t), And(fa.TABLE(t), Not(fa.GENERIC(t)))), patterns=[fa.HAS_DTT(t)]))
    fa.attrs["_data_types"] = MapC(lambda x: fa.HAS_DTT(x), lambda x: MapC(lambda y: fa.HAS_DT(x, y), lambda y: TypeOf(VALID, x, y)), default=lambda: EMPTY_MAP(), kind="defaultdict")


def plain_nulls(c):
    """null-like objects (NaT, pandas.NA ...) are not containers"""
    o = z3.Const("o!null", Z())
    c.eng.axioms.append(z3.ForAll([o], Implies(PB.NULLISH(o), Not(OBJ_HAS(o, z3.StringVal("__iter__")))), patterns=[PB.NULLISH(o)]))


def good_object(c):
    c.eng.overrides["ticdatfactory.TicDatFactory.good_tic_dat_object"] = lambda e, s, a, k: Con(True)


def schema_copy(c, fa):
    """contract of schema + create_from_full_schema (C10): a new factory with the same data types"""
    c.eng.overrides["ticdatfactory.TicDatFactory.schema"] = lambda e, s, a, k: Con("FULL SCHEMA")
    def rebuild(e, s, a, k): return e.alloc(s, ObjC(fa.cls, {n: fa.attrs[n] for n in ("_data_types", "_primary_key_fields", "_data_fields", "all_tables", "generic_tables")}))
    c.eng.overrides["ticdatfactory.TicDatFactory.create_from_full_schema"] = rebuild


def use_full_row(c, fa, dat):
    """contract of _get_full_row (C02.get_full_row)"""
    def f(eng, st, args, kw):
        t, k = to_u(args[2]), to_u(args[3])
        return eng.alloc(st, MapC(lambda f: fa.IS_FIELD(t, f), lambda f: Sym(dat.full(t, k, f))))
    c.eng.overrides["ticdatfactory.TicDatFactory._get_full_row"] = f
