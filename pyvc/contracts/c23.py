from contracts.c09 import *
from contracts.cells import use_read_number, READ_NUM
CONTRACTS = []

HASTD, NULLABLE, DATETIME, NUMOK = (F(n, U, B()) for n in ("parameter_has_type", "parameter_nullable", "parameter_is_date", "parameter_allows_numbers"))
VALIDP, DEF, PARAM = F("valid_parameter_value", U, U, B()), F("parameter_default", U, U), F("is_parameter", U, B())
VALUE = F("table_value", U, U)


class ParamType(Model):
    """the declared type of parameter k; validity by TypeDictionary.valid_data's contract (C01)"""
    def __init__(self, k): self.k = k
    def attr(self, eng, st, name):
        if name in ("nullable", "datetime", "number_allowed"): return Sym({"nullable": NULLABLE, "datetime": DATETIME, "number_allowed": NUMOK}[name](self.k))
        if name == "valid_data": return Prim(name, lambda e, s, a, kw: Sym(VALIDP(self.k, to_u(a[0]))))
        raise Unsupported("data type attribute " + name)
    def has_attr(self, eng, st, name): return z3.BoolVal(name in ("nullable", "datetime", "number_allowed", "valid_data"))
    def subst(self, pairs): return ParamType(subst(self.k, pairs))


def parameters(c, fa):
    info = ClassV("ParameterInfo", None, None, (), ["type_dictionary", "default_value"], (c.eng.B.BUILTINS["tuple"],))
    rec = lambda k: Tup([Ite(HASTD(k), ParamType(k), Con(None)), Sym(DEF(k))], info, ["type_dictionary", "default_value"])
    some = z3.Const("some_parameter", U)
    x = fresh_u("p")
    c.eng.axioms.append(z3.ForAll([x], Implies(PARAM(x), And(PARAM(some))), patterns=[PARAM(x)]))
    fa.attrs["_parameters"] = MapC(lambda k: PARAM(k), rec, wit=some)
    P = U.str(z3.StringVal("parameters"))
    c.assume(Implies(PARAM(some), And(fa.TABLE(P), Not(fa.GENERIC(P)), fa.NPK(P) == 1, fa.NDF(P) == 1)))     # add_parameter's postcondition (C19.add_parameter)
    fa.P, fa.some, fa.field = P, some, fa.DFF(P, 0)


def readable(u): return Or(U.is_dt(u), DATE_OK(u))
def date_of(u): return z3.If(U.is_dt(u), u, DATE_VAL(u))
def is_date(k): return And(HASTD(k), DATETIME(k))


def post_read(c):
    """every entry of the parameters table, whatever its name and text"""
    HAS, VAL = F("has_key", U, B()), VALUE
    def rowfactory(eng, st, a, k):
        return eng.alloc(st, MapC(lambda f: f == c.fa.field, lambda f, u=to_u(a[0]): Sym(u)))
    fa, t, f = table_frames(c, 1, Prim("rowfactory", rowfactory))
    c.fa = fa
    parameters(c, fa)
    c.st.heap[fa.ref.cid].attrs["_parameters"] = fa.attrs["_parameters"]
    c.assume(t == fa.P)
    K = c.call(f, [c.eng.alloc(c.st, EMPTY_LIST()), Sym(t)])
    row = lambda u: MapC(lambda f: f == fa.field, lambda f: Sym(u))
    tbl = c.eng.alloc(c.st, ObjC(K, {"%map": MapC(lambda k: HAS(k), lambda k: row(VAL(k)))}))
    use_date_contract(c); use_read_number(c)
    k = z3.Const("name", U)
    kk = fresh_u("k")
    c.eng.axioms.append(z3.ForAll([kk], Implies(HAS(kk), Not(U.is_tup(kk))), patterns=[HAS(kk)]))
    o = z3.Const("o!any", Z())
    for n in PROBED: c.eng.axioms.append(z3.ForAll([o], Not(OBJ_HAS(o, z3.StringVal(n))), patterns=[OBJ_HAS(o, z3.StringVal(n))]))
    dat = c.eng.alloc(c.st, ObjC(None, {"parameters": tbl}))
    c.call(fa.method("_parameter_table_post_read_adjustment"), [dat])
    m = c.content(tbl).attrs["%map"]
    v = VAL(k)
    c.ensure("no name appears or disappears", m.dom(k) == HAS(k))
    row2 = m.get(k)
    row2 = row2 if isinstance(row2, Content) else c.content(row2)
    now = to_u(row2.get(fa.field))
    here = [HAS(k)]
    declared = PARAM(fa.some)
    type_ = And(PARAM(k), HASTD(k))
    empty = U.str(z3.StringVal(""))
    num = READ_NUM(v)
    only_null = And(type_, NULLABLE(k), v == empty, Not(VALIDP(k, empty)))
    date = And(type_, DATETIME(k))
    asnum = z3.If(And(is_number(num), Or(U.is_int(num), And(U.is_real(num), z3.IsInt(U.r(num))))), U.int(z3.If(U.is_int(num), U.i(num), z3.ToInt(U.r(num)))), num)
    c.ensure("nothing changes when no parameters are declared", now == v, hyps=here + [Not(declared)])
    c.ensure("empty text becomes null where only null is valid", U.is_none(now), hyps=here + [declared, only_null])
    h = here + [declared, Not(only_null)]
    c.ensure("text of date parameters becomes the date it reads as", now == z3.If(readable(v), date_of(v), v), hyps=h + [date])
    h = h + [Not(date)]
    c.ensure("types refusing numbers keep the entry", now == v, hyps=h + [type_, Not(NUMOK(k))])
    c.ensure("text reading as a number becomes that number, integral ones an integer", now == asnum, hyps=h + [Not(And(type_, Not(NUMOK(k)))), Not(U.is_none(num))])
    c.ensure("any other entry is unchanged", now == v, hyps=h + [U.is_none(num)])


def full_dict(c):
    """every declared parameter, and every other entry of the table"""
    fa = Factory(c)
    parameters(c, fa); fa.build()
    good_object_(c)
    use_date_contract(c)
    HAS = F("has_key", U, B())
    row = lambda u: MapC(lambda f: f == fa.field, lambda f: Sym(u))
    tbl = c.eng.alloc(c.st, MapC(lambda k: HAS(k), lambda k: row(VALUE(k))))
    dat = c.eng.alloc(c.st, ObjC(None, {"parameters": tbl}))
    c.allow_raise("TicDatError", lambda st: Not(PARAM(fa.some)))
    r = c.content(c.call(fa.method("create_full_parameters_dict"), [dat]))
    full_posts(c, fa, r, HAS)


def full_posts(c, fa, r, HAS):
    k = z3.Const("name", U)
    c.ensure("some parameters have to be declared", PARAM(fa.some))
    c.ensure("exactly the declared parameters and the table's entries", r.dom(k) == Or(PARAM(k), HAS(k)))
    c.ensure("table entries win", to_u(r.get(k)) == VALUE(k), hyps=[HAS(k)])
    d = DEF(k)
    c.ensure("otherwise the default, dates read as dates", to_u(r.get(k)) == z3.If(And(is_date(k), readable(d)), date_of(d), d), hyps=[PARAM(k), Not(HAS(k))])


def good_object_(c):
    c.eng.overrides["ticdatfactory.TicDatFactory.good_tic_dat_object"] = lambda e, s, a, k: Con(True)


CONTRACTS += [Contract("C23.create_full_parameters_dict", "ticdatfactory.TicDatFactory.create_full_parameters_dict", full_dict)]
