from contracts.c19 import *
from contracts.c15 import settled
CONTRACTS = []


def table_fields(c, fa, r, t, j):
    """r describes the declared tables and fields"""
    c.ensure("exactly the tables are listed", r.dom(t) == fa.TABLE(t))
    entry = r.get(t)
    if not isinstance(entry, UnionC): raise Unsupported("schema entry")
    generic, star, pair = entry.c, entry.a, entry.b
    if not isinstance(star, NoneC): generic, star, pair = Not(generic), pair, star
    c.ensure("generic tables are marked", And(generic == fa.GENERIC(t), to_u(star.v) == U.str(z3.StringVal("*"))), hyps=[fa.TABLE(t)])
    h = [fa.TABLE(t), Not(fa.GENERIC(t))]
    if len(pair.parts) != 2: raise Unsupported("schema entry of %d lists" % len(pair.parts))
    for p, n, fld, name in zip(pair.parts, (fa.NPK, fa.NDF), (fa.PKF, fa.DFF), ("primary key", "data")):
        s = c.eng.as_seqc(c.content(p.elem))
        c.ensure("as many %s fields as declared" % name, s.n == n(t), hyps=h)
        c.ensure("%s fields in declared order" % name, to_u(s.at(j)) == fld(t, j), hyps=h + [0 <= j, j < n(t)])


def short_schema(cls):
    mod = {"TicDatFactory": "ticdatfactory", "PanDatFactory": "pandatfactory"}[cls]
    def run(c):
        fa = Factory(c, cls); fa.build()
        t, j = z3.Const("table", U), z3.Const("position", Z())
        r = c.content(c.call(fa.method("schema"), []))
        table_fields(c, fa, r, t, j)
    return Contract("C10.%s.schema" % cls, "%s.%s.schema" % (mod, cls), run, covers=("C11",))


class Rebuilt(Model):
    """the new factory: every editing call is recorded under its parameter names (the calls' effects are their own contracts, C19)"""
    PARTS = ("add_foreign_key", "set_data_type", "set_default_value", "add_parameter", "set_infinity_io_flag", "set_xlsx_trailing_empty_rows",
             "set_duplicates_ticdat_init", "set_automunge_multitype_fields", "set_tooltip")
    KEYS = {"set_data_type": 2, "set_default_value": 2, "add_parameter": 1, "set_tooltip": 2}
    def __init__(self, cls, cid): self.cls, self.cid = cls, cid
    def has_attr(self, eng, st, name): return z3.BoolVal(name in self.PARTS)
    def attr(self, eng, st, name):
        if name not in self.PARTS: raise Unsupported("rebuilt factory: " + name)
        names = [x.arg for x in eng.find_method(self.cls, name).node.args.args][1:]
        def record(e, s, a, kw):
            vals = dict(zip(names, a)); vals.update(kw)
            key = names[:self.KEYS.get(name, 0)]
            if name == "add_foreign_key": e.mutate(s, Ref(self.cid, (name,)), "append", (Tup([vals[n] for n in names[:3]]),))
            elif not key: e.mutate(s, Ref(self.cid, ()), "attr", (name, vals[names[0]]))
            else:
                k = to_u(vals[key[0]]) if len(key) == 1 else tup_u([to_u(vals[x]) for x in key])
                for x in names[len(key):]: e.mutate(s, Ref(self.cid, (name + "." + x,)), "set", (k, vals.get(x, Con(MISSING))))
            return Con(None)
        return Prim(name, record)


MISSING = "<argument not given>"


def scalars(c, d):
    """d is no container"""
    c.assume(And(Not(U.is_tup(d)), Not(U.is_obj(d))))


def rebuild(cls):
    mod = {"TicDatFactory": "ticdatfactory", "PanDatFactory": "pandatfactory"}[cls]
    def run(c):
        eng = c.eng
        fa = Factory(c, cls); fa.types(); fa.defaults(); fa.build()
        t, f, k, i = z3.Const("table", U), z3.Const("field", U), z3.Const("name", U), z3.Const("position", Z())
        A = lambda x: eng.alloc(c.st, x)
        fields = A(MapC(lambda x: fa.TABLE(x), lambda x: ListC([Part([], TRUE, Con("opaque"))])))
        n = z3.Const("n_foreign_keys", Z()); c.assume(n >= 0)
        FK = F("foreign_key_part", Z(), Z(), U)
        rec = eng.global_name("ForeignKey", source.module("utils"))
        names = next(q.fields for q in eng.mro(rec) if q.fields)
        fks = SeqV(SeqC(n, lambda j: Tup([Sym(FK(j, z3.IntVal(q))) for q in range(4)], rec, names), "tuple"))
        PARAM, HASP, PDEF = F("is_parameter", U, B()), F("parameter_typed", U, B()), F("parameter_default", U, U)
        x = fresh_u("p")
        some = z3.Const("some_parameter", U)
        eng.axioms.append(z3.ForAll([x], Implies(PARAM(x), And(PARAM(some), U.is_str(x), Not(U.is_tup(PDEF(x))), Not(U.is_obj(PDEF(x))))), patterns=[PARAM(x)]))
        info = ClassV("ParameterInfo", None, None, (), ["type_dictionary", "default_value"], (eng.B.BUILTINS["tuple"],))
        prec = fa.type_rec
        P = U.str(z3.StringVal("parameter types"))
        params = A(MapC(lambda q: PARAM(q), lambda q: Tup([Ite(HASP(q), prec(P, q), Con(None)), Sym(PDEF(q))], info, ["type_dictionary", "default_value"]), wit=some))
        HT, HTIP, TIP = F("has_tooltips", U, B()), F("has_tooltip", U, U, B()), F("tooltip", U, U, U)
        tips = A(MapC(lambda q: HT(q), lambda q: MapC(lambda r: HTIP(q, r), lambda r: Sym(TIP(q, r)))))
        flags = {q: z3.Const(q, U) for q in ("infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init", "automunge_multitype_fields")}
        dts, dvs = A(fa.attrs["_data_types"]), A(fa.attrs["_default_values"])
        eng.content(c.st, dts).default = None; eng.content(c.st, dvs).default = None
        full = dict({"tables_fields": fields, "foreign_keys": fks, "default_values": dvs, "data_types": dts, "parameters": params, "tooltips": tips}, **{q: Sym(v) for q, v in flags.items()})
        ref = eng.alloc(c.st, by_name({q: eng.own(c.st, v) for q, v in full.items()}))
        params_of = {q: [x.arg for x in eng.find_method(fa.cls, q).node.args.args][1 + w:] for q, w in Rebuilt.KEYS.items()}
        log = eng.alloc(c.st, ObjC(None, dict({"add_foreign_key": EMPTY_LIST()}, **{q + "." + x: EMPTY_MAP() for q in params_of for x in params_of[q]})))
        def make(e, s, a, kw):
            m = e.content(s, kw["**"])
            e.oblige("built from the listed tables", s, And(z3.BoolVal(not a), m.dom(t) == fa.TABLE(t)))
            return Rebuilt(fa.cls, log.cid)
        eng.overrides["%s.%s.__new__" % (mod, cls)] = make
        subsets = lambda e, s, a, kw: AnySubset(c.content(a[0]))
        eng.overrides["utils.all_subsets"] = subsets
        r = c.call(c.fn("%s.%s.create_from_full_schema" % (mod, cls)), [ref])
        c.ensure("the new factory is returned", z3.BoolVal(isinstance(r, Rebuilt)))
        L = c.st.heap[log.cid].attrs
        key = tup_u([t, f])
        got = Calls(L, "set_data_type")
        typed = And(fa.HAS_DTT(t), fa.HAS_DT(t, f))
        c.ensure("a type is set for exactly the typed fields", got.dom(key) == typed)
        want = fa.type_rec(t, f)
        for q, nm in enumerate(want.fields): c.ensure("type part %s" % nm, same_value(c, named(got.get(key), nm), want.items[q]), hyps=[typed])
        got = Calls(L, "set_default_value")
        dv = fa.has_default(t, f)
        c.ensure("a default is set for exactly the fields having one", got.dom(key) == dv)
        c.ensure("with the same value", to_u(named(got.get(key), "default_value")) == fa.DV(t, f), hyps=[dv])
        got = Calls(L, "set_tooltip")
        tip = And(HT(t), HTIP(t, f))
        c.ensure("a tooltip is set for exactly the described places", got.dom(key) == tip)
        c.ensure("with the same text", to_u(named(got.get(key), "tooltip")) == TIP(t, f), hyps=[tip])
        got = Calls(L, "add_parameter")
        c.ensure("exactly the parameters are added", got.dom(k) == PARAM(k))
        c.ensure("with the same default", to_u(named(got.get(k), "default_value")) == PDEF(k), hyps=[PARAM(k)])
        enf = named(got.get(k), "enforce_type_rules")
        c.ensure("typed exactly if they were", eng.truthy(c.st, enf) == HASP(k), hyps=[PARAM(k)])
        want = prec(P, k)
        for q, nm in enumerate(want.fields): c.ensure("parameter type part %s" % nm, same_value(c, named(got.get(k), nm), want.items[q]), hyps=[PARAM(k), HASP(k)])
        calls = L["add_foreign_key"].parts
        is_fk = lambda p, j: And([to_u(c.item(p.elem, q)) == FK(j, z3.IntVal(q)) for q in range(3)])
        c.ensure("every listed foreign key is added", Or([z3.Exists(p.bs, And(p.guard, is_fk(p, i))) for p in calls]), hyps=[0 <= i, i < n])
        j = z3.Const("j!fk", Z())
        for p in calls: c.ensure("only listed foreign keys are added", z3.Exists([j], And(0 <= j, j < n, is_fk(p, j))), hyps=[p.guard])
        for q, v in flags.items():
            c.ensure("%s is set" % q, to_u(L["set_" + q]) == v if "set_" + q in L else FALSE)
    return Contract("C10.%s.create_from_full_schema" % cls, "%s.%s.create_from_full_schema" % (mod, cls), run, covers=("C11",))


def by_name(d):
    """a dict with these literal keys"""
    def get(x):
        x = z3.simplify(x)
        for q, v in d.items():
            if x.eq(z3.simplify(U.str(z3.StringVal(q)))): return v
        if z3.is_app(x) and x.num_args() == 1 and z3.is_string_value(x.arg(0)): return Con(None)
        raise Unsupported("schema part looked up by an unknown name")
    return MapC(lambda x: Or([x == U.str(z3.StringVal(q)) for q in d]), get, static=[(Con(q), v) for q, v in d.items()])


class AnySubset(Model):
    """contract of utils.all_subsets: every subset of the given set"""
    def __init__(self, c): self.c = c
    def contains(self, eng, st, k):
        x = fresh_u("x")
        s = eng.to_set(st, k)
        if s.static is not None: return And([self.c.mem(to_u(q)) for q in s.static])
        return z3.ForAll([x], Implies(s.mem(x), self.c.mem(x)))


class Calls:
    """the recorded calls of one method, by key"""
    def __init__(self, L, name): self.parts = {k.split(".")[1]: v for k, v in L.items() if k.startswith(name + ".")}
    def dom(self, k): return next(iter(self.parts.values())).dom(k)
    def get(self, k): return (self, k)


def named(v, name): return v[0].parts[name].get(v[1])


def same_value(c, a, b):
    if isinstance(a, Ite) and isinstance(b, Ite): return And([Implies(And(p, q), same_value(c, x, y)) for p, x in ((a.c, a.a), (Not(a.c), a.b)) for q, y in ((b.c, b.a), (Not(b.c), b.b))])
    if isinstance(b, Ite): return And(Implies(b.c, same_value(c, a, b.a)), Implies(Not(b.c), same_value(c, a, b.b)))
    if isinstance(a, Ite): return And(Implies(a.c, same_value(c, a.a, b)), Implies(Not(a.c), same_value(c, a.b, b)))
    sa, sb = c.eng.seq_of(c.st, a), c.eng.seq_of(c.st, b)
    if sa and sb:
        x, y = c.eng.as_seqc(sa[0]), c.eng.as_seqc(sb[0])
        j = z3.Const("j!same", Z())
        return And(x.n == y.n, z3.ForAll([j], Implies(And(0 <= j, j < y.n), to_u(x.at(j)) == to_u(y.at(j)))))
    if sa or sb: return FALSE
    return to_u(a) == to_u(b)


def full_schema(cls):
    mod = {"TicDatFactory": "ticdatfactory", "PanDatFactory": "pandatfactory"}[cls]
    def run(c):
        eng = c.eng
        fa = Factory(c, cls); record_types(fa); fa.defaults(); fa.params()
        HT, TIP = F("has_tip", U, B()), F("tip", U, U)
        fa.attrs["_tooltips"] = MapC(lambda x: HT(x), lambda x: Sym(TIP(x)))
        x = fresh_u("x")
        sh, (x0, x1) = cons_shape(x, 2)
        c.eng.axioms.append(z3.ForAll([x], Implies(HT(x), Or(And(U.is_str(x), x != U.str(z3.StringVal(""))), And(sh, TLEN(x) == 2, U.is_str(x0), U.is_str(x1), TGET(x, 0) == x0, TGET(x, 1) == x1,
                            x1 != U.str(z3.StringVal(""))))), patterns=[HT(x)]))              # set_tooltip's postcondition (C19)
        flags = {q: z3.Const(q, U) for q in ("infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init", "automunge_multitype_fields")}
        for q, v in flags.items(): fa.attrs["_" + q] = ListC([Part([], TRUE, Sym(v))])
        fa.build()
        use_deep_freeze_nested(c)
        t, f, k = z3.Const("table", U), z3.Const("field", U), z3.Const("name", U)
        FKS = z3.Const("the_foreign_keys", U)
        eng.overrides["%s.%s.foreign_keys" % (mod, cls)] = lambda e, s, a, kw: Sym(FKS)
        for q in flags: eng.overrides["%s.%s.%s" % (mod, cls, q)] = lambda e, s, a, kw, q=q: Sym(flags[q])
        r = c.content(c.call(fa.method("schema"), [Con(True)]))
        names = ["tables_fields", "foreign_keys", "default_values", "data_types", "parameters", "tooltips"] + list(flags)
        q = z3.Const("part", U)
        c.ensure("exactly the described parts", r.dom(q) == Or([q == U.str(z3.StringVal(n)) for n in names]))
        if r.static is None: raise Unsupported("full schema not built under literal names")
        literal = {k.v: v for k, v in r.static if isinstance(k, Con)}
        part = literal.__getitem__
        def inner(v):
            v = c.content(v) if isinstance(v, Ref) else v
            return v.attrs["%map"] if isinstance(v, ObjC) else v
        table_fields(c, fa, inner(part("tables_fields")), t, z3.Const("position", Z()))
        c.ensure("foreign keys", to_u(part("foreign_keys")) == FKS)
        for n, v in flags.items(): c.ensure(n, to_u(part(n)) == v)
        for n, has, val in (("default_values", fa.has_default, fa.DV), ("data_types", fa.typed, fa.TYPE)):
            m = inner(part(n))
            row = inner(settled(c, m.get(t), [m.dom(t)]))
            c.ensure("exactly the recorded " + n, And(m.dom(t), row.dom(f)) == has(t, f))
            c.ensure("with their values: " + n, to_u(row.get(f)) == val(t, f), hyps=[has(t, f)])
        m = inner(part("parameters"))
        c.ensure("exactly the parameters", And(m.dom(k) == fa.PARAM(k), Implies(fa.PARAM(k), to_u(m.get(k)) == F("parameter", U, U)(k))))
        m = inner(part("tooltips"))
        row = inner(settled(c, m.get(t), [m.dom(t)]))
        here = [U.is_str(t), U.is_str(f), t != U.str(z3.StringVal(""))]
        key = z3.If(f == U.str(z3.StringVal("")), t, tup_u([t, f]))
        c.ensure("exactly the recorded tooltips, per table and field", And(m.dom(t), row.dom(f)) == HT(key), hyps=here)
        c.ensure("with their text", to_u(row.get(f)) == TIP(key), hyps=here + [m.dom(t), row.dom(f)])
    return Contract("C10.%s.schema(full)" % cls, "%s.%s.schema" % (mod, cls), run)


def use_deep_freeze_nested(c):
    """contract of utils.deep_freeze on maps of maps of scalars: the same content"""
    def f(eng, st, args, kw):
        v = args[0]
        k = eng.content(st, v)
        if isinstance(k, MapC): return eng.alloc(st, MapC(k.dom, k.get, wit=k.wit))
        raise Unsupported("deep_freeze contract")
    c.eng.overrides["utils.deep_freeze"] = f


CONTRACTS += [full_schema("TicDatFactory"), full_schema("PanDatFactory")]
CONTRACTS += [short_schema("TicDatFactory"), short_schema("PanDatFactory"), rebuild("TicDatFactory"), rebuild("PanDatFactory")]
