from contracts.model import *
from contracts.dat import opaque_types


def foreign_keys(c, fa):
    """_foreign_keys: (native table, foreign table) -> set of field mappings (opaque values)"""
    HASK, MAPS = F("has_fk_entry", U, B()), F("fk_mapping", U, U, B())
    fa.attrs["_foreign_keys"] = MapC(lambda x: HASK(x), lambda x: SetC(lambda m: MAPS(x, m)), default=lambda: EMPTY_SET(), kind="defaultdict")
    x = fresh_u("x")
    c.eng.axioms.append(z3.ForAll([x], Implies(HASK(x), And(cons_shape(x, 2)[0], U.is_str(TGET(x, 0)), U.is_str(TGET(x, 1)))), patterns=[HASK(x)]))
    c.eng.axioms.append(z3.ForAll([x], Implies(cons_shape(x, 2)[0], And(TGET(x, 0) == cons_shape(x, 2)[1][0], TGET(x, 1) == cons_shape(x, 2)[1][1])), patterns=[TGET(x, 0)]))
    return HASK, MAPS


def predicates(c, fa):
    HT, HP, PR = F("has_predicate_table", U, B()), F("has_predicate", U, U, B()), F("row_predicate", U, U, U)
    fa.attrs["_data_row_predicates"] = MapC(lambda x: HT(x), lambda x: MapC(lambda y: HP(x, y), lambda y: Sym(PR(x, y))), default=lambda: EMPTY_MAP(), kind="defaultdict")
    fa.has_predicate = lambda t, p: And(HT(t), HP(t, p))
    fa.predicate = PR


def record_types(fa):
    """declared data types as opaque records, for arbitrary fields"""
    opaque_types(fa)
    fa.TYPE = F("type_record", U, U, U)
    fa.attrs["_data_types"] = MapC(lambda x: fa.HAS_DTT(x), lambda x: MapC(lambda y: fa.HAS_DT(x, y), lambda y: Sym(fa.TYPE(x, y))), default=lambda: EMPTY_MAP(), kind="defaultdict")


def factory(c, cls="TicDatFactory"):
    fa = Factory(c, cls)
    if cls == "TicDatFactory": used = fa.used()
    else:
        used = z3.Const("has_been_used", B())
        fa.attrs["_has_been_used"] = Sym(used)
    record_types(fa); fa.defaults(); fa.params(); predicates(c, fa); foreign_keys(c, fa)
    fa.attrs["_none_as_infinity_bias_cache"] = MapC(lambda x: F("cached", U, B())(x), lambda x: Sym(F("cache", U, U)(x)))
    if cls == "TicDatFactory":
        n = z3.Const("n_generators", Z()); c.assume(n >= 0)
        g = F("generator_table", Z(), U)
        i = z3.Const("i!gen", Z())
        c.eng.axioms.append(z3.ForAll([i], Implies(And(0 <= i, i < n), fa.TABLE(g(i))), patterns=[g(i)]))
        fa.attrs["_generator_tables"] = SeqC(n, lambda j: Sym(g(j)))
        fa.is_gen = lambda t: z3.Exists([i], And(0 <= i, i < n, g(i) == t))
    fa.build()
    return fa, used


CACHES = ("_none_as_infinity_bias_cache",)


def same_schema(eng, st, fa, before, skip=()):
    """the schema parts of the factory are as before, for arbitrary table, field, name"""
    now, old = st.heap[fa.ref.cid], before
    out = []
    def eq(a, b, pt):
        if a is b: return
        if isinstance(a, MapC) and isinstance(b, MapC):
            x = z3.Const("any%d" % pt, U)
            out.append(a.dom(x) == b.dom(x))
            n = len(out)
            u, v = a.get(x), b.get(x)
            if isinstance(u, Content) or isinstance(v, Content): eq(u, v, pt + 1)
            else: out.append(to_u(u) == to_u(v))
            out[n:] = [Implies(b.dom(x), q) for q in out[n:]]
        elif isinstance(a, SetC) and isinstance(b, SetC):
            x = z3.Const("any%d" % pt, U); out.append(a.mem(x) == b.mem(x))
        elif isinstance(a, UnionC): out.append(And([Implies(a.c, eq2(a.a, b, pt)), Implies(Not(a.c), eq2(a.b, b, pt))]))
        elif isinstance(a, (SeqC, ListC)) and isinstance(b, (SeqC, ListC)):
            x = z3.Const("any%d" % pt, U)
            out.append(eng.seq_mem(st, a, Sym(x)) == eng.seq_mem(st, b, Sym(x)))
        elif isinstance(a, V) and isinstance(b, V): out.append(to_u(a) == to_u(b))
        else: out.append(FALSE)
    def eq2(a, b, pt):
        nonlocal out
        keep, out = out, []
        eq(a, b, pt)
        r, out = And(out), keep
        return r
    for k, v in old.attrs.items():
        if k in skip or k in CACHES: continue
        if k not in now.attrs: return FALSE
        eq(now.attrs[k], v, 1)
    return And(out)


def guarded(target, args, requires=None, effect=None, skip=(), setup=None, kwargs=None):
    """any factory, used or not, any arguments: once used, the call is refused; a refused call changes nothing; an accepted one was
    well formed (requires) and changes what it says only (skip + effect)"""
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        a = {n: z3.Const(n, U) for n in args}
        for v in a.values(): c.assume(And(Not(U.is_obj(v)), Not(U.is_tup(v))))
        vals = [Sym(v) for v in a.values()]
        if setup: vals = setup(c, fa, a)
        before = c.st.heap[fa.ref.cid]
        # the request itself may leave empty entries behind in defaultdicts; they carry no information
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        if "table" in a and name.startswith("set_default"): # generic tables have no fields
            c.allow_raise("KeyError", lambda st: And(fa.GENERIC(a["table"]), same_schema(c.eng, st, fa, before)))
        c.call(fa.method(name), vals)
        c.ensure("refused once the factory has been used", Implies(used, same_schema(c.eng, c.st, fa, before) if name.startswith("clear_data") else FALSE))
        if requires: c.ensure("only well formed requests are accepted", requires(fa, a))
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, skip))
        if effect: effect(c, fa, a, before)
    return Contract("C19.%s.%s" % (cls, name), target, run)


def typed_effect(c, fa, a, before):
    now = c.st.heap[fa.ref.cid].attrs["_data_types"]
    t, f = z3.Const("other_table", U), z3.Const("other_field", U)
    has = lambda m, t, f: And(m.dom(t), m.get(t).dom(f))
    old = before.attrs["_data_types"]
    here = And(t == a["table"], f == a["field"])
    c.ensure("other fields keep their type", And(has(now, t, f) == has(old, t, f), Implies(has(old, t, f), to_u(now.get(t).get(f)) == to_u(old.get(t).get(f)))), hyps=[Not(here)])
    return now, t, f, has, here


def set_type_effect(c, fa, a, before):
    now, t, f, has, here = typed_effect(c, fa, a, before)
    c.ensure("the field is typed", has(now, t, f), hyps=[here])


def clear_type_effect(c, fa, a, before):
    now, t, f, has, here = typed_effect(c, fa, a, before)
    c.ensure("the field is untyped", Not(has(now, t, f)), hyps=[here])


def default_effect(c, fa, a, before):
    now, old = c.st.heap[fa.ref.cid].attrs["_default_values"], before.attrs["_default_values"]
    t, f = z3.Const("other_table", U), z3.Const("other_field", U)
    has = lambda m: And(m.dom(t), m.get(t).dom(f))
    here = And(t == a["table"], f == a["field"])
    c.ensure("the field has the default", And(has(now), to_u(now.get(t).get(f)) == a["default_value"]), hyps=[here])
    c.ensure("other fields keep their default", And(has(now) == has(old), Implies(has(old), to_u(now.get(t).get(f)) == to_u(old.get(t).get(f)))), hyps=[Not(here)])


def use_safe_creator(c):
    """contract of TypeDictionary.safe_creator: refuses ill-formed settings with TicDatError, otherwise makes a record"""
    def run(eng, st, args, kw):
        ok = eng.fresh("settings_are_well_formed", B())
        eng.raise_(st, "TicDatError", Not(ok))
        return Sym(eng.fresh("type_record", U))
    c.eng.overrides["utils.TypeDictionary.safe_creator"] = run


def type_args(c, fa, a):
    use_safe_creator(c)
    return [Sym(a["table"]), Sym(a["field"])]


FIELD = lambda fa, a: And(fa.TABLE(a["table"]), Not(fa.GENERIC(a["table"])), fa.IS_FIELD(a["table"], a["field"]))

CONTRACTS = []
for _m, _c in (("ticdatfactory", "TicDatFactory"), ("pandatfactory", "PanDatFactory")):
    _p = _m + "." + _c + "."
    CONTRACTS += [guarded(_p + "set_data_type", ["table", "field"], FIELD, set_type_effect, ("_data_types",), type_args),
                  guarded(_p + "clear_data_type", ["table", "field"], None, clear_type_effect, ("_data_types",)),
                  guarded(_p + "set_default_value", ["table", "field", "default_value"], FIELD, default_effect, ("_default_values",))]


def given_defaults(c):
    """any keyword arguments: table names mapped to dictionaries of new defaults"""
    GT, GF, GV = F("defaults_given_for", U, B()), F("default_given", U, U, B()), F("given_default", U, U, U)
    t = fresh_u("t")
    c.eng.axioms.append(z3.ForAll([t], Implies(GT(t), U.is_str(t)), patterns=[GT(t)]))
    t, f = fresh_u("t"), fresh_u("f")
    c.eng.axioms.append(z3.ForAll([t, f], And(Not(U.is_obj(GV(t, f))), Not(U.is_tup(GV(t, f)))), patterns=[GV(t, f)]))
    m = MapC(lambda t: GT(t), lambda t: MapC(lambda f: GF(t, f), lambda f: Sym(GV(t, f))))
    return GT, GF, GV, c.eng.alloc(c.st, m)


def set_default_values(target):
    """used => refused; a refused call changes nothing; otherwise exactly the given defaults are recorded, for existing fields"""
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        GT, GF, GV, kw = given_defaults(c)
        before = c.st.heap[fa.ref.cid]
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        t0 = fresh_u("gt")
        c.allow_raise("KeyError", lambda st: And(z3.Exists([t0], And(GT(t0), fa.GENERIC(t0))), same_schema(c.eng, st, fa, before)))
        c.call(fa.method(name), [], {"**": kw})
        c.ensure("refused once the factory has been used", Not(used))
        t, f = z3.Const("t", U), z3.Const("f", U)
        c.ensure("only existing fields", fa.IS_FIELD(t, f), hyps=[GT(t), GF(t, f)])
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, ("_default_values",)))
        now, old = c.st.heap[fa.ref.cid].attrs["_default_values"], before.attrs["_default_values"]
        has = lambda m: And(m.dom(t), m.get(t).dom(f))
        c.ensure("given defaults are recorded", And(has(now), to_u(now.get(t).get(f)) == GV(t, f)), hyps=[GT(t), GF(t, f)])
        c.ensure("other fields keep their default", And(has(now) == has(old), Implies(has(old), to_u(now.get(t).get(f)) == to_u(old.get(t).get(f)))), hyps=[Not(And(GT(t), GF(t, f)))])
    return Contract("C19.%s.%s" % (cls, name), target, run)


def clear_foreign_keys(target):
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        nt = z3.Const("native_table", U); c.assume(And(Not(U.is_obj(nt)), Not(U.is_tup(nt)), nt != U.str(z3.StringVal("")))) # table names are not empty
        before = c.st.heap[fa.ref.cid]
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        c.call(fa.method(name), [Sym(nt)])
        c.ensure("refused once the factory has been used", Not(used))
        c.ensure("only for a table or for all", Or(U.is_none(nt), fa.TABLE(nt)))
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, ("_foreign_keys",)))
        now, old = c.st.heap[fa.ref.cid].attrs["_foreign_keys"], before.attrs["_foreign_keys"]
        x, m = z3.Const("pair", U), z3.Const("mapping", U)
        gone = Or(U.is_none(nt), TGET(x, 0) == nt)
        c.ensure("exactly the foreign keys of the table are gone", now.dom(x) == And(old.dom(x), Not(gone)))
        c.ensure("the others are as they were", now.get(x).mem(m) == old.get(x).mem(m), hyps=[now.dom(x)])
    return Contract("C19.%s.%s" % (cls, name), target, run)


def set_generator_tables(target):
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        n = z3.Const("n_requested", Z()); c.assume(n >= 0)
        g = F("requested", Z(), U)
        i = z3.Const("i!req", Z())
        c.eng.axioms.append(z3.ForAll([i], Implies(And(0 <= i, i < n), And(Not(U.is_obj(g(i))), Not(U.is_tup(g(i))))), patterns=[g(i)]))
        before = c.st.heap[fa.ref.cid]
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        c.call(fa.method(name), [c.eng.alloc(c.st, SeqC(n, lambda j: Sym(g(j))))])
        c.ensure("refused once the factory has been used", Not(used))
        k = z3.Const("k", Z())
        c.ensure("only tables without primary key, none generic", And(fa.TABLE(g(k)), Not(fa.GENERIC(g(k))), fa.NPK(g(k)) == 0), hyps=[0 <= k, k < n])
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, ("_generator_tables",)))
        x = z3.Const("x", U)
        now = c.st.heap[fa.ref.cid].attrs["_generator_tables"]
        c.ensure("exactly the requested tables", c.eng.seq_mem(c.st, now, Sym(x)) == z3.Exists([i], And(0 <= i, i < n, g(i) == x)))
    return Contract("C19.%s.%s" % (cls, name), target, run)


def add_foreign_key(target):
    """the simple form: any two tables, any pair of fields"""
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        n, f, nf, ff = (z3.Const(x, U) for x in ("native", "foreign", "native_field", "foreign_field"))
        for x in (n, f, nf, ff): c.assume(Not(U.is_obj(x))); c.assume(Not(U.is_tup(x)))
        c.eng.overrides["utils.does_new_fk_complete_circle"] = lambda e, s, a, k: Sym(e.fresh("completes_a_circle", B()))
        before = c.st.heap[fa.ref.cid]
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        c.call(fa.method(name), [Sym(n), Sym(f), Tup([Sym(nf), Sym(ff)])])
        c.ensure("refused once the factory has been used", Not(used))
        c.ensure("both tables and both fields exist", And([And(fa.TABLE(t), Not(fa.GENERIC(t)), fa.IS_FIELD(t, x)) for t, x in ((n, nf), (f, ff))]))
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, ("_foreign_keys",)))
        now, old = c.st.heap[fa.ref.cid].attrs["_foreign_keys"], before.attrs["_foreign_keys"]
        x, m = z3.Const("pair", U), z3.Const("mapping", U)
        new = And(x == tup_u([n, f]), m == tup_u([tup_u([nf, ff])]))
        has = lambda d: And(d.dom(x), d.get(x).mem(m))
        c.ensure("the foreign key is declared", has(now), hyps=[new])
        c.ensure("no other is, and declaring it again changes nothing", has(now) == has(old), hyps=[Or(Not(new), has(old))])
    return Contract("C19.%s.%s" % (cls, name), target, run, covers=("C28",))


def add_data_row_predicate(target):
    """any table, any predicate or its removal, any given name"""
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        t, p, nm, mk, resp = (z3.Const(x, U) for x in ("table", "predicate_or_None", "predicate_name", "kwargs_maker_or_None", "failure_response"))
        for x in (t, nm, resp): c.assume(And(Not(U.is_obj(x)), Not(U.is_tup(x))))
        use_deep_freeze(c)
        c.assume(Not(U.is_none(nm)))      # unnamed predicates take the smallest free number (C19.add_data_row_predicate.unnamed)
        before = c.st.heap[fa.ref.cid]
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        c.call(fa.method(name), [Sym(x) for x in (t, p, nm, mk, resp)])
        c.ensure("refused once the factory has been used", Not(used))
        c.ensure("only for existing tables", fa.TABLE(t))
        c.ensure("only known failure responses", Or([resp == U.str(z3.StringVal(x)) for x in ("Boolean", "Error Message")]), hyps=[Not(U.is_none(p))])
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, ("_data_row_predicates",)))
        now, old = c.st.heap[fa.ref.cid].attrs["_data_row_predicates"], before.attrs["_data_row_predicates"]
        t2, n2 = z3.Const("other_table", U), z3.Const("other_name", U)
        here = And(t2 == t, n2 == nm)
        has = lambda d: And(d.dom(t2), d.get(t2).dom(n2))
        c.ensure("the predicate is recorded unless None is given, which removes it", has(now) == Not(U.is_none(p)), hyps=[here])
        c.ensure("the recorded predicate is the given one", to_u(now.get(t2).get(n2)) == tup_u([p, mk, resp]), hyps=[here, has(now)])
        c.ensure("the other predicates stay", And(has(now) == has(old), Implies(has(old), to_u(now.get(t2).get(n2)) == to_u(old.get(t2).get(n2)))), hyps=[Not(here)])
    return Contract("C19.%s.%s" % (cls, name), target, run)


def add_parameter(target):
    """any name and default, rules enforced or not"""
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        n, dv, enforce = z3.Const("parameter_name", U), z3.Const("default_value", U), z3.Const("enforce_type_rules", B())
        c.assume(Not(U.is_obj(n))); c.assume(Not(U.is_tup(n)))
        ty = z3.Const("created_type", U)
        OK = F("valid_default", U, B())
        class TypeMade(Model):
            def to_u(self): return ty
            def attr(self, eng, st, name):
                if name == "valid_data": return Prim(name, lambda e, s, a, k: Sym(OK(to_u(a[0]))))
                raise Unsupported("data type attribute " + name)
        def made(eng, st, args, kw):
            eng.raise_(st, "TicDatError", Not(eng.fresh("settings_are_well_formed", B())))
            return TypeMade()
        c.eng.overrides["utils.TypeDictionary.safe_creator"] = made
        before = c.st.heap[fa.ref.cid]
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        c.call(fa.method(name), [Sym(n), Sym(dv)], {"enforce_type_rules": Sym(enforce)})
        P = U.str(z3.StringVal("parameters"))
        c.ensure("refused once the factory has been used", Not(used))
        c.ensure("only with a two column parameters table", And(fa.TABLE(P), fa.NPK(P) == 1, fa.NDF(P) == 1))
        c.ensure("not with a typed parameters value field", Not(fa.typed(P, fa.DFF(P, 0))))
        c.ensure("the default obeys the type", OK(dv), hyps=[enforce])
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, ("_parameters",)))
        now, old = c.st.heap[fa.ref.cid].attrs["_parameters"], before.attrs["_parameters"]
        x = z3.Const("other_name", U)
        c.ensure("the parameter is recorded", And(now.dom(n), to_u(now.get(n)) == tup_u([z3.If(enforce, ty, U.none), dv])))
        c.ensure("other parameters stay", And(now.dom(x) == old.dom(x), Implies(old.dom(x), to_u(now.get(x)) == to_u(old.get(x)))), hyps=[x != n])
    return Contract("C19.%s.%s" % (cls, name), target, run, covers=("C23",))


def marks_used(target):
    """making a data object marks the factory as used, whatever it was before, and leaves its schema alone"""
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        before = c.st.heap[fa.ref.cid]
        L = F("link_name", U, U)
        fa_obj = c.st.heap[fa.ref.cid]
        fa_obj.attrs["_linkName"] = EMPTY_MAP()
        if cls == "TicDatFactory": fa_obj.attrs["_foreign_keys"] = EMPTY_MAP()     # the link names of foreign keys are C30's
        c.call(fa.method(name), [])
        now = c.st.heap[fa.ref.cid].attrs["_has_been_used"]
        v = c.eng.nonempty(c.st, now, None) if isinstance(now, Content) else c.eng.truthy(c.st, now)
        c.ensure("the factory is used from now on", v)
        c.ensure("nothing else changes", same_schema(c.eng, c.st, fa, before, ("_has_been_used", "_linkName")))
    return Contract("C19.%s.%s" % (cls, name), target, run)


def refused(target, nargs, kwargs=False):
    """once used: whatever the arguments, the call is refused and the schema is as it was"""
    mod, cls, name = target.split(".")
    def run(c):
        fa, used = factory(c, cls)
        fa_obj = c.st.heap[fa.ref.cid]
        fa_obj.attrs["_has_been_used"] = ListC([Part([], TRUE, Con(True))]) if cls == "TicDatFactory" else Con(True)
        before = c.st.heap[fa.ref.cid]
        vals = [Sym(z3.Const("arg%d" % i, U)) for i in range(nargs)]
        kw = {}
        c.allow_raise("TicDatError", lambda st: same_schema(c.eng, st, fa, before))
        c.call(fa.method(name), vals, kw)
        c.never_returns("refused once the factory has been used")
    return Contract("C19.%s.%s.used" % (cls, name), target, run)


GUARDED = [("set_default_values", 0), ("clear_foreign_keys", 0), ("clear_foreign_keys", 1), ("add_foreign_key", 3),
           ("add_data_row_predicate", 5), ("add_parameter", 12)]
for _m, _c in (("ticdatfactory", "TicDatFactory"), ("pandatfactory", "PanDatFactory")):
    for _n, _k in GUARDED + ([("set_generator_tables", 1), ("add_implied_foreign_keys", 0)] if _m == "ticdatfactory" else []):
        CONTRACTS.append(refused("%s.%s.%s" % (_m, _c, _n), _k))
    _p = _m + "." + _c + "."
    CONTRACTS += [add_parameter(_p + "add_parameter"), marks_used(_p + "_trigger_has_been_used"), add_foreign_key(_p + "add_foreign_key"), add_data_row_predicate(_p + "add_data_row_predicate"), set_default_values(_p + "set_default_values"), clear_foreign_keys(_p + "clear_foreign_keys")]
CONTRACTS.append(set_generator_tables("ticdatfactory.TicDatFactory.set_generator_tables"))
