from contracts.common import *
"""deep_copy: every kind of container is rebuilt in a new object from deep copies of its elements (the recursive calls by the contract itself), so the copy equals the original
and shares nothing that can change with it; scalars are returned as they are."""
COPY = F("deep_copy_of", U, U)      # what the contract says about elements: equal to the original, sharing nothing mutable with it
N = lambda: z3.Const("length", Z())
ELEM, KEY, MEM, VAL = F("element", Z(), U), F("has_key", U, B()), F("member", U, B()), F("value_of", U, U)


def using(c):
    c.eng.recursive["utils.deep_copy"] = lambda e, s, a, kw: Sym(COPY(to_u(a[0])))


class Frame(Model):
    def type_is(self, eng, st, cls): return z3.BoolVal("DataFrame" in str(cls))
    def attr(self, eng, st, name):
        if name != "copy": raise Unsupported("DataFrame." + name)
        def copy(e, s, a, kw):
            e.raise_(s, "Shallow", Not(e.truthy(s, (list(a) + [kw.get("deep", Con(True))])[0])))
            return Sym(z3.Const("deep_copied_frame", U))
        return Prim("copy", copy)


def own(c, r, x):
    """a container of its own: nothing else refers to it"""
    if not isinstance(r, Ref): raise Unsupported("copy is no container")
    r = c.eng.deref(c.st, r)
    return z3.BoolVal(not r.path and (x is None or r.cid != c.eng.deref(c.st, x).cid))


def sequence(kind):
    def run(c):
        using(c)
        c.assume(N() >= 0)
        k = SeqC(N(), lambda i: Sym(ELEM(i)), kind)
        x = c.eng.alloc(c.st, k) if kind == "list" else SeqV(k)
        r = c.call(c.fn("utils.deep_copy"), [x])
        s = c.content(r) if isinstance(r, Ref) else r.content
        c.ensure("the kind is kept", z3.BoolVal(isinstance(r, Ref) == (kind == "list") and (kind == "list" or getattr(s, "kind", "tuple") == "tuple")))
        if kind == "list": c.ensure("the copy is a list of its own", own(c, r, x))
        s = c.eng.as_seqc(s)
        i = z3.Const("position", Z())
        c.ensure("as many elements", s.n == N())
        c.ensure("each element copied, in order", to_u(s.at(i)) == COPY(ELEM(i)), hyps=[0 <= i, i < N()])
        if kind == "list":
            k = c.content(x)
            c.ensure("the original is unchanged", And(k.n == N(), to_u(k.at(i)) == ELEM(i)))
    return Contract("C22.deep_copy(%s)" % kind, "utils.deep_copy", run)


def members(kind):
    def run(c):
        using(c)
        k = SetC(lambda u: MEM(u), kind)
        x = c.eng.alloc(c.st, k) 
        r = c.call(c.fn("utils.deep_copy"), [x])
        s = c.content(r)
        c.ensure("the kind is kept", z3.BoolVal(s.kind == kind))
        if kind == "set": c.ensure("the copy is a set of its own", own(c, r, x))
        u = z3.Const("member_copy", U)
        w = fresh_u("w")
        c.ensure("exactly the members' copies", s.mem(u) == Exists([w], And(MEM(w), COPY(w) == u)))
        c.ensure("the original is unchanged", c.content(x).mem(u) == MEM(u))
    return Contract("C22.deep_copy(%s)" % kind, "utils.deep_copy", run)


def mapping(kind):
    def run(c):
        using(c)
        k = MapC(lambda u: KEY(u), lambda u: Sym(VAL(u)))
        # keys are hashable, so their copies equal them
        u = fresh_u("u")
        c.eng.recursive["utils.deep_copy"] = lambda e, s, a, kw: Sym(to_u(a[0]) if e.is_key(to_u(a[0])) else COPY(to_u(a[0])))
        c.eng.is_key = lambda t: not (z3.is_app(t) and t.decl().eq(VAL))
        if kind == "dict": x = c.eng.alloc(c.st, k)
        else: x = c.eng.alloc(c.st, ObjC(c.eng.global_name("FrozenDict", source.module("utils")), {"%map": k, "_dataFrozen": Con(True), "_attributesFrozen": Con(True)}))
        r = c.call(c.fn("utils.deep_copy"), [x])
        s = c.content(r)
        c.ensure("the copy is a plain dictionary of its own", And(z3.BoolVal(isinstance(s, MapC)), own(c, r, x)))
        q = z3.Const("some_key", U)
        c.ensure("the same keys", s.dom(q) == KEY(q))
        c.ensure("each value copied", to_u(s.get(q)) == COPY(VAL(q)), hyps=[KEY(q)])
        o = c.content(x)
        o = o.attrs["%map"] if isinstance(o, ObjC) else o
        c.ensure("the original is unchanged", And(o.dom(q) == KEY(q), Implies(KEY(q), to_u(o.get(q)) == VAL(q))))
    return Contract("C22.deep_copy(%s)" % kind, "utils.deep_copy", run)


def scalar(c):
    using(c)
    u = z3.Const("x", U)
    c.assume(Or(U.is_none(u), U.is_str(u), U.is_bool(u), U.is_int(u), U.is_real(u), U.is_pinf(u), U.is_ninf(u), U.is_nan(u)))
    r = c.call(c.fn("utils.deep_copy"), [Sym(u)])
    c.ensure("scalars are returned as they are", to_u(r) == u)


def frame(c):
    using(c)
    c.eng.ext["utils.pd"] = Mod("pandas")
    r = c.call(c.fn("utils.deep_copy"), [Frame()])
    c.ensure("a DataFrame is copied deeply", to_u(r) == z3.Const("deep_copied_frame", U))


class AFactory(Model):
    def __init__(self, name): self.name = name
    def type_is(self, eng, st, cls): return z3.BoolVal(self.name == getattr(cls, "name", str(cls)).split(".")[-1])
    def has_attr(self, eng, st, name): return z3.BoolVal(name == "clone")
    def attr(self, eng, st, name):
        if name != "clone": raise Unsupported("factory." + name)
        return Prim("clone", lambda e, s, a, kw: Sym(z3.Const("cloned_factory", U)))


def factory(name):
    def run(c):
        using(c)
        r = c.call(c.fn("utils.deep_copy"), [AFactory(name)])
        c.ensure("a factory is cloned", to_u(r) == z3.Const("cloned_factory", U))
    return Contract("C22.deep_copy(%s)" % name, "utils.deep_copy", run)


CONTRACTS = [sequence("list"), sequence("tuple"), members("set"), members("frozenset"), mapping("dict"), mapping("FrozenDict"),
             Contract("C22.deep_copy(scalar)", "utils.deep_copy", scalar), Contract("C22.deep_copy(DataFrame)", "utils.deep_copy", frame)]
CONTRACTS += [factory("TicDatFactory"), factory("PanDatFactory")]


def copies(cls, name, kind):
    """the copy is made of the same tables by the class's own constructor (its rows by the row factories, C07 and C08); refused unless the object is good"""
    def run(c):
        TABLE, GOOD = F("is_table", U, B()), z3.Const("good_object", B())
        TAB = F("table_of", U, U)
        ORIG = z3.Const("original_object", U)
        made = {}
        def ctor(e, s, a, kw):
            if a or set(kw) != {"**"}: raise Unsupported("constructor called otherwise")
            k = e.content(s, kw["**"])
            t = z3.Const("some_table", U)
            e.oblige("exactly the factory's tables are copied", s, k.dom(t) == TABLE(t))
            e.oblige("each from the original's table", s, Implies(TABLE(t), to_u(k.get(t)) == TAB(t)))
            return Sym(z3.Const("new_object", U))
        class Orig(Model):
            def dyn_get(self, eng, st, u): return Sym(TAB(u))
            def attr(self, eng, st, name): raise Unsupported("attribute " + name)
            def to_u(self): return ORIG
        c.eng.overrides["%s.%s.good_%s_object" % (cls.lower(), cls, kind)] = lambda e, s, a, kw: Sym(GOOD)
        c.eng.overrides["%s.%s.freeze_me" % (cls.lower(), cls)] = lambda e, s, a, kw: Sym(F("frozen_object", U, U)(to_u(a[1])))
        me = c.eng.alloc(c.st, ObjC(c.eng.global_name(cls, source.module(cls.lower())), {"all_tables": SetC(lambda x: TABLE(x), "frozenset"),
                         "TicDat": Prim("TicDat", ctor), "PanDat": Prim("PanDat", ctor)}))
        c.allow_raise("TicDatError", lambda st: Not(GOOD))
        fz = z3.Const("freeze_it", B())
        r = c.call(c.fn("%s.%s.%s" % (cls.lower(), cls, name)), [me, Orig()] + ([Sym(fz)] if kind == "tic_dat" else []))
        new = z3.Const("new_object", U)
        c.ensure("only good objects are copied", GOOD)
        c.ensure("the copy is a new object, frozen if asked", to_u(r) == (If(fz, F("frozen_object", U, U)(new), new) if kind == "tic_dat" else new))
    return Contract("C22.%s" % name, "%s.%s.%s" % (cls.lower(), cls, name), run)


CONTRACTS += [copies("TicDatFactory", "copy_tic_dat", "tic_dat"), copies("PanDatFactory", "copy_pan_dat", "pan_dat")]
