from contracts.model import *

DICT_MUTATORS = [("__setitem__", 2), ("__delitem__", 1), ("update", 1), ("pop", 1), ("pop", 2), ("popitem", 0), ("clear", 0), ("setdefault", 1), ("setdefault", 2), ("__ior__", 1)]


def frozen_dict(c, cls, data=True, attrs=True):
    eng = c.eng
    K = eng.global_name(cls, source.module("utils")) if isinstance(cls, str) else cls
    HAS, VAL = F("has_key", U, B()), F("value_at", U, U)
    at = {"%map": MapC(lambda x: HAS(x), lambda x: Sym(VAL(x)), wit=z3.Const("some_key", U))}
    if data: at["_dataFrozen"] = Con(True)
    if attrs: at["_attributesFrozen"] = Con(True)
    return eng.alloc(c.st, ObjC(K, at)), HAS, VAL


def untouched(c, ref, HAS, VAL, attrs=("_dataFrozen", "_attributesFrozen")):
    """content and attributes are as before, for an arbitrary key"""
    x = z3.Const("any_key", U)
    before = c.st.heap[ref.cid]
    names = set(before.attrs)
    def f(st):
        k = st.heap[ref.cid]
        if not isinstance(k, ObjC) or set(k.attrs) != names: return FALSE
        m = k.attrs["%map"]
        return And([m.dom(x) == HAS(x), Implies(HAS(x), to_u(m.get(x)) == VAL(x))] + [to_u(k.attrs[a]) == to_u(before.attrs[a]) for a in names if a in attrs])
    return f


def arg(n, i):
    return Sym(z3.Const("arg%d" % i, U))


def frozen_mutator(cls, name, n, mk=None):
    def run(c):
        ref, HAS, VAL = frozen_dict(c, cls) if mk is None else mk(c)
        same = untouched(c, ref, HAS, VAL)
        c.allow_raise("TicDatError", same)
        k = c.eng.content(c.st, ref).cls
        m = c.eng.find_method(k, name)
        f = BoundFn(ref, m) if m is not None else c.eng.getattr_(c.st, ref, name)
        for i in range(n): plain_obj(c, arg(n, i).t)
        c.call(f, [arg(n, i) for i in range(n)])
        c.never_returns("every attempt is refused")
    return Contract("C09.%s.%s.%d" % (cls if isinstance(cls, str) else mk.__name__, name, n), "utils.FreezeableDict." + name, run)


def frozen_operator(op):
    """the statement forms:  d[k] = v,  del d[k],  d |= other"""
    import ast
    def run(c):
        ref, HAS, VAL = frozen_dict(c, "FreezeableDict")
        c.allow_raise("TicDatError", untouched(c, ref, HAS, VAL))
        src = {"set": "def f(d, k, v):\n d[k] = v", "del": "def f(d, k, v):\n del d[k]", "ior": "def f(d, k, v):\n d |= v"}[op]
        c.call(Fn(ast.parse(src).body[0], (), source.module("utils"), "statement"), [ref, arg(3, 0), arg(3, 1)])
        c.never_returns("every attempt is refused")
    return Contract("C09.FreezeableDict.statement.%s" % op, "utils.FreezeableDict", run)


def frozen_attribute(cls, delete):
    """attributes of a frozen dictionary: any name; only marking it as frozen again is possible"""
    def run(c):
        ref, HAS, VAL = frozen_dict(c, cls)
        n, v = z3.Const("attribute_name", S()), z3.Const("new_value", U)
        if not delete: c.assume(Or(n != z3.StringVal("_dataFrozen"), Not(u_truthy(v))))
        c.allow_raise("TicDatError", untouched(c, ref, HAS, VAL))
        k = c.eng.content(c.st, ref).cls
        f = BoundFn(ref, c.eng.find_method(k, "__delattr__" if delete else "__setattr__"))
        c.call(f, [Sym(n)] + ([] if delete else [Sym(v)]))
        c.never_returns("every attempt is refused")
    return Contract("C09.%s.%s" % (cls, "__delattr__" if delete else "__setattr__"), "utils.freezable_factory", run)


def frozen_dict_made(c):
    """FrozenDict(m): frozen from the start, with the content of m"""
    HAS, VAL = F("has_key", U, B()), F("value_at", U, U)
    src = c.eng.alloc(c.st, MapC(lambda x: HAS(x), lambda x: Sym(VAL(x)), wit=z3.Const("some_key", U)))
    r = c.call(c.eng.global_name("FrozenDict", source.module("utils")), [src])
    k = c.content(r)
    x = z3.Const("any_key", U)
    c.ensure("same keys", k.attrs["%map"].dom(x) == HAS(x))
    c.ensure("same values", to_u(k.attrs["%map"].get(x)) == VAL(x), hyps=[HAS(x)])
    c.ensure("entries are frozen", c.eng.truthy(c.st, k.attrs.get("_dataFrozen", Con(False))))
    c.ensure("attributes are frozen", c.eng.truthy(c.st, k.attrs.get("_attributesFrozen", Con(False))))


CONTRACTS = [frozen_mutator("FreezeableDict", n, k) for n, k in DICT_MUTATORS] + [frozen_mutator("FrozenDict", n, k) for n, k in DICT_MUTATORS]
CONTRACTS += [frozen_operator(o) for o in ("set", "del", "ior")]
CONTRACTS += [frozen_attribute(k, d) for k in ("FreezeableDict", "FrozenDict") for d in (False, True)]
CONTRACTS += [Contract("C09.FrozenDict.made", "utils.FrozenDict.__init__", frozen_dict_made)]


def table_frames(c, keylen, rowfactory):
    """the scope in which TicDat's constructor makes the class of a keyed table"""
    fid = c.eng.new_frame()
    fa = Factory(c); fa.build()
    t = z3.Const("table", U)
    c.assume(And(fa.TABLE(t), Not(fa.GENERIC(t)), fa.NPK(t) == keylen if keylen else fa.NPK(t) >= 1))
    c.st.vars[(fid, "self")] = c.st.vars[(fid, "superself")] = fa.ref
    c.st.vars[(fid, "datarowfactory")] = Prim("datarowfactory", lambda e, s, a, k: rowfactory)
    m = source.module("ticdatfactory")
    q = "TicDatFactory.__init__.ticdattablefactory"
    return fa, t, Fn(m.find(q), (fid,), m, q)


def keyed_table(c, frozen=True):
    """a table of an arbitrary factory, filled with arbitrary rows"""
    ROW = F("row_made_of", U, U)
    def rowfactory(eng, st, a, k):
        if isinstance(a[0], Ref): return Sym(z3.Const("default_row", U))
        return Sym(ROW(to_u(a[0])))
    fa, t, f = table_frames(c, 0, Prim("rowfactory", rowfactory))
    K = c.call(f, [c.eng.alloc(c.st, EMPTY_LIST()), Sym(t)])
    c.fa, c.t, c.ROW = fa, t, ROW
    return frozen_dict(c, K, frozen, frozen)


def missing_key(c):
    ref, HAS, VAL = keyed_table(c)
    same = untouched(c, ref, HAS, VAL)
    k = z3.Const("key", U)
    c.allow_raise("KeyError", lambda st: And(Not(HAS(k)), same(st)))
    r = c.call(BoundFn(ref, c.eng.find_method(c.content(ref).cls, "__getitem__")), [Sym(k)])
    c.ensure("only present keys are found", HAS(k))
    c.ensure("the row stored there", to_u(r) == VAL(k))
    c.ensure("nothing is inserted", same(c.st))


CONTRACTS += [frozen_mutator("table", n, k, keyed_table) for n, k in DICT_MUTATORS]
CONTRACTS += [Contract("C09.table.missing_key", "ticdatfactory.TicDatFactory.__init__", missing_key)]
