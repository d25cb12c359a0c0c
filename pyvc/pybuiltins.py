"""Contracts (axiomatised specifications) of the Python builtins and standard-library functions used by ticdat.
Everything here is trusted: it is the assumed semantics of CPython for the subset in use (cross-checked against CPython by
crosscheck.py)."""
import ast
import z3
from values import *
import values as VV

I = z3.IntVal


# ------------------------------------------------------------------------------------------------ types
TYPE_REC = {
    "bool": [U.is_bool], "int": [U.is_int, U.is_bool], "float": [U.is_real, U.is_pinf, U.is_ninf, U.is_nan],
    "str": [U.is_str], "tuple": [U.is_tup], "NoneType": [U.is_none], "datetime": [U.is_dt],
    "Number": [U.is_bool, U.is_int, U.is_real, U.is_pinf, U.is_ninf, U.is_nan],
    "dict": [], "list": [], "set": [], "frozenset": [], "DataFrame": [], "type": [], "bytes": [],
}
SAMPLES = [(U.is_none, None), (U.is_bool, True), (U.is_int, 1), (U.is_real, 1.5), (U.is_pinf, 1.5), (U.is_ninf, 1.5),
           (U.is_nan, 1.5), (U.is_str, "s"), (U.is_dt, __import__("datetime").datetime(2000, 1, 1)), (U.is_tup, (1,))]
ISINST = z3.Function("obj_isinstance", z3.IntSort(), z3.StringSort(), z3.BoolSort())
ALIASES = {"numbers.Number": "Number", "datetime.datetime": "datetime", "pandas.DataFrame": "DataFrame", "DataFrame": "DataFrame",
           "collections.defaultdict": "defaultdict"}


def class_names(eng, cls):
    return [ALIASES.get(c.name, c.name) for c in eng.mro(cls)]


def isinstance_(eng, st, v, cls):
    if isinstance(cls, Tup): return Or([isinstance_(eng, st, v, c) for c in cls.items])
    if isinstance(cls, Con) and cls.v is None: eng.raise_(st, "TypeError"); return FALSE
    if isinstance(v, Ite): return If(v.c, isinstance_(eng, st, v.a, cls), isinstance_(eng, st, v.b, cls))
    if isinstance(v, Model): return v.type_is(eng, st, cls)
    if isinstance(cls, Model): return FALSE
    name = ALIASES.get(cls.name, cls.name)
    if isinstance(v, Con):
        import numbers, datetime
        pt = {"bool": bool, "int": int, "float": float, "str": str, "tuple": tuple, "Number": numbers.Number, "object": object,
              "NoneType": type(None), "datetime": datetime.datetime, "bytes": bytes}.get(name)
        return z3.BoolVal(pt is not None and isinstance(v.v, pt))
    if isinstance(v, (Tup, SeqV)):
        if isinstance(v, Tup) and v.cls is not None and (v.cls is cls or cls in eng.mro(v.cls)): return TRUE
        return z3.BoolVal(name in ("tuple", "object"))
    if isinstance(v, Sym):
        s = v.t.sort()
        if s == z3.BoolSort(): return z3.BoolVal(name in ("bool", "int", "Number", "object"))
        if s == z3.IntSort(): return z3.BoolVal(name in ("int", "Number", "object"))
        if s == z3.RealSort(): return z3.BoolVal(name in ("float", "Number", "object"))
        if s == z3.StringSort(): return z3.BoolVal(name in ("str", "object"))
        if name == "object": return TRUE
        rs = [r(v.t) for r in TYPE_REC.get(name, [])]
        if name in ("datetime", "str", "int", "bool", "float", "Number", "tuple", "NoneType"): return Or(rs)
        return Or(rs + [And(U.is_obj(v.t), ISINST(U.o(v.t), z3.StringVal(name)))])
    if isinstance(v, Ref):
        c = eng.content(st, v, note=False)
        return content_isinstance(eng, st, c, name, cls)
    if isinstance(v, IterV): return z3.BoolVal(name == "object")
    if isinstance(v, (Fn, Prim, BoundFn, Bound, Mod, Exc)): return z3.BoolVal(name == "object" or (isinstance(v, Exc) and (v.cls == name or name == "Exception")))
    if isinstance(v, ClassV): return z3.BoolVal(name in ("type", "object"))
    raise Unsupported("isinstance of %s" % type(v).__name__)


def content_isinstance(eng, st, c, name, cls):
    if isinstance(c, UnionC): return If(c.c, content_isinstance(eng, st, c.a, name, cls), content_isinstance(eng, st, c.b, name, cls))
    if isinstance(c, NoneC): return isinstance_(eng, st, c.v, cls)
    if isinstance(c, MapC): return z3.BoolVal(name in ("dict", "object") or (name == "defaultdict" and c.default is not None) or name == c.kind)
    if isinstance(c, SetC): return z3.BoolVal(name in (c.kind, "object"))
    if isinstance(c, (ListC, SeqC)): return z3.BoolVal(name in ("list", "object"))
    if isinstance(c, ObjC):
        if c.cls is None: return z3.BoolVal(name == "object")
        return z3.BoolVal(name in class_names(eng, c.cls) and (cls.node is None or any(q is cls or q.node is cls.node for q in eng.mro(c.cls))) or name == "object")
    raise Unsupported("isinstance of content")


def hasattr_(eng, st, v, name):
    if isinstance(v, Ite): return If(v.c, hasattr_(eng, st, v.a, name), hasattr_(eng, st, v.b, name))
    if isinstance(v, Con): return z3.BoolVal(hasattr(v.v, name))
    if isinstance(v, Tup) and v.fields is not None and name in v.fields: return TRUE
    if isinstance(v, (Tup, SeqV)):
        if isinstance(v, Tup) and v.cls is not None and eng.find_method(v.cls, name): return TRUE
        return z3.BoolVal(hasattr((), name))
    if isinstance(v, Model): return v.has_attr(eng, st, name)
    if isinstance(v, Sym):
        s = v.t.sort()
        if s != U: return z3.BoolVal(hasattr({z3.BoolSort(): True, z3.IntSort(): 1, z3.RealSort(): 1.5, z3.StringSort(): "s"}[s], name))
        return Or([r(v.t) for r, x in SAMPLES if hasattr(x, name)] + [And(U.is_obj(v.t), OBJ_HAS(U.o(v.t), z3.StringVal(name)))])
    if isinstance(v, Ref):
        return content_hasattr(eng, st, eng.content(st, v, note=False), name)
    if isinstance(v, IterV): return z3.BoolVal(name in ("__iter__", "__next__"))
    if isinstance(v, (Fn, Prim, BoundFn, Bound)): return z3.BoolVal(name in ("__call__", "__name__"))
    if isinstance(v, ClassV): return z3.BoolVal(eng.find_method(v, name) is not None or hasattr(type, name) or eng.base_kind(v) == "dict" and hasattr(dict, name))
    if isinstance(v, Mod): return TRUE
    raise Unsupported("hasattr of %s" % type(v).__name__)


def content_hasattr(eng, st, c, name):
    if isinstance(c, UnionC): return If(c.c, content_hasattr(eng, st, c.a, name), content_hasattr(eng, st, c.b, name))
    if isinstance(c, NoneC): return hasattr_(eng, st, c.v, name)
    if isinstance(c, MapC): return z3.BoolVal(hasattr({}, name))
    if isinstance(c, SetC): return z3.BoolVal(hasattr(set(), name))
    if isinstance(c, (ListC, SeqC)): return z3.BoolVal(hasattr([], name))
    if isinstance(c, ObjC):
        if name in c.attrs:
            v = c.attrs[name]
            return TRUE if isinstance(v, Content) else Not(eng.unbound_cond(v))
        if c.cls is not None and eng.find_method(c.cls, name): return TRUE
        if "%map" in c.attrs and hasattr({}, name): return TRUE
        if hasattr(object(), name): return TRUE
        if c.dyn is not None: return c.dyn.dom(to_u(Con(name)))
        return FALSE
    raise Unsupported("hasattr of content")


METHODS = {MapC: dir({}), SetC: dir(set()), ListC: dir([]), SeqC: dir([])}


def has_method(c, name):
    return type(c) in METHODS and name in METHODS[type(c)]


def static_name(v):
    if isinstance(v, Con) and isinstance(v.v, str): return v.v
    return None


# ------------------------------------------------------------------------------------------------ len, all, any, sums
def length(eng, st, v):
    if isinstance(v, Con):
        try: return I(len(v.v))
        except TypeError:
            eng.raise_(st, "TypeError"); return I(0)
    if isinstance(v, Tup): return I(len(v.items))
    if isinstance(v, Ite):
        k = st.knows(v.c)
        if k is not None: return length(eng, st, v.a if k else v.b)
        r = eng.branch(st, v.c, lambda s: Sym(length(eng, s, v.a)), lambda s: Sym(length(eng, s, v.b)))
        return I(0) if isinstance(r, Con) and r.v is None else raw(r)
    if isinstance(v, Sym):
        if v.t.sort() == z3.StringSort(): return z3.Length(v.t)
        if v.t.sort() == U:
            eng.raise_(st, "TypeError", Not(Or(U.is_str(v.t), U.is_tup(v.t))))
            return z3.If(U.is_str(v.t), z3.Length(U.s(v.t)), TLEN(v.t))
        eng.raise_(st, "TypeError"); return I(0)
    if isinstance(v, Model): return v.length(eng, st)
    if isinstance(v, (SeqV, IterV)): return content_len(eng, st, v.content)
    if isinstance(v, Ref):
        c = eng.content(st, v)
        if isinstance(c, ObjC):
            m = eng.find_method(c.cls, "__len__")
            if m is not None: return eng.as_int(st, eng.call(st, BoundFn(v, m), [], {}))
        return content_len(eng, st, c)
    raise Unsupported("len of %s" % type(v).__name__)


def content_len(eng, st, c):
    if isinstance(c, UnionC):
        k = st.knows(c.c)
        if k is not None: return content_len(eng, st, c.a if k else c.b)
        return If(c.c, content_len(eng, st, c.a), content_len(eng, st, c.b))
    if isinstance(c, SeqC): return c.n
    if isinstance(c, ListC):
        if c.is_static(): return I(len(c.parts))
        s = eng.as_seqc(c)
        if s is not None: return s.n
        r = []
        for p in eng.parts_of(c):
            if not p.bs: r.append(If(p.guard, I(1), I(0)))
            elif p.key is not None and is_range(p): r.append(p.key)
            else: r.append(count_term(eng, p.bs, p.guard))
        return z3.Sum(r) if len(r) > 1 else r[0] if r else I(0)
    if isinstance(c, MapC):
        if c.static is not None: return I(len(eng.static_distinct([k for k, _ in c.static])))
        k = fresh_const("k", U); return card_term(eng, k, c.dom(k), st)
    if isinstance(c, SetC):
        if c.static is not None:
            try: return I(len(eng.static_distinct(c.static)))
            except Unsupported: pass
            us = [to_u(x) for x in c.static]
            return z3.Sum([If(And([u != w for w in us[:i]]), I(1), I(0)) for i, u in enumerate(us)])
        k = fresh_const("k", U); return card_term(eng, k, c.mem(k), st)
    if isinstance(c, ObjC) and "%map" in c.attrs: return content_len(eng, st, c.attrs["%map"])
    raise Unsupported("len of content %s" % type(c).__name__)


def is_range(p):
    """guard of the part is exactly the index range of its binder"""
    if len(p.bs) != 1 or p.bs[0].sort() != z3.IntSort() or p.key is None: return False
    g = flatten_and(p.guard)
    return len(g) == 2


CARD = z3.Function("card", z3.ArraySort(U, z3.BoolSort()), z3.IntSort())


def enumerated(eng, st, k, body):
    """N if {k | body} is provably {G(0), .., G(N-1)} for a G with an inverse on the positions 0..N-1"""
    todo, seen, apps, bounds = [body], set(), [], []
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.decl().name() in eng.inverses and mentions(t, [k]): apps.append(t)
            kind = t.decl().kind()
            if kind in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE): bounds.append(t)
        todo.extend(t.children())
    for g in apps:
        args = [g.arg(i) for i in range(g.num_args())]
        inv, mem = eng.inverses[g.decl().name()]
        if any(mentions(a, [k]) for a in args[:-1]): continue
        p = inv(*(args[:-1] + [k]))
        if not p.eq(args[-1]): continue
        for b in bounds:
            for x, n in ((b.arg(0), b.arg(1)), (b.arg(1), b.arg(0))):
                if not x.eq(p) or mentions(n, [k]): continue
                goal = body == And(0 <= p, p < n, g == k)
                if not eng.surely(st, goal, 1000): continue
                j = fresh_const("j", z3.IntSort())
                onto = inv(*(args[:-1] + [g.decl()(*(args[:-1] + [j]))])) == j
                if follows(eng, st, Implies(And(0 <= j, j < n), onto)): return n
    return None


def follows(eng, st, goal, ms=1000):
    s = z3.Solver(); s.set("timeout", ms)
    for q in list(eng.axioms) + list(st.pc): s.add(q)
    s.add(Not(goal))
    return s.check() == z3.unsat


def indexed_by(eng, st, c):
    """(element, position) functions of a sequence of distinct strings, if it is provably one"""
    if not eng.inverses: return None
    j = fresh_const("j", z3.IntSort())
    e = c.at(j)
    if not (isinstance(e, Sym) and e.t.sort() == U and z3.is_app(e.t) and e.t.decl().name() in eng.inverses): return None
    args = [e.t.arg(i) for i in range(e.t.num_args())]
    if not args[-1].eq(j) or any(mentions(a, [j]) for a in args[:-1]): return None
    inv, mem = eng.inverses[e.t.decl().name()]
    G = lambda i: e.t.decl()(*(args[:-1] + [i]))
    P = lambda x: inv(*(args[:-1] + [x]))
    if not follows(eng, st, Implies(And(0 <= j, j < c.n), And(P(G(j)) == j, U.is_str(G(j))))): return None
    return G, P


def card_term(eng, k, body, st=None):
    """cardinality of {k | body} as an uninterpreted function of the characteristic predicate"""
    if st is not None and eng.inverses and not z3.is_true(body) and not z3.is_false(body):
        n = enumerated(eng, st, k, body)
        if n is not None: return If(n >= 0, n, I(0))
    body = z3.simplify(body)
    a = z3.Lambda([k], body)
    t = CARD(a)
    x = fresh_const("x", U)
    eng.axiom(And(t >= 0, (t == 0) == ForAll([x], Not(subst(body, [(k, x)])))))
    return t


_COUNT = {}


def count_term(eng, bs, guard):
    sorts = tuple(b.sort() for b in bs)
    dom = [b.sort() for b in bs]
    key = tuple(str(s) for s in dom)
    named = [z3.Const("counted!%d" % i, b.sort()) for i, b in enumerate(bs)]        # the same set written twice is the same term
    guard, bs = z3.simplify(subst(guard, list(zip(bs, named)))), named
    lam = z3.Lambda(list(bs), guard)
    if key not in _COUNT: _COUNT[key] = z3.Function("count_" + "_".join(key), lam.sort(), z3.IntSort())
    t = _COUNT[key](lam)
    nb = [fresh_const("x", b.sort()) for b in bs]
    eng.axiom(And(t >= 0, (t == 0) == ForAll(nb, Not(subst(guard, list(zip(bs, nb)))))))
    if eng.count_unique:            # at most one exactly when any two members are the same one
        xs, ys = [[fresh_const(n, b.sort()) for b in bs] for n in "xy"]
        eng.axiom((t <= 1) == ForAll(xs + ys, Implies(And(subst(guard, list(zip(bs, xs))), subst(guard, list(zip(bs, ys)))), And([x == y for x, y in zip(xs, ys)]))))
    return t


_SUM = {}


def summation(eng, bs, cond, e):
    v = raw(e)
    if v.sort() == z3.IntSort() and z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() == 1:
        return count_term(eng, bs, cond)
    if v.sort() not in (z3.IntSort(), z3.RealSort()): raise Unsupported("sum of non-numeric terms")
    lam = z3.Lambda(list(bs), z3.simplify(z3.If(cond, v, I(0) if v.sort() == z3.IntSort() else z3.RealVal(0))))
    key = str(lam.sort())
    if key not in _SUM: _SUM[key] = z3.Function("sum_%d" % len(_SUM), lam.sort(), v.sort())
    return _SUM[key](lam)


def position(eng, p):
    f = eng.fresh_fn("pos", *([b.sort() for b in p.bs] + [z3.IntSort()]))
    return f(*p.bs)


def b_all(eng, st, args, kw): return quant(eng, st, args[0], True)
def b_any(eng, st, args, kw): return quant(eng, st, args[0], False)


def quant(eng, st, v, is_all):
    r = []
    for p in eng.iterate(st, v):
        # truth of an element must not raise; evaluated in a fork under the guard
        s = st.fork(); s.assume(p.guard)
        if s.dead: continue
        t = eng.truthy(s, p.elem)
        r.append(ForAll(p.bs, Implies(p.guard, t)) if is_all else Exists(p.bs, And(p.guard, t)))
    return Sym(And(r) if is_all else Or(r))


# ------------------------------------------------------------------------------------------------ constructors
def b_set(eng, st, args, kw, kind="set"):
    if not args: return eng.alloc(st, SetC(lambda x: FALSE, kind, []))
    c = eng.to_set(st, args[0])
    return eng.alloc(st, SetC(c.mem, kind, c.static))


def b_frozenset(eng, st, args, kw): return b_set(eng, st, args, kw, "frozenset")


def seq_content(eng, st, v, kind):
    s = eng.seq_of(st, v)
    if s is not None:
        c = s[0]
        if isinstance(c, SeqC): return SeqC(c.n, c.at, kind)
        return ListC(c.parts, kind)
    parts = eng.iterate(st, v)
    return ListC(parts, kind)


def b_tuple(eng, st, args, kw):
    if not args: return Tup([])
    v = args[0]
    if isinstance(v, Tup): return Tup(v.items) if v.cls is not None else v
    if isinstance(v, SeqV): return v
    if isinstance(v, Sym) and v.t.sort() == U:
        eng.exit("unsupported", st, "tuple() of an opaque string", U.is_str(v.t))
        eng.raise_(st, "TypeError", Not(U.is_tup(v.t)))
        return v
    c = seq_content(eng, st, v, "tuple")
    if isinstance(c, ListC) and c.is_static(): return Tup([p.elem for p in c.parts])
    return SeqV(c)


def b_list(eng, st, args, kw):
    if not args: return eng.alloc(st, EMPTY_LIST())
    return eng.alloc(st, seq_content(eng, st, args[0], "list"))


def b_dict(eng, st, args, kw):
    c = EMPTY_MAP()
    if args: c = dict_from(eng, st, args[0])
    for k, v in kw.items():
        if k == "**": c = eng.apply(st, c, (), "overlay", (eng.to_map(st, v),), TRUE, [])
        else: c = eng.apply(st, c, (), "set", (to_u(Con(k)), eng.own(st, v)), TRUE, [])
    return eng.alloc(st, c)


def dict_from(eng, st, v):
    try:
        m = eng.to_map(st, v)
        return MapC(m.dom, m.get, None, "dict", m.static)
    except Unsupported:
        pass
    c = EMPTY_MAP()
    for p in eng.iterate(st, v):
        items = eng.unpack(st, p.elem, 2)
        c = eng.apply(st, c, (), "set", (to_u(items[0]), eng.own(st, items[1]) if not p.bs else deref_value(eng, st, items[1])), p.guard, p.bs)
    return c


def deref_value(eng, st, v):
    if isinstance(v, Ref): return eng.content(st, v)
    return v


def b_zip(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], tuple): raise Unsupported("zip(*)")
    if not args: return IterV(ListC([]))
    static = []
    for a in args:
        s = eng.seq_of(st, a)
        c = s[0] if s is not None else None
        if c is None and isinstance(a, Con) and isinstance(a.v, (tuple, list, str)): c = ListC([Part([], TRUE, Con(x)) for x in a.v])
        if c is None:
            if isinstance(a, Sym) and a.t.sort() == U:
                eng.raise_(st, "TypeError", Not(U.is_tup(a.t)))
                u = a.t
                c = SeqC(TLEN(u), lambda i, u=u: Sym(TGET(u, i)))
            elif isinstance(a, (IterV, Model)):
                c = a.content if isinstance(a, IterV) else ListC(a.iterate(eng, st))
            else:
                ps = eng.iterate(st, a)
                c = ListC(ps)
        static.append((c, a))
    if all(isinstance(c, ListC) and c.is_static() for c, _ in static):
        n = min(len(c.parts) for c, _ in static)
        return IterV(ListC([Part([], TRUE, Tup([c.parts[i].elem for c, _ in static])) for i in range(n)]))
    seqs = []
    for c, a in static:
        s = eng.as_seqc(c)
        if s is None: raise Unsupported("zip of a filtered sequence")
        seqs.append((s, a))
    ns = [z3.simplify(s.n) for s, _ in seqs]
    n = ns[0]
    for m in ns[1:]:
        if not m.eq(n): n = z3.If(n <= m, n, m)
    nn = z3.simplify(n)
    def elem(i):
        r = []
        for s, a in seqs:
            v = s.at(i)
            r.append(eng.view(st, a, i, v) if isinstance(a, Ref) and isinstance(v, Content) else v)
        return Tup(r)
    if z3.is_int_value(nn): return IterV(ListC([Part([], TRUE, elem(I(i))) for i in range(nn.as_long())]))
    lens = [m for m in ns if z3.is_int_value(m)]
    if lens and min(m.as_long() for m in lens) <= 4:
        k = min(m.as_long() for m in lens)
        return IterV(ListC([Part([], z3.simplify(I(i) < n), elem(I(i))) for i in range(k)]))
    i = fresh_const("i", z3.IntSort())
    return IterV(ListC([Part([i], And(0 <= i, *[i < m for m in dedupe(ns)]), elem(i), key=n)]))


def dedupe(ts):
    r = []
    for t in ts:
        if not any(t.eq(x) for x in r): r.append(t)
    return r


def b_enumerate(eng, st, args, kw):
    start = eng.as_int(st, args[1]) if len(args) > 1 else I(0)
    parts = eng.iterate(st, args[0])
    if all(not p.bs and z3.is_true(p.guard) for p in parts):
        return IterV(ListC([Part([], TRUE, Tup([int_v(start + i), p.elem])) for i, p in enumerate(parts)]))
    if len(parts) == 1 and len(parts[0].bs) == 1 and parts[0].bs[0].sort() == z3.IntSort() and parts[0].key is not None:
        p = parts[0]
        return IterV(ListC([Part(p.bs, p.guard, Tup([Sym(z3.simplify(p.bs[0] + start)), p.elem]), key=p.key)]))
    out = []
    for p in parts:
        if len(parts) != 1: raise Unsupported("enumerate of several parts")
        f = eng.fresh_fn("enum", *([b.sort() for b in p.bs] + [z3.IntSort()]))
        # injective non-negative numbering of the elements of the comprehension
        b2 = [fresh_const("b", b.sort()) for b in p.bs]
        g2 = subst(p.guard, list(zip(p.bs, b2)))
        eng.axiom(ForAll(list(p.bs) + b2, Implies(And(p.guard, g2, f(*p.bs) == f(*b2)), And([x == y for x, y in zip(p.bs, b2)]))))
        eng.axiom(ForAll(list(p.bs), Implies(p.guard, f(*p.bs) >= 0)))
        out.append(Part(p.bs, p.guard, Tup([Sym(f(*p.bs) + start), p.elem])))
    return IterV(ListC(out))


def int_v(t):
    t = z3.simplify(t)
    return Con(t.as_long()) if z3.is_int_value(t) else Sym(t)


def b_range(eng, st, args, kw):
    lo, hi = (I(0), eng.as_int(st, args[0])) if len(args) == 1 else (eng.as_int(st, args[0]), eng.as_int(st, args[1]))
    if len(args) > 2: raise Unsupported("range step")
    a, b = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return Con(tuple(range(a.as_long(), b.as_long())))
    n = z3.simplify(b - a)
    return SeqV(SeqC(z3.If(n > 0, n, I(0)), lambda i: Sym(z3.simplify(a + i))))


def b_sorted(eng, st, args, kw):
    # same members; the order is only meaningful for static content
    c = seq_content(eng, st, args[0], "list")
    if isinstance(c, ListC) and c.is_static() and "key" not in kw and all(isinstance(p.elem, Con) for p in c.parts):
        try:
            return eng.alloc(st, ListC([Part([], TRUE, Con(x)) for x in sorted([p.elem.v for p in c.parts], reverse=bool(kw.get("reverse") and kw["reverse"].v))]))
        except TypeError: pass
    if isinstance(c, SeqC): c = ListC(eng.parts_of(c))
    return eng.alloc(st, ListC([Part(p.bs, p.guard, p.elem, None) for p in c.parts]))


def b_reversed(eng, st, args, kw):
    s = eng.seq_of(st, args[0])
    if s is None: raise Unsupported("reversed")
    c = eng.as_seqc(s[0])
    if c is None: raise Unsupported("reversed of a filtered list")
    if isinstance(s[0], ListC) and s[0].is_static(): return IterV(ListC(list(reversed(s[0].parts))))
    return IterV(SeqC(c.n, lambda i: c.at(c.n - 1 - i)))


def b_map(eng, st, args, kw):
    f, it = args
    acc = eng.alloc(st, EMPTY_LIST())
    def body(s, e):
        v = eng.call(s, f, [e], {})
        if not s.dead: eng.mutate(s, acc, "append", (eng.own(s, v),))
    eng.run_loop(st, eng.iterate(st, it), body)
    if st.dead: return IterV(ListC([]))
    return IterV(eng.content(st, acc))


def b_filter(eng, st, args, kw):
    f, it = args
    acc = eng.alloc(st, EMPTY_LIST())
    def body(s, e):
        c = eng.truthy(s, eng.call(s, f, [e], {}) if not (isinstance(f, Con) and f.v is None) else e)
        if s.dead: return
        eng.branch(s, c, lambda s2: (eng.mutate(s2, acc, "append", (eng.own(s2, e),)), Con(None))[1], lambda s2: Con(None))
    eng.run_loop(st, eng.iterate(st, it), body)
    if st.dead: return IterV(ListC([]))
    return IterV(eng.content(st, acc))


def b_sum(eng, st, args, kw):
    r = None
    for p in eng.iterate(st, args[0]):
        v = raw(p.elem)
        if v.sort() == z3.BoolSort(): v = z3.If(v, I(1), I(0))
        if v.sort() == U: raise Unsupported("sum of opaque values")
        t = summation(eng, p.bs, p.guard, Sym(v)) if p.bs else If(p.guard, v, I(0))
        r = t if r is None else r + t
    return Sym(r) if r is not None else Con(0)


def b_next(eng, st, args, kw):
    parts = eng.iterate(st, args[0])
    if len(parts) == 1 and not parts[0].bs and z3.is_true(parts[0].guard): return parts[0].elem
    if len(parts) != 1: raise Unsupported("next of several parts")
    p = part_fresh(parts[0])
    ex = Exists(p.bs, p.guard)
    sk = [eng.fresh("nx", b.sort()) for b in p.bs]
    prs = list(zip(p.bs, sk))
    eng.axiom(Implies(ex, subst(p.guard, prs)))
    v = vsub(p.elem, prs)
    if len(args) > 1: return mk_ite(ex, v, args[1])
    eng.raise_(st, "StopIteration", Not(ex))
    return v


def b_minmax(is_max):
    def f(eng, st, args, kw):
        vals = args
        if len(args) == 1:
            parts = eng.iterate(st, args[0])
            if not all(not p.bs and z3.is_true(p.guard) for p in parts):
                s = eng.seq_of(st, args[0])
                r = eng.fresh("mx" if is_max else "mn", z3.IntSort())
                for p in parts:
                    e = raw(p.elem)
                    if e.sort() != z3.IntSort(): raise Unsupported("max of a symbolic collection")
                    eng.axiom(ForAll(p.bs, Implies(p.guard, (r >= e) if is_max else (r <= e))))
                ex = Or([Exists(p.bs, And(p.guard, r == raw(p.elem))) for p in parts])
                non = Or([Exists(p.bs, p.guard) for p in parts])
                eng.axiom(Implies(non, ex))
                if "default" in kw: return mk_ite(non, Sym(r), kw["default"])
                eng.raise_(st, "ValueError", Not(non))
                return Sym(r)
            vals = [p.elem for p in parts]
        if not vals:
            if "default" in kw: return kw["default"]
            eng.raise_(st, "ValueError"); return Con(None)
        r = vals[0]
        for v in vals[1:]:
            c = eng.truthy(st, compare(eng, st, ast.Gt() if is_max else ast.Lt(), v, r))
            r = mk_ite(c, v, r)
        return r
    return f


# ------------------------------------------------------------------------------------------------ conversions
STR_OF = z3.Function("py_str", U, z3.StringSort())
REPR_OF = z3.Function("py_repr", U, z3.StringSort())
FLOAT_OF_STR = z3.Function("py_float_str", z3.StringSort(), U)
FLOAT_OK = z3.Function("py_float_ok", z3.StringSort(), z3.BoolSort())


def str_of(eng, st, v):
    if isinstance(v, Con): return z3.StringVal(str(v.v))
    if isinstance(v, Sym):
        if v.t.sort() == z3.StringSort(): return v.t
        if v.t.sort() == z3.IntSort(): return STR_OF(U.int(v.t))
        if v.t.sort() == U: return z3.If(U.is_str(v.t), U.s(v.t), STR_OF(v.t))
    if isinstance(v, Ite): return If(v.c, str_of(eng, st, v.a), str_of(eng, st, v.b))
    if isinstance(v, (Tup, SeqV)):
        try: return STR_OF(to_u(v))
        except Unsupported: pass
    if isinstance(v, (ClassV, Fn, Mod, Prim)): return eng.fresh("strv", z3.StringSort())
    return eng.fresh("str", z3.StringSort())


def b_str(eng, st, args, kw):
    if not args: return Con("")
    v = args[0]
    if isinstance(v, Con): return Con(str(v.v))
    return Sym(str_of(eng, st, v))


def b_repr(eng, st, args, kw):
    v = args[0]
    if isinstance(v, Con): return Con(repr(v.v))
    try: return Sym(REPR_OF(to_u(v)))
    except Unsupported: return Sym(eng.fresh("repr", z3.StringSort()))


def b_bool(eng, st, args, kw):
    if not args: return Con(False)
    t = eng.truthy(st, args[0])
    return Con(True) if z3.is_true(t) else Con(False) if z3.is_false(t) else Sym(t)


INT_OF_OBJ = z3.Function("py_int", U, z3.IntSort())
INT_OK = z3.Function("py_int_ok", U, z3.BoolSort())


def trunc_real(r):
    return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def b_int(eng, st, args, kw):
    if not args: return Con(0)
    v = args[0]
    if isinstance(v, Con):
        try: return Con(int(v.v))
        except (ValueError, TypeError, OverflowError) as e:
            eng.raise_(st, type(e).__name__); return Con(0)
    if isinstance(v, Sym) and v.t.sort() == z3.IntSort(): return v
    if isinstance(v, Sym) and v.t.sort() == z3.RealSort(): return Sym(trunc_real(v.t))
    u = to_u(v)
    eng.raise_(st, "OverflowError", Or(U.is_pinf(u), U.is_ninf(u)))
    eng.raise_(st, "ValueError", Or(U.is_nan(u), And(U.is_str(u), Not(INT_OK(u)))))
    eng.raise_(st, "TypeError", Or(U.is_none(u), U.is_dt(u), U.is_tup(u), And(U.is_obj(u), Not(INT_OK(u)))))
    return Sym(z3.If(U.is_bool(u), z3.If(U.b(u), I(1), I(0)), z3.If(U.is_int(u), U.i(u), z3.If(U.is_real(u), trunc_real(U.r(u)), INT_OF_OBJ(u)))))


FLOAT_OF_INT = z3.Function("py_float_int", z3.IntSort(), z3.RealSort())
FLOAT_INT_OK = z3.Function("py_float_int_ok", z3.IntSort(), z3.BoolSort())


def b_float(eng, st, args, kw):
    v = args[0]
    if isinstance(v, Con):
        try: return Con(float(v.v))
        except (ValueError, TypeError, OverflowError) as e:
            eng.raise_(st, type(e).__name__); return Con(0)
    u = to_u(v)
    eng.raise_(st, "ValueError", And(U.is_str(u), Not(FLOAT_OK(U.s(u)))))
    eng.raise_(st, "TypeError", Or(U.is_none(u), U.is_dt(u), U.is_tup(u), And(U.is_obj(u), Not(INT_OK(u)))))
    ofint = z3.ToReal(U.i(u))
    if eng.float_rounding:       # a float cannot hold every integer
        eng.raise_(st, "OverflowError", And(U.is_int(u), Not(FLOAT_INT_OK(U.i(u)))))
        ofint = FLOAT_OF_INT(U.i(u))
    return Sym(z3.If(U.is_bool(u), U.real(z3.If(U.b(u), z3.RealVal(1), z3.RealVal(0))), z3.If(U.is_int(u), U.real(ofint),
               z3.If(U.is_str(u), FLOAT_OF_STR(U.s(u)), u))))


def b_abs(eng, st, args, kw):
    v = args[0]
    if isinstance(v, Con): return Con(abs(v.v))
    t = raw(v)
    if t.sort() in (z3.IntSort(), z3.RealSort()): return Sym(z3.If(t >= 0, t, -t))
    u = t
    eng.raise_(st, "TypeError", Not(is_num(u)))
    i = z3.If(U.is_int(u), U.i(u), z3.If(U.b(u), z3.IntVal(1), z3.IntVal(0)))
    return Sym(z3.If(U.is_ninf(u), U.pinf, z3.If(Or(U.is_int(u), U.is_bool(u)), U.int(z3.If(i >= 0, i, -i)), z3.If(U.is_real(u), U.real(z3.If(U.r(u) >= 0, U.r(u), -U.r(u))), u))))


def norm_num(u, r):
    """numeric result: keep ints as ints"""
    return z3.If(z3.Or(U.is_int(u), U.is_bool(u)), U.int(z3.ToInt(r)), U.real(r))


def b_round(eng, st, args, kw): raise Unsupported("round")


def b_type(eng, st, args, kw):
    v = args[0]
    if isinstance(v, Con): return BUILTINS.get(type(v.v).__name__) or ClassV(type(v.v).__name__)
    if isinstance(v, Tup): return v.cls if v.cls is not None else BUILTINS["tuple"]
    if isinstance(v, SeqV): return BUILTINS["tuple"]
    if isinstance(v, Ref):
        c = eng.content(st, v)
        if isinstance(c, ObjC): return c.cls
        return BUILTINS[{MapC: "dict", SetC: "set", ListC: "list", SeqC: "list"}[type(c)]]
    if isinstance(v, Ite): return mk_ite(v.c, b_type(eng, st, [v.a], kw), b_type(eng, st, [v.b], kw))
    if isinstance(v, Model) and hasattr(v, "type_"): return v.type_(eng, st)
    raise Unsupported("type of %s" % type(v).__name__)


def b_callable(eng, st, args, kw):
    v = args[0]
    def f(v):
        if isinstance(v, Ite): return If(v.c, f(v.a), f(v.b))
        if isinstance(v, (Fn, Prim, BoundFn, Bound, ClassV)): return TRUE
        if isinstance(v, Model): return v.has_attr(eng, st, "__call__")
        if isinstance(v, Sym) and v.t.sort() == U: return And(U.is_obj(v.t), OBJ_HAS(U.o(v.t), z3.StringVal("__call__")))
        return FALSE
    return Sym(f(v))


def b_hasattr(eng, st, args, kw):
    n = static_name(args[1])
    if n is not None:
        return Sym(hasattr_(eng, st, args[0], n))
    return Sym(dyn_hasattr(eng, st, args[0], args[1]))


def dyn_hasattr(eng, st, o, k):
    if isinstance(o, Ref):
        c = eng.content(st, o)
        if isinstance(c, ObjC) and c.dyn is not None: return c.dyn.dom(to_u(k))
    if isinstance(o, Model) and hasattr(o, "dyn_has"): return o.dyn_has(eng, st, to_u(k))
    raise Unsupported("hasattr with a symbolic name")


def b_getattr(eng, st, args, kw):
    o, k = args[0], args[1]
    n = static_name(k)
    if n is not None:
        if len(args) == 3:
            c = hasattr_(eng, st, o, n)
            return eng.branch(st, eng.simp_cond(st, c), lambda s: eng.getattr_(s, o, n), lambda s: args[2])
        return eng.getattr_(st, o, n)
    if isinstance(k, Ite):
        return eng.branch(st, k.c, lambda s: b_getattr(eng, s, [o, k.a] + list(args[2:]), kw), lambda s: b_getattr(eng, s, [o, k.b] + list(args[2:]), kw))
    u = to_u(k)
    if isinstance(o, Ref):
        c = eng.content(st, o, note="shallow")
        if isinstance(c, ObjC) and c.dyn is not None:
            if len(args) == 3:
                return eng.branch(st, eng.simp_cond(st, c.dyn.dom(u)), lambda s: eng.view(s, o, u, c.dyn.get(u)), lambda s: args[2])
            eng.raise_(st, "AttributeError", Not(c.dyn.dom(u)))
            return eng.view(st, o, u, c.dyn.get(u))
    if isinstance(o, Model) and hasattr(o, "dyn_get"): return o.dyn_get(eng, st, u)
    raise Unsupported("getattr with a symbolic name")


def b_setattr(eng, st, args, kw):
    o, k, v = args
    n = static_name(k)
    if n is not None:
        eng.setattr_(st, o, n, v); return Con(None)
    if isinstance(o, Ref):
        c = eng.content(st, o, note=False)
        if isinstance(c, ObjC) and c.dyn is not None:
            r = eng.deref(st, o)
            dyn_set(eng, st, r, to_u(k), eng.own(st, v, Ref(r.cid, r.path + (to_u(k),))))
            return Con(None)
    raise Unsupported("setattr with a symbolic name")


def dyn_set(eng, st, r, k, v):
    eng.mutate(st, Ref(r.cid, r.path + ("%dyn",)), "set", (k, v))


def b_delattr(eng, st, args, kw):
    delattr_(eng, st, args[0], static_name(args[1])); return Con(None)


def b_isinstance(eng, st, args, kw): return Sym(isinstance_(eng, st, args[0], args[1]))
def b_issubclass(eng, st, args, kw):
    a, b = args
    if isinstance(a, ClassV) and isinstance(b, ClassV): return Con(b in eng.mro(a) or b.name == "object")
    raise Unsupported("issubclass")


def b_iter(eng, st, args, kw): return IterV(ListC(eng.iterate(st, args[0])))
def b_print(eng, st, args, kw): return Con(None)
def b_id(eng, st, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        r = eng.deref(st, v)
        if not r.path: return Con(("id", r.cid))
    raise Unsupported("id()")


def b_object(eng, st, args, kw): return eng.alloc(st, ObjC(ClassV("object"), {}))


def P(name, f): return Prim(name, f)


BUILTINS = {n: P(n, f) for n, f in {
    "all": b_all, "any": b_any, "zip": b_zip, "enumerate": b_enumerate, "range": b_range, "sorted": b_sorted, "reversed": b_reversed,
    "map": b_map, "filter": b_filter, "sum": b_sum, "next": b_next, "max": b_minmax(True), "min": b_minmax(False), "repr": b_repr,
    "abs": b_abs, "callable": b_callable, "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr,
    "delattr": b_delattr, "isinstance": b_isinstance, "issubclass": b_issubclass, "iter": b_iter, "print": b_print, "id": b_id, "round": b_round,
    "len": lambda eng, st, a, kw: int_v(length(eng, st, a[0])),
}.items()}
CONSTRUCT = {"set": b_set, "frozenset": b_frozenset, "tuple": b_tuple, "list": b_list, "dict": b_dict, "str": b_str, "bool": b_bool,
             "int": b_int, "float": b_float, "type": b_type, "object": b_object}
for _n in CONSTRUCT: BUILTINS[_n] = ClassV(_n)
for _n in ("Exception", "ValueError", "TypeError", "KeyError", "AttributeError", "IndexError", "AssertionError", "BaseException", "StopIteration",
           "RuntimeError", "NotImplementedError", "ImportError", "OverflowError", "ZeroDivisionError", "UserWarning", "FutureWarning", "bytes"):
    BUILTINS[_n] = ClassV(_n, bases=() if _n in ("BaseException", "bytes") else (ClassV("Exception"),) if _n != "Exception" else (ClassV("BaseException"),))
BUILTINS["__debug__"] = Con(True)
BUILTINS["NotImplemented"] = Con(None)


# ------------------------------------------------------------------------------------------------ externals
def x_defaultdict(eng, st, args, kw):
    if not args: return b_dict(eng, st, [], {})
    f = args[0]
    def default():
        if isinstance(f, ClassV) and f.name in ("list", "set", "dict", "int"):
            return {"list": EMPTY_LIST, "set": EMPTY_SET, "dict": EMPTY_MAP, "int": lambda: Con(0)}[f.name]()
        s = St_()
        old, eng.exits = eng.exits, []
        try:
            v = eng.call(s, f, [], {})
            if eng.exits: raise Unsupported("default factory may raise")
            return eng.content(s, v, note=False) if isinstance(v, Ref) else v
        finally: eng.exits = old
    c = EMPTY_MAP(default)
    if len(args) > 1:
        m = dict_from(eng, st, args[1])
        c = MapC(m.dom, m.get, default, "dict", m.static)
    return eng.alloc(st, c)


def St_():
    import engine
    return engine.St()


def x_namedtuple(eng, st, args, kw):
    name = static_name(args[0])
    f = args[1]
    if isinstance(f, Con) and isinstance(f.v, str): fields = tuple(f.v.replace(",", " ").split())
    else:
        s = eng.seq_of(st, f)
        if s is None or not s[0].is_static() or not all(isinstance(p.elem, Con) for p in s[0].parts): raise Unsupported("namedtuple fields")
        fields = tuple(p.elem.v for p in s[0].parts)
    return ClassV(name, None, None, (), fields, (BUILTINS["tuple"],))


def x_chain(eng, st, args, kw):
    parts = []
    for a in args:
        if isinstance(a, tuple):      # chain(*families)
            for p in eng.iterate(st, a[1]):
                s = st.fork(); s.assume(p.guard)
                for q in eng.iterate(s, p.elem):
                    parts.append(Part(list(p.bs) + q.bs, And(p.guard, q.guard), q.elem))
        else: parts += eng.iterate(st, a)
    return IterV(ListC(parts))


def x_isnull(eng, st, args, kw):
    v = args[0]
    def f(v):
        if isinstance(v, Con): return z3.BoolVal(v.v is None or v.v != v.v)
        if isinstance(v, Ite): return If(v.c, f(v.a), f(v.b))
        if isinstance(v, Sym):
            if v.t.sort() != U: return FALSE
            return Or(U.is_none(v.t), U.is_nan(v.t), And(U.is_obj(v.t), NULLISH(U.o(v.t))))
        if isinstance(v, Model): return FALSE
        if isinstance(v, Ref):
            return FALSE
        raise Unsupported("isnull of %s" % type(v).__name__)
    return Sym(f(v))


NULLISH = z3.Function("obj_isnull", z3.IntSort(), z3.BoolSort())

def x_ceil(eng, st, args, kw):
    n = num_of(args[0])
    if n is None:
        u = to_u(args[0])
        eng.raise_(st, "TypeError", Not(is_num(u))); eng.raise_(st, "OverflowError", Or(u == U.pinf, u == U.ninf)); eng.raise_(st, "ValueError", U.is_nan(u))
        n = z3.simplify(rv(u))
    return Sym(n if n.sort() == z3.IntSort() else -z3.ToInt(-n))


EXTERN = {
    "math.ceil": P("ceil", x_ceil),
    "collections.defaultdict": P("defaultdict", x_defaultdict), "collections.namedtuple": P("namedtuple", x_namedtuple),
    "itertools.chain": P("star:chain", x_chain), "numbers.Number": ClassV("Number"),
    "pandas.isnull": P("isnull", x_isnull), "pandas.DataFrame": ClassV("DataFrame"), "datetime.datetime": ClassV("datetime"),
    "sys.version_info": Con((3, 12, 0)),
}


# ------------------------------------------------------------------------------------------------ operators
def num_of(v):
    """numeric z3 term (Int/Real) when statically numeric, else None"""
    if isinstance(v, Con) and isinstance(v.v, bool): return I(int(v.v))
    if isinstance(v, Con) and isinstance(v.v, int): return I(v.v)
    if isinstance(v, Con) and isinstance(v.v, float) and v.v == v.v and abs(v.v) != float("inf"):
        n, d = v.v.as_integer_ratio(); return z3.Q(n, d)
    if isinstance(v, Sym) and v.t.sort() in (z3.IntSort(), z3.RealSort()): return v.t
    return None


def binop(eng, st, op, a, b):
    if isinstance(a, Ite):
        if st is None: return mk_ite(a.c, binop(eng, st, op, a.a, b), binop(eng, st, op, a.b, b))
        return eng.branch(st, a.c, lambda s: binop(eng, s, op, a.a, b), lambda s: binop(eng, s, op, a.b, b))
    if isinstance(b, Ite):
        if st is None: return mk_ite(b.c, binop(eng, st, op, a, b.a), binop(eng, st, op, a, b.b))
        return eng.branch(st, b.c, lambda s: binop(eng, s, op, a, b.a), lambda s: binop(eng, s, op, a, b.b))
    if isinstance(a, Con) and isinstance(b, Con):
        try:
            return Con({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "//": lambda x, y: x // y,
                        "%": lambda x, y: x % y, "|": lambda x, y: x | y, "&": lambda x, y: x & y, "**": lambda x, y: x ** y, "^": lambda x, y: x ^ y}[op](a.v, b.v))
        except Exception as e:
            if st is None: raise Unsupported(str(e))
            eng.raise_(st, type(e).__name__); return Con(None)
    if op == "%" and isinstance(a, Con) and isinstance(a.v, str):
        return str_format(eng, st, a.v, b)
    na, nb = num_of(a), num_of(b)
    if na is not None and nb is not None:
        if op in "+-*" or op in ("+", "-", "*"):
            if na.sort() != nb.sort():
                na = z3.ToReal(na) if na.sort() == z3.IntSort() else na
                nb = z3.ToReal(nb) if nb.sort() == z3.IntSort() else nb
            return Sym(z3.simplify({"+": na + nb, "-": na - nb, "*": na * nb}[op]))
        if op == "/":
            ra = z3.ToReal(na) if na.sort() == z3.IntSort() else na
            rb = z3.ToReal(nb) if nb.sort() == z3.IntSort() else nb
            eng.raise_(st, "ZeroDivisionError", z3.simplify(rb == 0))
            return Sym(U.real(ra / rb))
        if op in ("//", "%") and na.sort() == nb.sort() == z3.IntSort():
            eng.raise_(st, "ZeroDivisionError", z3.simplify(nb == 0))
            # floor semantics for either sign of the divisor
            q = z3.If(nb > 0, na / nb, (-na) / (-nb))
            q = z3.simplify(q) if z3.is_int_value(z3.simplify(nb)) else q
            return Sym(q) if op == "//" else Sym(na - nb * q)
    if op == "+":
        if eng is not None and eng.string_keys is not None and st is not None:
            a, b = [Sym(known_text(eng, st, x.t)) if isinstance(x, Sym) and x.t.sort() == U and known_text(eng, st, x.t) is not None else x for x in (a, b)]
        sa, sb = strish(a), strish(b)
        if sa is not None and sb is not None: return Sym(join_text(eng, sa, sb))
        qa, qb = eng.seq_of(st, a) if st is not None else None, eng.seq_of(st, b) if st is not None else None
        if qa is not None and qb is not None:
            if qa[1] != qb[1]:
                eng.raise_(st, "TypeError"); return Con(None)
            return concat(eng, st, qa, qb)
    if op in ("|", "-", "&") and st is not None:
        A, B = setish(eng, st, a), setish(eng, st, b)
        if A is not None and B is not None:
            f = {"|": lambda x: Or(A.mem(x), B.mem(x)), "-": lambda x: And(A.mem(x), Not(B.mem(x))), "&": lambda x: And(A.mem(x), B.mem(x))}[op]
            stat = None
            if op == "|" and A.static is not None and B.static is not None: stat = A.static + B.static
            return eng.alloc(st, SetC(f, A.kind, stat))
    if op == "*" and isinstance(a, Con) and isinstance(a.v, str):
        return Sym(eng.fresh("rep", z3.StringSort()))
    if op == "*" and st is not None:
        qa = eng.seq_of(st, a)
        if qa is not None and isinstance(b, Con) and isinstance(b.v, int) and isinstance(qa[0], ListC) and qa[0].is_static():
            ps = [Part([], TRUE, p.elem) for _ in range(b.v) for p in qa[0].parts]
            return Tup([p.elem for p in ps]) if qa[1] == "tuple" else eng.alloc(st, ListC(ps))
        if qa is not None and isinstance(qa[0], ListC) and qa[0].is_static() and len(qa[0].parts) == 1:
            n = eng.as_int(st, b); e = qa[0].parts[0].elem
            c = SeqC(z3.If(n > 0, n, I(0)), lambda i: e)
            return SeqV(c) if qa[1] == "tuple" else eng.alloc(st, c)
    # opaque numeric arithmetic
    ua, ub = scal_u(a), scal_u(b)
    if ua is not None and ub is not None and op in ("+", "-", "*", "/"):
        if st is None: raise Unsupported("opaque arithmetic")
        if op == "+":
            eng.exit("unsupported", st, "+ on opaque strings", And(U.is_str(ua), U.is_str(ub)))
        eng.raise_(st, "TypeError", Not(And(is_num(ua), is_num(ub))))
        return Sym(arith(eng, st, op, ua, ub))
    raise Unsupported("operator %s on %r and %r" % (op, a, b))


def arith(eng, st, op, a, b):
    fin = And(is_fin(a), is_fin(b))
    ints = And(Or(U.is_int(a), U.is_bool(a)), Or(U.is_int(b), U.is_bool(b)))
    if op == "/":
        eng.raise_(st, "ZeroDivisionError", And(is_fin(b), rv(b) == 0))
        return z3.If(fin, U.real(rv(a) / rv(b)), eng.fresh("infdiv", U))
    r = {"+": rv(a) + rv(b), "-": rv(a) - rv(b), "*": rv(a) * rv(b)}[op]
    base = z3.If(ints, U.int(z3.ToInt(r)), U.real(r))
    nan = Or(U.is_nan(a), U.is_nan(b))
    if op in ("+", "-"):
        pb, nb = (U.is_pinf(b), U.is_ninf(b)) if op == "+" else (U.is_ninf(b), U.is_pinf(b))
        inf = z3.If(Or(And(U.is_pinf(a), nb), And(U.is_ninf(a), pb)), U.nan, z3.If(Or(U.is_pinf(a), pb), U.pinf, U.ninf))
    else:
        sa = z3.If(U.is_pinf(a), I(1), z3.If(U.is_ninf(a), I(-1), z3.If(rv(a) > 0, I(1), z3.If(rv(a) < 0, I(-1), I(0)))))
        sb = z3.If(U.is_pinf(b), I(1), z3.If(U.is_ninf(b), I(-1), z3.If(rv(b) > 0, I(1), z3.If(rv(b) < 0, I(-1), I(0)))))
        inf = z3.If(sa * sb > 0, U.pinf, z3.If(sa * sb < 0, U.ninf, U.nan))
    return z3.If(fin, base, z3.If(nan, U.nan, inf))


def scal_u(v):
    if isinstance(v, (Con, Sym)):
        try: return to_u(v)
        except Unsupported: return None
    return None


def strish(v):
    if isinstance(v, Con) and isinstance(v.v, str): return z3.StringVal(v.v)
    if isinstance(v, Sym) and v.t.sort() == z3.StringSort(): return v.t
    return None


def setish(eng, st, v):
    if isinstance(v, Ref):
        c = eng.content(st, v)
        if isinstance(c, SetC): return c
    if isinstance(v, Con) and isinstance(v.v, (set, frozenset)): return eng.to_set(st, v)
    if isinstance(v, Prim) and v.name == "keysview": return v.f
    return None


def known_text(eng, st, u):
    """the text of a value that is a string, by the contract's string_keys"""
    if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = u.children()
        a, b = known_text(eng, st, a), known_text(eng, st, b)
        return If(c, a, b) if a is not None and b is not None else None
    if z3.is_app(u) and u.decl().eq(U.str(z3.StringVal("")).decl()): return u.arg(0)
    return U.s(u) if st.knows(eng.string_keys(u)) is True else None


def concat(eng, st, qa, qb):
    a, b = qa[0], qb[0]
    tup = qa[1] == "tuple"
    if isinstance(a, ListC) and isinstance(b, ListC) and a.is_static() and b.is_static():
        ps = a.parts + b.parts
        return Tup([p.elem for p in ps]) if tup else eng.alloc(st, ListC(ps))
    sa, sb = eng.as_seqc(a), eng.as_seqc(b)
    if sa is not None and sb is not None:
        na = sa.n
        c = CatSeq(z3.simplify(na + sb.n), lambda i: mk_ite(i < na, sa.at(i), sb.at(i - na)), qa[1])
        c.pieces = (sa, sb)
    else:
        c = ListC(eng.parts_of(a) + eng.parts_of(b), qa[1])
    return SeqV(c) if tup else eng.alloc(st, c)


class CatSeq(SeqC):
    pieces = None


def str_format(eng, st, fmt, b):
    """'...%s...' % args : concatenation"""
    args = list(b.items) if isinstance(b, Tup) else [b]
    pieces, i, lit = [], 0, ""
    import re
    toks = re.split(r"(%[sdr]|%%)", fmt)
    for t in toks:
        if t == "%%": pieces.append(z3.StringVal("%"))
        elif re.fullmatch(r"%[sdr]", t):
            if i >= len(args): eng.raise_(st, "TypeError"); return Con("")
            pieces.append(str_of(eng, st, args[i]) if t != "%r" else raw(b_repr(eng, st, [args[i]], {}))); i += 1
        elif t: pieces.append(z3.StringVal(t))
    if i != len(args): return Sym(eng.fresh("fmt", z3.StringSort()))
    pieces = [p for p in pieces]
    if not pieces: return Con("")
    return Sym(join_text(eng, *pieces))


def is_(eng, st, a, b):
    if isinstance(a, Ite): return If(a.c, is_(eng, st, a.a, b), is_(eng, st, a.b, b))
    if isinstance(b, Ite): return If(b.c, is_(eng, st, a, b.a), is_(eng, st, a, b.b))
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Con) and (y.v is None or isinstance(y.v, bool)):
            if isinstance(x, Con): return z3.BoolVal(x.v is y.v)
            if isinstance(x, Sym) and x.t.sort() == U: return x.t == to_u(y)
            if isinstance(x, Sym) and x.t.sort() == z3.BoolSort() and y.v is not None: return x.t if y.v else Not(x.t)
            if isinstance(x, Sym): return FALSE
            if isinstance(x, Model) and hasattr(x, "is_none"): return x.is_none(eng, st)
            return FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        ra, rb = eng.deref(st, a), eng.deref(st, b)
        if same(ra, rb): return TRUE
        if ra.cid != rb.cid and not ra.path and not rb.path: return FALSE
        raise Unsupported("identity of containers")
    if isinstance(a, (ClassV, Fn, Prim, Mod)) and isinstance(b, (ClassV, Fn, Prim, Mod)):
        return z3.BoolVal(a is b or (isinstance(a, ClassV) and isinstance(b, ClassV) and a.name == b.name and a.node is b.node))
    if isinstance(a, Model) and hasattr(a, "eq_"): return a.eq_(eng, st, b)
    if isinstance(b, Model) and hasattr(b, "eq_"): return b.eq_(eng, st, a)
    if type(a) is not type(b): return FALSE
    raise Unsupported("identity test")


def double_equals(eng, st, a, b):
    """==; structurally equal values are equal except nan (inside tuples and other containers Python compares by identity first)"""
    e = eng.eq(st, a, b)
    if eng.eq_mode != "numeric" and isinstance(a, Sym) and isinstance(b, Sym) and a.t.sort() == U and b.t.sort() == U:
        return And(e, Not(U.is_nan(a.t)))
    return e


def compare(eng, st, op, a, b):
    if isinstance(op, ast.Is): return Sym(is_(eng, st, a, b))
    if isinstance(op, ast.IsNot): return Sym(Not(is_(eng, st, a, b)))
    if isinstance(op, ast.Eq): return Sym(double_equals(eng, st, a, b))
    if isinstance(op, ast.NotEq): return Sym(Not(double_equals(eng, st, a, b)))
    if isinstance(op, ast.In): return Sym(eng.in_(st, a, b))
    if isinstance(op, ast.NotIn): return Sym(Not(eng.in_(st, a, b)))
    if isinstance(a, Ite): return eng.branch(st, a.c, lambda s: compare(eng, s, op, a.a, b), lambda s: compare(eng, s, op, a.b, b))
    if isinstance(b, Ite): return eng.branch(st, b.c, lambda s: compare(eng, s, op, a, b.a), lambda s: compare(eng, s, op, a, b.b))
    if isinstance(a, Con) and isinstance(b, Con):
        try: return Con({ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)](a.v, b.v))
        except TypeError:
            eng.raise_(st, "TypeError"); return Con(False)
    na, nb = num_of(a), num_of(b)
    if na is not None and nb is not None:
        if na.sort() != nb.sort():
            na = z3.ToReal(na) if na.sort() == z3.IntSort() else na
            nb = z3.ToReal(nb) if nb.sort() == z3.IntSort() else nb
        return Sym({ast.Lt: na < nb, ast.LtE: na <= nb, ast.Gt: na > nb, ast.GtE: na >= nb}[type(op)])
    A, B = setish(eng, st, a), setish(eng, st, b)
    if A is not None and B is not None:
        x = fresh_const("x", U)
        if isinstance(op, ast.LtE): return Sym(ForAll([x], Implies(A.mem(x), B.mem(x))))
        if isinstance(op, ast.GtE): return Sym(ForAll([x], Implies(B.mem(x), A.mem(x))))
    ua, ub = scal_u(a), scal_u(b)
    if ua is not None and ub is not None:
        ok = And(is_num(ua), is_num(ub))
        both = Or(And(U.is_str(ua), U.is_str(ub)), And(U.is_dt(ua), U.is_dt(ub)))
        eng.raise_(st, "TypeError", z3.simplify(And(Not(ok), Not(both), Not(And(U.is_tup(ua), U.is_tup(ub))))))
        eng.exit("unsupported", st, "tuple ordering", z3.simplify(And(U.is_tup(ua), U.is_tup(ub))))
        def lt(x, y, strict):
            n = num_lt(x, y) if strict else num_le(x, y)
            s = (U.s(x) < U.s(y)) if strict else (U.s(x) <= U.s(y))
            d = (U.d(x) < U.d(y)) if strict else (U.d(x) <= U.d(y))
            return z3.simplify(z3.If(ok, n, z3.If(U.is_str(x), s, d)))
        return Sym({ast.Lt: lambda: lt(ua, ub, True), ast.LtE: lambda: lt(ua, ub, False), ast.Gt: lambda: lt(ub, ua, True), ast.GtE: lambda: lt(ub, ua, False)}[type(op)]())
    raise Unsupported("ordering of %r and %r" % (a, b))


# ------------------------------------------------------------------------------------------------ subscripts
def getitem(eng, st, o, k):
    if isinstance(o, Ite):
        kn = st.knows(o.c)
        if kn is not None: return getitem(eng, st, o.a if kn else o.b, k)
        return eng.branch(st, o.c, lambda s: getitem(eng, s, o.a, k), lambda s: getitem(eng, s, o.b, k))
    if isinstance(k, Ite) and not isinstance(o, Model):
        return eng.branch(st, k.c, lambda s: getitem(eng, s, o, k.a), lambda s: getitem(eng, s, o, k.b))
    if isinstance(o, Model): return o.getitem(eng, st, k)
    if isinstance(o, Tup):
        if isinstance(k, Con):
            try: return o.items[k.v]
            except (IndexError, TypeError) as e:
                eng.raise_(st, type(e).__name__); return Con(None)
        return index_seq(eng, st, None, ListC([Part([], TRUE, x) for x in o.items]), k)
    if isinstance(o, Con):
        if isinstance(k, Con):
            try: return Con(o.v[k.v])
            except (IndexError, TypeError, KeyError) as e:
                eng.raise_(st, type(e).__name__); return Con(None)
        if isinstance(o.v, tuple): return index_seq(eng, st, None, ListC([Part([], TRUE, Con(x)) for x in o.v]), k)
    if isinstance(o, (SeqV, IterV)): return index_seq(eng, st, None, o.content, k)
    if isinstance(o, Sym):
        if o.t.sort() == z3.StringSort() or isinstance(o, Con):
            t = raw(o)
            i = norm_index(eng, st, eng.as_int(st, k), z3.Length(t))
            return Sym(z3.SubString(t, i, 1))
        if o.t.sort() == U:
            eng.raise_(st, "TypeError", Not(Or(U.is_tup(o.t), U.is_str(o.t))))
            eng.exit("unsupported", st, "subscript of an opaque string", U.is_str(o.t))
            i = norm_index(eng, st, eng.as_int(st, k), TLEN(o.t))
            return Sym(TGET(o.t, i))
    if isinstance(o, Ref):
        c = eng.content(st, o, note="shallow", key=to_u(k) if isinstance(k, (Con, Sym)) else None)
        if isinstance(c, ListC): eng.content(st, o)
        return getitem_content(eng, st, o, c, k)
    if isinstance(o, (ClassV, Fn)): raise Unsupported("subscript of a class")
    eng.raise_(st, "TypeError"); return Con(None)


def getitem_content(eng, st, o, c, k):
    if isinstance(c, UnionC):
        kn = st.knows(c.c)
        if kn is not None: return getitem_content(eng, st, o, c.a if kn else c.b, k)
        def side(s, x):
            if isinstance(x, NoneC):
                eng.raise_(s, "TypeError"); return Con(None)
            return getitem_content(eng, s, o, x, k)
        return eng.branch(st, c.c, lambda s: side(s, c.a), lambda s: side(s, c.b))
    if isinstance(c, MapC):
        u = to_u(k)
        if c.default is not None:
            r = eng.deref(st, o)
            d = c.dom(u)
            val = c.get(u)
            if eng.mutable_touch(st, r) and not eng.surely(st, d): eng.mutate(st, Ref(r.cid, r.path + (u,)), "touch", ())
            cur = mk_ite(d, val, c.default())
            return eng.view(st, o, u, cur)
        if c.static is not None and isinstance(k, Con) and all(isinstance(q, Con) for q, _ in c.static):
            hit = [v for q, v in c.static if type(q.v) is type(k.v) and q.v == k.v]
            if len(hit) == 1 and not isinstance(hit[0], Content): return hit[0]
        d = c.dom(u)
        kn = st.knows(d)
        if kn is not True: eng.raise_(st, "KeyError", eng.simp_cond(st, Not(d)))
        return eng.view(st, o, u, c.get(u))
    if isinstance(c, (ListC, SeqC)): return index_seq(eng, st, o, c, k)
    if isinstance(c, ObjC):
        m = eng.find_method(c.cls, "__getitem__") if c.cls is not None else None
        if m is not None: return eng.call(st, BoundFn(o, m), [k], {})
        if "%map" in c.attrs:
            return getitem_content(eng, st, Ref(o.cid, o.path + ("%map",)), c.attrs["%map"], k)
    if isinstance(c, SetC):
        eng.raise_(st, "TypeError"); return Con(None)
    raise Unsupported("subscript of %s" % type(c).__name__)


def norm_index(eng, st, i, n):
    i = z3.simplify(i)
    if z3.is_int_value(i) and i.as_long() < 0: i = z3.simplify(n + i)
    elif not z3.is_int_value(i):
        kn = st.knows(0 <= i) if st is not None else None
        if kn is None and st is not None: kn = True if eng.surely(st, 0 <= i, 100) else None
        if kn is not True: i = z3.If(i < 0, i + n, i)
    eng.raise_(st, "IndexError", eng.simp_cond(st, Not(And(0 <= i, i < n))))
    return i


def index_seq(eng, st, ref, c, k):
    if isinstance(c, ListC) and c.is_static() and isinstance(k, Con):
        try: v = c.parts[k.v].elem
        except (IndexError, TypeError) as e:
            eng.raise_(st, type(e).__name__); return Con(None)
        if isinstance(v, Content):
            return eng.view(st, ref, I(k.v if k.v >= 0 else k.v + len(c.parts)), v)
        return v
    s = eng.as_seqc(c)
    if s is None:
        # element of a filtered list: some member (position semantics unknown)
        if isinstance(k, Con) and k.v in (0, -1):
            parts = eng.parts_of(c)
            if len(parts) == 1:
                return b_next(eng, st, [IterV(ListC(parts))], {})
        raise Unsupported("index into a filtered list")
    i = norm_index(eng, st, eng.as_int(st, k), s.n)
    v = s.at(i)
    return eng.view(st, ref, i, v) if isinstance(v, Content) and ref is not None else v


def setitem(eng, st, o, k, v):
    if isinstance(o, Ite):
        kn = st.knows(o.c)
        if kn is None:
            eng.branch(st, o.c, lambda s: (setitem(eng, s, o.a, k, v), Con(None))[1], lambda s: (setitem(eng, s, o.b, k, v), Con(None))[1]); return
        return setitem(eng, st, o.a if kn else o.b, k, v)
    if isinstance(o, Model):
        if hasattr(o, "setitem"): return o.setitem(eng, st, k, v)
        raise Unsupported("item store on model")
    if not isinstance(o, Ref):
        eng.raise_(st, "TypeError"); return
    c = eng.content(st, o, note=False)
    if isinstance(c, ObjC):
        m = eng.find_method(c.cls, "__setitem__") if c.cls is not None else None
        if m is not None: eng.call(st, BoundFn(o, m), [k, v], {}); return
        if "%map" in c.attrs: return setitem(eng, st, Ref(o.cid, o.path + ("%map",)), k, v)
    if isinstance(c, (ListC, SeqC)):
        i = eng.as_int(st, k)
        n = content_len(eng, st, c)
        i2 = norm_index(eng, st, i, n)
        eng.mutate(st, o, "setidx", (z3.simplify(i2), eng.own(st, v))); return
    u = to_u(k)
    r = eng.deref(st, o)
    eng.mutate(st, o, "set", (u, eng.own(st, v, Ref(r.cid, r.path + (u,)))))


def delitem(eng, st, o, k):
    if isinstance(o, Ite):
        kn = st.knows(o.c)
        if kn is None: raise Unsupported("del on alternatives")
        return delitem(eng, st, o.a if kn else o.b, k)
    c = eng.content(st, o, note=False)
    if isinstance(c, ObjC):
        m = eng.find_method(c.cls, "__delitem__")
        if m is not None: eng.call(st, BoundFn(o, m), [k], {}); return
        if "%map" in c.attrs: return delitem(eng, st, Ref(o.cid, o.path + ("%map",)), k)
    if isinstance(c, MapC):
        u = to_u(k)
        eng.raise_(st, "KeyError", eng.simp_cond(st, Not(c.dom(u))))
        eng.mutate(st, o, "del", (u,)); return
    if isinstance(c, (ListC, SeqC)):
        i = norm_index(eng, st, eng.as_int(st, k), content_len(eng, st, c))
        eng.mutate(st, o, "del", (z3.simplify(i),)); return
    raise Unsupported("del")


def delattr_(eng, st, o, name):
    c = eng.content(st, o, note=False)
    if isinstance(c, ObjC):
        m = eng.find_method(c.cls, "__delattr__") if c.cls is not None else None
        if m is not None: eng.call(st, BoundFn(o, m), [Con(name)], {}); return
        if name not in c.attrs: eng.raise_(st, "AttributeError"); return
        eng.mutate(st, o, "delattr", (name,)); return
    raise Unsupported("del attribute")


def slice_(eng, st, o, lo, hi):
    if isinstance(o, Ite): return eng.branch(st, o.c, lambda s: slice_(eng, s, o.a, lo, hi), lambda s: slice_(eng, s, o.b, lo, hi))
    def con(v): return v is None or isinstance(v, Con)
    if isinstance(o, Con) and con(lo) and con(hi):
        return Con(o.v[None if lo is None else lo.v:None if hi is None else hi.v])
    if isinstance(o, Tup) and con(lo) and con(hi):
        return Tup(o.items[None if lo is None else lo.v:None if hi is None else hi.v])
    if isinstance(o, Sym) and o.t.sort() == z3.StringSort():
        n = z3.Length(o.t)
        a, b = clamp(eng, st, lo, n, I(0)), clamp(eng, st, hi, n, n)
        return Sym(z3.SubString(o.t, a, z3.If(b > a, b - a, I(0))))
    if isinstance(o, Sym) and o.t.sort() == U:
        eng.raise_(st, "TypeError", Not(Or(U.is_tup(o.t), U.is_str(o.t))))
        eng.exit("unsupported", st, "slice of an opaque string", U.is_str(o.t))
        u = o.t
        n = TLEN(u)
        a, b = clamp(eng, st, lo, n, I(0)), clamp(eng, st, hi, n, n)
        return SeqV(SeqC(z3.simplify(z3.If(b > a, b - a, I(0))), lambda i: Sym(TGET(u, a + i))))
    s = eng.seq_of(st, o)
    if s is None: raise Unsupported("slice of %s" % type(o).__name__)
    c, kind = s
    if isinstance(c, ListC) and c.is_static() and con(lo) and con(hi):
        ps = c.parts[None if lo is None else lo.v:None if hi is None else hi.v]
        return Tup([p.elem for p in ps]) if kind == "tuple" else eng.alloc(st, ListC(ps))
    if lo is None and hi is None:
        return o if kind == "tuple" else eng.alloc(st, c)
    q = eng.as_seqc(c)
    if q is None: raise Unsupported("slice of a filtered list")
    a, b = clamp(eng, st, lo, q.n, I(0)), clamp(eng, st, hi, q.n, q.n)
    r = SeqC(z3.simplify(z3.If(b > a, b - a, I(0))), lambda i: q.at(z3.simplify(a + i)), kind)
    return SeqV(r) if kind == "tuple" else eng.alloc(st, r)


def clamp(eng, st, v, n, dflt):
    if v is None or (isinstance(v, Con) and v.v is None): return dflt
    i = z3.simplify(eng.as_int(st, v))
    if z3.is_int_value(i):
        if i.as_long() == 0: return i
        if i.as_long() < 0: return z3.If(n + i < 0, I(0), n + i)
        return z3.If(i > n, n, i)
    return z3.If(i < 0, z3.If(n + i < 0, I(0), n + i), z3.If(i > n, n, i))


# ------------------------------------------------------------------------------------------------ methods
def class_attr(eng, st, o, name):
    if name == "__name__": return Con(o.name)
    if o.name == "dict" and name == "fromkeys": raise Unsupported("dict.fromkeys")
    if o.node is not None:
        for n in o.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                import engine
                fake = Fn(ast.parse("def f(): pass").body[0], tuple(o.frames), o.module, o.name)
                return eng.ev(st, n.value, tuple(o.frames), fake)
    if name.startswith("__") or o.node is None:
        def f(eng, st, args, kw): return method(eng, st, args[0], name, args[1:], kw)
        return Prim(o.name + "." + name, f)
    eng.raise_(st, "AttributeError"); return Con(None)


def method(eng, st, recv, name, args, kw):
    if isinstance(recv, Ite):
        kn = st.knows(recv.c)
        if kn is not None: return method(eng, st, recv.a if kn else recv.b, name, args, kw)
        return eng.branch(st, recv.c, lambda s: method(eng, s, recv.a, name, args, kw), lambda s: method(eng, s, recv.b, name, args, kw))
    if isinstance(recv, Ref):
        c = eng.content(st, recv, note=False)
        return content_method(eng, st, recv, c, name, args, kw)
    if isinstance(recv, Con) and isinstance(recv.v, str): return str_method(eng, st, recv, name, args, kw)
    if isinstance(recv, Con) and isinstance(recv.v, (tuple,)) or isinstance(recv, (Tup, SeqV)):
        return tuple_method(eng, st, recv, name, args, kw)
    if isinstance(recv, Sym) and (recv.t.sort() == z3.StringSort() or recv.t.sort() == U): return str_method(eng, st, recv, name, args, kw)
    if isinstance(recv, Con): 
        if hasattr(recv.v, name): raise Unsupported("method %s of constant" % name)
        eng.raise_(st, "AttributeError"); return Con(None)
    raise Unsupported("method %s of %s" % (name, type(recv).__name__))


def tuple_method(eng, st, recv, name, args, kw):
    if name == "__iter__": return IterV(ListC(eng.iterate(st, recv)))
    if name == "index":
        s = eng.seq_of(st, recv)
        c = eng.as_seqc(s[0])
        if c is None: raise Unsupported("index in filtered tuple")
        if isinstance(s[0], ListC) and s[0].is_static():
            r = None
            conds = [eng.eq(st, p.elem, args[0]) for p in s[0].parts]
            eng.raise_(st, "ValueError", eng.simp_cond(st, Not(Or(conds))))
            r = I(0)
            for i in range(len(conds) - 1, -1, -1): r = If(conds[i], I(i), r)
            return int_v(r)
        p = indexed_by(eng, st, c)
        if p is not None:
            x = to_u(args[0])
            r = p[1](x)
            ok = And(0 <= r, r < c.n, p[0](r) == x)
            eng.raise_(st, "ValueError", eng.simp_cond(st, Not(ok)))
            return Sym(r)
        r = eng.fresh("index", z3.IntSort())
        i = fresh_const("i", z3.IntSort())
        present = eng.seq_mem(st, s[0], args[0])
        eng.raise_(st, "ValueError", Not(present))
        eng.axiom(Implies(present, And(0 <= r, r < c.n, eng.eq(st, c.at(r), args[0]), ForAll([i], Implies(And(0 <= i, i < r), Not(eng.eq(st, c.at(i), args[0])))))))
        return Sym(r)
    if name == "_asdict" and isinstance(recv, Tup) and recv.fields:
        c = EMPTY_MAP()
        for k, v in zip(recv.fields, recv.items): c = eng.apply(st, c, (), "set", (to_u(Con(k)), v), TRUE, [])
        return eng.alloc(st, c)
    if name == "_replace" and isinstance(recv, Tup) and recv.fields:
        return Tup([kw.get(f, v) for f, v in zip(recv.fields, recv.items)], recv.cls, recv.fields)
    if name in ("__len__",): return int_v(length(eng, st, recv))
    if name == "count": raise Unsupported("tuple.count")
    eng.raise_(st, "AttributeError", TRUE, "tuple.%s" % name); return Con(None)


LOWER = z3.Function("str_lower", z3.StringSort(), z3.StringSort())
UPPER = z3.Function("str_upper", z3.StringSort(), z3.StringSort())
STRIP = z3.Function("str_strip", z3.StringSort(), z3.StringSort())


def str_method(eng, st, recv, name, args, kw):
    if isinstance(recv, Con) and all(isinstance(a, Con) for a in args) and not kw and name not in ("join", "ljust"):
        try: r = getattr(recv.v, name)(*[a.v for a in args])
        except Exception as e:
            eng.raise_(st, type(e).__name__); return Con(None)
        if isinstance(r, list): return eng.alloc(st, ListC([Part([], TRUE, Con(x)) for x in r]))
        return Con(r)
    if isinstance(recv, Sym) and recv.t.sort() == U:
        u = recv.t
        ok = Or([r(u) for r, x in SAMPLES if hasattr(x, name)])
        if eng.string_keys is None or st.knows(eng.string_keys(u)) is not True:
            eng.raise_(st, "AttributeError", z3.simplify(Not(Or(ok, U.is_obj(u)))))
            eng.exit("unsupported", st, "method %s of an opaque value" % name, z3.simplify(And(Or(ok, U.is_obj(u)), Not(U.is_str(u)))))
        recv = Sym(U.s(u))
    t = eng.as_str(st, recv)
    if name == "replace":
        a, b = args
        if len(args) != 2: raise Unsupported("replace count")
        return Sym(replace_all(eng, t, eng.as_str(st, a), eng.as_str(st, b)))
    if name == "lower": return Sym(LOWER(t))
    if name == "upper": return Sym(UPPER(t))
    if name in ("strip", "lstrip", "rstrip"):
        if args: return Sym(eng.fresh("strip", z3.StringSort()))
        return Sym(STRIP(t))
    if name == "startswith":
        if isinstance(args[0], Tup): return Sym(Or([z3.PrefixOf(eng.as_str(st, x), t) for x in args[0].items]))
        return Sym(z3.PrefixOf(eng.as_str(st, args[0]), t))
    if name == "endswith": return Sym(z3.SuffixOf(eng.as_str(st, args[0]), t))
    if name == "join":
        if eng.join_rule is not None:
            r = eng.join_rule(st, t, args[0])
            if r is not None: return r
        ps = eng.iterate(st, args[0])
        if all(not p.bs and z3.is_true(p.guard) for p in ps):
            items = [eng.as_str(st, p.elem) for p in ps]
            if not items: return Con("")
            out = [items[0]]
            for x in items[1:]: out += [t, x]
            return Sym(join_text(eng, *out))
        return Sym(eng.fresh("join", z3.StringSort()))
    if name in ("isidentifier", "isdigit", "isalnum"):
        f = z3.Function("str_" + name, z3.StringSort(), z3.BoolSort())
        return Sym(f(t))
    if name in ("ljust", "rjust", "center", "title", "capitalize", "swapcase"): return Sym(eng.fresh(name, z3.StringSort()))
    if name == "format": return Sym(eng.fresh("fmt", z3.StringSort()))
    if name == "split": return eng.alloc(st, eng.havoc_content(st, EMPTY_LIST()))
    if name in ("find", "index"):
        r = z3.IndexOf(t, eng.as_str(st, args[0]), 0)
        if name == "index": eng.raise_(st, "ValueError", r < 0)
        return Sym(r)
    raise Unsupported("str.%s" % name)


JOINED = z3.Function("text_joined", z3.StringSort(), z3.StringSort(), z3.StringSort())


def join_text(eng, *ps):
    """joined text; where a contract asks for it an uninterpreted function of the pieces (literals next to each other put together)"""
    if eng is None or not eng.opaque_text: return z3.Concat(*ps) if len(ps) > 1 else ps[0]
    flat = []
    def add(p):
        if z3.is_app(p) and p.decl().eq(JOINED):
            for q in p.children(): add(q)
        elif flat and z3.is_string_value(p) and z3.is_string_value(flat[-1]): flat[-1] = z3.StringVal(flat[-1].as_string() + p.as_string())
        else: flat.append(p)
    for p in ps: add(p)
    r = flat[-1]
    for p in reversed(flat[:-1]): r = JOINED(p, r)
    return r


def replace_all(eng, t, a, b):
    s = z3.Solver()
    f = z3.Function("str_replace_all", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    return f(t, a, b)


def content_method(eng, st, ref, c, name, args, kw):
    if isinstance(c, UnionC):
        kn = st.knows(c.c)
        if kn is not None: return content_method(eng, st, ref, c.a if kn else c.b, name, args, kw)
        def side(s, x):
            if isinstance(x, NoneC): return method(eng, s, x.v, name, args, kw)
            return content_method(eng, s, ref, x, name, args, kw)
        return eng.branch(st, c.c, lambda s: side(s, c.a), lambda s: side(s, c.b))
    if isinstance(c, ObjC):
        if c.cls is not None:
            m = eng.find_method(c.cls, name)
            if m is not None: return eng.call(st, BoundFn(ref, m), args, kw)
        return base_method(eng, st, ref, name, args, kw)
    if isinstance(c, MapC): return dict_method(eng, st, ref, c, name, args, kw)
    if isinstance(c, SetC): return set_method(eng, st, ref, c, name, args, kw)
    if isinstance(c, (ListC, SeqC)): return list_method(eng, st, ref, c, name, args, kw)
    raise Unsupported("method %s" % name)


def dict_method(eng, st, ref, c, name, args, kw):
    eng.content(st, ref, note=True if name not in ("get", "__contains__") else "shallow", key=to_u(args[0]) if name in ("get", "pop", "__contains__") and args and isinstance(args[0], (Con, Sym)) else None)
    if name in ("items", "iteritems"): return IterV(ListC(eng.iterate_content(st, ref, c, items=True)))
    if name == "keys":
        return IterV(ListC(eng.iterate_content(st, ref, c)))
    if name == "values": return IterV(ListC(eng.iterate_content(st, ref, c, values=True)))
    if name == "__iter__": return IterV(ListC(eng.iterate_content(st, ref, c)))
    if name in ("__len__",): return int_v(content_len(eng, st, c))
    if name == "__contains__": return Sym(eng.content_in(st, args[0], c))
    if name == "__getitem__": return getitem_content(eng, st, ref, c, args[0])
    if name == "__setitem__": setitem(eng, st, ref, args[0], args[1]); return Con(None)
    if name == "__delitem__": delitem(eng, st, ref, args[0]); return Con(None)
    if name == "get":
        k = args[0]
        if isinstance(k, Ite): return eng.branch(st, k.c, lambda s: dict_method(eng, s, ref, c, name, [k.a] + args[1:], kw), lambda s: dict_method(eng, s, ref, c, name, [k.b] + args[1:], kw))
        u = to_u(k)
        d = args[1] if len(args) > 1 else Con(None)
        cond = eng.simp_cond(st, c.dom(u))
        if z3.is_true(cond): return eng.view(st, ref, u, c.get(u))
        if z3.is_false(cond): return d
        val = c.get(u)
        return mk_ite(cond, eng.view(st, ref, u, val), d)
    if name == "pop":
        u = to_u(args[0])
        cond = eng.simp_cond(st, c.dom(u))
        val = c.get(u)
        if isinstance(val, Content): val = eng.alloc(st, val)
        if len(args) > 1:
            eng.mutate(st, ref, "del", (u,))
            return mk_ite(cond, val, args[1])
        eng.raise_(st, "KeyError", Not(cond))
        if st.dead: return Con(None)
        eng.mutate(st, ref, "del", (u,))
        return val
    if name == "setdefault":
        u = to_u(args[0])
        d = args[1] if len(args) > 1 else Con(None)
        cond = eng.simp_cond(st, c.dom(u))
        def miss(s):
            r = eng.deref(s, ref)
            eng.mutate(s, ref, "set", (u, eng.own(s, d, Ref(r.cid, r.path + (u,)))))
            return Con(None)
        eng.branch(st, cond, lambda s: Con(None), miss)
        c2 = eng.content(st, ref)
        return eng.view(st, ref, u, c2.get(u))
    if name == "update":
        if args:
            try: m = eng.to_map(st, args[0])
            except Unsupported: m = dict_from(eng, st, args[0])
            eng.mutate(st, ref, "overlay", (m,))
        for k, v in kw.items():
            if k == "**": eng.mutate(st, ref, "overlay", (eng.to_map(st, v),))
            else: eng.mutate(st, ref, "set", (to_u(Con(k)), eng.own(st, v)))
        return Con(None)
    if name == "clear": eng.mutate(st, ref, "assign", (EMPTY_MAP(c.default, c.kind),)); return Con(None)
    if name == "copy": return eng.alloc(st, c)
    if name == "popitem":
        k = eng.fresh("popped", U)
        x = fresh_const("x", U)
        eng.raise_(st, "KeyError", ForAll([x], Not(c.dom(x))))
        st.assume(c.dom(k))
        v = c.get(k)
        if isinstance(v, Content): v = eng.alloc(st, v)
        eng.mutate(st, ref, "del", (k,))
        return Tup([Sym(k), v])
    raise Unsupported("dict.%s" % name)


def set_method(eng, st, ref, c, name, args, kw):
    if name not in ("add", "update", "discard", "remove"): eng.content(st, ref)
    if name == "add":
        u = to_u(args[0])
        eng.mutate(st, ref, "add", (args[0],)); return Con(None)
    if name == "update":
        for a in args: eng.mutate(st, ref, "union", (eng.to_set(st, a),))
        return Con(None)
    if name in ("discard", "remove"):
        if name == "remove": eng.raise_(st, "KeyError", eng.simp_cond(st, Not(c.mem(to_u(args[0])))))
        eng.mutate(st, ref, "discard", (args[0],)); return Con(None)
    if name == "copy": return eng.alloc(st, c)
    if name == "issubset":
        o = eng.to_set(st, args[0])
        if c.static is not None: return Sym(And([o.mem(to_u(x)) for x in c.static]))
        x = fresh_const("x", U)
        return Sym(ForAll([x], Implies(c.mem(x), o.mem(x))))
    if name == "issuperset":
        o = eng.to_set(st, args[0])
        if o.static is not None: return Sym(And([c.mem(to_u(x)) for x in o.static]))
        x = fresh_const("x", U)
        return Sym(ForAll([x], Implies(o.mem(x), c.mem(x))))
    if name == "isdisjoint":
        o = eng.to_set(st, args[0]); x = fresh_const("x", U)
        return Sym(ForAll([x], Not(And(c.mem(x), o.mem(x)))))
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        mem, stat = c.mem, c.static
        for a in args:
            o = eng.to_set(st, a)
            if name == "union":
                stat = None if stat is None or o.static is None else stat + o.static
                mem = (lambda m, q: lambda x: Or(m(x), q.mem(x)))(mem, o)
            else:
                stat = None
                if name == "intersection": mem = (lambda m, q: lambda x: And(m(x), q.mem(x)))(mem, o)
                elif name == "difference": mem = (lambda m, q: lambda x: And(m(x), Not(q.mem(x))))(mem, o)
                else: mem = (lambda m, q: lambda x: z3.Xor(m(x), q.mem(x)))(mem, o)
        return eng.alloc(st, SetC(mem, c.kind, stat))
    if name == "pop":
        k = eng.fresh("popped", U)
        x = fresh_const("x", U)
        eng.raise_(st, "KeyError", ForAll([x], Not(c.mem(x))))
        st.assume(c.mem(k))
        eng.mutate(st, ref, "discard", (Sym(k),))
        return Sym(k)
    if name == "__iter__": return IterV(ListC(eng.iterate_content(st, ref, c)))
    if name == "__contains__": return Sym(eng.content_in(st, args[0], c))
    if name == "__len__": return int_v(content_len(eng, st, c))
    raise Unsupported("set.%s" % name)


def list_method(eng, st, ref, c, name, args, kw):
    if name not in ("append", "extend"): eng.content(st, ref)
    if name == "append":
        eng.mutate(st, ref, "append", (eng.own(st, args[0]),)); return Con(None)
    if name == "extend":
        eng.mutate(st, ref, "extend", (ListC(eng.iterate(st, args[0])),)); return Con(None)
    if name == "index":
        return tuple_method(eng, st, SeqV(c), "index", args, kw)
    if name == "insert":
        s = eng.as_seqc(c)
        if s is None: raise Unsupported("insert in filtered list")
        if isinstance(c, ListC) and c.is_static() and isinstance(args[0], Con):
            ps = list(c.parts); ps.insert(args[0].v, Part([], TRUE, eng.own(st, args[1])))
            eng.mutate(st, ref, "assign", (ListC(ps),)); return Con(None)
        i = clamp(eng, st, args[0], s.n, s.n); v = eng.own(st, args[1])
        eng.mutate(st, ref, "assign", (SeqC(s.n + 1, lambda j: mk_ite(j == i, v, mk_ite(j < i, s.at(j), s.at(j - 1)))),)); return Con(None)
    if name == "pop":
        s = eng.as_seqc(c)
        if s is None: raise Unsupported("pop of filtered list")
        k = args[0] if args else Con(-1)
        if isinstance(c, ListC) and c.is_static() and isinstance(k, Con):
            ps = list(c.parts)
            try: p = ps.pop(k.v)
            except IndexError:
                eng.raise_(st, "IndexError"); return Con(None)
            eng.mutate(st, ref, "assign", (ListC(ps),)); return p.elem
        i = norm_index(eng, st, eng.as_int(st, k), s.n)
        v = s.at(i)
        if isinstance(v, Content): v = eng.alloc(st, v)
        eng.mutate(st, ref, "del", (z3.simplify(i),))
        return v
    if name == "copy": return eng.alloc(st, c)
    if name == "sort":
        if isinstance(c, SeqC): c = ListC(eng.parts_of(c))
        eng.mutate(st, ref, "assign", (ListC([Part(p.bs, p.guard, p.elem, None) for p in c.parts]),)); return Con(None)
    if name == "reverse":
        s = eng.as_seqc(c)
        if s is None: raise Unsupported("reverse")
        if isinstance(c, ListC) and c.is_static(): n = ListC(list(reversed(c.parts)))
        else: n = SeqC(s.n, lambda i: s.at(s.n - 1 - i))
        eng.mutate(st, ref, "assign", (n,)); return Con(None)
    if name == "clear": eng.mutate(st, ref, "assign", (EMPTY_LIST(),)); return Con(None)
    if name == "__iter__": return IterV(ListC(eng.iterate_content(st, ref, c)))
    if name == "__contains__": return Sym(eng.content_in(st, args[0], c))
    if name == "__len__": return int_v(content_len(eng, st, c))
    if name == "__getitem__": return index_seq(eng, st, ref, c, args[0])
    raise Unsupported("list.%s" % name)


# ------------------------------------------------------------------------------------------------ base classes of objects
def base_method(eng, st, self_, name, args, kw):
    c = eng.content(st, self_, note=False)
    if name == "__setattr__":
        n = static_name(args[0])
        if n is None: raise Unsupported("__setattr__ with a symbolic name")
        eng.raw_setattr(st, self_, n, args[1]); return Con(None)
    if name == "__delattr__":
        n = static_name(args[0])
        if n is None: raise Unsupported("__delattr__ with a symbolic name")
        if n not in c.attrs: eng.raise_(st, "AttributeError")
        else: eng.mutate(st, self_, "delattr", (n,))
        return Con(None)
    if "%map" in c.attrs:
        mref = Ref(self_.cid, self_.path + ("%map",))
        if name == "__init__": return builtin_dict_init(eng, st, self_, args, kw)
        return dict_method(eng, st, mref, c.attrs["%map"], name, args, kw)
    if name == "__init__": return Con(None)
    if name == "__getattribute__":
        return eng.getattr_(st, self_, static_name(args[0]))
    raise Unsupported("base method %s" % name)


def builtin_dict_init(eng, st, ref, args, kw):
    mref = Ref(ref.cid, ref.path + ("%map",))
    if args:
        eng.mutate(st, mref, "assign", (dict_from(eng, st, args[0]),))
    for k, v in kw.items():
        if k == "**": eng.mutate(st, mref, "overlay", (eng.to_map(st, v),))
        else: eng.mutate(st, mref, "set", (to_u(Con(k)), eng.own(st, v)))
    return Con(None)
