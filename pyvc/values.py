"""Symbolic values of the pyvc verification-condition generator.

Scalars live in one SMT datatype U (None, bool, int, finite real, infinities, NaN, str, datetime, tuple, object).
Containers are mathematical: a dict is a pair (domain predicate, value function), a set a predicate, a list an ordered
sequence of 'parts', each part a comprehension  [elem | binders, guard].  They are represented by Python closures over
z3 terms, so that comprehensions and loops have exact closed forms with no bound on their length.
"""
import z3

_U = z3.Datatype("U")
_UL = z3.Datatype("UL")
_U.declare("none")
_U.declare("bool", ("b", z3.BoolSort()))
_U.declare("int", ("i", z3.IntSort()))
_U.declare("real", ("r", z3.RealSort()))
_U.declare("pinf")
_U.declare("ninf")
_U.declare("nan")
_U.declare("str", ("s", z3.StringSort()))
_U.declare("dt", ("d", z3.IntSort()))
_U.declare("tup", ("l", _UL))
_U.declare("obj", ("o", z3.IntSort()))
_UL.declare("nil")
_UL.declare("cons", ("hd", _U), ("tl", _UL))
U, UL = z3.CreateDatatypes(_U, _UL)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
TLEN = z3.Function("tlen", U, z3.IntSort())
TGET = z3.Function("tget", U, z3.IntSort(), U)
OBJ_TRUTHY = z3.Function("obj_truthy", z3.IntSort(), z3.BoolSort())
OBJ_HAS = z3.Function("obj_hasattr", z3.IntSort(), z3.StringSort(), z3.BoolSort())
ELEM_IN = z3.Function("opaque_contains", U, U, z3.BoolSort())


class Unsupported(Exception):
    pass


def _uniq(a):
    seen, r = set(), []
    for x in a:
        if x.get_id() not in seen: seen.add(x.get_id()); r.append(x)
    return r


def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    a = _uniq(a)
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    a = _uniq(a)
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    return FALSE if z3.is_true(a) else TRUE if z3.is_false(a) else (a.arg(0) if z3.is_not(a) else z3.Not(a))


def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if z3.is_true(a): return Or(c, b)
    if z3.is_false(a): return And(Not(c), b)
    if z3.is_true(b): return Or(Not(c), a)
    if z3.is_false(b): return And(c, a)
    return z3.If(c, a, b)


def cons_shape(u, n):
    """(u is a tuple of exactly n items, its items) by constructors"""
    l, conds, items = U.l(u), [U.is_tup(u)], []
    for _ in range(n):
        conds.append(UL.is_cons(l)); items.append(UL.hd(l)); l = UL.tl(l)
    conds.append(UL.is_nil(l))
    return And(conds), items


def mentions(term, consts):
    """does the z3 term mention any of the constants?"""
    ids = {c.get_id() for c in consts}
    seen, todo = set(), [term]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        if z3.is_quantifier(t):
            todo.append(t.body())
        else:
            todo.extend(t.children())
    return False


def Exists(bs, body):
    bs = [b for b in bs if mentions(body, [b])]
    if not bs or z3.is_true(body) or z3.is_false(body): return body
    # drop binders fixed by an equation  b == t  among the conjuncts
    conj = flatten_and(body)
    for b in bs:
        for c in conj:
            if z3.is_eq(c):
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if x.eq(b) and not mentions(y, [b]):
                        rest = And([z3.substitute(d, (b, y)) for d in conj if not d.eq(c)])
                        return Exists([q for q in bs if not q.eq(b)], rest)
    return canonical(z3.Exists, bs, body)


def ForAll(bs, body):
    bs = [b for b in bs if mentions(body, [b])]
    if not bs: return body
    return canonical(z3.ForAll, bs, body)


def canonical(quantifier, bs, body):
    """bound variables get fixed names, so that formulas equal up to renaming are the same term"""
    cs = [z3.Const("q!%d" % i, b.sort()) for i, b in enumerate(bs)]
    return quantifier(cs, z3.substitute(body, *zip(bs, cs)))


def flatten_and(t):
    if z3.is_and(t):
        return [y for x in t.children() for y in flatten_and(x)]
    return [] if z3.is_true(t) else [t]


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


# ------------------------------------------------------------------------------------------------ engine values
class V:
    pass


class Con(V):
    """a concrete immutable Python value"""
    def __init__(self, v): self.v = v
    def __repr__(self): return "Con(%r)" % (self.v,)


class Sym(V):
    """a z3 term of sort U, Bool, Int, Real or String"""
    def __init__(self, t): self.t = t
    def __repr__(self): return "Sym(%s)" % self.t


class Tup(V):
    """tuple of statically known length"""
    def __init__(self, items, cls=None, fields=None):
        self.items, self.cls, self.fields = tuple(items), cls, fields
    def __repr__(self): return "Tup%r" % (self.items,)


class SeqV(V):
    """immutable sequence (tuple) whose content is a ListC"""
    def __init__(self, content): self.content = content


class Ref(V):
    """reference to (a path inside) a mutable container in the heap"""
    def __init__(self, cid, path=()): self.cid, self.path = cid, tuple(path)
    def __repr__(self): return "Ref(%s%s)" % (self.cid, list(self.path))


class Ite(V):
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return "Ite(%s,%r,%r)" % (self.c, self.a, self.b)


class IterV(V):
    """an iterable family (generator, zip, items view); content is a ListC"""
    def __init__(self, content): self.content = content


class Fn(V):
    def __init__(self, node, frames, module, qual, cls=None):
        self.node, self.frames, self.module, self.qual, self.cls = node, frames, module, qual, cls


class Prim(V):
    """primitive implemented by the engine: f(eng, st, args, kwargs) -> V"""
    def __init__(self, name, f): self.name, self.f = name, f
    def __repr__(self): return "Prim(%s)" % self.name


class Bound(V):
    def __init__(self, recv, name): self.recv, self.name = recv, name


class BoundFn(V):
    def __init__(self, recv, fn): self.recv, self.fn = recv, fn


class ClassV(V):
    def __init__(self, name, node=None, module=None, frames=(), fields=None, bases=()):
        self.name, self.node, self.module, self.frames, self.fields, self.bases = name, node, module, frames, fields, bases
    def __repr__(self): return "ClassV(%s)" % self.name


class Mod(V):
    def __init__(self, name, mod=None): self.name, self.mod = name, mod
    def __repr__(self): return "Mod(%s)" % self.name


class Exc(V):
    def __init__(self, cls, args=()): self.cls, self.args = cls, args


class Model(V):
    """base of contract-supplied abstract objects; override what is needed"""
    def to_u(self): raise Unsupported("model object as key")
    def truthy(self, eng, st): return TRUE
    def attr(self, eng, st, name): raise Unsupported("attribute %s of %s" % (name, type(self).__name__))
    def has_attr(self, eng, st, name): raise Unsupported("hasattr %s of %s" % (name, type(self).__name__))
    def set_attr(self, eng, st, name, v): raise Unsupported("attribute store on %s" % type(self).__name__)
    def getitem(self, eng, st, k): raise Unsupported("subscript of %s" % type(self).__name__)
    def contains(self, eng, st, k): raise Unsupported("in %s" % type(self).__name__)
    def iterate(self, eng, st): raise Unsupported("iteration over %s" % type(self).__name__)
    def length(self, eng, st): raise Unsupported("len of %s" % type(self).__name__)
    def call(self, eng, st, args, kwargs): raise Unsupported("call of %s" % type(self).__name__)
    def type_is(self, eng, st, cls): raise Unsupported("type of %s" % type(self).__name__)
    def subst(self, pairs): return self


class Unbound(V):
    pass


UNBOUND = Unbound()


# ------------------------------------------------------------------------------------------------ contents
class Content:
    pass


class MapC(Content):
    """dom: U->Bool, get: U->(V|Content); default: None or ()->(V|Content); ins: optional list of static keys in order"""
    def __init__(self, dom, get, default=None, kind="dict", static=None, wit=None):
        self.dom, self.get, self.default, self.kind, self.static, self.wit = dom, get, default, kind, static, wit   # wit: a key present iff any is


class SetC(Content):
    def __init__(self, mem, kind="set", static=None): self.mem, self.kind, self.static = mem, kind, static


class Part:
    __slots__ = ("bs", "guard", "elem", "key")
    def __init__(self, bs, guard, elem, key=None): self.bs, self.guard, self.elem, self.key = list(bs), guard, elem, key


class ListC(Content):
    def __init__(self, parts, kind="list"): self.parts, self.kind = list(parts), kind
    def is_static(self): return all(not p.bs and z3.is_true(p.guard) for p in self.parts)


class SeqC(Content):
    """random access sequence: n: Int term, at: Int->(V|Content)"""
    def __init__(self, n, at, kind="list"): self.n, self.at, self.kind = n, at, kind
    def is_static(self): return False


class ObjC(Content):
    """a mutable object: attrs by (static) name; table: optional MapC-like for attributes looked up by symbolic name"""
    def __init__(self, cls, attrs, dyn=None): self.cls, self.attrs, self.dyn = cls, dict(attrs), dyn


class UnionC(Content):
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


class NoneC(Content):
    """placeholder for a scalar stored where a container could also be"""
    def __init__(self, v): self.v = v


EMPTY_MAP = lambda default=None, kind="dict": MapC(lambda x: FALSE, lambda x: Sym(U.none), default, kind, static=[])
EMPTY_SET = lambda: SetC(lambda x: FALSE, static=[])
EMPTY_LIST = lambda kind="list": ListC([], kind)


# ------------------------------------------------------------------------------------------------ conversions
def con_to_u(v):
    if v is None: return U.none
    if isinstance(v, bool): return U.bool(z3.BoolVal(v))
    if isinstance(v, int): return U.int(z3.IntVal(v))
    if isinstance(v, float):
        if v != v: return U.nan
        if v == float("inf"): return U.pinf
        if v == float("-inf"): return U.ninf
        n, d = v.as_integer_ratio()
        return U.real(z3.Q(n, d))
    if isinstance(v, str): return U.str(z3.StringVal(v))
    if isinstance(v, tuple): return tup_u([con_to_u(x) for x in v])
    raise Unsupported("constant %r as SMT term" % (v,))


def tup_u(items):
    l = UL.nil
    for x in reversed(items):
        l = UL.cons(x, l)
    return U.tup(l)


SEQ_TERMS = {}     # registered by the engine: converts a SeqV into a U term


def to_u(v):
    if isinstance(v, Con): return con_to_u(v.v)
    if isinstance(v, Sym):
        s = v.t.sort()
        if s == U: return v.t
        if s == z3.BoolSort(): return U.bool(v.t)
        if s == z3.IntSort(): return U.int(v.t)
        if s == z3.RealSort(): return U.real(v.t)
        if s == z3.StringSort(): return U.str(v.t)
        raise Unsupported("sort %s" % s)
    if isinstance(v, Tup): return tup_u([to_u(x) for x in v.items])
    if isinstance(v, Ite): return If(v.c, to_u(v.a), to_u(v.b))
    if isinstance(v, Model): return v.to_u()
    if isinstance(v, SeqV):
        if v.content.is_static(): return tup_u([to_u(p.elem) for p in v.content.parts])
        return SEQ_TERMS["f"](v)
    raise Unsupported("%s as SMT term" % type(v).__name__)


# numbers -------------------------------------------------------------------------------------------------------
def is_num(u):      # numeric in the sense of numbers.Number (bool included)
    return z3.Or(U.is_bool(u), U.is_int(u), U.is_real(u), U.is_pinf(u), U.is_ninf(u), U.is_nan(u))


def is_fin(u): return z3.Or(U.is_bool(u), U.is_int(u), U.is_real(u))


def rv(u):
    return z3.If(U.is_bool(u), z3.If(U.b(u), z3.RealVal(1), z3.RealVal(0)), z3.If(U.is_int(u), z3.ToReal(U.i(u)), U.r(u)))


def num_eq(a, b):
    return z3.Or(z3.And(is_fin(a), is_fin(b), rv(a) == rv(b)), z3.And(U.is_pinf(a), U.is_pinf(b)),
                 z3.And(U.is_ninf(a), U.is_ninf(b)))


def num_lt(a, b):
    return z3.And(z3.Not(U.is_nan(a)), z3.Not(U.is_nan(b)),
                  z3.Or(z3.And(U.is_ninf(a), z3.Not(U.is_ninf(b))), z3.And(U.is_pinf(b), z3.Not(U.is_pinf(a))),
                        z3.And(is_fin(a), is_fin(b), rv(a) < rv(b))))


def num_le(a, b): return z3.Or(num_lt(a, b), num_eq(a, b))


def py_eq(a, b):
    """Python == on scalars (tuples and objects structurally)"""
    a_, b_ = z3.simplify(a), z3.simplify(b)
    return z3.If(z3.And(is_num(a_), is_num(b_)), num_eq(a_, b_), a_ == b_)


def u_truthy(u):
    return z3.And(z3.Not(U.is_none(u)), z3.Implies(U.is_bool(u), U.b(u)), z3.Implies(U.is_int(u), U.i(u) != 0),
                  z3.Implies(U.is_real(u), U.r(u) != 0), z3.Implies(U.is_str(u), U.s(u) != z3.StringVal("")),
                  z3.Implies(U.is_tup(u), u != U.tup(UL.nil)), z3.Implies(U.is_obj(u), OBJ_TRUTHY(U.o(u))))


# ------------------------------------------------------------------------------------------------ substitution
def vsub(v, pairs):
    """substitute z3 constants inside a value or content"""
    if not pairs: return v
    if isinstance(v, z3.ExprRef): return subst(v, pairs)
    if isinstance(v, Sym): return Sym(subst(v.t, pairs))
    if isinstance(v, Con) or v is UNBOUND: return v
    if isinstance(v, Tup): return Tup([vsub(x, pairs) for x in v.items], v.cls, v.fields)
    if isinstance(v, Ite): return mk_ite(subst(v.c, pairs), vsub(v.a, pairs), vsub(v.b, pairs))
    if isinstance(v, SeqV): return SeqV(vsub(v.content, pairs))
    if isinstance(v, IterV): return IterV(vsub(v.content, pairs))
    if isinstance(v, Ref): return Ref(v.cid, [p if isinstance(p, str) else subst(p, pairs) for p in v.path])
    if isinstance(v, Model): return v.subst(pairs)
    if isinstance(v, BoundFn): return BoundFn(vsub(v.recv, pairs), v.fn)
    if isinstance(v, Bound): return Bound(vsub(v.recv, pairs), v.name)
    if isinstance(v, (Fn, Prim, ClassV, Mod, Exc)): return v
    if isinstance(v, MapC):
        st = None if v.static is None else [(vsub(k, pairs), vsub(x, pairs)) for k, x in v.static]
        return MapC(lambda x: _csub(v.dom, x, pairs), lambda x: _csub_v(v.get, x, pairs),
                    None if v.default is None else (lambda: vsub(v.default(), pairs)), v.kind, st)
    if isinstance(v, SetC):
        st = None if v.static is None else [vsub(k, pairs) for k in v.static]
        return SetC(lambda x: _csub(v.mem, x, pairs), v.kind, st)
    if isinstance(v, ListC):
        return ListC([part_sub(p, pairs) for p in v.parts], v.kind)
    if isinstance(v, SeqC): return SeqC(subst(v.n, pairs), lambda x: _csub_v(v.at, x, pairs), v.kind)
    if isinstance(v, UnionC): return mk_union(subst(v.c, pairs), vsub(v.a, pairs), vsub(v.b, pairs))
    if isinstance(v, ObjC): return ObjC(v.cls, {k: vsub(x, pairs) for k, x in v.attrs.items()}, vsub(v.dyn, pairs) if v.dyn is not None else None)
    if isinstance(v, NoneC): return NoneC(vsub(v.v, pairs))
    raise Unsupported("substitution in %s" % type(v).__name__)


_fresh = [0]


def fresh_const(name, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), sort)


def part_sub(p, pairs):
    # binders are globally fresh constants; substituting around them is capture free unless pairs mention them
    pairs = [(a, b) for a, b in pairs if not any(a.eq(q) for q in p.bs)]
    return Part(p.bs, subst(p.guard, pairs), vsub(p.elem, pairs), None if p.key is None else vsub(p.key, pairs))


def part_fresh(p):
    """rename the binders of a part"""
    if not p.bs: return p
    nb = [fresh_const(str(b).split("!")[0], b.sort()) for b in p.bs]
    prs = list(zip(p.bs, nb))
    return Part(nb, subst(p.guard, prs), vsub(p.elem, prs), None if p.key is None else vsub(p.key, prs))


def _csub(f, x, pairs):
    y = fresh_const("y", x.sort())
    return subst(subst(f(y), pairs), [(y, x)])


def _csub_v(f, x, pairs):
    y = fresh_const("y", x.sort())
    return vsub(vsub(f(y), pairs), [(y, x)])


# ------------------------------------------------------------------------------------------------ merging
SCALAR = (Con, Sym)


def same(a, b):
    if a is b: return True
    if isinstance(a, Con) and isinstance(b, Con): return type(a.v) is type(b.v) and (a.v == b.v or a.v is b.v)
    if isinstance(a, Sym) and isinstance(b, Sym): return a.t.eq(b.t)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cid == b.cid and len(a.path) == len(b.path) and all(
            (x == y) if isinstance(x, str) or isinstance(y, str) else x.eq(y) for x, y in zip(a.path, b.path))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and a.cls is b.cls and all(same(x, y) for x, y in zip(a.items, b.items))
    return False


def mk_ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, Content) or isinstance(b, Content):
        return mk_union(c, a, b)
    if same(a, b): return a
    if isinstance(a, SCALAR) and isinstance(b, SCALAR):
        if isinstance(a, Con) and isinstance(b, Con) and isinstance(a.v, bool) and isinstance(b.v, bool):
            return Sym(c if a.v else Not(c))
        try:
            ta, tb = raw(a), raw(b)
            if ta.sort() == tb.sort(): return Sym(If(c, ta, tb))
            return Sym(If(c, to_u(a), to_u(b)))
        except Unsupported:
            pass
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.cls is b.cls:
        return Tup([mk_ite(c, x, y) for x, y in zip(a.items, b.items)], a.cls, a.fields)
    return Ite(c, a, b)


def raw(v):
    """the z3 term of a scalar in its own sort"""
    if isinstance(v, Sym): return v.t
    if isinstance(v, Con):
        if isinstance(v.v, bool): return z3.BoolVal(v.v)
        if isinstance(v.v, int): return z3.IntVal(v.v)
        if isinstance(v.v, str): return z3.StringVal(v.v)
    return to_u(v)


def mk_union(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, MapC) and isinstance(b, MapC) and (a.default is None) == (b.default is None):
        stat = None
        if a.static is not None and b.static is not None and len(a.static) == len(b.static) and all(
                same(x[0], y[0]) for x, y in zip(a.static, b.static)):
            stat = [(x[0], mk_ite(c, x[1], y[1])) for x, y in zip(a.static, b.static)]
        return MapC(lambda x: If(c, a.dom(x), b.dom(x)), lambda x: mk_ite(c, a.get(x), b.get(x)),
                    a.default, a.kind, stat)
    if isinstance(a, SetC) and isinstance(b, SetC):
        return SetC(lambda x: If(c, a.mem(x), b.mem(x)), a.kind)
    if isinstance(a, ListC) and isinstance(b, ListC):
        n = 0
        while n < min(len(a.parts), len(b.parts)) and a.parts[n] is b.parts[n]:
            n += 1
        if len(a.parts) == len(b.parts) and all(not p.bs and not q.bs and p.guard.eq(q.guard) for p, q in zip(a.parts[n:], b.parts[n:])):
            return ListC(a.parts[:n] + [Part([], p.guard, mk_ite(c, p.elem, q.elem)) for p, q in zip(a.parts[n:], b.parts[n:])], a.kind)
        return ListC(a.parts[:n] + [Part(p.bs, And(c, p.guard), p.elem, p.key) for p in a.parts[n:]] +
                     [Part(p.bs, And(Not(c), p.guard), p.elem, p.key) for p in b.parts[n:]], a.kind)
    if isinstance(a, SeqC) and isinstance(b, SeqC):
        return SeqC(If(c, a.n, b.n), lambda i: mk_ite(c, a.at(i), b.at(i)), a.kind)
    if isinstance(a, ObjC) and isinstance(b, ObjC):
        ks = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
        dyn = a.dyn if a.dyn is b.dyn else mk_union(c, a.dyn, b.dyn)
        return ObjC(a.cls, {k: mk_ite(c, a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND)) for k in ks}, dyn)
    return UnionC(c, a if isinstance(a, Content) else NoneC(a), b if isinstance(b, Content) else NoneC(b))
