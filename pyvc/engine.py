"""pyvc: symbolic executor / verification-condition generator for the subset of Python used by ticdat.

* merged-state symbolic execution: one state per program point, branches are merged with if-then-else values;
* every abnormal or early leaving of a block (return, raise, break, continue, unsupported construct) is an Exit with
  the path condition under which it is taken -- contracts turn them into obligations;
* loops and comprehensions over a container of arbitrary size are executed ONCE, for an arbitrary element and an
  arbitrary ('havocked') loop-carried state; what the iterations add to containers is accumulated in closed form
  (container' = container + { effect(b) | b, guard(b) }), i.e. the inferred loop invariant of the independent-iteration
  rule; anything else carried by the loop is arbitrary, so no bound on the number of iterations is involved;
* while loops and recursion need an invariant / a contract (sidecar).
"""
import ast, sys
import z3
from values import *
import values as VV
import source

sys.setrecursionlimit(100000)


class Effect:
    __slots__ = ("cid", "path", "op", "args", "pc", "bs")
    def __init__(self, cid, path, op, args, pc, bs): self.cid, self.path, self.op, self.args, self.pc, self.bs = cid, path, op, args, pc, bs


DEEP = 10 ** 6


class Exit:
    def __init__(self, kind, st, value=None, where=""): self.kind, self.st, self.value, self.where, self.hints = kind, st, value, where, []
    def __repr__(self): return "Exit(%s %s %r)" % (self.kind, self.where, self.value)


class St:
    __slots__ = ("pc", "vars", "heap", "log", "dead")
    def __init__(self):
        self.pc, self.vars, self.heap, self.log, self.dead = (), {}, {}, [], False
    def fork(self):
        s = St()
        s.pc, s.vars, s.heap, s.log, s.dead = self.pc, dict(self.vars), dict(self.heap), list(self.log), self.dead
        return s
    def become(self, o):
        self.pc, self.vars, self.heap, self.log, self.dead = o.pc, o.vars, o.heap, o.log, o.dead
    def assume(self, c):
        if self.dead or z3.is_true(c): return
        if z3.is_false(c):
            self.dead = True; self.pc += (FALSE,); return
        if z3.is_and(c):
            for d in c.children(): self.assume(d)
            return
        if z3.is_not(c) and z3.is_or(c.arg(0)):
            for d in c.arg(0).children(): self.assume(Not(d))
            return
        n = Not(c)
        for p in self.pc:
            if p.eq(c): return
            if p.eq(n):
                self.dead = True; self.pc += (FALSE,); return
        self.pc += (c,)
    def knows(self, c):
        """syntactic entailment: True / False / None"""
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        n = Not(c)
        for p in self.pc:
            if p.eq(c): return True
            if p.eq(n): return False
        if z3.is_and(c):
            ks = [self.knows(d) for d in c.children()]
            if all(k is True for k in ks): return True
            if any(k is False for k in ks): return False
        if z3.is_or(c):
            ks = [self.knows(d) for d in c.children()]
            if any(k is True for k in ks): return True
            if all(k is False for k in ks): return False
        if z3.is_not(c):
            k = self.knows(c.arg(0))
            if k is not None: return not k
        return None


_small = {}


def small_ground(t, limit=120):
    """the constants of a small quantifier-free term, or None if it is not one"""
    i = t.get_id()
    if i in _small and _small[i][0].eq(t): return _small[i][1]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if len(seen) > limit or not z3.is_app(x): out = None; break
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.get_id())
        todo.extend(x.children())
    _small[i] = (t, out)
    return out


class AliasC(Content):
    def __init__(self, ref): self.ref = ref


class FrozenC(Content):
    """content that was stored by value somewhere the engine cannot track: reading is fine, mutation is not"""
    def __init__(self, c): self.c = c


class Engine:
    def __init__(self):
        self.exits = []
        self.depth = 0
        self.binders = []
        self.cell_level, self.frame_level = {}, {}
        self.ncell = self.nframe = 0
        self.axioms = []
        self.recursive = {}
        self.overrides = {}          # qualified function name -> f(eng, st, args, kwargs) (contracts of callees)
        self.ext = {}                # dotted external name -> value or f(eng, st, args, kwargs)
        self.attr_hooks = []
        self.inverses = {}           # function name -> (inverse(args..., x), membership(args..., x)) on the last argument
        self.nonlocals = {}
        self.reads = set()
        self.prune_raises = 0        # milliseconds for showing that an exception cannot happen; 0: always keep the exit (an obligation rules it out later)
        self.eq_mode = "structural"  # or "numeric": Python == distinguishes/identifies numbers exactly
        self.fn_depth = 0
        self.while_invariants = {}
        self.loop_contracts = {}
        self.inlined = set()
        self.extern_used = set()
        self.cur = ["<top>"]
        self.executed = set()
        import pybuiltins
        self.B = pybuiltins
        VV.SEQ_TERMS["f"] = self.seq_term
        self.seq_terms = []

    # ------------------------------------------------------------------ infrastructure
    def fresh(self, name, sort):
        """a fresh symbol; inside loop bodies it is a function of the enclosing iteration"""
        VV._fresh[0] += 1
        n = "%s!%d" % (name, VV._fresh[0])
        if not self.binders: return z3.Const(n, sort)
        f = z3.Function(n, *([b.sort() for b in self.binders] + [sort]))
        return f(*self.binders)

    def fresh_fn(self, name, *sorts):
        """fresh function; returns a Python callable taking the given (last = result) sorts"""
        VV._fresh[0] += 1
        n = "%s!%d" % (name, VV._fresh[0])
        bs = list(self.binders)
        f = z3.Function(n, *([b.sort() for b in bs] + list(sorts)))
        return lambda *a: f(*(bs + list(a)))

    def axiom(self, f):
        """a definitional fact about fresh symbols, closed over the enclosing iterations"""
        self.axioms.append(ForAll(self.binders, f))

    def alloc(self, st, content):
        self.ncell += 1
        cid = "c%d" % self.ncell
        self.cell_level[cid] = self.depth
        st.heap[cid] = content
        return Ref(cid)

    def new_frame(self):
        self.nframe += 1
        fid = self.nframe
        self.frame_level[fid] = self.depth
        return fid

    def exit(self, kind, st, value=None, cond=TRUE, where=""):
        """leave with `kind` under cond; st continues under Not(cond)"""
        if st.dead: return
        s = st.fork()
        s.assume(cond)
        if not s.dead:
            s.dead = False
            self.exits.append(Exit(kind, s, value, where or self.cur[-1]))
        st.assume(Not(cond))
        if z3.is_true(cond): st.dead = True

    def raise_(self, st, cls, cond=TRUE, where=""):
        if self.prune_raises and not st.dead and not z3.is_true(cond) and self.B.follows(self, st, Not(cond), self.prune_raises): return      # shown impossible here and now
        self.exit("raise", st, Exc(cls), cond, where)

    def unsupported(self, st, msg):
        self.exit("unsupported", st, msg, TRUE, msg)

    def capture(self):
        old, self.exits = self.exits, []
        return old

    # ------------------------------------------------------------------ merging
    def merge(self, base, s1, s2, c):
        """merge two successors of `base` taken under c / Not(c) into a new state"""
        if s1.dead and s2.dead:
            r = base.fork(); r.dead = True; r.pc += (FALSE,); return r
        if s1.dead: return s2
        if s2.dead: return s1
        r = St()
        n = len(base.pc)
        r1, r2 = list(s1.pc[n:]), list(s2.pc[n:])
        f1 = [x for x in r1 if not x.eq(c)]
        f2 = [x for x in r2 if not x.eq(Not(c))]
        if not f1 and not f2:
            r.pc = base.pc
        else:
            r.pc = base.pc
            r.assume(Or(And(r1), And(r2)))
        r.vars = self.merge_dict(c, s1.vars, s2.vars)
        r.heap = {}
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is None: r.heap[k] = b
            elif b is None: r.heap[k] = a
            else: r.heap[k] = a if a is b else self.merge_content(c, a, b)
        m = len(base.log)
        r.log = base.log + s1.log[m:] + s2.log[m:]
        return r

    def merge_content(self, c, a, b):
        if isinstance(a, AliasC) and isinstance(b, AliasC) and same(a.ref, b.ref): return a
        if isinstance(a, (AliasC, FrozenC)) or isinstance(b, (AliasC, FrozenC)):
            return UnionC(c, a, b)
        return mk_union(c, a, b)

    def merge_dict(self, c, d1, d2):
        r = dict(d1)
        for k, v in d2.items():
            if k not in d1:
                r[k] = Ite(c, UNBOUND, v)
            elif d1[k] is not v:
                r[k] = mk_ite(c, d1[k], v)
        for k, v in d1.items():
            if k not in d2: r[k] = Ite(c, v, UNBOUND)
        return r

    def join_exits(self, st, base, exits):
        """states of several exits (mutually exclusive) plus st (may be dead) -> one state; returns list of (cond, value)"""
        res = st
        vals = []
        n = len(base.pc)
        for x in exits:
            c = And(list(x.st.pc[n:]))
            vals.append((c, x.value))
            s = x.st
            if res.dead:
                m = s.fork(); m.dead = False
                res = m
            else:
                res = self.merge(base, s, res, c)
        return res, vals

    # ------------------------------------------------------------------ truth, equality, conversions
    def truthy(self, st, v):
        if isinstance(v, Con): return z3.BoolVal(bool(v.v))
        if isinstance(v, Sym):
            s = v.t.sort()
            if s == z3.BoolSort(): return v.t
            if s == z3.IntSort() or s == z3.RealSort(): return v.t != 0
            if s == z3.StringSort(): return v.t != z3.StringVal("")
            t = z3.simplify(v.t)
            if z3.is_app(t) and t.decl().eq(U.bool): return t.arg(0)
            return z3.simplify(u_truthy(v.t)) if z3.is_app(t) and t.num_args() and t.decl().name() in ("int", "str", "real") else u_truthy(v.t)
        if isinstance(v, Ite): return If(v.c, self.truthy(st, v.a), self.truthy(st, v.b))
        if isinstance(v, Tup): return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, Ref):
            c = self.content(st, v)
            return self.nonempty(st, c, v)
        if isinstance(v, (SeqV,)): return self.nonempty(st, v.content, None)
        if isinstance(v, Model): return v.truthy(self, st)
        if isinstance(v, (Fn, Prim, Bound, BoundFn, ClassV, Mod, IterV, Exc)): return TRUE
        raise Unsupported("truth of %s" % type(v).__name__)

    def nonempty(self, st, c, ref):
        if isinstance(c, UnionC):
            k = st.knows(c.c)
            if k is not None: return self.nonempty(st, c.a if k else c.b, ref)
            return If(c.c, self.nonempty(st, c.a, ref), self.nonempty(st, c.b, ref))
        if isinstance(c, NoneC): return self.truthy(st, c.v)
        if isinstance(c, MapC):
            if c.static is not None: return z3.BoolVal(bool(c.static))
            if c.wit is not None: return c.dom(c.wit)
            x = fresh_const("x", U); return Exists([x], c.dom(x))
        if isinstance(c, SetC):
            if c.static is not None: return z3.BoolVal(bool(c.static))
            x = fresh_const("x", U); return Exists([x], c.mem(x))
        if isinstance(c, ListC):
            return Or([Exists(p.bs, p.guard) for p in map(part_fresh, c.parts)])
        if isinstance(c, SeqC): return c.n > 0
        if isinstance(c, ObjC):
            m = self.find_method(c.cls, "__bool__") or self.find_method(c.cls, "__len__")
            if m is not None: return self.truthy(st, self.call(st, BoundFn(ref, m), [], {}))
            if "%map" in c.attrs: return self.nonempty(st, c.attrs["%map"], ref)
            return TRUE
        raise Unsupported("emptiness of %s" % type(c).__name__)

    def eq(self, st, a, b):
        if isinstance(a, Ite): return If(a.c, self.eq(st, a.a, b), self.eq(st, a.b, b))
        if isinstance(b, Ite): return If(b.c, self.eq(st, a, b.a), self.eq(st, a, b.b))
        if isinstance(a, Con) and isinstance(b, Con):
            return z3.BoolVal(bool(a.v == b.v))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items): return FALSE
            return And([self.eq(st, x, y) for x, y in zip(a.items, b.items)])
        ca, cb = self.seq_of(st, a), self.seq_of(st, b)
        if ca is not None and cb is not None:
            ka, kb = ca[1], cb[1]
            if ka != kb: return FALSE
            return self.seq_eq(st, ca[0], cb[0])
        if isinstance(a, Ref) and isinstance(b, Ref):
            A, B = self.content(st, a), self.content(st, b)
            if isinstance(A, SetC) and isinstance(B, SetC):
                x = fresh_const("x", U)
                return ForAll([x], A.mem(x) == B.mem(x))
            if isinstance(A, MapC) and isinstance(B, MapC):
                x = fresh_const("x", U)
                return ForAll([x], And(A.dom(x) == B.dom(x), Implies(A.dom(x), self.eq_vals(st, A.get(x), B.get(x)))))
            if same(a, b): return TRUE
            raise Unsupported("== of %s and %s" % (type(A).__name__, type(B).__name__))
        for p, q in ((a, b), (b, a)):
            if isinstance(p, (SeqV, Tup)) and (isinstance(q, Con) or isinstance(q, Sym) and q.t.sort() != U): return FALSE
        if isinstance(a, (SeqV, Tup)) and isinstance(b, Sym) and b.t.sort() == U: return self.seq_eq_u(st, ca[0], b.t)
        if isinstance(b, (SeqV, Tup)) and isinstance(a, Sym) and a.t.sort() == U: return self.seq_eq_u(st, cb[0], a.t)
        if isinstance(a, Model) or isinstance(b, Model):
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Model) and hasattr(p, "eq_"): return p.eq_(self, st, q)
        if isinstance(a, (ClassV, Fn, Prim, Mod)) or isinstance(b, (ClassV, Fn, Prim, Mod)):
            return z3.BoolVal(a is b or (isinstance(a, ClassV) and isinstance(b, ClassV) and a.name == b.name and a.node is b.node))
        if isinstance(a, Ref) or isinstance(b, Ref):
            o, other = (a, b) if isinstance(a, Ref) else (b, a)
            if isinstance(other, (Con, Sym)):
                if isinstance(other, Con) or other.t.sort() != U: return FALSE
                raise Unsupported("== of container and opaque value")
            return FALSE
        if isinstance(a, (Con, Sym)) and isinstance(b, (Con, Sym)):
            ra, rb = raw(a), raw(b)
            if ra.sort() == rb.sort() and ra.sort() != U: return ra == rb
            ua, ub = to_u(a), to_u(b)
            for p, q in ((a, ub), (b, ua)):
                if isinstance(p, Con) and (p.v is None or isinstance(p.v, str)): return z3.simplify(ua == ub)
                if isinstance(p, Sym) and p.t.sort() == z3.StringSort(): return ua == ub
            if self.eq_mode == "numeric": return py_eq(ua, ub)
            return ua == ub
        return to_u(a) == to_u(b)

    def eq_vals(self, st, a, b):
        if isinstance(a, Content) or isinstance(b, Content):
            return self.content_eq(st, a, b)
        return self.eq(st, a, b)

    def content_eq(self, st, a, b):
        if isinstance(a, NoneC): a = a.v
        if isinstance(b, NoneC): b = b.v
        if isinstance(a, MapC) and isinstance(b, MapC):
            x = fresh_const("x", U)
            return ForAll([x], And(a.dom(x) == b.dom(x), Implies(a.dom(x), self.eq_vals(st, a.get(x), b.get(x)))))
        if isinstance(a, SetC) and isinstance(b, SetC):
            x = fresh_const("x", U)
            return ForAll([x], a.mem(x) == b.mem(x))
        if isinstance(a, SeqC) and isinstance(b, SeqC):
            i = fresh_const("i", z3.IntSort())
            return And(a.n == b.n, ForAll([i], Implies(And(0 <= i, i < a.n), self.eq_vals(st, a.at(i), b.at(i)))))
        if isinstance(a, UnionC): return If(a.c, self.content_eq(st, a.a, b), self.content_eq(st, a.b, b))
        if isinstance(b, UnionC): return If(b.c, self.content_eq(st, a, b.a), self.content_eq(st, a, b.b))
        if isinstance(a, V) and isinstance(b, V): return self.eq(st, a, b)
        if isinstance(a, ListC) and isinstance(b, ListC): return self.seq_eq(st, a, b)
        return FALSE

    def seq_of(self, st, v):
        """(content, 'tuple'|'list') when v is an ordered sequence"""
        if isinstance(v, Tup): return ListC([Part([], TRUE, x) for x in v.items]), "tuple"
        if isinstance(v, Con) and isinstance(v.v, tuple): return ListC([Part([], TRUE, Con(x)) for x in v.v]), "tuple"
        if isinstance(v, SeqV): return v.content, "tuple"
        if isinstance(v, Ref):
            try: c = self.content(st, v)
            except Unsupported: return None
            if isinstance(c, (ListC, SeqC)): return c, "list"
        return None

    def as_seqc(self, c):
        """random access view (n, at) of an ordered content, or None"""
        if isinstance(c, SeqC): return c
        if c.is_static():
            items = [p.elem for p in c.parts]
            def at(i):
                r = items[-1] if items else Con(None)
                for k in range(len(items) - 2, -1, -1):
                    r = mk_ite(i == k, items[k], r)
                return r
            return SeqC(z3.IntVal(len(items)), at)
        if len(c.parts) == 1 and len(c.parts[0].bs) == 1 and c.parts[0].bs[0].sort() == z3.IntSort() and c.parts[0].key is not None:
            p = c.parts[0]
            n = p.key          # number of elements when the guard is just the index range
            return SeqC(n, lambda i: vsub(p.elem, [(p.bs[0], i)]))
        return None

    def parts_of(self, c):
        if isinstance(c, ListC): return [part_fresh(p) for p in c.parts]
        if isinstance(c, SeqC):
            i = fresh_const("i", z3.IntSort())
            return [Part([i], And(0 <= i, i < c.n), c.at(i), key=c.n)]
        raise Unsupported("sequence parts of %s" % type(c).__name__)

    def seq_mem(self, st, c, x):
        """membership of V x in ordered content"""
        return Or([Exists(p.bs, And(p.guard, self.eq(st, p.elem, x))) for p in self.parts_of(c)])

    def seq_eq(self, st, a, b):
        if isinstance(a, ListC) and a.is_static() and isinstance(b, ListC) and b.is_static():
            if len(a.parts) != len(b.parts): return FALSE
            return And([self.eq(st, p.elem, q.elem) for p, q in zip(a.parts, b.parts)])
        sa, sb = self.as_seqc(a), self.as_seqc(b)
        if sa is not None and sb is not None:
            for s, o in ((sa, sb), (sb, sa)):
                n = z3.simplify(s.n)
                if z3.is_int_value(n) and n.as_long() <= 4:
                    return And(o.n == n, And([self.eq(st, s.at(z3.IntVal(i)), o.at(z3.IntVal(i))) for i in range(n.as_long())]))
            i = fresh_const("i", z3.IntSort())
            return And(sa.n == sb.n, ForAll([i], Implies(And(0 <= i, i < sa.n), self.eq(st, sa.at(i), sb.at(i)))))
        if isinstance(a, ListC) and isinstance(b, ListC) and len(a.parts) == len(b.parts) == 1:
            # two comprehensions over the same index sequence: equal iff elementwise equal
            p, q = part_fresh(a.parts[0]), part_fresh(b.parts[0])
            if p.key is not None and q.key is not None and [x.sort() for x in p.bs] == [x.sort() for x in q.bs]:
                q2 = Part(p.bs, subst(q.guard, list(zip(q.bs, p.bs))), vsub(q.elem, list(zip(q.bs, p.bs))))
                if z3.simplify(p.guard).eq(z3.simplify(q2.guard)):
                    return ForAll(p.bs, Implies(p.guard, self.eq(st, p.elem, q2.elem)))
        # otherwise an opaque truth value with its consequence: equal sequences have the same members
        e = self.fresh("seqeq", z3.BoolSort())
        x = fresh_const("x", U)
        self.axiom(Implies(e, ForAll([x], self.seq_mem(st, a, Sym(x)) == self.seq_mem(st, b, Sym(x)))))
        return e

    def seq_eq_u(self, st, c, u):
        """ordered content == opaque tuple term u"""
        s = self.as_seqc(c)
        if isinstance(c, ListC) and c.is_static():
            return u == tup_u([to_u(p.elem) for p in c.parts])
        if s is None:
            return u == self.seq_term(SeqV(c))
        i = fresh_const("i", z3.IntSort())
        return And(U.is_tup(u), TLEN(u) == s.n, ForAll([i], Implies(And(0 <= i, i < s.n), TGET(u, i) == to_u(s.at(i)))))

    def seq_term(self, v):
        """a U term for a tuple of symbolic length, defined extensionally"""
        c = v.content
        t = self.fresh("tup", U)
        s = self.as_seqc(c)
        if s is not None:
            i = fresh_const("i", z3.IntSort())
            self.axiom(And(U.is_tup(t), TLEN(t) == s.n, ForAll([i], Implies(And(0 <= i, i < s.n), TGET(t, i) == to_u(s.at(i))))))
        elif len(c.parts) == 1 and len(c.parts[0].bs) == 1:
            p = part_fresh(c.parts[0])
            pos = self.B.position(self, p)
            self.axiom(And(U.is_tup(t), ForAll(p.bs, Implies(p.guard, TGET(t, pos) == to_u(p.elem)))))
        else:
            self.axiom(U.is_tup(t))
        self.seq_terms.append((t, c, list(self.binders)))
        return t

    def in_(self, st, x, c):
        if isinstance(c, Ite):
            k = st.knows(c.c)
            if k is not None: return self.in_(st, x, c.a if k else c.b)
            return If(c.c, self.in_(st, x, c.a), self.in_(st, x, c.b))
        if isinstance(c, Con):
            if isinstance(c.v, (tuple, list, set, frozenset)):
                return Or([self.eq(st, x, Con(y)) for y in c.v])
            if isinstance(c.v, str):
                if isinstance(x, Con): return z3.BoolVal(x.v in c.v)
                return z3.Contains(raw(c), self.as_str(st, x))
        if isinstance(c, Tup): return Or([self.eq(st, x, y) for y in c.items])
        if isinstance(c, Sym):
            if c.t.sort() == z3.StringSort(): return z3.Contains(c.t, self.as_str(st, x))
            if c.t.sort() == U: return ELEM_IN(c.t, to_u(x))
        if isinstance(c, Model): return c.contains(self, st, x)
        if isinstance(c, (SeqV, IterV)): return self.content_in(st, x, c.content)
        if isinstance(c, Ref):
            k = self.content(st, c, note=False)
            self.content(st, c, key=to_u(x) if isinstance(k, (MapC, SetC)) and isinstance(x, (Con, Sym)) else None)
            if isinstance(k, ObjC):
                m = self.find_method(k.cls, "__contains__")
                if m is not None: return self.truthy(st, self.call(st, BoundFn(c, m), [x], {}))
            return self.content_in(st, x, k)
        raise Unsupported("in %s" % type(c).__name__)

    def content_in(self, st, x, k):
        if isinstance(k, UnionC):
            kn = st.knows(k.c)
            if kn is not None: return self.content_in(st, x, k.a if kn else k.b)
            return If(k.c, self.content_in(st, x, k.a), self.content_in(st, x, k.b))
        if isinstance(k, MapC): return self.dom_v(st, k.dom, x)
        if isinstance(k, SetC): return self.dom_v(st, k.mem, x)
        if isinstance(k, (ListC, SeqC)): return self.seq_mem(st, k, x)
        if isinstance(k, ObjC) and "%map" in k.attrs: return self.content_in(st, x, k.attrs["%map"])
        raise Unsupported("in %s" % type(k).__name__)

    def dom_v(self, st, dom, x):
        if isinstance(x, Ite): return If(x.c, self.dom_v(st, dom, x.a), self.dom_v(st, dom, x.b))
        return dom(to_u(x))

    def as_str(self, st, v):
        if isinstance(v, Con) and isinstance(v.v, str): return z3.StringVal(v.v)
        if isinstance(v, Sym):
            if v.t.sort() == z3.StringSort(): return v.t
            if v.t.sort() == U: return U.s(v.t)
        if isinstance(v, Ite): return If(v.c, self.as_str(st, v.a), self.as_str(st, v.b))
        raise Unsupported("string from %s" % type(v).__name__)

    def as_int(self, st, v):
        if isinstance(v, Con) and isinstance(v.v, (int, bool)): return z3.IntVal(int(v.v))
        if isinstance(v, Sym):
            if v.t.sort() == z3.IntSort(): return v.t
            if v.t.sort() == U: return U.i(v.t)
            if v.t.sort() == z3.BoolSort(): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Ite): return If(v.c, self.as_int(st, v.a), self.as_int(st, v.b))
        raise Unsupported("int from %r" % (v,))

    # ------------------------------------------------------------------ heap
    def deref(self, st, ref):
        seen = 0
        while isinstance(st.heap[ref.cid], AliasC):
            a = st.heap[ref.cid].ref
            ref = Ref(a.cid, a.path + ref.path)
            seen += 1
            if seen > 50: raise Unsupported("alias cycle")
        return ref

    def content(self, st, ref, note=True, key=None):
        ref = self.deref(st, ref)
        if note: self.reads.add((ref.cid, DEEP if note is True else len(ref.path) - (.5 if note == "kind" else 0), ref.path + ((key,) if key is not None else ())))
        c = st.heap[ref.cid]
        if isinstance(c, FrozenC): c = c.c
        for p in ref.path:
            c = self.step(st, c, p)
        if isinstance(c, NoneC): raise Unsupported("scalar used as container")
        if not isinstance(c, Content): raise Unsupported("scalar %r used as container" % (c,))
        if isinstance(c, UnionC):
            k = st.knows(c.c)
            if k is not None:
                c = c.a if k else c.b
                if isinstance(c, NoneC): raise Unsupported("scalar used as container")
        return c

    def step(self, st, c, p):
        if isinstance(c, FrozenC): c = c.c
        if isinstance(c, UnionC):
            k = st.knows(c.c)
            if k is not None: return self.step(st, c.a if k else c.b, p)
            return mk_ite(c.c, self.step(st, c.a, p), self.step(st, c.b, p))
        if isinstance(c, ObjC):
            if isinstance(p, str): return c.attrs[p]
            return self.step(st, c.dyn, p)
        if isinstance(c, MapC): return c.get(U.int(p) if p.sort() == z3.IntSort() else p)
        if isinstance(c, SeqC): return c.at(p if p.sort() == z3.IntSort() else U.i(p))
        if isinstance(c, ListC):
            s = self.as_seqc(c)
            if s is not None: return s.at(p if p.sort() == z3.IntSort() else U.i(p))
        if isinstance(c, NoneC): return NoneC(Con(None))
        raise Unsupported("path through %s" % type(c).__name__)

    def view(self, st, ref, p, val):
        """value read at ref/p: containers become references, scalars values"""
        if isinstance(val, NoneC): return val.v
        if isinstance(val, UnionC) and self.union_scalar(val):
            return Ite(val.c, self.view(st, ref, p, val.a), self.view(st, ref, p, val.b))
        if isinstance(val, Content):
            r = self.deref(st, ref)
            return Ref(r.cid, r.path + (p,))
        return val

    def union_scalar(self, u):
        return any(isinstance(x, NoneC) or (isinstance(x, UnionC) and self.union_scalar(x)) for x in (u.a, u.b))

    def own(self, st, v, target=None):
        """value to be stored in a container: containers are stored by value, the old name becomes an alias"""
        if isinstance(v, Ref):
            ref = self.deref(st, v)
            c = self.content(st, ref)
            if not ref.path:
                if target is not None and self.cell_level.get(ref.cid, 0) >= self.depth:
                    st.heap[ref.cid] = AliasC(target)
                elif self.cell_level.get(ref.cid, 0) >= self.depth:
                    st.heap[ref.cid] = FrozenC(c)
            return c
        if isinstance(v, Ite): return mk_ite(v.c, self.own(st, v.a), self.own(st, v.b))
        return v

    def mutate(self, st, ref, op, args):
        ref = self.deref(st, ref)
        c = st.heap[ref.cid]
        if isinstance(c, FrozenC): raise Unsupported("mutation of a container after it was stored elsewhere")
        st.heap[ref.cid] = self.apply(st, c, ref.path, op, args, TRUE, [])
        if self.cell_level[ref.cid] < self.depth:
            st.log.append(Effect(ref.cid, ref.path, op, args, st.pc, []))

    # an effect  (path, op, args)  for all bs with cond, applied to a content
    def apply(self, st, c, path, op, args, cond, bs):
        if isinstance(c, UnionC):
            k = st.knows(c.c) if st is not None else None
            if k is not None:
                n = self.apply(st, c.a if k else c.b, path, op, args, cond, bs)
                return mk_union(c.c, n, c.b) if k else mk_union(c.c, c.a, n)
            return mk_union(c.c, self.apply(st, c.a, path, op, args, And(cond), bs), self.apply(st, c.b, path, op, args, cond, bs))
        if isinstance(c, NoneC):
            return c if path or op != "aug" else NoneC(self.apply_leaf(c.v, op, args, cond, bs))
        if isinstance(c, FrozenC): raise Unsupported("mutation of a container after it was stored elsewhere")
        if path:
            p, rest = path[0], path[1:]
            if isinstance(c, ObjC):
                if p == "%dyn" if isinstance(p, str) else False:
                    return ObjC(c.cls, c.attrs, self.apply(st, c.dyn, rest, op, args, cond, bs))
                if isinstance(p, str):
                    a = dict(c.attrs)
                    a[p] = self.apply(st, a[p], rest, op, args, cond, bs) if isinstance(a[p], Content) else self.apply_leaf(a[p], op, args, cond, bs)
                    return ObjC(c.cls, a, c.dyn)
                return ObjC(c.cls, c.attrs, self.apply(st, c.dyn, path, op, args, cond, bs))
            if isinstance(c, MapC):
                old = c
                if not isinstance(p, str) and p.sort() == z3.IntSort(): p = U.int(p)
                def get(x):
                    prs, res, rem = self.solve(p, x, bs)
                    cd = And(subst(cond, prs), res)
                    cur = old.get(x)
                    if old.default is not None: cur = mk_ite(old.dom(x), cur, old.default())
                    r2 = tuple(q if isinstance(q, str) else subst(q, prs) for q in rest)
                    a2 = self.args_sub(args, prs)
                    if z3.is_false(z3.simplify(cd)): return old.get(x)
                    if isinstance(cur, Content): return self.apply(st, cur, r2, op, a2, cd, rem)
                    if rest: raise Unsupported("path through scalar")
                    return self.apply_leaf(cur, op, a2, cd, rem)
                def dom(x):
                    if old.default is None and op != "put": return old.dom(x)
                    prs, res, rem = self.solve(p, x, bs)
                    return Or(old.dom(x), Exists(rem, And(subst(cond, prs), res)))
                return MapC(dom, get, old.default, old.kind, None)
            if isinstance(c, ListC):
                s = self.as_seqc(c)
                if s is None: raise Unsupported("update inside a filtered list")
                c = SeqC(s.n, s.at, c.kind)
            if isinstance(c, SeqC):
                old = c
                pi = p if p.sort() == z3.IntSort() else U.i(p)
                def at(i):
                    prs, res, rem = self.solve(pi, i, bs)
                    cd = And(subst(cond, prs), res)
                    cur = old.at(i)
                    r2 = tuple(q if isinstance(q, str) else subst(q, prs) for q in rest)
                    a2 = self.args_sub(args, prs)
                    if isinstance(cur, Content): return self.apply(st, cur, r2, op, a2, cd, rem)
                    return self.apply_leaf(cur, op, a2, cd, rem)
                return SeqC(old.n, at, old.kind)
            raise Unsupported("update through %s" % type(c).__name__)
        # leaf operations
        if op == "touch": return c
        if op == "add":
            if not isinstance(c, SetC): raise Unsupported("add on %s" % type(c).__name__)
            old = c
            if not bs and z3.is_true(cond) and c.static is not None:
                v = to_u(args[0]); return SetC(lambda x: Or(old.mem(x), x == v), c.kind, c.static + [args[0]])
            def mem(x):
                e = to_u(args[0])
                prs, res, rem = self.solve(e, x, bs)
                return Or(old.mem(x), Exists(rem, And(subst(cond, prs), res)))
            return SetC(mem, c.kind)
        if op == "union":          # args[0]: predicate content (SetC)
            old = c
            o = args[0]
            return SetC(lambda x: Or(old.mem(x), Exists(bs, And(cond, o.mem(x)))), c.kind)
        if op == "discard":
            old = c
            def mem(x):
                prs, res, rem = self.solve(to_u(args[0]), x, bs)
                return And(old.mem(x), Not(Exists(rem, And(subst(cond, prs), res))))
            return SetC(mem, c.kind)
        if op == "append":
            if isinstance(c, SeqC) and not bs and z3.is_true(cond):
                old = c; v = args[0]
                return SeqC(c.n + 1, lambda i: mk_ite(i == old.n, v, old.at(i)), c.kind)
            if isinstance(c, SeqC): c = ListC(self.parts_of(c), c.kind)
            if not isinstance(c, ListC): raise Unsupported("append on %s" % type(c).__name__)
            key = args[1] if len(args) > 1 else None
            return ListC(c.parts + [Part(bs, cond, args[0], key)], c.kind)
        if op == "extend":
            if isinstance(c, SeqC): c = ListC(self.parts_of(c), c.kind)
            ps = [part_fresh(p) for p in args[0].parts] if isinstance(args[0], ListC) else self.parts_of(args[0])
            return ListC(c.parts + [Part(list(bs) + p.bs, And(cond, p.guard), p.elem, p.key if not bs and z3.is_true(cond) else None) for p in ps], c.kind)
        if op == "set":            # args = (key U term, value)
            if not isinstance(c, MapC): raise Unsupported("item store on %s" % type(c).__name__)
            old, k, v = c, args[0], args[1]
            if not bs and z3.is_true(cond):
                stat = None
                if c.static is not None:
                    stat = [kv for kv in c.static if not to_u(kv[0]).eq(k)]
                    stat.append((Sym(k), v))
                    if any(not self.distinct_consts(to_u(kv[0]), k) for kv in stat[:-1]): stat = None
                return MapC(lambda x: Or(old.dom(x), x == k), lambda x: mk_ite(x == k, v, old.get(x)) if not x.eq(k) else v, c.default, c.kind, stat)
            def get(x):
                prs, res, rem = self.solve(k, x, bs)
                cd = And(subst(cond, prs), res)
                v2 = vsub(v, prs)
                if rem and z3.is_expr(cd) and any(mentions(t, rem) for t in self.terms_of(v2)):
                    # several iterations may write this key: some last one wins
                    sk = [self.fresh("last", b.sort()) for b in rem]
                    fn = [z3.Function("lastw!%d_%d" % (VV._fresh[0], j), x.sort(), *([q.sort() for q in self.binders] + [b.sort()])) for j, b in enumerate(rem)]
                    ws = [f(x, *self.binders) for f in fn]
                    self.axioms.append(ForAll(self.binders + [y for y in [x] if z3.is_const(x)], Implies(Exists(rem, cd), subst(cd, list(zip(rem, ws))))))
                    v2 = vsub(v2, list(zip(rem, ws)))
                if old.static == []: return v2      # outside the domain the value means nothing
                return mk_ite(Exists(rem, cd), v2, old.get(x))
            def dom(x):
                prs, res, rem = self.solve(k, x, bs)
                return Or(old.dom(x), Exists(rem, And(subst(cond, prs), res)))
            return MapC(dom, get, c.default, c.kind, None)
        if op == "setidx":
            s = c if isinstance(c, SeqC) else self.as_seqc(c)
            if s is None: raise Unsupported("item store in filtered list")
            k, v = args
            if isinstance(c, ListC) and c.is_static() and not bs and z3.is_true(cond):
                kk = z3.simplify(k)
                if z3.is_int_value(kk):
                    i = kk.as_long()
                    i = i + len(c.parts) if i < 0 else i
                    return ListC([Part([], TRUE, v) if j == i else p for j, p in enumerate(c.parts)], c.kind)
            def at(i):
                prs, res, rem = self.solve(k, i, bs)
                return mk_ite(Exists(rem, And(subst(cond, prs), res)), vsub(v, prs), s.at(i))
            return SeqC(s.n, at, c.kind)
        if op == "overlay":        # dict.update(content)
            old, o = c, args[0]
            if bs: 
                raise Unsupported("dict update in a loop")
            stat = None
            return MapC(lambda x: Or(old.dom(x), And(cond, o.dom(x))), lambda x: mk_ite(And(cond, o.dom(x)), o.get(x), old.get(x)), c.default, c.kind, stat)
        if op == "del":
            if isinstance(c, MapC):
                old = c
                def dom(x):
                    prs, res, rem = self.solve(args[0], x, bs)
                    return And(old.dom(x), Not(Exists(rem, And(subst(cond, prs), res))))
                return MapC(dom, old.get, c.default, c.kind, None)
            if isinstance(c, (SeqC, ListC)) and not bs:
                s = self.as_seqc(c)
                if s is None: raise Unsupported("deletion from a filtered list")
                k = args[0]
                if isinstance(c, ListC) and c.is_static() and z3.is_int_value(z3.simplify(k)) and z3.is_true(cond):
                    i = z3.simplify(k).as_long(); i = i + len(c.parts) if i < 0 else i
                    return ListC(c.parts[:i] + c.parts[i + 1:], c.kind)
                return SeqC(s.n - If(cond, z3.IntVal(1), z3.IntVal(0)), lambda i: mk_ite(And(cond, i >= k), s.at(i + 1), s.at(i)), c.kind)
            raise Unsupported("del on %s" % type(c).__name__)
        if op == "assign":
            if bs or not z3.is_true(cond):
                if bs and any(mentions(cond, [b]) for b in bs): raise Unsupported("container replaced in a loop")
                return mk_union(cond, args[0], c)
            return args[0]
        if op == "attr":
            if not isinstance(c, ObjC): raise Unsupported("attribute store on %s" % type(c).__name__)
            a = dict(c.attrs)
            v = args[1]
            if bs:
                sk = Exists(bs, cond)
                if any(mentions(t, bs) for t in self.terms_of(v)): raise Unsupported("attribute overwritten in a loop")
                v = mk_ite(sk, v, a.get(args[0], UNBOUND))
            elif not z3.is_true(cond): v = mk_ite(cond, v, a.get(args[0], UNBOUND))
            a[args[0]] = v
            return ObjC(c.cls, a, c.dyn)
        if op == "delattr":
            a = dict(c.attrs); a.pop(args[0], None)
            return ObjC(c.cls, a, c.dyn)
        if op == "clear":
            if bs or not z3.is_true(cond): raise Unsupported("clear in a loop")
            return {MapC: lambda: EMPTY_MAP(c.default, c.kind), SetC: EMPTY_SET, ListC: EMPTY_LIST, SeqC: EMPTY_LIST}[type(c)]()
        raise Unsupported("operation %s" % op)

    def apply_leaf(self, v, op, args, cond, bs):
        if op == "touch": return v
        if op == "aug":
            o, e = args
            if not bs:
                return mk_ite(cond, self.binop(None, o, v, e), v)
            if o == "+":
                if isinstance(v, Con) and v.v is None: raise Unsupported("aug on None")
                return self.binop(None, "+", v, Sym(self.B.summation(self, bs, cond, e)))
        raise Unsupported("leaf operation %s" % op)

    def terms_of(self, v):
        if isinstance(v, Sym): return [v.t]
        if isinstance(v, Tup): return [t for x in v.items for t in self.terms_of(x)]
        if isinstance(v, Ite): return [v.c] + self.terms_of(v.a) + self.terms_of(v.b)
        if isinstance(v, Con): return []
        if isinstance(v, NoneC): return self.terms_of(v.v)
        if isinstance(v, MapC):
            x = fresh_const("x", U)
            return [v.dom(x)] + self.terms_of(v.get(x))
        if isinstance(v, SetC):
            return [v.mem(fresh_const("x", U))]
        if isinstance(v, ListC): return [t for p in v.parts for t in [p.guard] + self.terms_of(p.elem)]
        if isinstance(v, SeqC): return [v.n] + self.terms_of(v.at(fresh_const("i", z3.IntSort())))
        if isinstance(v, (SeqV, IterV)): return self.terms_of(v.content)
        if isinstance(v, UnionC): return [v.c] + self.terms_of(v.a) + self.terms_of(v.b)
        if isinstance(v, Model): return [v.to_u()]
        if isinstance(v, Ref): return [p for p in v.path if not isinstance(p, str)]
        return []

    def args_sub(self, args, prs):
        if not prs: return args
        return tuple(subst(a, prs) if isinstance(a, z3.ExprRef) else vsub(a, prs) if isinstance(a, (V, Content)) else a for a in args)

    @staticmethod
    def distinct_consts(a, b):
        s = z3.simplify(a == b)
        return z3.is_false(s) or z3.is_true(s)

    @staticmethod
    def unpacked_binder(k, rem):
        """(b, n) when k is the n-tuple of the components of binder b"""
        items, l = [], k.arg(0)
        while l.decl().name() == "cons": items.append(l.arg(0)); l = l.arg(1)
        if l.decl().name() != "nil" or not items: return None
        h = items[0]
        if not (h.decl().eq(UL.hd) and h.arg(0).decl().eq(U.l)): return None
        b = h.arg(0).arg(0)
        if not any(b.eq(q) for q in rem): return None
        want = [z3.simplify(x) for x in cons_shape(b, len(items))[1]]
        return (b, len(items)) if all(x.eq(y) for x, y in zip(items, want)) else None

    def solve(self, key, x, bs):
        """solve key(bs) == x for some of the binders: (substitution, residual condition, remaining binders)"""
        if isinstance(key, str): raise Unsupported("attribute path in loop effect")
        prs, res, todo = [], [], [(key, x)]
        rem = list(bs)
        while todo:
            k, y = todo.pop()
            k = subst(k, prs) if prs else k
            if not rem or not mentions(k, rem):
                res.append(TRUE if k.eq(y) else (k == y)); continue
            if any(k.eq(b) for b in rem):
                # keep substitution closed: replace in earlier ones as well
                prs.append((k, y)); rem = [b for b in rem if not b.eq(k)]
                res = [subst(r, [(k, y)]) for r in res]
                continue
            d = k.decl()
            nm = d.name()
            if k.sort() == U and nm in ("str", "int", "bool", "real", "dt", "obj") and d.arity() == 1:
                acc = {"str": U.s, "int": U.i, "bool": U.b, "real": U.r, "dt": U.d, "obj": U.o}[nm]
                rec = {"str": U.is_str, "int": U.is_int, "bool": U.is_bool, "real": U.is_real, "dt": U.is_dt, "obj": U.is_obj}[nm]
                res.append(z3.simplify(rec(y))); todo.append((k.arg(0), z3.simplify(acc(y)))); continue
            b = self.unpacked_binder(k, rem) if k.sort() == U and nm == "tup" else None
            if b is not None:
                # the key is the binder taken apart by unpack() and put together again; the path knows its shape
                res.append(cons_shape(y, b[1])[0])
                prs.append((b[0], y)); rem = [q for q in rem if not q.eq(b[0])]
                res = [subst(r, [(b[0], y)]) for r in res]
                continue
            if k.sort() == U and nm == "tup":
                res.append(z3.simplify(U.is_tup(y))); todo.append((k.arg(0), z3.simplify(U.l(y)))); continue
            if k.sort() == UL and nm == "cons":
                res.append(z3.simplify(UL.is_cons(y)))
                todo.append((k.arg(1), z3.simplify(UL.tl(y)))); todo.append((k.arg(0), z3.simplify(UL.hd(y)))); continue
            if nm in self.inverses:
                args = [k.arg(i) for i in range(k.num_args())]
                if not any(mentions(a, rem) for a in args[:-1]):
                    inv, mem = self.inverses[nm]
                    res.append(mem(*(args[:-1] + [y])))
                    if mentions(args[-1], rem): prs.append((k, y))
                    todo.append((args[-1], inv(*(args[:-1] + [y])))); continue
            res.append(k == y)
        return prs, And(res), rem

    # ------------------------------------------------------------------ iteration
    def iterate(self, st, v):
        """list of Parts for an iterable value"""
        if isinstance(v, Ite):
            k = st.knows(v.c)
            if k is not None: return self.iterate(st, v.a if k else v.b)
            s1, s2 = st.fork(), st.fork()
            s1.assume(v.c); s2.assume(Not(v.c))
            pa = self.iterate(s1, v.a) if not s1.dead else []
            pb = self.iterate(s2, v.b) if not s2.dead else []
            st.become(self.merge(st, s1, s2, v.c))
            return [Part(p.bs, And(v.c, p.guard), p.elem) for p in pa] + [Part(p.bs, And(Not(v.c), p.guard), p.elem) for p in pb]
        if isinstance(v, Tup): return [Part([], TRUE, x) for x in v.items]
        if isinstance(v, Con):
            if isinstance(v.v, (str, tuple, list, range)): return [Part([], TRUE, Con(x)) for x in v.v]
            if isinstance(v.v, (set, frozenset)): return [Part([], TRUE, Con(x)) for x in sorted(v.v, key=repr)]
            self.raise_(st, "TypeError"); return []
        if isinstance(v, (SeqV, IterV)): return self.parts_of(v.content)
        if isinstance(v, Model): return v.iterate(self, st)
        if isinstance(v, Sym):
            if v.t.sort() == z3.StringSort():
                i = fresh_const("i", z3.IntSort())
                return [Part([i], And(0 <= i, i < z3.Length(v.t)), Sym(z3.SubString(v.t, i, 1)), key=z3.Length(v.t))]
            if v.t.sort() == U:      # assumed to be a tuple (checked)
                self.raise_(st, "TypeError", Not(Or(U.is_tup(v.t), U.is_str(v.t))))
                self.exit("unsupported", st, "iteration over an opaque string", U.is_str(v.t))
                i = fresh_const("i", z3.IntSort())
                return [Part([i], And(0 <= i, i < TLEN(v.t)), Sym(TGET(v.t, i)), key=TLEN(v.t))]
        if isinstance(v, Ref):
            c = self.content(st, v)
            return self.iterate_content(st, v, c)
        raise Unsupported("iteration over %s" % type(v).__name__)

    def iterate_content(self, st, v, c, items=False, values=False):
        if isinstance(c, UnionC):
            k = st.knows(c.c)
            if k is not None: return self.iterate_content(st, v, c.a if k else c.b, items, values)
            return [Part(p.bs, And(c.c, p.guard), p.elem) for p in self.iterate_content(st, v, c.a, items, values)] + \
                   [Part(p.bs, And(Not(c.c), p.guard), p.elem) for p in self.iterate_content(st, v, c.b, items, values)]
        if isinstance(c, MapC):
            def elem(k, val):
                vw = self.view(st, v, to_u(k), val) if v is not None else val
                return Tup([k, vw]) if items else vw if values else k
            if c.static is not None:
                return [Part([], TRUE, elem(k, val)) for k, val in c.static]
            k = fresh_const("k", U)
            return [Part([k], c.dom(k), elem(Sym(k), c.get(k)))]
        if isinstance(c, SetC):
            if c.static is not None: return [Part([], TRUE, k) for k in self.static_distinct(c.static)]
            k = fresh_const("k", U)
            return [Part([k], c.mem(k), Sym(k))]
        if isinstance(c, ListC): return self.parts_of(c)
        if isinstance(c, SeqC):
            i = fresh_const("i", z3.IntSort())
            return [Part([i], And(0 <= i, i < c.n), self.view(st, v, i, c.at(i)) if v is not None else c.at(i), key=c.n)]
        if isinstance(c, ObjC):
            m = self.find_method(c.cls, "__iter__")
            if m is not None: return self.iterate(st, self.call(st, BoundFn(v, m), [], {}))
            if "%map" in c.attrs: return self.iterate_content(st, Ref(v.cid, v.path + ("%map",)), c.attrs["%map"], items, values)
        raise Unsupported("iteration over %s" % type(c).__name__)

    def static_distinct(self, items):
        r = []
        for x in items:
            u = to_u(x)
            ok = True
            for y in r:
                s = z3.simplify(u == to_u(y))
                if z3.is_true(s): ok = False; break
                if not z3.is_false(s): raise Unsupported("set literal with unknown duplicates")
            if ok: r.append(x)
        return r

    def run_loop(self, st, parts, body, orelse=None):
        """execute body(st, elem) for every element; body may leave through self.exits"""
        outer = self.capture()
        breaks = []
        base = st.fork()
        for p in parts:
            if st.dead: break
            if not p.bs:
                s0 = st
                s1 = st.fork(); s1.assume(p.guard)
                if not s1.dead:
                    n0 = len(self.exits)
                    body(s1, p.elem)
                    mine, self.exits = self.exits[n0:], self.exits[:n0]
                    conts = [x for x in mine if x.kind == "continue"]
                    breaks += [x for x in mine if x.kind == "break"]
                    self.exits += [x for x in mine if x.kind not in ("continue", "break")]
                    if conts:
                        s1, _ = self.join_exits(s1, s0, conts)
                    if z3.is_true(p.guard): st.become(s1)
                    else:
                        s2 = s0.fork(); s2.assume(Not(p.guard))
                        st.become(self.merge(s0, s1, s2, p.guard))
            elif self.loop_rule is None or not self.loop_rule(st, p, body):
                breaks += self.family_loop(st, p, body)
        if orelse is not None and not st.dead: orelse(st)
        if breaks:
            s, _ = self.join_exits(st, base, breaks)
            st.become(s)
        mine, self.exits = self.exits, outer
        self.exits += mine

    def havoc_value(self, st, v, name):
        if isinstance(v, Sym): return Sym(self.fresh(name, v.t.sort()))
        if isinstance(v, Con):
            if isinstance(v.v, bool): return Sym(self.fresh(name, z3.BoolSort()))
            if isinstance(v.v, int): return Sym(self.fresh(name, z3.IntSort()))
            return Sym(self.fresh(name, U))
        return Sym(self.fresh(name, U))

    def havoc_content(self, st, c, depth=0):
        if isinstance(c, MapC):
            d = self.fresh_fn("hdom", U, z3.BoolSort())
            sample = c.default() if c.default is not None else None
            if sample is None:
                try: sample = c.get(fresh_const("x", U))
                except Unsupported: sample = None
            g = self.havoc_fn(sample, depth)
            return MapC(lambda x: d(x), g, c.default, c.kind, None)
        if isinstance(c, SetC):
            m = self.fresh_fn("hmem", U, z3.BoolSort())
            return SetC(lambda x: m(x), c.kind)
        if isinstance(c, (ListC, SeqC)):
            n = self.fresh("hlen", z3.IntSort())
            self.axiom(n >= 0)
            if isinstance(c, ListC) and c.is_static() and c.parts and isinstance(c.parts[0].elem, (Con, Sym)) and len(c.parts) == 1:
                n = z3.IntVal(1)
                v = self.havoc_value(st, c.parts[0].elem, "h")
                return ListC([Part([], TRUE, v)], c.kind)
            f = self.fresh_fn("hat", z3.IntSort(), U)
            return SeqC(n, lambda i: Sym(f(i)), c.kind)
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: (self.havoc_content(st, v, depth) if isinstance(v, Content) else self.havoc_value(st, v, k)) for k, v in c.attrs.items()},
                        self.havoc_content(st, c.dyn, depth) if c.dyn is not None else None)
        if isinstance(c, UnionC): return mk_union(c.c, self.havoc_content(st, c.a, depth), self.havoc_content(st, c.b, depth))
        if isinstance(c, NoneC): return NoneC(self.havoc_value(st, c.v, "h"))
        raise Unsupported("loop-carried %s" % type(c).__name__)

    def havoc_parts(self, st, c, attrs):
        """only the attributes the loop may change"""
        if not isinstance(c, ObjC) or not attrs or None in attrs or not all(a in c.attrs for a in attrs): return self.havoc_content(st, c)
        return ObjC(c.cls, {k: v if k not in attrs else self.havoc_content(st, v) if isinstance(v, Content) else self.havoc_value(st, v, k) for k, v in c.attrs.items()}, c.dyn)

    def havoc_fn(self, sample, depth):
        """function U -> havocked value of the sample's shape"""
        if isinstance(sample, MapC):
            d = self.fresh_fn("hdom", U, U, z3.BoolSort())
            f = self.fresh_fn("hget", U, U, U)
            inner = sample.default() if sample.default is not None else None
            if isinstance(inner, (SetC, ListC, MapC)):
                m = self.fresh_fn("hmem", U, U, U, z3.BoolSort())
                mk = (lambda x, y: SetC(lambda z: m(x, y, z))) if isinstance(inner, SetC) else None
                if mk is None: return lambda x: MapC(lambda y: d(x, y), lambda y: self.havoc_list3(m, x, y), sample.default, sample.kind)
                return lambda x: MapC(lambda y: d(x, y), lambda y: mk(x, y), sample.default, sample.kind)
            return lambda x: MapC(lambda y: d(x, y), lambda y: Sym(f(x, y)), sample.default, sample.kind)
        if isinstance(sample, SetC):
            m = self.fresh_fn("hmem", U, U, z3.BoolSort())
            return lambda x: SetC(lambda y: m(x, y))
        if isinstance(sample, (ListC, SeqC)):
            n = self.fresh_fn("hlen", U, z3.IntSort())
            f = self.fresh_fn("hat", U, z3.IntSort(), U)
            return lambda x: SeqC(n(x), lambda i: Sym(f(x, i)))
        srt = sample.t.sort() if isinstance(sample, Sym) else z3.IntSort() if isinstance(sample, Con) and isinstance(sample.v, int) and not isinstance(sample.v, bool) else U
        f = self.fresh_fn("hget", U, srt)
        return lambda x: Sym(f(x))

    def havoc_list3(self, m, x, y):
        k = fresh_const("k", U)
        return ListC([Part([k], m(x, y, k), Sym(k))])

    def family_loop(self, st, part, body):
        part = part_fresh(part)
        base = st.fork()
        mod_vars, mod_cells, mod_attrs = set(), set(), {}
        self.depth += 1
        self.binders.extend(part.bs)
        npc = len(base.pc)
        try:
            for attempt in range(5):
                s = base.fork(); s.log = []
                old_exits, self.exits = self.exits, []
                old_reads, self.reads = self.reads, set()
                s.assume(part.guard)
                hv = {}
                for k in mod_vars:
                    s.vars[k] = hv[k] = self.havoc_value(s, base.vars[k], "carried_" + str(k[1]))
                for cid in mod_cells:
                    s.heap[cid] = self.havoc_parts(s, base.heap[cid], mod_attrs.get(cid))
                if not s.dead: body(s, part.elem)
                mine, self.exits = self.exits, old_exits
                reads, self.reads = self.reads, old_reads | self.reads
                conts = [x for x in mine if x.kind == "continue"]
                others = [x for x in mine if x.kind != "continue"]
                sb = base.fork(); sb.log = []; sb.assume(part.guard)
                if conts: s, _ = self.join_exits(s, sb, conts)
                ends = ([s] if not s.dead else [])
                logs = [e for x in ends for e in x.log] + [e for x in others for e in x.st.log]
                outer = [e for e in logs if self.cell_level[e.cid] < self.depth]
                nm = {e.cid for e in outer}
                nv = {k for x in ends + [o.st for o in others] for k, v in x.vars.items() if k in base.vars and not same(v, base.vars[k]) and v is not base.vars[k]}
                new = (nv - mod_vars) | (nm - mod_cells)
                mod_vars |= nv
                needs_cells = {e.cid for e in outer for cid, d, pth in reads if cid == e.cid and d >= self.effect_depth(base, e) and not self.separate(part.bs, pth, e)}
                ea = {}
                for e in outer:
                    a = e.path[0] if e.path else e.args[0] if e.op in ("attr", "delattr") else None
                    ea.setdefault(e.cid, set()).add(a if isinstance(a, str) else None)
                if not (nv - set(hv)) and not (needs_cells - mod_cells) and all(ea.get(cid, set()) <= mod_attrs[cid] for cid in mod_cells): break
                mod_cells |= nm
                for cid, q in ea.items(): mod_attrs.setdefault(cid, set()).update(q)
            else:
                raise Unsupported("loop does not stabilise")
        finally:
            self.depth -= 1
            del self.binders[len(self.binders) - len(part.bs):]
        bs = part.bs
        guard = part.guard
        effects = []
        if not s.dead:
            effects = [e for e in s.log if self.cell_level[e.cid] <= self.depth]
        rel = lambda pc: And(list(pc[npc:]))
        E = Or([rel(x.st.pc) for x in others]) if others else FALSE
        # exits, for some iteration
        breaks = []
        for x in others:
            sk = [self.fresh("it", b.sort()) for b in bs]
            prs = list(zip(bs, sk))
            xs = base.fork()
            xs.pc = base.pc
            for c in x.st.pc[npc:]: xs.assume(subst(c, prs))
            if xs.dead: continue
            before_c = None
            if x.kind in ("break", "return"):
                if len(bs) == 1 and bs[0].sort() == z3.IntSort():
                    before_c = bs[0] < sk[0]
                else:
                    f = self.fresh_fn("before", *([b.sort() for b in bs] + [z3.BoolSort()]))
                    before_c = f(*bs)
                    xs.assume(Not(f(*sk)))
                xs.assume(ForAll(bs, Implies(And(before_c, guard), Not(E))))
                for e in effects:
                    self.close_effect(xs, e, npc, bs, before_c, base)
            # the leaving iteration itself
            for cid, c in x.st.heap.items():
                if cid not in base.heap: xs.heap[cid] = vsub(c, prs) if not isinstance(c, (AliasC, FrozenC)) else FrozenC(vsub(c.c, prs)) if isinstance(c, FrozenC) else AliasC(vsub(c.ref, prs))
            for k, v in x.st.vars.items():
                if k not in base.vars or not same(v, base.vars[k]): xs.vars[k] = vsub(v, prs)
            if x.kind in ("break", "return"):
                for e in x.st.log:
                    if self.cell_level[e.cid] > self.depth: continue
                    pth = tuple(q if isinstance(q, str) else subst(q, prs) for q in e.path)
                    a2 = self.args_sub(e.args, prs)
                    cnd = subst(And(list(e.pc[npc:])), prs)
                    xs.heap[e.cid] = self.apply(xs, xs.heap[e.cid], pth, e.op, a2, cnd, e.bs)
                    if self.cell_level[e.cid] < self.depth:
                        xs.log.append(Effect(e.cid, pth, e.op, a2, xs.pc + (cnd,), e.bs))
            nx = Exit(x.kind, xs, vsub(x.value, prs) if isinstance(x.value, V) else x.value, x.where)
            (breaks if x.kind == "break" else self.exits).append(nx)
        # normal completion
        if not z3.is_false(E):
            st.assume(ForAll(bs, Not(E)))
        for e in effects:
            self.close_effect(st, e, npc, bs, TRUE, base)
        if part.key is not None and len(bs) == 1 and bs[0].sort() == z3.IntSort() and not s.dead:
            for e in effects:          # one unconditional append per iteration: the list is indexed like the iterated sequence
                old = base.heap.get(e.cid)
                if e.op != "append" or e.path or e.bs or len([q for q in effects if q.cid == e.cid]) != 1: continue
                if not (isinstance(old, ListC) and not old.parts): continue
                rel_e, rel_s = list(e.pc[npc:]), list(s.pc[npc:])
                if len(rel_e) > len(rel_s) or not all(x.eq(y) for x, y in zip(rel_e, rel_s)): continue
                now = st.heap[e.cid]
                if isinstance(now, ListC) and len(now.parts) == 1 and len(now.parts[0].bs) == 1:
                    q = now.parts[0]
                    st.heap[e.cid] = ListC([Part(q.bs, subst(part.guard, [(bs[0], q.bs[0])]), q.elem, part.key)], now.kind)
            for cid in {e.cid for e in effects}:    # exactly one of several appends in each iteration: likewise
                es, old, now = [e for e in effects if e.cid == cid], base.heap.get(cid), st.heap[cid]
                if len(es) < 2 or any(e.op != "append" or e.path or e.bs for e in es) or not (isinstance(old, ListC) and not old.parts): continue
                if not (isinstance(now, ListC) and len(now.parts) == len(es) and all(len(q.bs) == 1 and q.key is None for q in now.parts)): continue
                g = [subst(q.guard, [(q.bs[0], bs[0])]) for q in now.parts]
                one = [Or(g)] + [Not(And(x, y)) for i, x in enumerate(g) for y in g[:i]]
                if not self.surely(st, Implies(And([part.guard] + list(s.pc[npc:])), And(one)), 2000): continue
                v = vsub(now.parts[-1].elem, [(now.parts[-1].bs[0], bs[0])])
                for q, x in list(zip(now.parts, g))[-2::-1]: v = mk_ite(x, vsub(q.elem, [(q.bs[0], bs[0])]), v)
                st.heap[cid] = ListC([part_fresh(Part(list(bs), part.guard, v, part.key))], now.kind)
        for k in mod_vars:
            init = base.vars[k]
            if s.dead or k not in s.vars: continue
            new = s.vars[k]
            st.vars[k] = self.carried_result(st, init, hv.get(k), new, bs, guard, And(list(s.pc[npc:])))
        return breaks

    def separate(self, bs, read, e):
        """the read cannot see what the effect does in another iteration: different attributes, or both under the iteration's own key"""
        full = tuple(e.path)
        if e.op in ("set", "setidx") and z3.is_expr(e.args[0]) or e.op == "del" and z3.is_expr(e.args[0]) and e.args[0].sort() == U or e.op in ("attr", "delattr"):
            full += (e.args[0],)
        own = []                                # both lie under the iteration's own key: these binders, together all of them
        for p, q in zip(read, full):
            if isinstance(p, str) or isinstance(q, str):
                if isinstance(p, str) and isinstance(q, str):
                    if p == q: continue
                    return True
                return False
            if not p.eq(q): return False
            own += [b for b in bs if p.eq(b)]
            if all(any(b.eq(x) for x in own) for b in bs): return True
            if mentions(p, bs) and not any(p.eq(b) for b in bs): return False
        return False

    def effect_depth(self, st, e):
        """the depth of the outermost container whose own entries the effect may change (reads above it are unaffected)"""
        n = len(e.path) - (1 if e.op in ("touch", "aug", "assign") else 0)
        c = st.heap.get(e.cid)
        st = st.fork(); st.pc = e.pc
        try:
            for i, p in enumerate(e.path[:n]):
                if isinstance(c, FrozenC) or isinstance(c, AliasC): return 0
                if not isinstance(c, (MapC, SeqC, ListC, ObjC, UnionC)) or self.has_default(c): return i
                c = self.step(st, c, p)
        except (Unsupported, KeyError, AttributeError): return 0
        return n

    def has_default(self, c):
        if isinstance(c, UnionC): return self.has_default(c.a) or self.has_default(c.b)
        return isinstance(c, NoneC) or isinstance(c, MapC) and c.default is not None

    def carried_result(self, st, init, h, new, bs, guard, endpc):
        """value of a loop-assigned variable after the loop"""
        # flag pattern: new == If(c(b), e, h), e independent of h and of the binders
        if h is not None and isinstance(new, Sym) and isinstance(h, Sym):
            if not mentions(new.t, [h.t]) if z3.is_const(h.t) else not self.has_sub(new.t, h.t):
                pass
            t = new.t
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = t.children()
                for cc, e, hh in ((c, a, b), (Not(c), b, a)):
                    if hh.eq(h.t) and not self.has_sub(e, h.t) and not self.has_sub(cc, h.t):
                        ex = Exists(bs, And(guard, cc))
                        if not mentions(e, bs): return mk_ite(ex, Sym(e), init)
                        sk = [self.fresh("last", x.sort()) for x in bs]
                        self.axiom(Implies(ex, subst(And(guard, cc), list(zip(bs, sk)))))
                        return mk_ite(ex, Sym(subst(e, list(zip(bs, sk)))), init)
            if t.sort() == z3.BoolSort() and h.t.sort() == z3.BoolSort():
                for val in (True, False):      # and-fold / or-fold:  new == h and X  /  h or X
                    X = z3.simplify(z3.substitute(t, (h.t, z3.BoolVal(val))))
                    oth = z3.simplify(z3.substitute(t, (h.t, z3.BoolVal(not val))))
                    if val and z3.is_false(oth): return Sym(And(raw(init), ForAll(bs, Implies(guard, X))))
                    if not val and z3.is_true(oth): return Sym(Or(raw(init), Exists(bs, And(guard, X))))
            if t.sort() == z3.IntSort() and h.t.sort() == z3.IntSort():
                d = z3.simplify(t - h.t)
                if not self.has_sub(d, h.t) and isinstance(init, (Con, Sym)):
                    return Sym(self.as_int(st, init) + self.B.summation(self, bs, And(guard, endpc), Sym(d)))
        # otherwise: the value of some (last) iteration, or the initial one
        try:
            ex = Exists(bs, And(guard, endpc))
            sk = [self.fresh("last", x.sort()) for x in bs]
            prs = list(zip(bs, sk))
            self.axiom(Implies(ex, subst(And(guard, endpc), prs)))
            return mk_ite(ex, vsub(new, prs), init)
        except Unsupported:
            return self.havoc_value(st, init, "after")

    @staticmethod
    def has_sub(t, s):
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.eq(s): return True
            todo.extend([x.body()] if z3.is_quantifier(x) else x.children())
        return False

    def close_effect(self, st, e, npc, bs, extra, base):
        """apply 'for all iterations bs with extra: effect e' to st; propagate to enclosing loops"""
        cond = And(And(list(e.pc[npc:])), extra)
        allb = list(bs) + list(e.bs)
        # fresh binders, so that closed forms of different loops never share them
        nb = [fresh_const(str(b).split("!")[0], b.sort()) for b in allb]
        prs = list(zip(allb, nb))
        cond = subst(cond, prs)
        path = tuple(q if isinstance(q, str) else subst(q, prs) for q in e.path)
        args = self.args_sub(e.args, prs)
        st.heap[e.cid] = self.apply(st, st.heap[e.cid], path, e.op, args, cond, nb)
        if self.cell_level[e.cid] < self.depth:
            st.log.append(Effect(e.cid, path, e.op, args, base.pc + (cond,), nb))

    # ------------------------------------------------------------------ classes
    def mro(self, cls):
        out, seen = [], set()
        def walk(c):
            if id(c) in seen: return
            seen.add(id(c)); out.append(c)
            for b in c.bases:
                if isinstance(b, ClassV): walk(b)
        walk(cls)
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if c.node is not None:
                for n in c.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        return Fn(n, c.frames, c.module, (c.name + "." + name), cls=c)
        return None

    def base_kind(self, cls):
        for c in self.mro(cls):
            if c.node is None and c.name in ("dict", "list", "object", "set", "Exception"):
                if c.name != "object": return c.name
        return "object"

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, kwargs):
        if isinstance(f, Ite):
            k = st.knows(f.c)
            if k is not None: return self.call(st, f.a if k else f.b, args, kwargs)
            return self.branch(st, f.c, lambda s: self.call(s, f.a, args, kwargs), lambda s: self.call(s, f.b, args, kwargs))
        if isinstance(f, Prim): return f.f(self, st, args, kwargs)
        if isinstance(f, Fn): return self.call_fn(st, f, args, kwargs)
        if isinstance(f, BoundFn): return self.call_fn(st, f.fn, [f.recv] + list(args), kwargs)
        if isinstance(f, Bound): return self.B.method(self, st, f.recv, f.name, list(args), dict(kwargs))
        if isinstance(f, ClassV): return self.construct(st, f, args, kwargs)
        if isinstance(f, Model): return f.call(self, st, list(args), dict(kwargs))
        if isinstance(f, Con):
            self.raise_(st, "TypeError"); return Con(None)
        raise Unsupported("call of %s" % type(f).__name__)

    def branch(self, st, c, fa, fb):
        """value-producing branch with state merging"""
        if z3.is_true(c): return fa(st)
        if z3.is_false(c): return fb(st)
        s1, s2 = st.fork(), st.fork()
        s1.assume(c); s2.assume(Not(c))
        va = vb = Con(None)
        if not s1.dead: va = self.guarded(s1, fa)
        if not s2.dead: vb = self.guarded(s2, fb)
        m = self.merge(st, s1, s2, c)
        d1, d2 = s1.dead, s2.dead
        st.become(m)
        if d1: return vb
        if d2: return va
        return mk_ite(c, va, vb)

    def guarded(self, st, f):
        try:
            return f(st)
        except Unsupported as e:
            self.unsupported(st, str(e))
            return Con(None)

    def surely(self, st, c, ms=400):
        """does the path condition imply c?  (a quick solver call; False means 'not shown')"""
        if st.knows(c) is not None: return st.knows(c)
        if z3.simplify(c).get_id() in {z3.simplify(p).get_id() for p in st.pc}: return True
        s = z3.Solver(); s.set("timeout", ms)
        for p in st.pc: s.add(p)
        s.add(Not(c))
        return s.check() == z3.unsat

    def mutable_touch(self, st, r):
        return not isinstance(st.heap[r.cid], FrozenC)

    def construct(self, st, cls, args, kwargs):
        if cls.node is None and cls.fields is None and cls.name in self.B.CONSTRUCT:
            return self.B.CONSTRUCT[cls.name](self, st, args, kwargs)
        q = cls.module and (cls.module.name + "." + cls.name)
        if q and (q + ".__new__") in self.overrides:
            return self.overrides[q + ".__new__"](self, st, args, kwargs)
        if cls.fields is not None and cls.node is None:
            return self.make_record(cls, args, kwargs)
        rec = [c for c in self.mro(cls) if c.fields is not None]
        if rec:
            return self.make_record(cls, args, kwargs, rec[0].fields)
        if self.is_exception(cls): return Exc(cls.name, args)
        if cls.node is None: raise Unsupported("construction of %s" % cls.name)
        bk = self.base_kind(cls)
        attrs = {}
        if bk == "dict": attrs["%map"] = EMPTY_MAP()
        ref = self.alloc(st, ObjC(cls, attrs))
        init = self.find_method(cls, "__init__")
        if init is not None:
            self.call_fn(st, init, [ref] + list(args), kwargs)
        elif bk == "dict":
            self.B.builtin_dict_init(self, st, ref, args, kwargs)
        elif args:
            raise Unsupported("constructor arguments of %s" % cls.name)
        return ref

    def is_exception(self, cls):
        return any(c.name in ("Exception", "BaseException", "TicDatError") for c in self.mro(cls))

    def make_record(self, cls, args, kwargs, fields=None):
        fields = fields or cls.fields
        vals = list(args) + [None] * (len(fields) - len(args))
        for k, v in kwargs.items():
            if k not in fields: raise Unsupported("namedtuple field %s" % k)
            vals[fields.index(k)] = v
        if any(v is None for v in vals): raise Unsupported("namedtuple argument missing")
        return Tup(vals, cls, tuple(fields))

    def call_fn(self, st, fn, args, kwargs):
        q = fn.module.name + "." + fn.qual
        if q in self.overrides:
            return self.overrides[q](self, st, args, kwargs)
        if q in self.recursive and q in self.cur:      # induction hypothesis: the contract of the function itself
            return self.recursive[q](self, st, args, kwargs)
        if q in self.cur and self.surely(st, FALSE, 2000):      # unfolding stops where the path is impossible
            st.dead = True; st.pc += (FALSE,)
            return Con(None)
        if self.fn_depth > 40: raise Unsupported("call depth (recursion without a contract): %s" % q)
        self.executed.add(q)
        node = fn.node
        fid = self.new_frame()
        self.bind(st, fn, fid, args, kwargs)
        if st.dead: return Con(None)
        frames = (fid,) + tuple(fn.frames)
        if isinstance(node, ast.Lambda):
            self.fn_depth += 1
            try: return self.ev(st, node.body, frames, fn)
            finally: self.fn_depth -= 1
        if self.is_generator(node): return self.run_generator(st, fn, node, frames)
        base = st.fork()
        outer = self.capture()
        self.fn_depth += 1
        self.cur.append(q)
        try:
            self.block(st, node.body, frames, fn)
        finally:
            self.cur.pop()
            self.fn_depth -= 1
            mine, self.exits = self.exits, outer
        if not st.dead:
            mine.append(Exit("return", st.fork(), Con(None)))
        rets = [x for x in mine if x.kind == "return"]
        self.exits += [x for x in mine if x.kind != "return"]
        if not rets:
            st.dead = True; st.pc += (FALSE,)
            return Con(None)
        s = rets[-1].st
        val = rets[-1].value
        n = len(base.pc)
        for x in reversed(rets[:-1]):
            c = And(list(x.st.pc[n:]))
            val = mk_ite(c, x.value, val)
            s = self.merge(base, x.st, s, c)
        s.dead = False
        st.become(s.fork())
        return val

    @staticmethod
    def is_generator(node):
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)): continue
            todo.extend(ast.iter_child_nodes(n))
        return False

    def run_generator(self, st, fn, node, frames):
        acc = self.alloc(st, EMPTY_LIST())
        base = st.fork()
        outer = self.capture()
        self.cur.append(fn.qual)
        st.vars[(frames[0], "%yield")] = acc
        try: self.block(st, node.body, frames, fn)
        finally:
            self.cur.pop()
            mine, self.exits = self.exits, outer
        rets = [x for x in mine if x.kind == "return"]
        self.exits += [x for x in mine if x.kind != "return"]
        if rets:
            s, _ = self.join_exits(st, base, rets)
            st.become(s)
        return IterV(self.content(st, acc))

    def bind(self, st, fn, fid, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args, kwargs = list(args), dict(kwargs)
        vals = {}
        for n, v in zip(names, args): vals[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(st, "TypeError"); return
            vals[a.vararg.arg] = Tup(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = Tup([])
        star = kwargs.pop("**", None)
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg is not None: extra[k] = v
            else:
                self.raise_(st, "TypeError"); return
        if a.kwarg is not None:
            if star is not None and not extra: vals[a.kwarg.arg] = star
            elif star is None:
                c = EMPTY_MAP()
                for k, v in extra.items():
                    c = self.apply(st, c, (), "set", (to_u(Con(k)), self.own(st, v)), TRUE, [])
                vals[a.kwarg.arg] = self.alloc(st, c)
            else: raise Unsupported("mixed keyword arguments")
        elif star is not None: raise Unsupported("** call")
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
               [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defs:
            if n not in vals: vals[n] = self.ev(st, d, tuple(fn.frames), fn)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                self.raise_(st, "TypeError"); return
        for n, v in vals.items(): st.vars[(fid, n)] = v

    # ------------------------------------------------------------------ statements
    def block(self, st, stmts, frames, fn):
        for s in stmts:
            if st.dead: return
            try:
                self.stmt(st, s, frames, fn)
            except Unsupported as e:
                self.unsupported(st, "%s (%s:%s)" % (e, fn.module.name, getattr(s, "lineno", "?")))
                return

    def stmt(self, st, s, frames, fn):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(s).__name__)
        m(st, s, frames, fn)

    def s_Pass(self, st, s, frames, fn): pass
    def s_Import(self, st, s, frames, fn):
        for a in s.names: st.vars[(frames[0], a.asname or a.name.split(".")[0])] = self.import_(a.name if a.asname else a.name.split(".")[0])
    def s_ImportFrom(self, st, s, frames, fn):
        for a in s.names: st.vars[(frames[0], a.asname or a.name)] = self.import_from(s.module, a.name)
    def s_Global(self, st, s, frames, fn): raise Unsupported("global")
    def s_Nonlocal(self, st, s, frames, fn): self.nonlocals.setdefault(frames[0], set()).update(s.names)

    def s_Expr(self, st, s, frames, fn):
        if isinstance(s.value, ast.Constant): return
        if isinstance(s.value, ast.Yield):
            v = self.ev(st, s.value.value, frames, fn)
            for f in frames:
                if (f, "%yield") in st.vars:
                    self.mutate(st, st.vars[(f, "%yield")], "append", (v,)); return
        self.ev(st, s.value, frames, fn)

    def s_Return(self, st, s, frames, fn):
        v = Con(None) if s.value is None else self.ev(st, s.value, frames, fn)
        self.exit("return", st, v)

    def s_Raise(self, st, s, frames, fn):
        if s.exc is None:
            self.raise_(st, "reraise"); return
        v = self.ev(st, s.exc, frames, fn)
        if isinstance(v, ClassV): v = Exc(v.name)
        self.exit("raise", st, v if isinstance(v, Exc) else Exc("Exception"))

    def s_Assert(self, st, s, frames, fn):
        c = self.truthy(st, self.ev(st, s.test, frames, fn))
        if z3.is_true(c): return
        self.exit("raise", st, Exc("AssertionError"), Not(c), "assert line %d" % s.lineno)

    def s_Break(self, st, s, frames, fn): self.exit("break", st)
    def s_Continue(self, st, s, frames, fn): self.exit("continue", st)

    def s_If(self, st, s, frames, fn):
        c = self.truthy(st, self.ev(st, s.test, frames, fn))
        if st.dead: return
        c = self.simp_cond(st, c)
        if z3.is_true(c): return self.block(st, s.body, frames, fn)
        if z3.is_false(c): return self.block(st, s.orelse, frames, fn)
        s1, s2 = st.fork(), st.fork()
        s1.assume(c); s2.assume(Not(c))
        if not s1.dead: self.block(s1, s.body, frames, fn)
        if not s2.dead: self.block(s2, s.orelse, frames, fn)
        st.become(self.merge(st, s1, s2, c))

    def simp_cond(self, st, c):
        k = st.knows(c)
        if k is not None: return z3.BoolVal(k)
        if not z3.is_quantifier(c):
            d = z3.simplify(c)
            if z3.is_true(d) or z3.is_false(d): return d
            k = self.quick(st, d)
            if k is not None: return z3.BoolVal(k)
        return c

    def quick(self, st, c):
        """decides a small ground condition about the kind of a few values from the small ground facts about them"""
        cs = small_ground(c)
        if cs is None: return None
        facts = []
        for p in st.pc:
            q = small_ground(p)
            if q is not None and q & cs: facts.append(p)
        if not facts: return None
        for want, f in ((True, Not(c)), (False, c)):
            s = z3.Solver(); s.set("timeout", 100)
            s.add(facts); s.add(f)
            if s.check() == z3.unsat: return want
        return None

    def s_Assign(self, st, s, frames, fn):
        v = self.ev(st, s.value, frames, fn)
        if st.dead: return
        for t in s.targets: self.assign(st, t, v, frames, fn)

    def s_AnnAssign(self, st, s, frames, fn):
        if s.value is not None: self.assign(st, s.target, self.ev(st, s.value, frames, fn), frames, fn)

    def assign(self, st, t, v, frames, fn):
        if isinstance(t, ast.Name):
            fid = frames[0]
            if t.id in self.nonlocals.get(fid, ()):
                for f in frames[1:]:
                    if (f, t.id) in st.vars: fid = f; break
            st.vars[(fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts), t.elts)
            for e, x in zip(t.elts, items): self.assign(st, e, x, frames, fn)
        elif isinstance(t, ast.Subscript):
            c = self.ev(st, t.value, frames, fn)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None:
                    parts = self.iterate(st, v)
                    self.mutate(st, c, "assign", (ListC(parts),)); return
                raise Unsupported("slice assignment")
            k = self.ev(st, t.slice, frames, fn)
            if st.dead: return
            self.setitem(st, c, k, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(st, self.ev(st, t.value, frames, fn), t.attr, v)
        elif isinstance(t, ast.Starred): raise Unsupported("starred target")
        else: raise Unsupported("target %s" % type(t).__name__)

    def unpack(self, st, v, n, elts=None):
        if isinstance(v, Tup):
            if elts is not None and any(isinstance(e, ast.Starred) for e in elts): raise Unsupported("starred")
            if len(v.items) != n:
                self.raise_(st, "ValueError"); return [Con(None)] * n
            return v.items
        if isinstance(v, Ite):
            k = st.knows(v.c)
            if k is not None: return self.unpack(st, v.a if k else v.b, n, elts)
            r = self.branch(st, v.c, lambda s: Tup(list(self.unpack(s, v.a, n))), lambda s: Tup(list(self.unpack(s, v.b, n))))
            if isinstance(r, Tup): return r.items
            if isinstance(r, Ite) and isinstance(r.a, Tup) and isinstance(r.b, Tup): return [mk_ite(r.c, x, y) for x, y in zip(r.a.items, r.b.items)]
            return [Con(None)] * n
        if isinstance(v, Sym) and v.t.sort() == U:
            u = v.t
            self.raise_(st, "ValueError", Not(And(U.is_tup(u), TLEN(u) == n)))
            if n > 5: return [Sym(TGET(u, z3.IntVal(i))) for i in range(n)]
            shape, items = cons_shape(u, n)
            self.axiom(And(Implies(U.is_tup(u), (TLEN(u) == n) == shape), Implies(shape, And([TGET(u, z3.IntVal(i)) == x for i, x in enumerate(items)]))))
            st.assume(shape)
            return [Sym(z3.simplify(x)) for x in items]
        s = self.seq_of(st, v)
        if s is not None:
            c = self.as_seqc(s[0])
            if c is None: raise Unsupported("unpacking a filtered sequence")
            self.raise_(st, "ValueError", z3.simplify(c.n != n))
            ref = v if isinstance(v, Ref) else None
            return [self.view(st, ref, z3.IntVal(i), c.at(z3.IntVal(i))) if ref is not None else c.at(z3.IntVal(i)) for i in range(n)]
        if isinstance(v, Model) and hasattr(v, "unpack_"): return v.unpack_(self, st, n)
        raise Unsupported("unpacking %s" % type(v).__name__)

    def s_AugAssign(self, st, s, frames, fn):
        op = self.OPS[type(s.op)]
        e = self.ev(st, s.value, frames, fn)
        if isinstance(s.target, ast.Name):
            cur = self.name(st, s.target.id, frames, fn)
            if isinstance(cur, Ref):
                c = self.content(st, cur)
                if op == "+" and isinstance(c, (ListC, SeqC)):
                    self.mutate(st, cur, "extend", (ListC(self.iterate(st, e)),)); return
                if op == "|" and isinstance(c, SetC):
                    self.mutate(st, cur, "union", (self.to_set(st, e),)); return
                if op == "|" and isinstance(c, ObjC):
                    m = self.find_method(c.cls, "__ior__")
                    if m is not None:
                        self.assign(st, s.target, self.call_fn(st, m, [cur, e], {}), frames, fn); return
                    if "%map" in c.attrs:
                        self.B.base_method(self, st, cur, "update", [e], {}); return
            self.assign(st, s.target, self.binop(st, op, cur, e), frames, fn)
        elif isinstance(s.target, ast.Subscript):
            c = self.ev(st, s.target.value, frames, fn)
            k = self.ev(st, s.target.slice, frames, fn)
            if isinstance(c, Ite):
                kn = st.knows(c.c)
                if kn is not None: c = c.a if kn else c.b
            if isinstance(c, Ref):
                ct = self.content(st, c, note=False)
                if isinstance(ct, MapC) and ct.default is not None and op == "+":
                    r = self.deref(st, c)
                    self.mutate(st, Ref(r.cid, r.path + (to_u(k),)), "aug", (op, e)); return
            cur = self.getitem(st, c, k)
            if st.dead: return
            self.setitem(st, c, k, self.binop(st, op, cur, e))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(st, s.target.value, frames, fn)
            self.setattr_(st, o, s.target.attr, self.binop(st, op, self.getattr_(st, o, s.target.attr), e))

    def s_Delete(self, st, s, frames, fn):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                c = self.ev(st, t.value, frames, fn)
                k = self.ev(st, t.slice, frames, fn)
                self.B.delitem(self, st, c, k)
            elif isinstance(t, ast.Name):
                st.vars.pop((frames[0], t.id), None)
            elif isinstance(t, ast.Attribute):
                self.B.delattr_(self, st, self.ev(st, t.value, frames, fn), t.attr)
            else: raise Unsupported("del target")

    def s_For(self, st, s, frames, fn):
        it = self.ev(st, s.iter, frames, fn)
        if st.dead: return
        parts = [self.shaped_part(st, p, s.target) for p in self.iterate(st, it)]
        def body(s2, elem):
            try: self.assign(s2, s.target, elem, frames, fn)
            except Unsupported as e:
                self.unsupported(s2, str(e)); return
            if not s2.dead: self.block(s2, s.body, frames, fn)
        orelse = (lambda s2: self.block(s2, s.orelse, frames, fn)) if s.orelse else None
        self.run_loop(st, parts, body, orelse)

    def shaped_part(self, st, p, target):
        """a loop target (a, b) says that an opaque element is a pair: name the components, so that effects keyed by them stay solvable"""
        found = []
        def walk(v, t):
            if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts): return
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for x, y in zip(v.items, t.elts): walk(x, y)
            elif isinstance(v, Sym) and v.t.sort() == U and any(v.t.eq(b) for b in p.bs) and len(t.elts) <= 5: found.append((v.t, len(t.elts)))
        walk(p.elem, target)
        for b, n in found:
            shape, items = cons_shape(b, n)
            x = fresh_const("x", U)
            self.axioms.append(z3.ForAll([x], Implies(U.is_tup(x), (TLEN(x) == n) == cons_shape(x, n)[0]), patterns=[TLEN(x)]))
            self.raise_(st, "ValueError", Exists(p.bs, And(p.guard, Not(shape))))
            cs = [fresh_const("c", U) for _ in range(n)]
            prs = [(b, tup_u(cs))]
            new = [q for q in p.bs if not q.eq(b)] + cs
            p = Part(new, And([z3.simplify(x) for x in flatten_and(subst(p.guard, prs))]), vsub(p.elem, prs), None)
        return p

    def s_While(self, st, s, frames, fn):
        q = fn.module.name + "." + fn.qual
        n = [w for w in ast.walk(fn.node) if isinstance(w, ast.While)]
        n.sort(key=lambda w: (w.lineno, w.col_offset))
        key = (q, n.index(s))
        inv = self.while_invariants.get(key)
        if inv is None: raise Unsupported("while loop without invariant in %s" % q)
        inv(self, st, s, frames, fn)

    def while_rule(self, st, s, frames, fn, invariant, variant=None, name="loop"):
        """classical rule; invariant(get) -> list of (label, formula) where get(name) reads a variable of the state.
        Variables assigned in the loop are havocked (ints stay ints)."""
        names = sorted({t.id for n in ast.walk(ast.Module(s.body, [])) for t in ast.walk(n) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)})
        fid = frames[0]
        muts = set()
        get0 = lambda q, stx: self.name(stx, q, frames, fn)
        for label, f in invariant(lambda q: get0(q, st), st):
            self.oblige("%s/%s/init/%s" % (fn.qual, name, label), st, f)
        # which cells are mutated: one dry execution
        dry = st.fork(); outer = self.capture()
        self.depth += 1
        dry.log = []
        old_ob, self.obligations = self.obligations, []
        try: self.block(dry, s.body, frames, fn)
        finally:
            self.depth -= 1
            mine, self.exits = self.exits, outer
            self.obligations = old_ob
        cells = {e.cid for x in [dry] + [m.st for m in mine] for e in x.log}
        h = st.fork()
        for q in names:
            if (fid, q) in h.vars: h.vars[(fid, q)] = self.havoc_value(h, h.vars[(fid, q)], q)
        for f, q in list(h.vars):
            if f == "ghost": h.vars[(f, q)] = self.havoc_value(h, h.vars[(f, q)], q)
        for c in cells: h.heap[c] = self.havoc_content(h, h.heap[c])
        for label, f in invariant(lambda q: get0(q, h), h): h.assume(f)
        c = self.truthy(h, self.ev(h, s.test, frames, fn))
        bodyst = h.fork(); bodyst.assume(c)
        v0 = variant(lambda q: get0(q, bodyst), bodyst) if variant else None
        outer = self.capture()
        if not bodyst.dead: self.block(bodyst, s.body, frames, fn)
        mine, self.exits = self.exits, outer
        conts = [x for x in mine if x.kind == "continue"]
        breaks = [x for x in mine if x.kind == "break"]
        self.exits += [x for x in mine if x.kind not in ("continue", "break")]
        if conts: bodyst, _ = self.join_exits(bodyst, h, conts)
        if not bodyst.dead:
            for label, f in invariant(lambda q: get0(q, bodyst), bodyst):
                self.oblige("%s/%s/preserve/%s" % (fn.qual, name, label), bodyst, f)
            if variant:
                v1 = variant(lambda q: get0(q, bodyst), bodyst)
                self.oblige("%s/%s/terminates" % (fn.qual, name), bodyst, And(v1 < v0, v0 >= 0))
        after = h.fork(); after.assume(Not(c))
        if breaks: after, _ = self.join_exits(after, h, breaks)
        st.become(after)

    obligations = []
    def oblige(self, name, st, f):
        self.obligations.append((name, st.pc, f))

    def s_FunctionDef(self, st, s, frames, fn):
        if s.decorator_list: raise Unsupported("decorated nested function")
        st.vars[(frames[0], s.name)] = Fn(s, frames, fn.module, fn.qual + "." + s.name)

    def s_ClassDef(self, st, s, frames, fn):
        bases = [self.ev(st, b, frames, fn) for b in s.bases]
        st.vars[(frames[0], s.name)] = ClassV(s.name, s, fn.module, frames, None, tuple(bases))

    def s_Try(self, st, s, frames, fn):
        base = st.fork()
        outer = self.capture()
        self.block(st, s.body, frames, fn)
        mine, self.exits = self.exits, outer
        if not st.dead and s.orelse: self.block(st, s.orelse, frames, fn)
        if s.finalbody: raise Unsupported("try/finally")
        n = len(base.pc)
        for x in mine:
            if x.kind != "raise":
                self.exits.append(x); continue
            h = self.matching_handler(s.handlers, x.value, frames, fn, st)
            if h is None:
                self.exits.append(x); continue
            hs = x.st
            c = And(list(hs.pc[n:]))
            if h.name: hs.vars[(frames[0], h.name)] = x.value
            hs.dead = False
            self.block(hs, h.body, frames, fn)
            if not hs.dead:
                if st.dead: st.become(hs)
                else: st.become(self.merge(base, hs, st, c))

    def matching_handler(self, handlers, exc, frames, fn, st):
        cls = exc.cls if isinstance(exc, Exc) else "Exception"
        for h in handlers:
            if h.type is None: return h
            names = [t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if "Exception" in names or "BaseException" in names or cls in names: return h
            if cls in ("UserException", "AnyException"):
                raise Unsupported("handler %s against an arbitrary exception" % names)
        return None

    def s_With(self, st, s, frames, fn):
        for it in s.items:
            v = self.ev(st, it.context_expr, frames, fn)
            if it.optional_vars is not None: self.assign(st, it.optional_vars, v, frames, fn)
        self.block(st, s.body, frames, fn)

    # ------------------------------------------------------------------ expressions
    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&", ast.Pow: "**", ast.BitXor: "^"}

    def ev(self, st, e, frames, fn):
        if st.dead: return Con(None)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(e).__name__)
        return m(st, e, frames, fn)

    def e_Constant(self, st, e, frames, fn): return Con(e.value)
    def e_Name(self, st, e, frames, fn): return self.name(st, e.id, frames, fn)

    def name(self, st, n, frames, fn):
        for f in frames:
            v = st.vars.get((f, n))
            if v is not None:
                if isinstance(v, Ite): v = self.bound_part(st, v)
                if v is UNBOUND:
                    self.raise_(st, "UnboundLocalError"); return Con(None)
                return v
        return self.global_name(n, fn.module)

    def bound_part(self, st, v):
        if isinstance(v, Ite):
            a, b = self.bound_part(st, v.a), self.bound_part(st, v.b)
            if a is UNBOUND and b is not UNBOUND:
                self.raise_(st, "UnboundLocalError", v.c); return b
            if b is UNBOUND and a is not UNBOUND:
                self.raise_(st, "UnboundLocalError", Not(v.c)); return a
            return v if (a is v.a and b is v.b) else mk_ite(v.c, a, b)
        return v

    def global_name(self, n, mod):
        key = mod.name + "." + n
        if key in self.ext: return self.ext[key]
        if n in mod.defs:
            d = mod.defs[n]
            if isinstance(d, ast.FunctionDef): return Fn(d, (), mod, n)
            return self.class_of(mod, n, d)
        if n in mod.imports:
            m, a = mod.imports[n]
            return self.import_(m) if a is None else self.import_from(m, a)
        if n in mod.assigns: return self.global_assign(mod, n)
        if n in self.B.BUILTINS: return self.B.BUILTINS[n]
        raise Unsupported("global name %s" % n)

    recursive = {}
    join_rule = None            # what the contract knows of joining a sequence of texts
    loop_rule = None            # a contract's own rule (invariant) for loops over a family
    opaque_text = False         # joined text as an uninterpreted function of its pieces
    string_keys = None          # a predicate that implies being a string (a class invariant of the contract)
    count_unique = False        # state what a count of at most one means
    global_st = None
    float_rounding = False
    def prepare(self, st):
        """module level objects made by calls of module functions (closures live in the initial state)"""
        m = source.module("utils")
        self.global_st = st
        try:
            for n, v in m.assigns.items():
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in m.defs:
                    self.global_assign(m, n)
        finally: self.global_st = None
        self.executed.clear()

    _gcache = None
    def global_assign(self, mod, n):
        if self._gcache is None: self._gcache = {}
        if (mod.name, n) not in self._gcache:
            s = self.global_st if self.global_st is not None else St()
            old, self.exits = self.exits, []
            ob, self.binders = self.binders, []
            dp, self.depth = self.depth, 0
            v = self.ev(s, mod.assigns[n], (), Fn(ast.parse("def f(): pass").body[0], (), mod, "<module>"))
            self.exits, self.binders, self.depth = old, ob, dp
            if isinstance(v, Ref): raise Unsupported("mutable module global %s" % n)
            self._gcache[(mod.name, n)] = v
        return self._gcache[(mod.name, n)]

    _ccache = None
    def class_of(self, mod, n, d):
        if self._ccache is None: self._ccache = {}
        if (mod.name, n) not in self._ccache:
            bases = []
            fake = Fn(ast.parse("def f(): pass").body[0], (), mod, "<module>")
            for b in d.bases:
                try:
                    s = St(); old, self.exits = self.exits, []
                    bases.append(self.ev(s, b, (), fake))
                    self.exits = old
                except Unsupported:
                    bases.append(ClassV("object"))
            self._ccache[(mod.name, n)] = ClassV(n, d, mod, (), None, tuple(bases))
        return self._ccache[(mod.name, n)]

    def import_(self, name):
        if name == "ticdat": return Mod("ticdat")
        if name.startswith("ticdat."): return Mod(name, source.module(name.split(".")[1]))
        return Mod(name)

    def import_from(self, m, a):
        if m == "ticdat":
            import os
            if os.path.exists(os.path.join(source.REPO, "ticdat", a + ".py")): return Mod("ticdat." + a, source.module(a))
            return self.mod_attr(Mod("ticdat"), a)
        if m.startswith("ticdat."):
            return self.global_name(a, source.module(m.split(".")[1]))
        return self.extern(m + "." + a)

    def mod_attr(self, mod, name):
        if mod.mod is not None: return self.global_name(name, mod.mod)
        if mod.name == "ticdat":
            where = {"TicDatFactory": "ticdatfactory", "PanDatFactory": "pandatfactory"}.get(name)
            if where: return self.global_name(name, source.module(where))
            import os
            if os.path.exists(os.path.join(source.REPO, "ticdat", name + ".py")): return Mod("ticdat." + name, source.module(name))
            raise Unsupported("ticdat." + name)
        return self.extern(mod.name + "." + name)

    def extern(self, dotted):
        self.extern_used.add(dotted)
        if dotted in self.ext: return self.ext[dotted]
        if dotted in self.B.EXTERN: return self.B.EXTERN[dotted]
        if dotted.split(".")[-1][:1].isupper(): return ClassV(dotted)
        return Mod(dotted)

    def e_Attribute(self, st, e, frames, fn):
        return self.getattr_(st, self.ev(st, e.value, frames, fn), e.attr)

    def getattr_(self, st, o, name):
        for h in self.attr_hooks:
            r = h(self, st, o, name)
            if r is not None: return r
        if isinstance(o, Ite):
            k = st.knows(o.c)
            if k is not None: return self.getattr_(st, o.a if k else o.b, name)
            return self.branch(st, o.c, lambda s: self.getattr_(s, o.a, name), lambda s: self.getattr_(s, o.b, name))
        if isinstance(o, Mod): return self.mod_attr(o, name)
        if isinstance(o, Tup) and o.fields is not None:
            if name in o.fields: return o.items[o.fields.index(name)]
            if o.cls is not None:
                m = self.find_method(o.cls, name)
                if m is not None: return BoundFn(o, m)
        if isinstance(o, Model): return o.attr(self, st, name)
        if isinstance(o, ClassV):
            m = self.find_method(o, name)
            if m is not None:
                return m
            return self.B.class_attr(self, st, o, name)
        if isinstance(o, Ref):
            c = self.content(st, o, note=False)
            self.content(st, o, note="kind" if isinstance(c, (MapC, SetC, ListC, SeqC)) else "shallow")
            if isinstance(c, ObjC):
                return self.obj_attr(st, o, c, name)
            if isinstance(c, UnionC): return Bound(o, name)
            if self.B.has_method(c, name): return Bound(o, name)
            self.raise_(st, "AttributeError"); return Con(None)
        if isinstance(o, (Con, Sym, SeqV, IterV, Tup)):
            return Bound(o, name)
        if isinstance(o, Fn) and name == "__name__": return Con(getattr(o.node, "name", "<lambda>"))
        if isinstance(o, Exc): return Con(None)
        if isinstance(o, BoundFn) or isinstance(o, Fn): raise Unsupported("function attribute %s" % name)
        if isinstance(o, Prim): return Bound(o, name)
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def obj_attr(self, st, o, c, name):
        if name in c.attrs:
            v = c.attrs[name]
            if isinstance(v, Content): return self.view(st, o, name, v)
            v = self.bound_attr(st, v)
            return v
        if c.cls is not None:
            m = self.find_method(c.cls, name)
            if m is not None:
                if any(isinstance(d, ast.Name) and d.id == "property" for d in m.node.decorator_list):
                    return self.call_fn(st, self.undeco(m), [o], {})
                if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.node.decorator_list):
                    return self.undeco(m)
                return BoundFn(o, m)
            if name == "__class__": return c.cls
            if "%map" in c.attrs and self.B.has_method(EMPTY_MAP(), name): return Bound(o, name)
            if name in ("__setattr__", "__delattr__"): return Bound(o, name)
        if c.dyn is not None:
            u = to_u(Con(name))
            self.raise_(st, "AttributeError", Not(c.dyn.dom(u)))
            return self.view(st, o, u, c.dyn.get(u))
        self.raise_(st, "AttributeError", TRUE, "attribute %s" % name)
        return Con(None)

    @staticmethod
    def undeco(m): return m

    def bound_attr(self, st, v):
        if isinstance(v, Ite):
            r = self.unbound_cond(v)
            if not z3.is_false(r):
                self.raise_(st, "AttributeError", r)
                return self.strip_unbound(v)
        return v

    def unbound_cond(self, v):
        if v is UNBOUND: return TRUE
        if isinstance(v, Ite): return If(v.c, self.unbound_cond(v.a), self.unbound_cond(v.b))
        return FALSE

    def strip_unbound(self, v):
        if isinstance(v, Ite):
            a, b = self.strip_unbound(v.a), self.strip_unbound(v.b)
            if a is UNBOUND: return b
            if b is UNBOUND: return a
            return mk_ite(v.c, a, b)
        return v

    def setattr_(self, st, o, name, v):
        if isinstance(o, Ite):
            k = st.knows(o.c)
            if k is None: raise Unsupported("attribute store on alternatives")
            return self.setattr_(st, o.a if k else o.b, name, v)
        if isinstance(o, Model): return o.set_attr(self, st, name, v)
        if isinstance(o, Ref):
            c = self.content(st, o, note=False)
            if isinstance(c, ObjC):
                m = self.find_method(c.cls, "__setattr__") if c.cls is not None else None
                if m is not None:
                    self.call_fn(st, m, [o, Con(name), v], {}); return
                self.raw_setattr(st, o, name, v); return
        raise Unsupported("attribute store on %s" % type(o).__name__)

    def raw_setattr(self, st, o, name, v):
        r = self.deref(st, o)
        self.mutate(st, o, "attr", (name, self.own(st, v, Ref(r.cid, r.path + (name,)))))

    def e_Tuple(self, st, e, frames, fn):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return SeqV(ListC(self.star_parts(st, e.elts, frames, fn), "tuple"))
        return Tup([self.ev(st, x, frames, fn) for x in e.elts])

    def star_parts(self, st, elts, frames, fn):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred): parts += self.iterate(st, self.ev(st, x.value, frames, fn))
            else: parts.append(Part([], TRUE, self.ev(st, x, frames, fn)))
        return parts

    def e_List(self, st, e, frames, fn):
        ps = self.star_parts(st, e.elts, frames, fn)
        for p in ps: p.elem = self.own(st, p.elem)
        return self.alloc(st, ListC([Part(p.bs, p.guard, self.content_to_elem(st, p.elem), p.key) for p in ps]))

    def content_to_elem(self, st, v): return v

    def e_Set(self, st, e, frames, fn):
        vals = [self.ev(st, x, frames, fn) for x in e.elts]
        us = [to_u(v) for v in vals]
        return self.alloc(st, SetC(lambda x: Or([x == u for u in us]), static=vals))

    def e_Dict(self, st, e, frames, fn):
        c = EMPTY_MAP()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.to_map(st, self.ev(st, v, frames, fn))
                c = self.apply(st, c, (), "overlay", (o,), TRUE, [])
            else:
                kv = self.ev(st, k, frames, fn)
                c = self.apply(st, c, (), "set", (to_u(kv), self.own(st, self.ev(st, v, frames, fn))), TRUE, [])
                if c.static: c.static[-1] = (kv, c.static[-1][1])
        return self.alloc(st, c)

    def e_JoinedStr(self, st, e, frames, fn):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(z3.StringVal(v.value))
            else:
                x = self.ev(st, v.value, frames, fn)
                parts.append(self.B.str_of(self, st, x))
        if not parts: return Con("")
        if len(parts) == 1: return Sym(parts[0])
        return Sym(self.B.join_text(self, *parts))

    def e_Lambda(self, st, e, frames, fn): return Fn(e, frames, fn.module, fn.qual + ".<lambda>")

    def e_IfExp(self, st, e, frames, fn):
        c = self.simp_cond(st, self.truthy(st, self.ev(st, e.test, frames, fn)))
        return self.branch(st, c, lambda s: self.ev(s, e.body, frames, fn), lambda s: self.ev(s, e.orelse, frames, fn))

    def e_BoolOp(self, st, e, frames, fn):
        is_and = isinstance(e.op, ast.And)
        def go(s, i):
            v = self.ev(s, e.values[i], frames, fn)
            if i == len(e.values) - 1 or s.dead: return v
            c = self.simp_cond(s, self.truthy(s, v))
            if is_and: return self.branch(s, c, lambda s2: go(s2, i + 1), lambda s2: self.falsy_of(v))
            return self.branch(s, c, lambda s2: self.truthy_of(v), lambda s2: go(s2, i + 1))
        return go(st, 0)

    @staticmethod
    def falsy_of(v):
        if isinstance(v, Sym) and v.t.sort() == z3.BoolSort(): return Con(False)
        return v

    @staticmethod
    def truthy_of(v):
        if isinstance(v, Sym) and v.t.sort() == z3.BoolSort(): return Con(True)
        return v

    def e_UnaryOp(self, st, e, frames, fn):
        v = self.ev(st, e.operand, frames, fn)
        if isinstance(e.op, ast.Not): return Sym(Not(self.truthy(st, v))) if not isinstance(v, Con) else Con(not v.v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Con): return Con(-v.v)
            if isinstance(v, Sym) and v.t.sort() in (z3.IntSort(), z3.RealSort()): return Sym(-v.t)
            return self.binop(st, "*", Con(-1), v)
        raise Unsupported("unary operator")

    def e_BinOp(self, st, e, frames, fn):
        a = self.ev(st, e.left, frames, fn)
        b = self.ev(st, e.right, frames, fn)
        if st.dead: return Con(None)
        return self.binop(st, self.OPS.get(type(e.op)), a, b)

    def binop(self, st, op, a, b): return self.B.binop(self, st, op, a, b)

    def e_Compare(self, st, e, frames, fn):
        left = self.ev(st, e.left, frames, fn)
        def go(s, i, left):
            right = self.ev(s, e.comparators[i], frames, fn)
            if s.dead: return Con(False)
            r = self.B.compare(self, s, e.ops[i], left, right)
            if i == len(e.ops) - 1: return r
            c = self.truthy(s, r)
            return self.branch(s, c, lambda s2: go(s2, i + 1, right), lambda s2: Con(False))
        return go(st, 0, left)

    def e_Subscript(self, st, e, frames, fn):
        o = self.ev(st, e.value, frames, fn)
        if isinstance(e.slice, ast.Slice):
            lo = None if e.slice.lower is None else self.ev(st, e.slice.lower, frames, fn)
            hi = None if e.slice.upper is None else self.ev(st, e.slice.upper, frames, fn)
            if e.slice.step is not None: raise Unsupported("slice step")
            return self.B.slice_(self, st, o, lo, hi)
        k = self.ev(st, e.slice, frames, fn)
        if st.dead: return Con(None)
        return self.getitem(st, o, k)

    def getitem(self, st, o, k): return self.B.getitem(self, st, o, k)
    def setitem(self, st, o, k, v): return self.B.setitem(self, st, o, k, v)

    def e_Call(self, st, e, frames, fn):
        # super() calls
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self.super_call(st, e, frames, fn)
        fv = self.ev(st, f, frames, fn)
        if st.dead: return Con(None)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value, frames, fn)
                if isinstance(v, Tup): args.extend(v.items)
                else:
                    s = self.seq_of(st, v)
                    if s is not None and isinstance(s[0], ListC) and s[0].is_static(): args.extend(p.elem for p in s[0].parts)
                    elif isinstance(fv, ClassV) and fv.fields and len(e.args) == 1 and not e.keywords:      # a named tuple takes as many as it has fields
                        n0 = len(self.exits)
                        args.extend(self.unpack(st, v, len(fv.fields)))
                        for x in self.exits[n0:]:
                            if x.kind == "raise" and x.value.cls == "ValueError": x.value = Exc("TypeError")
                    else: args.append(("*", v))
            else: args.append(self.ev(st, a, frames, fn))
            if st.dead: return Con(None)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(st, k.value, frames, fn)
            if st.dead: return Con(None)
            if k.arg is None:
                c = self.to_map(st, v)
                if isinstance(c, MapC) and c.static is not None and all(isinstance(x, Con) for x, _ in c.static):
                    for x, y in c.static: kwargs[x.v] = y
                else: kwargs["**"] = v
            else: kwargs[k.arg] = v
        if any(isinstance(a, tuple) for a in args):
            if isinstance(fv, Model) or (isinstance(fv, Prim) and fv.name.startswith("star:")) or isinstance(fv, Bound) or (isinstance(fv, (Fn, BoundFn)) and self.fq(fv) in self.overrides): pass
            elif isinstance(fv, (Fn, BoundFn)): return self.star_call(st, fv, args, kwargs)
            else: raise Unsupported("star argument of unknown length")
        return self.call(st, fv, args, kwargs)

    def fq(self, fv):
        f = fv.fn if isinstance(fv, BoundFn) else fv
        return f.module.name + "." + f.qual

    def star_call(self, st, fv, args, kwargs):
        f = fv.fn if isinstance(fv, BoundFn) else fv
        a = f.node.args
        npos = len(a.args) - (1 if isinstance(fv, BoundFn) else 0)
        if a.vararg is not None and len(args) == 1 + npos and isinstance(args[-1], tuple):
            fid_vals = args[:-1]
            v = args[-1][1]
            content = ListC(self.iterate(st, v), "tuple")
            old_bind = None
            # bind positionally, vararg gets the sequence
            q = f.module.name + "." + f.qual
            return self.call_fn_vararg(st, f, ([fv.recv] if isinstance(fv, BoundFn) else []) + fid_vals, SeqV(content), kwargs)
        raise Unsupported("star argument of unknown length")

    def call_fn_vararg(self, st, f, pos, seq, kwargs):
        node = ast.FunctionDef(name=getattr(f.node, "name", "f"), args=ast.arguments(posonlyargs=[], args=f.node.args.args + [ast.arg(arg=f.node.args.vararg.arg)], vararg=None,
                               kwonlyargs=f.node.args.kwonlyargs, kw_defaults=f.node.args.kw_defaults, kwarg=f.node.args.kwarg, defaults=[]), body=f.node.body, decorator_list=[])
        g = Fn(node, f.frames, f.module, f.qual, f.cls)
        return self.call_fn(st, g, pos + [seq], kwargs)

    def super_call(self, st, e, frames, fn):
        c = e.func.value
        name = e.func.attr
        if c.args:
            cls = self.ev(st, c.args[0], frames, fn)
            self_ = self.ev(st, c.args[1], frames, fn)
        else:
            cls = fn.cls
            self_ = self.name(st, fn.node.args.args[0].arg, frames, fn)
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value, frames, fn)
                if not isinstance(v, Tup): raise Unsupported("star argument")
                args.extend(v.items)
            else: args.append(self.ev(st, a, frames, fn))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(st, k.value, frames, fn)
            if k.arg is None:
                m = self.to_map(st, v)
                if m.static is None: kwargs["**"] = v
                else:
                    for x, y in m.static: kwargs[x.v] = y
            else: kwargs[k.arg] = v
        objcls = self.content(st, self_, note=False).cls
        mro = self.mro(objcls)
        idx = [i for i, q in enumerate(mro) if q is cls or (q.node is cls.node and q.node is not None and q.frames == cls.frames)]
        if not idx: raise Unsupported("super() of a class outside the MRO")
        for q in mro[idx[0] + 1:]:
            if q.node is not None:
                for n in q.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        return self.call_fn(st, Fn(n, q.frames, q.module, q.name + "." + name, cls=q), [self_] + args, kwargs)
        return self.B.base_method(self, st, self_, name, args, kwargs)

    # comprehensions ------------------------------------------------
    def comp(self, st, gens, frames, fn, emit):
        fid = self.new_frame()
        fr = (fid,) + tuple(frames)
        def go(s, i):
            if i == len(gens):
                emit(s, fr); return
            g = gens[i]
            it = self.ev(s, g.iter, fr if i else frames, fn)
            if s.dead: return
            def body(s2, elem):
                try:
                    self.assign(s2, g.target, elem, fr, fn)
                    base = s2.fork()
                    conds = []
                    for t in g.ifs:
                        c = self.truthy(s2, self.ev(s2, t, fr, fn))
                        s2.assume(c)      # elements failing the filter: nothing happens
                        if s2.dead: break
                    if not s2.dead: go(s2, i + 1)
                    # skipped elements rejoin with unchanged state
                    skip = base
                    skip.dead = False
                    s2.dead = s2.dead
                except Unsupported as ex:
                    self.unsupported(s2, str(ex))
            parts = self.iterate(s, it)
            if i == 0: src[:] = parts
            self.run_loop_filter(s, parts, body)
        src = []
        go(st, 0)
        return src if len(gens) == 1 and not gens[0].ifs else []

    def run_loop_filter(self, st, parts, body):
        """loop whose body may 'skip' by strengthening its own path condition (comprehension filters)"""
        def body2(s, elem):
            base = s.fork()
            body(s, elem)
            # rejoin: iterations that were filtered out leave the state unchanged (raising ones stay excluded)
            if s.dead:
                base.pc = base.pc
                r = base; r.dead = False
                raised = Or([And(list(x.st.pc[len(base.pc):])) for x in self.exits if x.st.pc[:len(base.pc)] == base.pc]) if False else FALSE
                s.become(r)
            else:
                c = And(list(s.pc[len(base.pc):]))
                if not z3.is_true(c):
                    o = base.fork(); o.assume(Not(c))
                    s.become(self.merge(base, s, o, c) if not o.dead else s)
                    s.pc = base.pc
        self.run_loop(st, parts, body2)

    def e_ListComp(self, st, e, frames, fn):
        acc = self.alloc(st, EMPTY_LIST())
        simple = self.simple_index_comp(st, e, frames, fn)
        if simple is not None: return self.alloc(st, simple) if False else simple
        def emit(s, fr):
            v = self.ev(s, e.elt, fr, fn)
            if not s.dead: self.mutate(s, acc, "append", (self.own(s, v),))
        src = self.comp(st, e.generators, frames, fn, emit)
        self.tag_positions(st, acc, src)
        return acc

    def tag_positions(self, st, acc, src):
        """[f(x) for x in seq] without filter keeps the index structure of seq: every index that does not leave abnormally yields one element"""
        if len(src) != 1 or len(src[0].bs) != 1 or src[0].key is None or src[0].bs[0].sort() != z3.IntSort() or acc.cid not in st.heap: return
        c = st.heap[acc.cid]
        if isinstance(c, ListC) and len(c.parts) == 1 and len(c.parts[0].bs) == 1 and c.parts[0].bs[0].sort() == z3.IntSort():
            p = c.parts[0]
            p.guard = subst(src[0].guard, [(src[0].bs[0], p.bs[0])])
            p.key = src[0].key

    def simple_index_comp(self, st, e, frames, fn): return None

    def e_GeneratorExp(self, st, e, frames, fn):
        r = self.e_ListComp(st, e, frames, fn)
        if st.dead: return IterV(ListC([]))
        return IterV(self.content(st, r))

    def e_SetComp(self, st, e, frames, fn):
        acc = self.alloc(st, EMPTY_SET())
        def emit(s, fr):
            v = self.ev(s, e.elt, fr, fn)
            if not s.dead: self.mutate(s, acc, "add", (v,))
        self.comp(st, e.generators, frames, fn, emit)
        return acc

    def e_DictComp(self, st, e, frames, fn):
        acc = self.alloc(st, EMPTY_MAP())
        def emit(s, fr):
            k = self.ev(s, e.key, fr, fn)
            if s.dead: return
            v = self.ev(s, e.value, fr, fn)
            if not s.dead: self.mutate(s, acc, "set", (to_u(k), self.own(s, v)))
        self.comp(st, e.generators, frames, fn, emit)
        return acc

    # conversions to contents ---------------------------------------
    def to_map(self, st, v):
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, MapC): return c
            if isinstance(c, ObjC) and "%map" in c.attrs: return c.attrs["%map"]
            if isinstance(c, UnionC):
                return mk_union(c.c, *[x if isinstance(x, MapC) else EMPTY_MAP() for x in (c.a, c.b)])
        if isinstance(v, Model) and hasattr(v, "as_map"): return v.as_map(self, st)
        if isinstance(v, Ite): return mk_union(v.c, self.to_map(st, v.a), self.to_map(st, v.b))
        raise Unsupported("mapping from %s" % type(v).__name__)

    def to_set(self, st, v):
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, SetC): return c
            if isinstance(c, MapC): return SetC(c.dom, static=None if c.static is None else [k for k, _ in c.static])
        if isinstance(v, Ite): return mk_union(v.c, self.to_set(st, v.a), self.to_set(st, v.b))
        parts = self.iterate(st, v)
        return self.parts_set(parts)

    def parts_set(self, parts):
        if all(not p.bs and z3.is_true(p.guard) for p in parts):
            us = [to_u(p.elem) for p in parts]
            return SetC(lambda x: Or([x == u for u in us]), static=[p.elem for p in parts])
        def mem(x):
            r = []
            for p in parts:
                prs, res, rem = self.solve(to_u(p.elem), x, p.bs)
                r.append(Exists(rem, And(subst(p.guard, prs), res)))
            return Or(r)
        return SetC(mem)
