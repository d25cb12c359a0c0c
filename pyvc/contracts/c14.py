from contracts.model import *
import ast
"""Tables are listed once each, parents before children.  The nested recursive function is verified against its own contract (induction hypothesis for its
recursive calls, with a decreasing measure), the loops by an invariant over the set of elements done so far."""
TABLE, FKEY, PARENT, RANK = F("is_table", U, B()), F("has_foreign_key", U, U, B()), F("parent_table", U, U), F("depth_in_key_graph", U, Z())
CONTRACTS = []


class View:
    """the list of tables so far (at, n), where each one stands (dom, pos: ghost) and the tables already entered (seen)"""
    def __init__(self, eng, s, env):
        seq = eng.as_seqc(s.heap[env["rtn"]])
        self.n, self.at = seq.n, lambda j: to_u(seq.at(j))
        g = s.heap[env["ghost"]]
        self.dom, self.pos = g.dom, lambda x: raw(g.get(x))
        self.seen = s.heap[env["seen"]].mem if env.get("seen") is not None else None


def wellformed(v):
    x, j = fresh_u("x"), fresh_const("j", Z())
    return [v.n >= 0,
            ForAll([j], Implies(And(0 <= j, j < v.n), And(v.dom(v.at(j)), v.pos(v.at(j)) == j))),
            ForAll([x], Implies(v.dom(x), And(0 <= v.pos(x), v.pos(x) < v.n, v.at(v.pos(x)) == x, TABLE(x))))]


def ordered(v):
    m, x = fresh_u("m"), fresh_u("x")
    return [ForAll([x, m], Implies(And(v.dom(x), FKEY(x, m)), And(v.dom(PARENT(m)), v.pos(PARENT(m)) < v.pos(x))))]


def grown(a, b, open_of):
    """b is a with further tables listed behind"""
    x, y = fresh_u("x"), fresh_u("y")
    out = [b.n >= a.n, ForAll([x], Implies(a.dom(x), And(b.dom(x), b.pos(x) == a.pos(x)))), ForAll([y], Implies(And(b.dom(y), Not(a.dom(y))), b.pos(y) >= a.n))]
    z, w, u = fresh_u("z"), fresh_u("w"), fresh_u("u")
    if a.seen is not None:
        out += [ForAll([z], Implies(b.dom(z), b.seen(z))), ForAll([w], Implies(a.seen(w), b.seen(w))),
                ForAll([u], And(b.seen(u), Not(b.dom(u))) == And(a.seen(u), Not(a.dom(u))))]
    elif open_of is not None: out += [ForAll([z], Implies(And(b.dom(z), Not(a.dom(z))), Not(open_of(z))))]
    return out


def havoc(eng, s, env):
    n = eng.fresh("n", Z())
    at, dom, pos = eng.fresh_fn("at", Z(), U), eng.fresh_fn("listed", U, B()), eng.fresh_fn("pos", U, Z())
    s.heap[env["rtn"]] = SeqC(n, lambda j: Sym(at(j)), "list")
    s.heap[env["ghost"]] = MapC(lambda x: dom(x), lambda x: Sym(pos(x)))
    if env.get("seen") is not None:
        seen = eng.fresh_fn("seen", U, B())
        s.heap[env["seen"]] = SetC(lambda x: seen(x))


class Fk(Model):
    def __init__(self, t, m): self.t, self.m = t, m
    def subst(self, pairs): return Fk(subst(self.t, pairs), subst(self.m, pairs))
    def attr(self, eng, st, name):
        if name == "foreign_table": return Sym(PARENT(self.m))
        if name == "native_table": return Sym(self.t)
        raise Unsupported("foreign key attribute " + name)
    def to_u(self): return self.m


def setting(c, acyclic):
    m, x = fresh_u("m"), fresh_u("x")
    c.eng.axioms.append(z3.ForAll([x, m], Implies(FKEY(x, m), And(TABLE(x), TABLE(PARENT(m)))), patterns=[FKEY(x, m)]))
    if acyclic: c.eng.axioms.append(z3.ForAll([x, m], Implies(FKEY(x, m), RANK(PARENT(m)) < RANK(x)), patterns=[FKEY(x, m)]))
    HASFK = F("is_child", U, B())
    c.eng.axioms.append(z3.ForAll([x, m], Implies(FKEY(x, m), HASFK(x)), patterns=[FKEY(x, m)]))
    def one(x):
        m = fresh_u("m")
        return SeqV(ListC([Part([m], FKEY(x, m), Fk(x, m))], "tuple"))
    return lambda eng, s, a, kw: eng.alloc(s, MapC(lambda x: HASFK(x), one))


def nested(mod, cls):
    """the function _ordered_tables defines and applies to every table"""
    f = source.module(mod).find(cls + "._ordered_tables")
    fs = [x for x in f.body if isinstance(x, ast.FunctionDef)]
    if len(fs) != 1: raise Unsupported("_ordered_tables defines %d functions" % len(fs))
    return fs[0].name


def cells(eng, s, fid):
    """the list and the set of the enclosing scope"""
    env = {}
    for (f, name), v in s.vars.items():
        if f != fid or not isinstance(v, Ref): continue
        k = s.heap.get(v.cid)
        if isinstance(k, (ListC, SeqC)): env.setdefault("rtn", v.cid)
        elif isinstance(k, SetC): env.setdefault("seen", v.cid)
    if "rtn" not in env: raise Unsupported("no list in the enclosing scope")
    return env


def watch(eng, env):
    """ghost: every append to the list records the table's place"""
    plain = eng.mutate
    def mutate(s, ref, op, args):
        r = eng.deref(s, ref)
        if r.cid != env.get("rtn") or r.path: return plain(s, ref, op, args)
        if op != "append": raise Unsupported("%s of the list of tables" % op)
        v = View(eng, s, env)
        t = to_u(args[0])
        eng.oblige("listed once", s, Not(v.dom(t)))
        seq = eng.as_seqc(s.heap[env["rtn"]])
        s.heap[env["rtn"]] = SeqC(v.n + 1, lambda j: mk_ite(j == v.n, Sym(t), seq.at(j)), "list")
        s.heap[env["ghost"]] = MapC(lambda x: Or(x == t, v.dom(x)), lambda x: Sym(z3.If(x == t, v.n, v.pos(x))))
    eng.mutate = mutate


def loop_rule(eng, env, invariant, name):
    """every element once, in any order: invariant(entry, now, done) over the elements done so far"""
    def rule(st, part, body):
        entry = View(eng, st, env)
        D = eng.fresh_fn("done", *([b.sort() for b in part.bs] + [B()]))
        guard = lambda bs: subst(part.guard, list(zip(part.bs, bs)))
        for lb, f in invariant(entry, entry, lambda *bs: FALSE, part): eng.oblige("%s/init/%s" % (name, lb), st, f)
        s = st.fork(); havoc(eng, s, env)
        now = View(eng, s, env)
        ys = [fresh_const("y", b.sort()) for b in part.bs]
        s.assume(ForAll(ys, Implies(D(*ys), guard(ys))))
        for lb, f in invariant(entry, now, lambda *bs: D(*bs), part): s.assume(f)
        p = part_fresh(part)
        s.assume(p.guard); s.assume(Not(D(*p.bs)))
        before = dict(s.heap)
        outer, eng.exits = eng.exits, []
        eng.depth += 1
        try: body(s, p.elem)
        finally: eng.depth -= 1
        mine, eng.exits = eng.exits, outer
        conts = [x for x in mine if x.kind == "continue"]
        if any(x.kind in ("break", "return") for x in mine): raise Unsupported("loop left early")
        eng.exits += [x for x in mine if x.kind != "continue"]
        for x in ([s] if not s.dead else []) + [x.st for x in conts]:
            end = View(eng, x, env)
            for lb, f in invariant(entry, end, lambda *bs: Or(D(*bs), And([b == q for b, q in zip(bs, p.bs)])), part): eng.oblige("%s/preserve/%s" % (name, lb), x, f)
        havoc(eng, st, env)
        for cid, k in before.items():
            if cid not in (env["rtn"], env["ghost"], env.get("seen")) and cid in st.heap and any(x.heap.get(cid) is not k for x in [s] + [x.st for x in conts]):
                st.heap[cid] = eng.havoc_content(st, st.heap[cid])
        now = View(eng, st, env)
        for lb, f in invariant(entry, now, lambda *bs: guard(bs), part): st.assume(f)
        return True
    return rule


def labelled(name, fs): return [("%s %d" % (name, i), f) for i, f in enumerate(fs)]


def done_all(now, done, part, acyclic, open_of, table_of):
    bs = [fresh_const("d", b.sort()) for b in part.bs]
    t = table_of(bs)
    fin = now.dom(t) if acyclic else Or(now.dom(t), now.seen(t) if now.seen is not None else open_of(t))
    return ("done elements are listed", ForAll(bs, Implies(done(*bs), fin)))


def process(mod, cls, acyclic):
    def run(c):
        eng = c.eng
        name = nested(mod, cls)
        q = cls + "._ordered_tables." + name
        m = source.module(mod)
        fks = setting(c, acyclic)
        fid = eng.new_frame()
        fdef = m.find(cls + "._ordered_tables")
        # the enclosing scope: its straight-line definitions, with the containers in an arbitrary state
        scope = Fn(fdef, (), m, cls + "._ordered_tables")
        eng.overrides["%s.%s._fks" % (mod, cls)] = fks
        me = eng.alloc(c.st, ObjC(eng.global_name(cls, m), {}))
        c.st.vars[(fid, "self")] = me
        for stmt in fdef.body:
            if isinstance(stmt, ast.Assign): eng.stmt(c.st, stmt, (fid,), scope)
        fn = Fn(m.find(q), (fid,), m, q)
        c.st.vars[(fid, name)] = fn
        env = cells(eng, c.st, fid)
        env["ghost"] = eng.alloc(c.st, MapC(lambda x: FALSE, lambda x: Sym(z3.IntVal(0)))).cid
        watch(eng, env)
        havoc(eng, c.st, env)
        t = z3.Const("table_arg", U)
        entry = View(eng, c.st, env)
        for f in wellformed(entry) + (ordered(entry) if acyclic else []): c.assume(f)
        c.assume(TABLE(t))
        x = fresh_u("x")
        extra = []
        if entry.seen is not None:
            open_ = entry.seen
            c.assume(ForAll([x], Implies(entry.dom(x), entry.seen(x))))
        else:
            OPEN = F("being_processed", U, B())
            open_ = lambda z: OPEN(z)
            given = z3.Const("some_given", B())
            arg = mk_ite(given, eng.alloc(c.st, ListC([Part([x], OPEN(x), Sym(x))], "list")), Con(None))
            c.assume(Or(given, z3.ForAll([x], Not(OPEN(x)), patterns=[OPEN(x)])))
            extra = [arg]
        w = fresh_u("w")
        if acyclic: c.assume(ForAll([w], Implies(And(open_(w), Not(entry.dom(w)) if entry.seen is not None else TRUE), RANK(w) > RANK(t))))
        def members(e, s, v):
            if entry.seen is not None: return View(e, s, env).seen
            if isinstance(v, Con) and v.v is None: return lambda z: FALSE
            return lambda z: e.in_(s, Sym(z), v)
        def again(e, s, a, kw):
            child = to_u(a[0])
            v = View(e, s, env)
            mem = members(e, s, (list(a[1:]) + list(kw.values()) + [Con(None)])[0])
            o = lambda z: And(mem(z), Not(v.dom(z))) if v.seen is not None else mem(z)
            y, z = fresh_u("y"), fresh_u("z")
            pre = wellformed(v) + (ordered(v) if acyclic else []) + [TABLE(child)]
            if v.seen is not None: pre.append(ForAll([y], Implies(v.dom(y), v.seen(y))))
            if acyclic: pre.append(ForAll([z], Implies(o(z), RANK(z) > RANK(child))))
            for lb, f in labelled("the recursive call meets its precondition", pre): e.oblige(lb, s, f)
            e.oblige("the recursion ends: one more table is being processed", s, And(TABLE(t), Not(open_(t)), mem(t)))
            y2 = fresh_u("y")
            e.oblige("and none fewer", s, ForAll([y2], Implies(open_(y2), mem(y2))))
            havoc(e, s, env)
            b = View(e, s, env)
            for f in post(v, b, child, mem): s.assume(f)
            return Con(None)
        def post(a, b, t, mem):
            return wellformed(b) + (ordered(b) if acyclic else []) + grown(a, b, mem) + [b.dom(t) if acyclic else Or(b.dom(t), b.seen(t) if b.seen is not None else mem(t))]
        eng.recursive["%s.%s" % (mod, q)] = again
        def invariant(a, b, done, part):
            mem = None
            out = labelled("well formed", wellformed(b)) + (labelled("parents first", ordered(b)) if acyclic else [])
            now_open = (lambda z: Or(open_(z), z == t)) if b.seen is None else None
            out += labelled("only grows", grown(a, b, now_open))
            return out + [done_all(b, done, part, acyclic, now_open, lambda bs: PARENT(bs[-1]))]
        eng.loop_rule = loop_rule(eng, env, invariant, "loop")
        c.call(fn, [Sym(t)] + extra)
        end = View(eng, c.st, env)
        for lb, f in labelled("postcondition", post(entry, end, t, open_)): c.ensure(lb, f)
    return Contract("C14.%s.%s(%s)" % (mod, "process", "acyclic" if acyclic else "any graph"), "%s.%s._ordered_tables" % (mod, cls), run)


def ordered_tables(mod, cls, acyclic):
    def run(c):
        eng = c.eng
        name = nested(mod, cls)
        q = "%s.%s._ordered_tables.%s" % (mod, cls, name)
        m = source.module(mod)
        eng.overrides["%s.%s._fks" % (mod, cls)] = setting(c, acyclic)
        tabs = SetC(lambda x: TABLE(x), "frozenset")
        fac = eng.alloc(c.st, ObjC(None, {"all_tables": tabs}))
        me = eng.alloc(c.st, ObjC(eng.global_name(cls, m), {"tic_dat_factory": fac, "tdf": fac}))
        env = {}
        def start(s):
            if env: return
            fids = {f for (f, n), v in s.vars.items() if isinstance(v, Fn) and n == name}
            if len(fids) != 1: raise Unsupported("scope of " + name)
            env.update(cells(eng, s, fids.pop()))
            env["ghost"] = eng.alloc(s, MapC(lambda x: FALSE, lambda x: Sym(z3.IntVal(0)))).cid
        def call(e, s, a, kw):
            v = View(e, s, env)
            t = to_u(a[0])
            if len(a) > 1 or kw: raise Unsupported("started with tables in process")
            o = (lambda z: And(v.seen(z), Not(v.dom(z)))) if v.seen is not None else (lambda z: FALSE)
            y, z = fresh_u("y"), fresh_u("z")
            pre = wellformed(v) + (ordered(v) if acyclic else []) + [TABLE(t)]
            if v.seen is not None: pre.append(ForAll([y], Implies(v.dom(y), v.seen(y))))
            if acyclic: pre.append(ForAll([z], Implies(o(z), RANK(z) > RANK(t))))
            for lb, f in labelled("the call meets its precondition", pre): e.oblige(lb, s, f)
            havoc(e, s, env)
            b = View(e, s, env)
            for f in wellformed(b) + (ordered(b) if acyclic else []) + grown(v, b, lambda z: FALSE) + \
                    [b.dom(t) if acyclic else Or(b.dom(t), b.seen(t) if b.seen is not None else FALSE)]: s.assume(f)
            return Con(None)
        eng.overrides[q] = call
        def invariant(a, b, done, part):
            out = labelled("well formed", wellformed(b)) + (labelled("parents first", ordered(b)) if acyclic else []) + labelled("only grows", grown(a, b, lambda z: FALSE))
            return out + [done_all(b, done, part, acyclic, lambda z: FALSE, lambda bs: bs[0])]
        def rule(st, part, body):
            start(st)
            return loop_rule(eng, env, invariant, "loop")(st, part, body)
        eng.loop_rule = rule
        r = c.call(c.fn("%s.%s._ordered_tables" % (mod, cls)), [me])
        seq = eng.as_seqc(eng.seq_of(c.st, r)[0])
        i, j, x, fk = z3.Const("position", Z()), z3.Const("other_position", Z()), z3.Const("table", U), z3.Const("fk", U)
        v = View(eng, c.st, env)
        inr = lambda k: And(0 <= k, k < seq.n)
        c.ensure("only tables are listed", TABLE(to_u(seq.at(i))), hyps=[inr(i)])
        c.ensure("each once", i == j, hyps=[inr(i), inr(j), to_u(seq.at(i)) == to_u(seq.at(j))])
        c.ensure("every table is listed", And(inr(v.pos(x)), to_u(seq.at(v.pos(x))) == x), hyps=[TABLE(x)])
        if acyclic:
            c.ensure("parents before children", j < i, hyps=[inr(i), inr(j), FKEY(to_u(seq.at(i)), fk), PARENT(fk) == to_u(seq.at(j))])
    return Contract("C14.%s._ordered_tables(%s)" % (mod, "acyclic" if acyclic else "any graph"), "%s.%s._ordered_tables" % (mod, cls), run)


for _m, _c in (("sqlitetd", "SQLiteTicFactory"), ("pgtd", "_PostgresFactory")):
    for _a in (True, False): CONTRACTS += [process(_m, _c, _a), ordered_tables(_m, _c, _a)]
