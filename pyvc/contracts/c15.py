from contracts.dat import *


def counted(term, x=None):
    """the predicates whose extension sizes occur in the term"""
    seen, todo, out = set(), [term], []
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.decl().name().startswith("count_"): out.append((t, t.arg(0))); continue
            todo.extend(t.children())
    return out


def settled(c, v, facts):
    """the alternative of v that the facts and the path leave"""
    while isinstance(v, UnionC):
        st = c.st.fork()
        for f in facts: st.assume(f)
        if PB.follows(c.eng, st, v.c, 3000): v = v.a
        elif PB.follows(c.eng, st, Not(v.c), 3000): v = v.b
        else: raise Unsupported("open alternative: %s" % str(v.c)[:3000])
    return v


def extensional(c, k):
    """tuples of the same length and components as k are equal to k"""
    x = fresh_u("x")
    D = F("first_difference", U, U, Z())
    c.eng.axioms.append(z3.ForAll([x], Or(x == k, Not(U.is_tup(x)), Not(U.is_tup(k)), TLEN(x) != TLEN(k),
                        And(0 <= D(x, k), D(x, k) < TLEN(x), TGET(x, D(x, k)) != TGET(k, D(x, k)))), patterns=[TLEN(x)]))


def witnesses(f, sort):
    """skolem instances of the existential subformulas of f over one variable of the sort: [(constant, fact)]"""
    out, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            if not t.is_lambda() and not t.is_forall() and t.num_vars() == 1 and t.var_sort(0) == sort:
                w = fresh_const("witness", sort)
                out.append((w, Implies(t, z3.substitute_vars(t.body(), w))))
        else: todo.extend(t.children())
    return out


def rows_only(c, fa, t):
    """precondition (the callers build the factory so): no table has a primary key or is generic"""
    x = fresh_u("t")
    c.eng.axioms.append(z3.ForAll([x], Implies(fa.TABLE(x), And(fa.NPK(x) == 0, Not(fa.GENERIC(x)))), patterns=[fa.TABLE(x)]))


def key_is(fa, t, i, k, n, field, cell):
    """k is the key of row i of t: the only field's content, or the tuple of them"""
    j = z3.Const("j!key", Z())
    many = And(U.is_tup(k), TLEN(k) == n, z3.ForAll([j], Implies(And(0 <= j, j < n), TGET(k, j) == cell(field(j))), patterns=[TGET(k, j)]))
    return z3.If(n == 1, k == cell(field(0)), many)


def find_duplicates(c):
    fa = Factory(c)
    t, k, i = z3.Const("table", U), z3.Const("key", U), z3.Const("position", Z())
    fa.attrs["generator_tables"] = EMPTY_SET()
    fa.build(); rows_only(c, fa, t)
    dat = Dat(c, fa)
    row = lambda t, i: MapC(lambda f: fa.IS_DF(t, f), lambda f: Sym(CELLR(t, i, f)))
    c.st.heap[dat.ref.cid] = ObjC(None, {}, MapC(lambda t: fa.TABLE(t), lambda t: SeqC(NROWS(t), lambda i: row(t, i))))
    c.eng.prune_raises = 500
    good_object(c); extensional(c, k)
    r = c.content(c.call(c.fn("utils.find_duplicates"), [dat.ref, fa.ref]))
    posts(c, r, fa, t, k, fa.NDF, fa.DFF)


def posts(c, r, fa, t, k, N, FIELD):
    i = z3.Const("position", Z())
    entry = r.get(t)
    v = c.content(entry) if isinstance(entry, Ref) else entry
    here = [fa.TABLE(t), Not(fa.GENERIC(t)), N(t) > 0]
    v = settled(c, v, here)
    got = v.get(k)
    n = got.t if isinstance(got, Sym) else raw(got)
    cs = counted(n)
    if len({a.get_id() for _, a in cs}) != 1: raise Unsupported("%d different counts" % len(cs))
    cnt, lam = cs[0]
    spec = And(0 <= i, i < NROWS(t), key_is(fa, t, i, k, N(t), lambda j: FIELD(t, j), lambda f: CELLR(t, i, f)))
    c.ensure("the rows counted for a key are exactly the rows with that key", z3.simplify(z3.Select(lam, i)) == spec, hyps=here)
    listed = And(r.dom(t), v.dom(k))
    import prover
    sizes = [cnt >= 0, (cnt == 0) == z3.ForAll([i], Not(z3.simplify(z3.Select(lam, i))))]        # what it means to be the number of such rows
    c.ensure("a listed key has more than one row", cnt > 1, hyps=here + [listed])
    c.ensure("a key with more than one row is listed", v.dom(k), hyps=here + [cnt > 1] + sizes)
    c.ensure("a table with a listed key is listed", r.dom(t), hyps=here + [v.dom(k)] + prover.instances([r.dom(t)], [k]))
    c.ensure("with the number of those rows", n == cnt, hyps=here + [listed])
    ws = witnesses(r.dom(t), U)
    c.ensure("only tables are listed", fa.TABLE(t), hyps=[r.dom(t)])
    c.ensure("tables without duplicates are omitted", Or([v.dom(w) for w, _ in ws]), hyps=here + [r.dom(t)] + [f for _, f in ws])


def from_dict(c):
    """the tables of rows read for the duplicate check, before any key is applied"""
    fa = Factory(c)
    t, k = z3.Const("table", U), z3.Const("key", U)
    some = z3.Const("some_keyed_table", U)
    x = fresh_u("t")
    c.eng.axioms.append(z3.ForAll([x], Implies(And(fa.TABLE(x), Not(fa.GENERIC(x)), fa.NPK(x) > 0), And(fa.TABLE(some), Not(fa.GENERIC(some)), fa.NPK(some) > 0)), patterns=[fa.NPK(x)]))
    keyed = lambda x: And(fa.TABLE(x), Not(fa.GENERIC(x)), fa.NPK(x) > 0)
    fa.attrs["_primary_key_fields"].wit = some
    fa.build()
    row = lambda t, i: MapC(lambda f: fa.IS_FIELD(t, f), lambda f: Sym(CELLR(t, i, f)))
    tables = ObjC(None, {}, MapC(lambda t: keyed(t), lambda t: SeqC(NROWS(t), lambda i: row(t, i))))
    c.eng.axioms.append(z3.ForAll([x], NROWS(x) >= 0, patterns=[NROWS(x)]))
    class Rows(Model):
        """TicDatFactory(table: [[], key and data fields]).TicDat(rows): the rows as given (C07)"""
        def attr(self, eng, st, name):
            def make(e, s, a, kw):
                m = e.content(s, kw["**"])
                e.oblige("rows of every keyed table are counted", s, m.dom(t) == keyed(t))
                return e.alloc(s, tables)
            return Prim("TicDat", make)
        def has_attr(self, eng, st, name): return z3.BoolVal(name == "TicDat")
    def factory(e, s, a, kw):
        m = e.content(s, kw["**"])
        pair = m.get(t)
        e.oblige("a table for every keyed table", s, m.dom(t) == keyed(t))
        none, fields = [p.elem for p in pair.parts]
        e.oblige("no key", s, Implies(keyed(t), PB.content_len(e, s, none) == 0))
        e.oblige("all fields as data fields", s, Implies(keyed(t), e.seq_mem(s, fields, Sym(k)) == fa.IS_FIELD(t, k)))
        return Rows()
    c.eng.overrides["ticdatfactory.TicDatFactory.__new__"] = factory
    given = c.eng.alloc(c.st, MapC(lambda x: fa.TABLE(x), lambda x: SeqC(NROWS(x), lambda i: Sym(F("given_row", U, Z(), U)(x, i)))))
    extensional(c, k)
    c.eng.prune_raises = 500
    r = c.call(c.fn("utils.find_duplicates_from_dict_ticdat"), [fa.ref, given])
    if isinstance(r, Ite):
        c.ensure("an answer whenever a table has a key", r.c, hyps=[keyed(t)])
        c.st.assume(r.c); r = r.a
    posts(c, c.content(r), fa, t, k, fa.NPK, fa.PKF)


CONTRACTS = [Contract("C15.find_duplicates_from_dict_ticdat", "utils.find_duplicates_from_dict_ticdat", from_dict), Contract("C15.find_duplicates", "utils.find_duplicates", find_duplicates)]
