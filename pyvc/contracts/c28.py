from contracts.c19 import *


def mapping_fields(c, fa, HASK, MAPS):
    """class invariant of _foreign_keys (established by add_foreign_key): mappings are non-empty tuples of (native field, foreign field) pairs of existing fields"""
    x, m, i = fresh_u("x"), fresh_u("m"), z3.Const("i!m", Z())
    PAIR = lambda p: cons_shape(p, 2)
    body = And(U.is_tup(m), TLEN(m) >= 1)
    c.eng.axioms.append(z3.ForAll([x, m], Implies(And(HASK(x), MAPS(x, m)), body), patterns=[MAPS(x, m)]))
    q = TGET(m, i)
    ok = And(PAIR(q)[0], TLEN(q) == 2, TGET(q, 0) == PAIR(q)[1][0], TGET(q, 1) == PAIR(q)[1][1], fa.IS_FIELD(TGET(x, 0), TGET(q, 0)), fa.IS_FIELD(TGET(x, 1), TGET(q, 1)))
    c.eng.axioms.append(z3.ForAll([x, m, i], Implies(And(HASK(x), MAPS(x, m), 0 <= i, i < TLEN(m)), ok), patterns=[z3.MultiPattern(MAPS(x, m), TGET(m, i))]))
    c.eng.axioms.append(z3.ForAll([x], Implies(HASK(x), And([And(fa.TABLE(TGET(x, k)), Not(fa.GENERIC(TGET(x, k)))) for k in (0, 1)])), patterns=[HASK(x)]))


def foreign_keys_listed(target):
    """one ForeignKey per declared mapping, with its cardinality by coverage of the primary keys"""
    mod, cls, name = target.split(".")
    def run(c):
        fa = Factory(c, cls)
        fa.used() if cls == "TicDatFactory" else None
        HASK, MAPS = foreign_keys(c, fa)
        mapping_fields(c, fa, HASK, MAPS)
        fa.build()
        # assumed: distinct mappings give distinct ForeignKey records (the property's own final assertion counts them)
        c.allow_raise("AssertionError", lambda st: z3.BoolVal(any("count_" in f.sexpr() or "(card " in f.sexpr() for f in st.pc[-2:])))
        r = c.call(fa.method(name), [])
        ps = c.content(r).parts
        if len(ps) != 1: raise Unsupported("foreign keys listed in %d families" % len(ps))
        p = ps[0]
        a, b, mp, card = (c.item(p.elem, i) for i in range(4))
        a, b = to_u(a), to_u(b)
        rest = [q for q in p.bs if not q.eq(a) and not q.eq(b)]
        if len(rest) != 1: raise Unsupported("foreign keys listed with %d binders" % len(p.bs))
        m = rest[0]
        pair = tup_u([a, b])
        declared = And(HASK(pair), MAPS(pair, m))
        c.ensure("exactly the declared mappings are listed", p.guard == declared)
        def covers(t, side):
            j, i = z3.Const("j!c", Z()), z3.Const("i!c", Z())
            return And(fa.NPK(t) > 0, z3.ForAll([j], Implies(And(0 <= j, j < fa.NPK(t)),
                       z3.Exists([i], And(0 <= i, i < TLEN(m), TGET(TGET(m, i), side) == fa.PKF(t, j)))), patterns=[fa.PKF(t, j)]))
        for one_a in (True, False):
            for one_b in (True, False):
                text = "%s-to-%s" % ("one" if one_a else "many", "one" if one_b else "many")
                h = [declared, covers(a, 0) if one_a else Not(covers(a, 0)), covers(b, 1) if one_b else Not(covers(b, 1))]
                c.ensure("cardinality %s when the mapped fields cover exactly these primary keys" % text, to_u(card) == U.str(z3.StringVal(text)), hyps=h)
        single = mp.a if isinstance(mp, Ite) else None
        if single is None: raise Unsupported("mapping shape")
        c.ensure("a single pair is listed by itself", mp.c == (TLEN(m) == 1), hyps=[declared])
        for k in (0, 1):
            c.ensure("single mapping, side %d" % k, to_u(c.item(mp.a, k)) == TGET(TGET(m, 0), k), hyps=[declared, mp.c])
        sq = c.eng.as_seqc(c.content(mp.b))
        i = z3.Const("pair_position", Z())
        h = [declared, Not(mp.c), 0 <= i, i < TLEN(m)]
        c.ensure("as many pairs as declared", sq.n == TLEN(m), hyps=[declared, Not(mp.c)])
        for k in (0, 1):
            c.ensure("compound mapping in declared order, side %d" % k, to_u(c.item(sq.at(i), k)) == TGET(TGET(m, i), k), hyps=h)
    return Contract("C28.%s.%s" % (cls, name), target, run)


CONTRACTS = [foreign_keys_listed("ticdatfactory.TicDatFactory.foreign_keys")]
