from contracts.common import *
import itertools
"""A slice is the list of index tuples agreeing with the pattern at its fixed positions, in order and with multiplicity, whatever slices the cache holds: class invariant of
the cache (every slicing it holds groups all the tuples by their content at the fixed positions) preserved by slice; proved for tuples of up to four entries, any number of them."""
CELL = F("index_cell", Z(), Z(), U)
CACHED, GROUP = F("slicing_cached", U, B()), F("group_of", U, Z(), U)


def tup_of(xs): return to_u(Tup([Sym(x) for x in xs]))


def parts_of(eng, k):
    if isinstance(k, UnionC):
        return [Part(p.bs, And(k.c, p.guard), p.elem) for p in parts_of(eng, k.a)] + [Part(p.bs, And(Not(k.c), p.guard), p.elem) for p in parts_of(eng, k.b)]
    return eng.parts_of(k)


def alternatives(v): return alternatives(v.a) + alternatives(v.b) if isinstance(v, Ite) else [v]


def exactly(c, label, parts, n, match, row, hyps):
    """the list is the tuples at the matching positions, in order, each once"""
    i, j = z3.Const("tuple_position", Z()), z3.Const("other_position", Z())
    at = lambda p, i: subst(p.guard, [(p.bs[0], i)])
    if any(len(p.bs) != 1 or p.bs[0].sort() != Z() for p in parts): raise Unsupported("a list of another form")
    for p in parts:
        c.ensure(label + ": only matching tuples", And(0 <= i, i < n, match(i)), hyps=hyps + [at(p, i)])
        c.ensure(label + ": the tuples themselves", to_u(vsub(p.elem, [(p.bs[0], i)])) == to_u(row(i)), hyps=hyps + [at(p, i)])
    c.ensure(label + ": every matching tuple", Or([at(p, i) for p in parts]), hyps=hyps + [0 <= i, i < n, match(i)])
    for a in range(len(parts)):
        for b in range(a): c.ensure(label + ": once and in order", FALSE, hyps=hyps + [at(parts[a], i), at(parts[b], j)])


def slicing(arity, wild):
    def run(c):
        n = z3.Const("tuples", Z())
        c.assume(n >= 0)
        row = lambda i: Tup([Sym(CELL(i, z3.IntVal(j))) for j in range(arity)])
        i = fresh_const("i", Z())
        fixed = [j for j in range(arity) if j not in wild]
        w = to_u(Tup([Con(j) for j in wild]))
        # what a cached slicing by this pattern groups by
        c.eng.axioms.append(z3.ForAll([i], GROUP(w, i) == tup_of([CELL(i, z3.IntVal(j)) for j in fixed]), patterns=[GROUP(w, i)]))
        # the invariant of __init__: no entry is "*"
        star = U.str(z3.StringVal("*"))
        def grouped(x, k):
            p = fresh_const("p", Z())
            return ListC([Part([p], And(0 <= p, p < n, GROUP(x, p) == k), row(p))])
        def has(x, k):
            p = fresh_const("p", Z())
            return Exists([p], And(0 <= p, p < n, GROUP(x, p) == k))
        TOUCHED = F("group_exists", U, U, B())          # a group may exist without members
        x, k = fresh_u("x"), fresh_u("k")
        p = fresh_const("p", Z())
        c.eng.axioms.append(z3.ForAll([x, p], Implies(And(0 <= p, p < n), TOUCHED(x, GROUP(x, p))), patterns=[GROUP(x, p)]))
        group = lambda: ListC([])
        cache = MapC(lambda x: CACHED(x), lambda x: MapC(lambda k: TOUCHED(x, k), lambda k: grouped(x, k), default=group, kind="defaultdict"),
                     default=lambda: MapC(lambda k: FALSE, lambda k: ListC([]), default=group, kind="defaultdict"), kind="defaultdict")
        me = c.eng.alloc(c.st, ObjC(c.eng.global_name("Slicer", source.module("utils")),
                                    {"_gu": Con(None), "_indicies": SeqC(n, row, "tuple"), "_archived_slicings": cache}))
        args = [Con("*") if j in wild else Sym(z3.Const("arg%d" % j, U)) for j in range(arity)]
        for a in args:
            if isinstance(a, Sym): c.assume(Not(a.t == star))
        res = c.call(c.fn("utils.Slicer.slice"), [me] + args)
        refs = [c.eng.deref(c.st, x) for x in alternatives(res)]
        c.ensure("the result is a list of the caller's own", z3.BoolVal(not any(x.path or x.cid == c.eng.deref(c.st, me).cid for x in refs)))
        match = lambda i: And([CELL(i, z3.IntVal(j)) == args[j].t for j in fixed])
        exactly(c, "result", parts_of(c.eng, c.content(res)), n, match, row, [n > 0])
        for q in parts_of(c.eng, c.content(res)): c.ensure("nothing comes out of no tuples", Not(q.guard), hyps=[n == 0])
        # the invariant of the cache holds again
        after = c.content(me).attrs["_archived_slicings"]
        pat, key = z3.Const("some_pattern", U), z3.Const("some_key", U)
        for label, x in (("this pattern", w), ("another pattern", pat)):
            g = after.get(x)
            h = [after.dom(x)] + ([] if x is w else [x != w])
            exactly(c, "cache, " + label, parts_of(c.eng, g.get(key)), n, lambda i: GROUP(x, i) == key, row, h)
            i = z3.Const("tuple_position", Z())
            c.ensure("cache, %s: a group with members exists" % label, g.dom(key), hyps=h + [0 <= i, i < n, GROUP(x, i) == key])
    return Contract("C17.slice(%s)" % ",".join("*" if j in wild else "x" for j in range(arity)), "utils.Slicer.slice", run)


def wrong_length(c):
    n = z3.Const("tuples", Z())
    c.assume(n > 0)
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("Slicer", source.module("utils")),
                                {"_gu": Con(None), "_indicies": SeqC(n, lambda i: Tup([Sym(CELL(i, z3.IntVal(j))) for j in range(3)]), "tuple"), "_archived_slicings": MapC(lambda x: FALSE, lambda x: Con(None))}))
    c.allow_raise("TicDatError", lambda st: TRUE)
    c.call(c.fn("utils.Slicer.slice"), [me, Sym(z3.Const("a", U)), Sym(z3.Const("b", U))])
    c.never_returns("a pattern of another length is refused")


CONTRACTS = [slicing(a, w) for a in (1, 2, 3, 4) for r in range(a + 1) for w in itertools.combinations(range(a), r)]
CONTRACTS.append(Contract("C17.slice(wrong length)", "utils.Slicer.slice", wrong_length))


def construct(c):
    n = z3.Const("tuples", Z())
    WIDTH = F("width", Z(), Z())
    i, j = z3.Const("tuple_position", Z()), z3.Const("entry_position", Z())
    k = z3.Const("other_position", Z())
    a, b, d = (fresh_const(x, Z()) for x in "abd")
    c.assume(n >= 0)
    c.eng.axioms.append(z3.ForAll([a], WIDTH(a) >= 0, patterns=[WIDTH(a)]))
    c.eng.ext["utils.gu"] = Con(None)
    star = U.str(z3.StringVal("*"))
    inr = lambda q: And(0 <= q, q < n)
    c.allow_raise("TicDatError", lambda st: Or(Exists([a, b], And(inr(a), inr(b), WIDTH(a) != WIDTH(b))), Exists([a, d], And(inr(a), 0 <= d, d < WIDTH(a), CELL(a, d) == star))))
    rows = SeqV(SeqC(n, lambda q: SeqV(SeqC(WIDTH(q), lambda p: Sym(CELL(q, p)), "tuple"))))
    me = c.call(c.fn("utils.Slicer"), [rows])
    o = c.content(me)
    c.ensure("ragged collections are refused", WIDTH(i) == WIDTH(k), hyps=[inr(i), inr(k)])
    c.ensure("wildcards in the data are refused", CELL(i, j) != star, hyps=[inr(i), 0 <= j, j < WIDTH(i)])
    s = c.eng.as_seqc(c.content(o.attrs["_indicies"]) if isinstance(o.attrs["_indicies"], Ref) else getattr(o.attrs["_indicies"], "content", o.attrs["_indicies"]))
    c.ensure("the tuples are kept", s.n == n)
    e = s.at(i)
    e = c.eng.as_seqc(getattr(e, "content", e))
    c.ensure("as they were given", And(e.n == WIDTH(i), Implies(And(0 <= j, j < WIDTH(i)), to_u(e.at(j)) == CELL(i, j))), hyps=[inr(i)])
    x = z3.Const("some_pattern", U)
    c.ensure("nothing is cached at first", Not(o.attrs["_archived_slicings"].dom(x)))


def cleared(c):
    HAS = F("slicing_cached", U, B())
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("Slicer", source.module("utils")), {"_gu": Con(None), "_archived_slicings": MapC(lambda x: HAS(x), lambda x: Sym(F("slicing", U, U)(x)))}))
    c.call(c.fn("utils.Slicer.clear"), [me])
    c.ensure("nothing is cached afterwards", Not(c.content(me).attrs["_archived_slicings"].dom(z3.Const("some_pattern", U))))


CONTRACTS += [Contract("C17.Slicer", "utils.Slicer.__init__", construct), Contract("C17.clear", "utils.Slicer.clear", cleared)]
