from contracts.common import *
"""baseConverter lists the digits of a number: every digit is below the base, the leading one of several is not zero, and the digits, weighted by the powers of the base
down to one, add up to the number, so distinct numbers get distinct names."""


def base_converter(c):
    eng = c.eng
    N = z3.Const("number", Z())
    base = z3.IntVal(25)                # the one base in use: the capital letters other than I
    P = F("power_of_base", Z(), Z())
    c.assume(N >= 0)
    k = fresh_const("k", Z())
    eng.axioms += [P(0) == 1, z3.ForAll([k], Implies(k >= 0, And(P(k + 1) == base * P(k), P(k + 1) >= base, P(k) >= 1)), patterns=[P(k + 1)])]
    G = lambda s, n: raw(s.vars[("ghost", n)])
    def put(s, n, v): s.vars[("ghost", n)] = Sym(v)
    # ghost: total of the digits times their weights, number of digits, exponent of the next digit's weight
    for n in ("total", "digits", "exponent"): put(c.st, n, z3.IntVal(0))
    ival = lambda s, v: eng.as_int(s, v)
    weight = {}
    plain = eng.mutate
    def mutate(s, ref, op, args):
        r = eng.deref(s, ref)
        if isinstance(s.heap.get(r.cid), (ListC, SeqC)) and not r.path:
            if op != "append": raise Unsupported("%s of the list of digits" % op)
            d, w = ival(s, args[0]), weight["of"](s)
            eng.oblige("digit below the base", s, And(0 <= d, d < base))
            eng.oblige("the leading digit is not zero", s, Implies(G(s, "digits") == 0, d > 0))
            eng.oblige("weights are the powers of the base, downwards", s, And(G(s, "exponent") >= 0, w == P(G(s, "exponent"))))
            put(s, "total", G(s, "total") + w * d)
            put(s, "digits", G(s, "digits") + 1)
            put(s, "exponent", G(s, "exponent") - 1)
        return plain(s, ref, op, args)
    eng.mutate = mutate
    def growing(eng, st, s, frames, fn):
        def inv(get, stx):
            p, e = ival(stx, get("power")), fresh_const("e", Z())
            return [("a power of the base", Exists([e], And(e >= 1, p == P(e)))), ("not above the number", And(base <= p, p <= N, ival(stx, get("number")) == N, G(stx, "total") == 0, G(stx, "digits") == 0))]
        eng.while_rule(st, s, frames, fn, inv, variant=lambda get, stx: N - ival(stx, get("power")), name="growing")
        e = eng.fresh("exponent", Z())
        st.assume(And(e >= 1, ival(st, eng.name(st, "power", frames, fn)) == P(e)))        # the exponent of the invariant
        put(st, "exponent", e)
    def digits(eng, st, s, frames, fn):
        weight["of"] = lambda stx: ival(stx, eng.name(stx, "power", frames, fn))
        def inv(get, stx):
            p, n, m, e = ival(stx, get("power")), ival(stx, get("number")), G(stx, "digits"), G(stx, "exponent")
            return [("the next weight", And(e >= 0, p == P(e), p >= 1)), ("the rest is small", And(0 <= n, n < p * base)),
                    ("digits and rest make up the number", N == G(stx, "total") + n), ("the first digit is not zero", And(m >= 0, Implies(m == 0, And(n >= p, p >= base))))]
        eng.while_rule(st, s, frames, fn, inv, variant=lambda get, stx: ival(stx, get("power")), name="digits")
        weight["of"] = lambda stx: z3.IntVal(1)
    eng.while_invariants[("utils.baseConverter", 0)] = growing
    eng.while_invariants[("utils.baseConverter", 1)] = digits
    r = c.call(c.fn("utils.baseConverter"), [Sym(N), Sym(base)])
    small = N < base
    c.ensure("the digits make up the number", G(c.st, "total") == N, hyps=[Not(small)])
    c.ensure("down to the ones", G(c.st, "exponent") == -1, hyps=[Not(small)])
    seq = c.eng.as_seqc(c.content(r)) if not isinstance(c.content(r), UnionC) else c.eng.as_seqc(c.content(r).a)
    c.ensure("a single digit is the number itself", And(seq.n == 1, ival(c.st, seq.at(z3.IntVal(0))) == N), hyps=[small])


CONTRACTS = [Contract("C16.baseConverter", "utils.baseConverter", base_converter)]
