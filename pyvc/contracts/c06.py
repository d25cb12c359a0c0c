from contracts.dat import *
"""The data row check for predicates without argument makers, every failure kept: exactly the rows are reported on which a yes/no predicate is falsy, or a message predicate
returns anything but True (with its message)."""
HASP = F("has_predicate", U, U, B())                  # table, name
BOOL = F("is_boolean_predicate", U, U, B())
ANSWER = F("predicate_answer", U, U, U, U)            # table, name, row -> what the predicate returns
RAISES = F("predicate_raises", U, U, U, B())


class Row(Model):
    """the full row of table t identified by r (its content is _get_full_row's contract, or the row itself)"""
    def __init__(self, t, r): self.t, self.r = t, r
    def subst(self, prs): return Row(subst(self.t, prs), subst(self.r, prs))


class Info(Model):
    """a registered predicate"""
    def __init__(self, t, n): self.t, self.n = t, n
    def subst(self, prs): return Info(subst(self.t, prs), subst(self.n, prs))
    def attr(self, eng, st, name):
        if name == "predicate_kwargs_maker": return Con(None)
        if name == "predicate_failure_response": return mk_ite(BOOL(self.t, self.n), Con("Boolean"), Con("Error Message"))
        if name == "predicate":
            def predicate(e, s, a, kw):
                row = a[0]
                if kw and (set(kw) != {"**"} or False): raise Unsupported("predicate arguments")
                t, r = row_of(e, s, row)
                e.oblige("a predicate is given a row of its own table", s, t == self.t)
                # unhandled: an exception ends the check, so that all of them raise or none does is all there is to tell apart
                e.raise_(s, "PredicateError", z3.Const("predicates_raise", B()) if e.unhandled else RAISES(self.t, self.n, r))
                return Sym(ANSWER(self.t, self.n, r))
            return Prim("predicate", predicate)
        raise Unsupported("predicate info " + name)


def row_of(eng, st, row):
    if isinstance(row, Row): return row.t, row.r
    if isinstance(row, Ref) and len(row.path) == 2:
        i = row.path[1]
        return row.path[0], U.int(i) if i.sort() == Z() else i
    raise Unsupported("a row that is none of the data's")


def check(handling, boolean):
    def run(c):
        fa = Factory(c); opaque_types(fa)
        tt, nn = fresh_u("t"), fresh_u("n")
        c.eng.axioms.append(z3.ForAll([tt, nn], Implies(HASP(tt, nn), And(fa.TABLE(tt), Not(fa.GENERIC(tt)), BOOL(tt, nn) == boolean)), patterns=[HASP(tt, nn)]))
        HAST = F("has_predicates", U, B())
        c.eng.axioms.append(z3.ForAll([tt, nn], Implies(HASP(tt, nn), HAST(tt)), patterns=[HASP(tt, nn)]))
        fa.attrs["_data_row_predicates"] = MapC(lambda t: HAST(t), lambda t: MapC(lambda n: HASP(t, n), lambda n: Info(t, n)))
        fa.attrs["_parameters"] = MapC(lambda t: FALSE, lambda t: Con(None))
        fa.attrs["_convert_dat"] = Con(None)
        fa.build()
        dat = Dat(c, fa)
        good_object(c)
        c.eng.unhandled = handling == "Unhandled"
        c.eng.overrides["ticdatfactory.TicDatFactory._get_full_row"] = lambda e, s, a, kw: Row(to_u(a[2]), to_u(a[3]))
        t, n, k = z3.Const("table", U), z3.Const("name", U), z3.Const("row", U)
        i = z3.Const("position", Z())
        if handling == "Unhandled": c.allow_raise("PredicateError", lambda st: TRUE)
        r = c.call(fa.method("find_data_row_failures"), [dat.ref, Con(handling)])
        m = c.content(r)
        key = tup_u([t, n])
        entry = m.get(key)
        for keyed in (True, False):
            row, ru = (k, k) if keyed else (i, U.int(i))
            isrow = lambda x: KEYED(t, x) if keyed else And(0 <= x, x < NROWS(t))
            asu = lambda x: x if keyed else U.int(x)
            falsy = lambda v: Not(c.eng.truthy(c.st, Sym(v)))
            fails = lambda x: RAISES(t, n, asu(x)) if handling != "Unhandled" else FALSE      # unhandled ones reach the caller
            if boolean: bad = lambda x: Or(fails(x), falsy(ANSWER(t, n, asu(x))))
            else: bad = lambda x: Or(fails(x), Not(ANSWER(t, n, asu(x)) == U.bool(True)))
            spec = lambda x: And(HASP(t, n), isrow(x), bad(x))
            x = fresh_const("x", row.sort())
            hyp = [dat.haspk(t) if keyed else Not(dat.haspk(t))]
            name = "keyed: " if keyed else "keyless: "
            c.ensure(name + "reported exactly when some row fails", m.dom(key) == z3.Exists([x], spec(x)), hyps=hyp)
            if not boolean:
                msg = lambda x: U.str(PB.str_of(c.eng, c.st, Sym(ANSWER(t, n, asu(x)))))
                c.ensure(name + "each failing row is listed with its message", Implies(spec(row), c.member(entry, tup_u([ru, msg(row)]))), hyps=hyp + [Not(fails(row))])
            if boolean: c.ensure(name + "exactly the failing rows", Implies(m.dom(key), c.member(entry, ru) == spec(row)), hyps=hyp)
    return Contract("C06.find_data_row_failures(%s,%s)" % (handling, "yes/no" if boolean else "message"), "ticdatfactory.TicDatFactory.find_data_row_failures", run)


CONTRACTS = [check("Handled as Failure", b) for b in (True, False)]
