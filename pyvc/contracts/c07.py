from contracts.model import *


class Fields:
    """td_row_factory called for arbitrary key fields, data fields and declared defaults"""
    def __init__(self, c, with_defaults=True):
        eng = c.eng
        self.n, self.nk = z3.Const("n_data_fields", Z()), z3.Const("n_key_fields", Z())
        self.DF, self.POS = F("data_field", Z(), U), F("data_field_position", U, Z())
        self.KF, self.KPOS = F("key_field", Z(), U), F("key_field_position", U, Z())
        self.HASD, self.D = F("has_default", U, B()), F("default_of", U, U)
        c.assume(self.n >= 1); c.assume(self.nk >= 0)
        j = z3.Const("j!f", Z())
        for N, G, P in ((self.n, self.DF, self.POS), (self.nk, self.KF, self.KPOS)):
            eng.axioms.append(z3.ForAll([j], Implies(And(0 <= j, j < N), And(P(G(j)) == j, U.is_str(G(j)))), patterns=[G(j)]))
            eng.inverses[G.name()] = (lambda x, P=P: P(x), lambda x, P=P, G=G: G(P(x)) == x)
        # ghost position of a name that is no data field: -1; positions from 0 on are inverted exactly
        eng.inverses[self.POS.name()] = (lambda i: self.DF(i), lambda i: And(0 <= i, i < self.n))
        self.is_df = lambda f: And(0 <= self.POS(f), self.POS(f) < self.n, self.DF(self.POS(f)) == f)
        self.is_kf = lambda f: And(0 <= self.KPOS(f), self.KPOS(f) < self.nk, self.KF(self.KPOS(f)) == f)
        f = fresh_u("f")
        eng.axioms.append(z3.ForAll([f], Not(And(self.is_df(f), self.is_kf(f))), patterns=[z3.MultiPattern(self.POS(f), self.KPOS(f))]))
        eng.axioms.append(z3.ForAll([f], Implies(self.HASD(f), Or(self.is_df(f), self.is_kf(f))), patterns=[self.HASD(f)]))
        eng.axioms.append(z3.ForAll([f], Implies(self.HASD(f), self.HASD(z3.Const("a_default", U))), patterns=[self.HASD(f)]))
        seq = lambda N, G: SeqV(SeqC(N, lambda i: Sym(G(i)), "tuple"))
        self.defaults = eng.alloc(c.st, MapC(lambda x: self.HASD(x), lambda x: Sym(self.D(x)), wit=z3.Const("a_default", U)))
        self.cls = c.call(c.fn("utils.td_row_factory"), [Con("the_table"), seq(self.nk, self.KF), seq(self.n, self.DF), self.defaults])
        self.c = c

    def row(self, frozen=False):
        self.CELL = F("row_cell", Z(), U)
        at = {"_data": SeqC(self.n, lambda i: Sym(self.CELL(i)))}
        if frozen: at.update(_dataFrozen=Con(True), _attributesFrozen=Con(True))
        self.ref = self.c.eng.alloc(self.c.st, ObjC(self.cls, at))
        return self.ref

    def method(self, name): return BoundFn(self.ref, self.c.eng.find_method(self.cls, name))

    def data(self, st=None): return self.c.eng.as_seqc((st or self.c.st).heap[self.ref.cid].attrs["_data"])

    def same(self, st=None):
        i = z3.Const("any_position", Z())
        d = self.data(st)
        return And(d.n == self.n, Implies(And(0 <= i, i < self.n), to_u(d.at(i)) == self.CELL(i)))


def made(kind):
    def run(c):
        fs = Fields(c)
        f = z3.Const("some_field", U)
        if kind == "dictionary":
            IN, X = F("given_field", U, B()), F("given_value", U, U)
            x = c.eng.alloc(c.st, MapC(lambda k: IN(k), lambda k: Sym(X(k)), wit=z3.Const("a_given_field", U)))
            g = z3.Const("g!in", U)
            c.eng.axioms.append(z3.ForAll([g], Implies(IN(g), IN(z3.Const("a_given_field", U))), patterns=[IN(g)]))
            ok = z3.ForAll([g], Implies(IN(g), fs.is_df(g)), patterns=[IN(g)])
            want = If(IN(f), X(f), If(fs.HASD(f), fs.D(f), U.int(0)))
        elif kind == "sequence":
            n, X = z3.Const("given_count", Z()), F("given_value", Z(), U)
            c.assume(n >= 0)
            x = c.eng.alloc(c.st, SeqC(n, lambda i: Sym(X(i))))
            ok = n == fs.n
            want = X(fs.POS(f))
        else:
            v = z3.Const("given_scalar", U)
            c.assume(Not(U.is_tup(v))); plain_obj(c, v)
            x, ok, want = Sym(v), fs.n == 1, v
        c.allow_raise("TicDatError", lambda st: Not(ok))
        fs.ref = c.call(fs.cls, [x])
        d = fs.data()
        c.ensure("a row is only made of data fields" if kind == "dictionary" else "a row is only made of as many values as data fields", ok)
        c.ensure("it holds as many cells as data fields", d.n == fs.n)
        c.ensure("each cell holds the given value, else the default, else zero", to_u(d.at(fs.POS(f))) == want, hyps=[fs.is_df(f)])
    return Contract("C07.row.made_from_" + kind, "utils.td_row_factory", run, covers=("C08",))


def read(c):
    fs = Fields(c); fs.row()
    f = z3.Const("field", U); plain_obj(c, f)
    c.allow_raise("TicDatError", lambda st: Not(fs.is_df(f)))
    r = c.call(fs.method("__getitem__"), [Sym(f)])
    c.ensure("only data fields can be read", fs.is_df(f))
    c.ensure("the cell of that field", to_u(r) == fs.CELL(fs.POS(f)))
    c.ensure("reading changes nothing", fs.same())


def write(frozen):
    def run(c):
        fs = Fields(c); fs.row(frozen)
        f, v = z3.Const("field", U), z3.Const("value", U)
        plain_obj(c, f)
        c.allow_raise("TicDatError", lambda st: And(fs.same(st), TRUE if frozen else Not(fs.is_df(f))))
        c.call(fs.method("__setitem__"), [Sym(f), Sym(v)])
        if frozen:
            c.never_returns("every attempt is refused"); return
        i = z3.Const("any_position", Z())
        d = fs.data()
        c.ensure("only data fields can be written", fs.is_df(f))
        c.ensure("the cell holds the value written", to_u(d.at(fs.POS(f))) == v)
        c.ensure("the other cells keep theirs", And(d.n == fs.n, Implies(And(0 <= i, i < fs.n, i != fs.POS(f)), to_u(d.at(i)) == fs.CELL(i))))
    return run


def frozen_attribute(delete):
    def run(c):
        fs = Fields(c); fs.row(True)
        n, v = z3.Const("attribute_name", S()), z3.Const("new_value", U)
        before = c.st.heap[fs.ref.cid]
        def same(st): return And([fs.same(st), z3.BoolVal(set(st.heap[fs.ref.cid].attrs) == set(before.attrs))] + [to_u(st.heap[fs.ref.cid].attrs[a]) == to_u(before.attrs[a]) for a in ("_dataFrozen", "_attributesFrozen")])
        c.allow_raise("TicDatError", same)
        c.call(fs.method("__delattr__" if delete else "__setattr__"), [Sym(n)] + ([] if delete else [Sym(v)]))
        c.never_returns("every attempt is refused")
    return Contract("C09.row." + ("__delattr__" if delete else "__setattr__"), "utils.td_row_factory", run)


def listing(c):
    """keys, values, items, length, membership and iteration describe the same row"""
    fs = Fields(c); fs.row()
    eng = c.eng
    sq = lambda v: eng.as_seqc(c.content(v))
    ks, vs = sq(c.call(fs.method("keys"), [])), sq(c.call(fs.method("values"), []))
    n = c.call(fs.method("__len__"), [])
    i, f = z3.Const("position", Z()), z3.Const("field", U)
    here = [0 <= i, i < fs.n]
    c.ensure("one key, one value per data field", And(ks.n == fs.n, vs.n == fs.n, eng.as_int(c.st, n) == fs.n))
    c.ensure("keys are the data fields in schema order", to_u(ks.at(i)) == fs.DF(i), hyps=here)
    c.ensure("values are the cells in the same order", to_u(vs.at(i)) == fs.CELL(i), hyps=here)
    m = c.call(fs.method("__contains__"), [Sym(f)])
    c.ensure("membership is being a data field", eng.truthy(c.st, m) == fs.is_df(f))
    its = c.call(fs.method("items"), [])
    it = sq(its)
    c.ensure("as many items as fields", it.n == fs.n)
    c.ensure("items pair field and cell", And(to_u(c.item(it.at(i), 0)) == fs.DF(i), to_u(c.item(it.at(i), 1)) == fs.CELL(i)), hyps=here)
    c.ensure("listing changes nothing", fs.same())


def no_fields(c):
    """tables without data fields: only empty rows"""
    n, X = z3.Const("given_count", Z()), F("given_value", Z(), U)
    c.assume(n >= 0)
    mk = c.call(c.fn("utils.td_row_factory"), [Con("the_table"), Tup([]), Tup([]), Con(None)])
    x = c.eng.alloc(c.st, SeqC(n, lambda i: Sym(X(i))))
    c.allow_raise("TicDatError", lambda st: n > 0)
    r = c.call(mk, [x])
    k = z3.Const("any_key", U)
    c.ensure("no values for a table without data fields", n == 0)
    c.ensure("an empty row", Not(c.content(r).attrs["%map"].dom(k)))


CONTRACTS = [made("dictionary"), made("sequence"), made("scalar"), Contract("C07.row.read", "utils.td_row_factory", read),
             Contract("C07.row.write", "utils.td_row_factory", write(False)), Contract("C09.row.write_frozen", "utils.td_row_factory", write(True)),
             Contract("C07.row.listing", "utils.td_row_factory", listing), Contract("C07.row.no_fields", "utils.td_row_factory", no_fields),
             frozen_attribute(False), frozen_attribute(True)]
