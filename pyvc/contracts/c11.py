from contracts.c10 import *
CONTRACTS = []
FLAGS = ("infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init", "automunge_multitype_fields")
SINGLE, MF, MN, MOBJ = F("single_pair", Z(), B()), F("mapped_field", Z(), Z(), Z(), U), F("number_of_pairs", Z(), Z()), F("mapping_object", Z(), Z())


class Mapping(Model):
    """the mapping of a listed foreign key: one pair, or a tuple of pairs (C28)"""
    def __init__(self, c, j): self.c, self.j = c, j
    def subst(self, pairs): return Mapping(self.c, subst(self.j, pairs))
    def has_attr(self, eng, st, name): return SINGLE(self.j) if name in ("native_field", "foreign_field") else FALSE
    def attr(self, eng, st, name): return Sym(MF(self.j, z3.IntVal(0), z3.IntVal(("native_field", "foreign_field").index(name))))
    def iterate(self, eng, st):
        rec = eng.global_name("ForeignKeyMapping", source.module("utils"))
        i = fresh_const("i", Z())
        return [Part([i], And(0 <= i, i < MN(self.j)), Tup([Sym(MF(self.j, i, z3.IntVal(s))) for s in (0, 1)], rec, ["native_field", "foreign_field"]))]
    def to_u(self): return U.obj(MOBJ(self.j))


def description(c, fa, A):
    """an arbitrary full description (C10.schema(full)), and its parts as functions"""
    eng = c.eng
    seq = lambda n, fld: lambda x: SeqV(SeqC(n(x), lambda j: Sym(fld(x, j)), "list"))
    pk, df = seq(fa.NPK, fa.PKF), seq(fa.NDF, fa.DFF)
    fields = A(MapC(lambda x: fa.TABLE(x), lambda x: mk_ite(fa.GENERIC(x), Con("*"), Tup([pk(x), df(x)])), wit=z3.Const("some_kept_table", U)))
    n = z3.Const("n_foreign_keys", Z()); c.assume(n >= 0)
    FK = F("foreign_key_part", Z(), Z(), U)
    rec = eng.global_name("ForeignKey", source.module("utils"))
    names = next(q.fields for q in eng.mro(rec) if q.fields)
    fks = SeqV(SeqC(n, lambda j: Tup([Sym(FK(j, z3.IntVal(0))), Sym(FK(j, z3.IntVal(1))), Mapping(c, j), Sym(FK(j, z3.IntVal(3)))], rec, names), "tuple"))
    two = {}
    for q in ("default_values", "data_types", "tooltips"):
        HT, HF, V_ = F("has_%s_table" % q, U, B()), F("has_%s" % q, U, U, B()), F("the_%s" % q, U, U, U)
        two[q] = (HT, HF, V_, A(MapC(lambda x, HT=HT: HT(x), lambda x, HF=HF, V_=V_: MapC(lambda y: HF(x, y), lambda y: Sym(V_(x, y))))))
    flags = {q: z3.Const(q, U) for q in FLAGS + ("parameters",)}
    full = dict({"tables_fields": fields, "foreign_keys": fks}, **{q: v[3] for q, v in two.items()}, **{q: Sym(v) for q, v in flags.items()})
    return full, FK, n, two, flags


def restricted(c, removing):
    eng = c.eng
    t, f, i, j = z3.Const("table", U), z3.Const("field", U), z3.Const("position", Z()), z3.Const("fk", Z())
    A = lambda x: eng.alloc(c.st, x)
    fa = Factory(c)
    full, FK, n, two, flags = description(c, fa, A)
    ref = A(by_name({q: eng.own(c.st, v) for q, v in full.items()}))
    KEEP, REM = F("kept_table", U, B()), F("removed_field", U, U, B())
    x, y = fresh_u("x"), fresh_u("y")
    keep = A(SetC(lambda x: KEEP(x)))
    a, b = fresh_u("table"), fresh_u("field")
    rem = A(ListC([Part([a, b], REM(a, b), Tup([Sym(a), Sym(b)]))])) if removing else Con(None)
    if not removing: c.assume(z3.ForAll([x, y], Not(REM(x, y)), patterns=[REM(x, y)]))
    c.assume(z3.ForAll([x], Implies(KEEP(x), U.is_str(x)), patterns=[KEEP(x)]))
    c.assume(z3.ForAll([x, y], Implies(REM(x, y), And(U.is_str(x), U.is_str(y))), patterns=[REM(x, y)]))
    w = z3.Const("some_kept_table", U)
    c.assume(KEEP(w)); c.assume(fa.TABLE(w))
    c.assume(z3.ForAll([x], Implies(KEEP(x), fa.TABLE(x)), patterns=[KEEP(x)]))
    c.assume(z3.ForAll([x, y], Implies(REM(x, y), And(fa.TABLE(x), Not(fa.GENERIC(x)), fa.IS_FIELD(x, y))), patterns=[REM(x, y)]))
    eng.prune_raises = 1000
    r = c.content(c.call(c.fn("utils.clone_a_anchillary_info_schema"), [ref, keep, rem]))
    c.ensure("exactly the parts of a description", And([r.dom(U.str(z3.StringVal(q))) for q in full] + [Or([U.str(z3.StringVal(q)) == x for q in full] + [Not(r.dom(x))])]))
    def part(q):
        v = r.get(U.str(z3.StringVal(q)))
        while isinstance(v, UnionC):
            k = z3.simplify(v.c)
            if not (z3.is_true(k) or z3.is_false(k)): break
            v = v.a if z3.is_true(k) else v.b
        return v.v if isinstance(v, NoneC) else v
    def inner(v):
        v = c.content(v) if isinstance(v, Ref) else v
        return v.v if isinstance(v, NoneC) else v
    m = inner(part("tables_fields"))
    c.ensure("exactly the kept tables", m.dom(t) == KEEP(t))
    v = inner(settled(c, m.get(t), [KEEP(t), fa.GENERIC(t)]))
    c.ensure("generic tables stay generic", to_u(v) == U.str(z3.StringVal("*")), hyps=[KEEP(t), fa.GENERIC(t)])
    h = [KEEP(t), Not(fa.GENERIC(t))]
    v = inner(settled(c, m.get(t), h))
    if not (isinstance(v, ListC) and len(v.parts) == 2): raise Unsupported("table entry")
    for e, n_, fld, name in zip(v.parts, (fa.NPK, fa.NDF), (fa.PKF, fa.DFF), ("primary key", "data")):
        ps = inner(e.elem).parts
        if len(ps) != 1 or len(ps[0].bs) != 1 or ps[0].bs[0].sort() != Z(): raise Unsupported("kept %s fields" % name)
        p = ps[0]; k = p.bs[0]
        c.ensure("exactly the remaining %s fields are kept" % name, p.guard == And(0 <= k, k < n_(t), Not(REM(t, fld(t, k)))), hyps=h)
        c.ensure("in declared order: %s" % name, to_u(p.elem) == fld(t, k), hyps=h + [p.guard])
    for q, (HT, HF, V_, _) in two.items():
        m = inner(part(q))
        c.ensure("%s of exactly the kept tables" % q, m.dom(t) == And(KEEP(t), HT(t)))
        row = inner(settled(c, m.get(t), [m.dom(t)]))
        c.ensure("%s of exactly the kept fields" % q, row.dom(f) == And(HF(t, f), Not(REM(t, f))), hyps=[m.dom(t)])
        c.ensure("%s unchanged" % q, to_u(row.get(f)) == V_(t, f), hyps=[m.dom(t), row.dom(f)])
    for q in FLAGS: c.ensure("%s unchanged" % q, to_u(part(q)) == flags[q])
    ps = part("parameters")
    P_ = KEEP(U.str(z3.StringVal("parameters")))
    m = inner(settled(c, ps, [Not(P_)]))
    c.ensure("no parameters without their table", Not(m.dom(x)), hyps=[Not(P_)])
    c.ensure("parameters with their table", to_u(inner(settled(c, ps, [P_]))) == flags["parameters"], hyps=[P_])
    ps = c.content(part("foreign_keys")).parts if isinstance(part("foreign_keys"), Ref) else c.eng.iterate(c.st, part("foreign_keys"))
    if len(ps) != 1 or len(ps[0].bs) != 1 or ps[0].bs[0].sort() != Z(): raise Unsupported("kept foreign keys")
    p = ps[0]; k = p.bs[0]
    nt, ft = FK(k, z3.IntVal(0)), FK(k, z3.IntVal(1))
    pair_ok = lambda i: And(Not(REM(nt, MF(k, i, z3.IntVal(0)))), Not(REM(ft, MF(k, i, z3.IntVal(1)))))
    ok = And(Implies(SINGLE(k), pair_ok(z3.IntVal(0))), Implies(Not(SINGLE(k)), z3.ForAll([i], Implies(And(0 <= i, i < MN(k)), pair_ok(i)))))
    c.ensure("exactly the foreign keys not mentioning anything removed", p.guard == And(0 <= k, k < n, KEEP(nt), KEEP(ft), ok))
    c.ensure("foreign keys unchanged", And([to_u(c.item(p.elem, q)) == FK(k, z3.IntVal(q)) for q in (0, 1, 3)] + [to_u(c.item(p.elem, 2)) == U.obj(MOBJ(k))]))
    return r


def impossible(what):
    """requests naming unknown tables or fields are refused"""
    def run(c):
        A = lambda x: c.eng.alloc(c.st, x)
        fa = Factory(c)
        full, FK, n, two, flags = description(c, fa, A)
        ref = A(by_name({q: c.eng.own(c.st, v) for q, v in full.items()}))
        KEEP, REM = F("kept_table", U, B()), F("removed_field", U, U, B())
        x, y, w, v = fresh_u("x"), fresh_u("y"), z3.Const("some_kept_table", U), z3.Const("some_field", U)
        a, b = fresh_u("table"), fresh_u("field")
        c.assume(fa.TABLE(w))
        c.assume(z3.ForAll([x], Implies(KEEP(x), U.is_str(x)), patterns=[KEEP(x)]))
        c.assume(z3.ForAll([x, y], Implies(REM(x, y), And(U.is_str(x), U.is_str(y))), patterns=[REM(x, y)]))
        u = z3.Const("unknown_table", U)
        if what == "unknown table kept": c.assume(KEEP(u)); c.assume(Not(fa.TABLE(u)))
        elif what == "no table kept": c.assume(z3.ForAll([x], Not(KEEP(x)), patterns=[KEEP(x)]))
        else: c.assume(REM(u, v)); c.assume(Not(And(fa.TABLE(u), Not(fa.GENERIC(u)), fa.IS_FIELD(u, v))))
        c.allow_raise("TicDatError", lambda st: TRUE)
        c.call(c.fn("utils.clone_a_anchillary_info_schema"), [ref, A(SetC(lambda x: KEEP(x))), A(ListC([Part([a, b], REM(a, b), Tup([Sym(a), Sym(b)]))]))])
        c.never_returns("refused")
    return Contract("C11.clone_a_anchillary_info_schema(%s)" % what, "utils.clone_a_anchillary_info_schema", run)


class Cloned:
    """the calls an edit makes: clone (contract: hands its clone_factory the full description and returns what that makes, C10), restricting the description
    (contract above), and create_from_full_schema (C10)"""
    def __init__(self, c, fa, cls):
        mod = {"TicDatFactory": "ticdatfactory", "PanDatFactory": "pandatfactory"}[cls]
        eng, self.made, self.restricted = c.eng, [], []
        self.made_u = z3.Const("the_new_factory", U)
        full = eng.alloc(c.st, by_name({}))
        def clone(e, s, a, kw):
            if set(kw) != {"clone_factory"} or len(a) != 1: raise Unsupported("clone with other arguments")
            e.oblige("clones this factory", s, z3.BoolVal(isinstance(a[0], Ref) and a[0].cid == fa.ref.cid))
            return e.call(s, kw["clone_factory"], [full], {})
        def restrict(e, s, a, kw):
            vals = dict(zip(("schema", "table_restrictions", "fields_to_remove"), a)); vals.update(kw)
            x = fresh_u("x")
            e.oblige("starts from the full description", s, z3.BoolVal(vals["schema"] is full or isinstance(vals["schema"], Ref) and vals["schema"].cid == full.cid))
            keep = e.to_set(s, vals["table_restrictions"])
            e.oblige("keeps every table", s, ForAll([x], keep.mem(x) == fa.TABLE(x)))
            self.restricted.append(vals.get("fields_to_remove", Con(None)))
            seq = lambda n, fld: lambda x: SeqC(n(x), lambda j: Sym(fld(x, j)), "list")
            pk, df = seq(fa.NPK, fa.PKF), seq(fa.NDF, fa.DFF)
            tables = MapC(lambda x: fa.TABLE(x), lambda x: ListC([Part([], TRUE, pk(x)), Part([], TRUE, df(x))]))       # generic tables: not looked at
            self.out = e.alloc(s, ObjC(None, {}))
            s.heap[self.out.cid] = by_name({"tables_fields": tables})
            return self.out
        def create(e, s, a, kw):
            self.made.append((a[-1], s.fork()))
            return Sym(self.made_u)
        eng.overrides["%s.%s.clone" % (mod, cls)] = clone
        eng.overrides["utils.clone_a_anchillary_info_schema"] = restrict
        eng.overrides["%s.%s.create_from_full_schema" % (mod, cls)] = create


def add_column(cls, kind, position):
    def run(c):
        fa = Factory(c, cls); fa.build()
        log = Cloned(c, fa, cls)
        t, f, other, j = z3.Const("table_arg", U), z3.Const("field_arg", U), z3.Const("another_table", U), z3.Const("position", Z())
        at = z3.Const("position_arg", Z())
        N, FLD, IS = (fa.NPK, fa.PKF, fa.IS_PK) if kind == "primary key" else (fa.NDF, fa.DFF, fa.IS_DF)
        c.assume(Not(fa.GENERIC(t)))
        bad = Or(Not(fa.TABLE(t)), Not(U.is_str(f)), IS(t, f), FALSE if position is None else Or(at < 0, at > N(t)))
        c.allow_raise("TicDatError", lambda st: bad)
        args = [fa.ref, Sym(t), Sym(f), Con(kind)] + ([] if position is None else [Sym(at)])
        r = c.call(c.fn("utils.clone_add_a_column"), args)
        c.ensure("impossible requests are refused", Not(bad))
        if len(log.made) != 1 or len(log.restricted) != 1: raise Unsupported("%d factories made" % len(log.made))
        c.ensure("nothing is removed", z3.BoolVal(isinstance(log.restricted[0], Con) and log.restricted[0].v is None))
        c.ensure("the clone is returned", to_u(r) == log.made_u)
        desc, st = log.made[0]
        c.ensure("made from the edited description", z3.BoolVal(isinstance(desc, Ref) and desc.cid == log.out.cid))
        m = c.eng.content(st, desc)
        tables = m.get(U.str(z3.StringVal("tables_fields")))
        where = at if position is not None else N(t)
        for k, (n_, fld) in enumerate(((fa.NPK, fa.PKF), (fa.NDF, fa.DFF))):
            mine = (kind == "primary key") == (k == 0)
            for x, edited in ((t, mine), (other, False)):
                lst = c.eng.step(st, tables, x)
                lst = c.eng.as_seqc(c.eng.step(st, lst, z3.IntVal(k)))
                h = [fa.TABLE(x), fa.TABLE(t)] + ([] if x is t else [other != t])
                name = "%s fields of %s" % (("primary key", "data")[k], "the table" if x is t else "other tables")
                n = n_(x) + (1 if edited else 0)
                c.ensure("as many " + name, lst.n == n, hyps=h)
                want = fld(x, j) if not edited else z3.If(j == where, f, fld(x, z3.If(j < where, j, j - 1)))
                c.ensure("in the right places: " + name, to_u(lst.at(j)) == want, hyps=h + [0 <= j, j < n])
    return Contract("C11.%s.clone_add_a_column(%s,%s)" % (cls, kind, position or "append"), "utils.clone_add_a_column", run)


def remove_column(cls):
    def run(c):
        fa = Factory(c, cls); fa.build()
        log = Cloned(c, fa, cls)
        t, f = z3.Const("table_arg", U), z3.Const("field_arg", U)
        c.assume(Not(fa.GENERIC(t)))
        bad = Not(And(fa.TABLE(t), fa.IS_FIELD(t, f)))
        c.allow_raise("TicDatError", lambda st: bad)
        r = c.call(c.fn("utils.clone_remove_a_column"), [fa.ref, Sym(t), Sym(f)])
        c.ensure("impossible requests are refused", Not(bad))
        if len(log.made) != 1 or len(log.restricted) != 1: raise Unsupported("%d factories made" % len(log.made))
        c.ensure("the clone is returned", to_u(r) == log.made_u)
        desc, st = log.made[0]
        c.ensure("made from the edited description", z3.BoolVal(isinstance(desc, Ref) and desc.cid == log.out.cid))
        ps = c.eng.iterate(c.st, log.restricted[0])
        c.ensure("one field is removed", z3.BoolVal(len(ps) == 1 and not ps[0].bs))
        pair = c.content(ps[0].elem) if isinstance(ps[0].elem, Ref) else ps[0].elem
        a, b = [p.elem for p in pair.parts] if isinstance(pair, ListC) else pair.items
        c.ensure("the field asked for", And(to_u(a) == t, to_u(b) == f))
    return Contract("C11.%s.clone_remove_a_column" % cls, "utils.clone_remove_a_column", run)


def add_table(cls):
    def run(c):
        fa = Factory(c, cls); fa.build()
        log = Cloned(c, fa, cls)
        t, other, j = z3.Const("table_arg", U), z3.Const("another_table", U), z3.Const("position", Z())
        n = [z3.Const("n_" + q, Z()) for q in ("pk", "df")]
        fld = [F("new_" + q, Z(), U) for q in ("pk", "df")]
        c.assume(And(n[0] >= 0, n[1] >= 0))
        args = [c.eng.alloc(c.st, SeqC(m, lambda i, g=g: Sym(g(i)), "list")) for m, g in zip(n, fld)]
        notstr = lambda k: z3.Exists([j], And(0 <= j, j < n[k], Not(U.is_str(fld[k](j)))))
        bad = Or(fa.TABLE(t), notstr(0), notstr(1), And(n[0] == 0, n[1] == 0))
        c.allow_raise("TicDatError", lambda st: bad)
        r = c.call(c.fn("utils.clone_add_a_table"), [fa.ref, Sym(t)] + args)
        c.ensure("impossible requests are refused", Not(bad))
        if len(log.made) != 1 or len(log.restricted) != 1: raise Unsupported("%d factories made" % len(log.made))
        c.ensure("nothing is removed", z3.BoolVal(isinstance(log.restricted[0], Con) and log.restricted[0].v is None))
        c.ensure("the clone is returned", to_u(r) == log.made_u)
        desc, st = log.made[0]
        c.ensure("made from the edited description", z3.BoolVal(isinstance(desc, Ref) and desc.cid == log.out.cid))
        m = c.eng.content(st, desc)
        tables = m.get(U.str(z3.StringVal("tables_fields")))
        x = fresh_u("x")
        c.ensure("exactly the old tables and the new one", tables.dom(x) == Or(x == t, fa.TABLE(x)))
        for k, (n_, g) in enumerate(((fa.NPK, fa.PKF), (fa.NDF, fa.DFF))):
            for x, want_n, want in ((t, n[k], fld[k](j)), (other, n_(other), g(other, j))):
                h = [Not(fa.TABLE(t))] + ([] if x is t else [other != t, fa.TABLE(other)])
                v = settled(c, tables.get(x), h)
                lst = settled(c, c.eng.step(st, v, z3.IntVal(k)), h)
                lst = c.eng.as_seqc(lst)
                name = "%s fields of %s" % (("primary key", "data")[k], "the new table" if x is t else "the other tables")
                c.ensure("as many " + name, lst.n == want_n, hyps=h)
                c.ensure("in order: " + name, to_u(lst.at(j)) == want, hyps=h + [0 <= j, j < want_n])
    return Contract("C11.%s.clone_add_a_table" % cls, "utils.clone_add_a_table", run)


def clone(cls, restricting):
    """clone: everything the description does not carry - row predicates, generator tables, links - is carried over for the kept tables"""
    mod = {"TicDatFactory": "ticdatfactory", "PanDatFactory": "pandatfactory"}[cls]
    def run(c):
        eng = c.eng
        fa = Factory(c, cls)
        t, p = z3.Const("table", U), z3.Const("name", U)
        rec = eng.global_name("RowPredicateInfo", source.module("utils"))
        names = next(q.fields for q in eng.mro(rec) if q.fields)
        HT, HP = F("has_predicate_table", U, B()), F("has_predicate", U, U, B())
        PART = [F("predicate_part_%s" % q, U, U, U) for q in names]
        fa.attrs["_data_row_predicates"] = MapC(lambda x: HT(x), lambda x: MapC(lambda y: HP(x, y), lambda y: Tup([Sym(g(x, y)) for g in PART], rec, names)))
        n = z3.Const("n_generators", Z()); c.assume(n >= 0)
        gen = F("generator_table", Z(), U)
        LINKS = z3.Const("links_enabled", B())
        if cls == "TicDatFactory":
            fa.attrs["_generator_tables"] = SeqC(n, lambda j: Sym(gen(j)))
            fa.attrs["_foreign_key_links_enabled"] = ListC([Part([], LINKS, Con(True))])
        nc = z3.Const("n_convert", Z()); c.assume(nc >= 0)
        conv = F("convert_part", Z(), U)
        fa.attrs["_convert_dat"] = SeqC(nc, lambda j: Sym(conv(j)), "list")
        fa.build()
        KEEP = F("kept_table", U, B())
        keep = eng.alloc(c.st, SetC(lambda x: KEEP(x))) if restricting else Con(None)
        kept = (lambda x: KEEP(x)) if restricting else (lambda x: TRUE)
        use_deep_freeze(c)
        FULL, CUT = z3.Const("full_description", U), z3.Const("restricted_description", U)
        calls = {}
        def schema(e, s, a, kw):
            v = kw.get("include_ancillary_info", a[1] if len(a) > 1 else Con(False))
            e.oblige("asks for the full description", s, e.truthy(s, v))
            return Sym(FULL)
        def cut(e, s, a, kw):
            vals = dict(zip(("schema", "table_restrictions", "fields_to_remove"), a)); vals.update(kw)
            e.oblige("restricts the full description", s, And(to_u(vals["schema"]) == FULL, z3.BoolVal(vals.get("fields_to_remove") is None)))
            v = vals["table_restrictions"]
            e.oblige("to the kept tables", s, z3.BoolVal(same(v, keep)))
            return Sym(CUT)
        log = eng.alloc(c.st, ObjC(None, dict({q: EMPTY_MAP() for q in names}, gens=EMPTY_LIST(), links=EMPTY_LIST())))
        new = eng.alloc(c.st, ObjC(fa.cls, {"_convert_dat": EMPTY_LIST()}))
        def create(e, s, a, kw):
            e.oblige("made from the restricted description", s, to_u(a[-1]) == CUT)
            return new
        def add(e, s, a, kw):
            vals = dict(zip(("self", "table", "predicate", "predicate_name", "predicate_kwargs_maker", "predicate_failure_response"), a)); vals.update(kw)
            key = tup_u([to_u(vals["table"]), to_u(vals["predicate_name"])])
            for q in names: e.mutate(s, Ref(log.cid, (q,)), "set", (key, vals.get(q, Con(MISSING))))
            return Con(None)
        def gens(e, s, a, kw):
            e.mutate(s, Ref(log.cid, ()), "attr", ("gens", e.content(s, a[1]) if isinstance(a[1], Ref) else a[1])); return Con(None)
        def links(e, s, a, kw):
            e.mutate(s, Ref(log.cid, ("links",)), "append", (Con(True),)); return Con(None)
        eng.overrides["%s.%s.schema" % (mod, cls)] = schema
        eng.overrides["utils.clone_a_anchillary_info_schema"] = cut
        eng.overrides["%s.%s.create_from_full_schema" % (mod, cls)] = create
        eng.overrides["%s.%s.add_data_row_predicate" % (mod, cls)] = add
        eng.overrides["%s.%s.set_generator_tables" % (mod, cls)] = gens
        eng.overrides["%s.%s.enable_foreign_key_links" % (mod, cls)] = links
        r = c.call(fa.method("clone"), [keep])
        c.ensure("the new factory is returned", z3.BoolVal(isinstance(r, Ref) and r.cid == new.cid))
        L = c.st.heap[log.cid].attrs
        key = tup_u([t, p])
        want = And(HT(t), HP(t, p), kept(t))
        for q, g in zip(names, PART):
            c.ensure("exactly the row predicates of the kept tables: %s" % q, L[q].dom(key) == want)
            c.ensure("unchanged %s" % q, to_u(L[q].get(key)) == g(t, p), hyps=[want])
        got = c.eng.as_seqc(c.st.heap[new.cid].attrs["_convert_dat"])
        j = z3.Const("position", Z())
        c.ensure("the data conversion is carried over", And(got.n == nc, Implies(And(0 <= j, j < nc), to_u(got.at(j)) == conv(j))))
        if cls == "TicDatFactory":
            c.ensure("links enabled exactly if they were", z3.BoolVal(len(L["links"].parts) == 1) if not L["links"].parts else L["links"].parts[0].guard == LINKS)
            g = L["gens"]
            ps = g.parts if isinstance(g, ListC) else c.eng.parts_of(g)
            if len(ps) != 1 or len(ps[0].bs) != 1: raise Unsupported("generator tables")
            k = ps[0].bs[0]
            c.ensure("generator tables of the kept tables", And(ps[0].guard == And(0 <= k, k < n, kept(gen(k))), Implies(ps[0].guard, to_u(ps[0].elem) == gen(k))))
    return Contract("C11.%s.clone%s" % (cls, "(restricted)" if restricting else ""), "%s.%s.clone" % (mod, cls), run, covers=("C10",))


CONTRACTS += [clone(k, w) for k in ("TicDatFactory", "PanDatFactory") for w in (False, True)] + [add_table(k) for k in ("TicDatFactory", "PanDatFactory")]
CONTRACTS += [impossible(w) for w in ("unknown table kept", "no table kept", "unknown field removed")]
for cls in ("TicDatFactory", "PanDatFactory"):
    CONTRACTS += [add_column(cls, k, p) for k in ("primary key", "data") for p in (None, "position")] + [remove_column(cls)]
for removing in (True, False):
    CONTRACTS.append(Contract("C11.clone_a_anchillary_info_schema" + ("" if removing else "(no fields removed)"), "utils.clone_a_anchillary_info_schema",
                              lambda c, removing=removing: restricted(c, removing)))
