from contracts.common import *
"""The writers: nothing that exists is opened for writing, removed or emptied unless overwriting is allowed, and a write that would is refused before anything is touched."""
S = lambda: z3.StringSort()
SV = z3.StringVal
EXISTS, PATH, PRETTY = F("path_exists", U, B()), F("path_joined", U, U, U), F("pretty_name", U, S())
TABLE, ALLOW, GOOD = F("is_table", U, B()), z3.Const("allow_overwrite", B()), z3.Const("good_object", B())
FILE = z3.Const("given_path", U)


class Anything(Model):
    """an object of no consequence: whatever is called on it does nothing to what exists"""
    def __init__(self, name="object"): self.name = name
    def has_attr(self, eng, st, name): return z3.BoolVal(True)
    def attr(self, eng, st, name): return Prim(name, lambda e, s, a, kw: Anything(name))
    def iterate(self, eng, st):
        k = fresh_u("entry")
        return [Part([k], F("entry_of_" + self.name, U, B())(k), Sym(k))]
    def call(self, eng, st, args, kw): return Anything(self.name)
    def getitem(self, eng, st, i): return Sym(eng.fresh("entry", U))
    def length(self, eng, st): return eng.fresh("length", Z())
    def contains(self, eng, st, x): return F("in_" + self.name, U, B())(to_u(x))
    def type_is(self, eng, st, cls): return z3.Const("kind_of_%s_%s" % (self.name, str(getattr(cls, "name", cls)).split(".")[-1]), B())
    def subst(self, prs): return self
    def dyn_get(self, eng, st, u): return Table("table")


class Table(Anything):
    """a table of the data object: listed rows, or a keyed table (without rows: what is written in the file is C29's)"""
    def attr(self, eng, st, name): return Prim(name, lambda e, s, a, kw: IterV(ListC([])) if name == "items" else Anything(name))


def touch(c, path, what):
    """path is about to be replaced"""
    st, p = path
    t = [x for x in entries(p)]
    facts = [z3.substitute_vars(q.body(), x) for x in t for q in st.pc if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == U]
    c.eng.oblige("%s only what is not there, unless allowed" % what, st, Implies(And(facts), Or(ALLOW, Not(EXISTS(p)))))


def entries(p):
    """the values a path speaks of"""
    out, todo = [], [p]
    while todo:
        t = todo.pop()
        if z3.is_const(t) and t.sort() == U and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(t)
        todo.extend(t.children())
    return out


def files(c, module):
    E = c.eng.B.EXTERN
    c.eng.opaque_text = True
    E["os.path.exists"] = Prim("exists", lambda e, s, a, kw: Sym(EXISTS(to_u(a[0]))))
    for n in ("isfile", "isdir"):
        E["os.path." + n] = Prim(n, lambda e, s, a, kw, f=F("path_" + n, U, B()): Sym(And(EXISTS(to_u(a[0])), f(to_u(a[0])))))
    E["os.path.join"] = Prim("join", lambda e, s, a, kw: Sym(PATH(to_u(a[0]), to_u(a[1]))))
    E["os.mkdir"] = Prim("mkdir", lambda e, s, a, kw: Con(None))
    def remove(e, s, a, kw):
        touch(c, (s, to_u(a[0])), "removed")
        return Con(None)
    E["os.remove"] = Prim("remove", remove)
    def open_(e, s, a, kw):
        mode = a[1] if len(a) > 1 else kw.get("mode", Con("r"))
        if not isinstance(mode, Con): raise Unsupported("open with an unknown mode")
        if mode.v.strip("bt") != "r": touch(c, (s, to_u(a[0])), "opened for writing")
        return Anything("open_file")
    c.eng.ext[module + ".open"] = Prim("open", open_)
    c.eng.string_keys = TABLE       # table names are strings
    t = fresh_u("t")
    c.eng.axioms.append(z3.ForAll([t], Implies(TABLE(t), U.is_str(t)), patterns=[TABLE(t)]))
    c.eng.overrides["utils.case_space_to_pretty"] = lambda e, s, a, kw: Sym(PRETTY(to_u(a[0])))


class Other(Model):
    """the writer of the schema without generic tables: refuses what would overwrite (this same contract)"""
    def __init__(self, kind): self.kind = kind
    def attr(self, eng, st, name):
        if name == self.kind: return self
        def write(e, s, a, kw):
            allow = kw.get("allow_overwrite", a[2] if len(a) > 2 else None) if name != "_write_sql_file" else None
            path = a[1] if len(a) > 1 else kw.get("file_path") or kw.get("dir_path") or kw.get("db_file_path")
            e.oblige("the same place", s, to_u(path) == FILE)
            if name == "_write_sql_file": touch(c_of[0], (s, to_u(path)), "opened for writing")
            else: e.oblige("overwriting allowed only if it was", s, Implies(e.truthy(s, allow if allow is not None else Con(False)), ALLOW))
            return Con(None)
        return Prim(name, write)


c_of = [None]


def factory(c, generic):
    c_of[0] = c
    class Tdf(Model):
        def attr(self, eng, st, name):
            if name == "all_tables": return eng.alloc(st, SetC(lambda x: TABLE(x), "frozenset"))
            if name == "generic_tables": return eng.alloc(st, SetC(lambda x: And(generic, F("is_generic", U, B())(x)), "frozenset"))
            if name == "good_tic_dat_object": return Prim(name, lambda e, s, a, kw: Sym(GOOD))
            if name in ("primary_key_fields", "data_fields"):
                n, f = F(name + "_count", U, Z()), F(name + "_at", U, Z(), U)
                return eng.alloc(st, MapC(lambda x: TABLE(x), lambda x: SeqV(SeqC(If(n(x) >= 0, n(x), z3.IntVal(0)), lambda i: Sym(f(x, i))))))
            return Anything(name)
    return Tdf()


def given(c):
    return Sym(FILE), Anything("tic_dat"), Sym(ALLOW)


def csv(c):
    files(c, "csvtd")
    c.eng.ext["csvtd.csv"] = Anything("csv")
    c.eng.overrides["utils.create_generic_free"] = lambda e, s, a, kw: Tup([Anything("dat"), Other("csv")])
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("CsvTicFactory", source.module("csvtd")), {"tic_dat_factory": factory(c, z3.Const("has_generic", B()))}))
    p, d, allow = given(c)
    for x in ("TicDatError", "TypeError", "ValueError"): c.allow_raise(x, lambda st: TRUE)
    space = z3.Const("case_space_table_names", B())
    c.call(c.fn("csvtd.CsvTicFactory.write_directory"), [me, d, p, allow, Con("excel"), Con(True), Sym(space)])


CONTRACTS = [Contract("C21.csvtd.write_directory", "csvtd.CsvTicFactory.write_directory", csv)]


def json(c):
    files(c, "jsontd")
    c.eng.overrides["jsontd._standard_verify"] = lambda e, s, a, kw: Con(None)
    c.eng.overrides["jsontd.make_json_dict"] = lambda e, s, a, kw: Anything("jdict")
    c.eng.ext["jsontd.json"] = Anything("json")
    def full(e, s, a, kw): return Other("json_pandas")
    class Written(Model):          # the DataFrame writer replaces the file
        def attr(self, eng, st, name):
            if name == "json": return self
            def write(e, s, a, kw):
                touch(c, (s, to_u(a[1])), "replaced")
                return Con(None)
            return Prim(name, write)
    c.eng.overrides["pandatfactory.PanDatFactory.create_from_full_schema"] = lambda e, s, a, kw: Written()
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("JsonTicFactory", source.module("jsontd")), {"tic_dat_factory": factory(c, z3.Const("has_generic", B()))}))
    p, d, allow = given(c)
    verbose, pandas = z3.Const("verbose", B()), z3.Const("to_pandas", B())
    c.assume(U.is_str(FILE))
    c.assume(Implies(EXISTS(FILE), Not(U.s(FILE) == SV(""))))       # nothing is at the empty path
    c.allow_raise("TicDatError", lambda st: TRUE)
    c.call(c.fn("jsontd.JsonTicFactory.write_file"), [me, d, p, allow, Sym(verbose), Sym(pandas)])


def xls(c):
    files(c, "xls")
    def writes(e, s, a, kw):
        touch(c, (s, to_u(a[2])), "replaced")
        return Con(None)
    for n in ("_xls_write", "_xlsx_write"): c.eng.overrides["xls.XlsTicFactory." + n] = writes
    c.eng.overrides["xls.XlsTicFactory._verify_differentiable_sheet_names"] = lambda e, s, a, kw: Con(None)
    c.eng.overrides["utils.create_generic_free"] = lambda e, s, a, kw: Tup([Anything("dat"), Other("xls")])
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("XlsTicFactory", source.module("xls")), {"tic_dat_factory": factory(c, z3.Const("has_generic", B()))}))
    p, d, allow = given(c)
    c.assume(U.is_str(FILE))
    c.eng.string_keys = lambda u: Or(TABLE(u), u == FILE) if not u.eq(FILE) else U.is_str(FILE)
    c.allow_raise("TicDatError", lambda st: TRUE)
    c.call(c.fn("xls.XlsTicFactory.write_file"), [me, d, p, allow, Sym(z3.Const("case_space_sheet_names", B()))])


def sql_file(c):
    files(c, "sqlitetd")
    c.eng.overrides["utils.create_generic_free"] = lambda e, s, a, kw: Tup([Anything("dat"), Other("sql")])
    for n in ("_get_schema_sql", "_get_data"):
        f = F("statement" + n, Z(), S())
        c.eng.overrides["sqlitetd.SQLiteTicFactory." + n] = lambda e, s, a, kw, f=f, n=n: SeqV(SeqC(If(z3.Const("count" + n, Z()) >= 0, z3.Const("count" + n, Z()), z3.IntVal(0)), lambda i: Sym(f(i))))
    c.eng.ext["sqlitetd.sql"] = Anything("sqlite3")
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("SQLiteTicFactory", source.module("sqlitetd")), {"tic_dat_factory": factory(c, z3.Const("has_generic", B()))}))
    p, d, allow = given(c)
    c.allow_raise("TicDatError", lambda st: TRUE)
    c.call(c.fn("sqlitetd.SQLiteTicFactory.write_sql_file"), [me, d, p, Sym(z3.Const("include_schema", B())), allow])


def db(c):
    """a database: rows are only deleted when allowed, and none inserted next to existing ones unless allowed"""
    files(c, "sqlitetd")
    ROWS = F("table_has_rows", S(), B())
    c.eng.overrides["utils.create_generic_free"] = lambda e, s, a, kw: Tup([Anything("dat"), Other("sql")])
    class Connection(Model):
        def has_attr(self, eng, st, name): return z3.BoolVal(True)
        def attr(self, eng, st, name):
            def execute(e, s, a, kw):
                text = e.as_str(s, a[0])
                fresh_ = z3.Const("row", U)
                if z3.is_app(text) and text.decl().eq(PB.JOINED):
                    head, rest = text.arg(0), text.arg(1)
                    if z3.is_string_value(head) and head.as_string().startswith("Select"):
                        k = fresh_u("row")
                        return IterV(ListC([Part([k], And(ROWS(rest), k == fresh_), Sym(k))]))
                    if z3.is_string_value(head) and head.as_string().lower().startswith("delete"):
                        e.oblige("rows deleted only when allowed", s, ALLOW)
                        return Con(None)
                t = z3.Const("some_table", U)
                e.oblige("rows inserted only into empty tables unless allowed", s,
                         Implies(And([z3.substitute_vars(q.body(), t) for q in s.pc if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == U]),
                                 Implies(TABLE(t), Or(ALLOW, Not(ROWS(PB.join_text(e, U.s(t), SV("]"))))))))
                return Con(None)
            return Prim(name, execute)
    c.eng.overrides["sqlitetd._sql_con"] = lambda e, s, a, kw: Connection()
    c.eng.overrides["sqlitetd.SQLiteTicFactory.write_db_schema"] = lambda e, s, a, kw: Con(None)
    c.eng.overrides["sqlitetd.SQLiteTicFactory._check_tables_fields"] = lambda e, s, a, kw: e.alloc(s, MapC(lambda x: TABLE(x), lambda x: Sym(F("name_in_database", U, U)(x))))
    n = z3.Const("statements", Z())
    c.eng.overrides["sqlitetd.SQLiteTicFactory._get_data"] = lambda e, s, a, kw: SeqV(SeqC(If(n >= 0, n, z3.IntVal(0)), lambda i: Tup([Sym(F("statement", Z(), S())(i)), SeqV(SeqC(F("n_values", Z(), Z())(i), lambda j: Sym(F("value_of", Z(), Z(), U)(i, j))))])))
    c.eng.ext["sqlitetd.sql"] = Anything("sqlite3")
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("SQLiteTicFactory", source.module("sqlitetd")), {"tic_dat_factory": factory(c, z3.Const("has_generic", B()))}))
    p, d, allow = given(c)
    c.allow_raise("TicDatError", lambda st: TRUE)
    c.call(c.fn("sqlitetd.SQLiteTicFactory.write_db_data"), [me, d, p, allow])


CONTRACTS += [Contract("C21.jsontd.write_file", "jsontd.JsonTicFactory.write_file", json), Contract("C21.xls.write_file", "xls.XlsTicFactory.write_file", xls),
              Contract("C21.sqlitetd.write_sql_file", "sqlitetd.SQLiteTicFactory.write_sql_file", sql_file), Contract("C21.sqlitetd.write_db_data", "sqlitetd.SQLiteTicFactory.write_db_data", db)]
