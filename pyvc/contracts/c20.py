from contracts.c15 import counted, settled
from contracts.model import *
"""Matching a table to the file, JSON key or database table whose name equals it ignoring case and treating spaces as underscores: found when there is exactly one,
refused when there are several, absent when there is none."""
CONTRACTS = []
SV = z3.StringVal
AT, POS = F("entry", Z(), S()), F("entry_position", S(), Z())
ISFILE, JOIN = F("is_a_file", U, B()), F("path_of", S(), S())
FOLD = lambda s: PB.replace_all(None, PB.LOWER(s), SV(" "), SV("_"))


def entries(c):
    """the distinct names in the directory / the keys of the loaded dictionary"""
    n, j = z3.Const("entries", Z()), fresh_const("j", Z())
    c.assume(n >= 0)
    c.eng.axioms.append(z3.ForAll([j], Implies(And(0 <= j, j < n), POS(AT(j)) == j), patterns=[AT(j)]))
    c.eng.count_unique = c.eng.opaque_text = True
    return n


def directory(c):
    n = entries(c)
    E = c.eng.B.EXTERN
    E["os.listdir"] = Prim("listdir", lambda e, s, a, kw: SeqV(SeqC(n, lambda j: Sym(AT(j)))))
    E["os.path.join"] = Prim("join", lambda e, s, a, kw: Sym(JOIN(e.as_str(s, a[1]))))
    E["os.path.isfile"] = Prim("isfile", lambda e, s, a, kw: Sym(ISFILE(to_u(a[0]))))
    return n, lambda i, table: And(0 <= i, i < n, ISFILE(U.str(JOIN(AT(i)))), FOLD(AT(i)) == PB.join_text(c.eng, PB.LOWER(table), SV(".csv")))


def file_path(c):
    n, cand = directory(c)
    table = z3.Const("table", S())
    me = c.eng.alloc(c.st, ObjC(c.eng.global_name("CsvTicFactory", source.module("csvtd")), {}))
    i, j = z3.Const("one_position", Z()), z3.Const("another_position", Z())
    x, y = fresh_const("x", Z()), fresh_const("y", Z())
    c.allow_raise("TicDatError", lambda st: Exists([x, y], And(cand(x, table), cand(y, table), x != y)))
    r = c.call(c.fn("csvtd.CsvTicFactory._get_file_path"), [me, Sym(z3.Const("directory", U)), Sym(table)])
    none = to_u(r) == U.none
    c.ensure("two matching files are refused", i == j, hyps=[cand(i, table), cand(j, table)])
    c.ensure("the matching file is found", And(Not(none), to_u(r) == U.str(JOIN(AT(i)))), hyps=[cand(i, table)])
    z = fresh_const("z", Z())
    c.ensure("nothing is found only if no file matches", Exists([z], cand(z, table)), hyps=[Not(none)])


CONTRACTS.append(Contract("C20.csvtd._get_file_path", "csvtd.CsvTicFactory._get_file_path", file_path))


SPELLS, NSPELL, SPELLPOS = F("spelling", U, Z(), S()), F("spellings", U, Z()), F("spelling_position", U, S(), Z())
ANSWERS = F("statement_succeeds", S(), B())


class Connection(Model):
    """a database connection: a statement succeeds or raises, depending on its text"""
    def attr(self, eng, st, name):
        if name in ("__exit__", "__enter__"): return Prim(name, lambda e, s, a, kw: self if name == "__enter__" else Con(None))
        if name == "execute":
            def execute(e, s, a, kw):
                e.raise_(s, "OperationalError", Not(ANSWERS(e.as_str(s, a[0]))))
                return Con(None)
            return Prim("execute", execute)
        raise Unsupported("connection." + name)


def spellings(c):
    t, j = fresh_u("t"), fresh_const("j", Z())
    c.eng.axioms.append(z3.ForAll([t], NSPELL(t) >= 0, patterns=[NSPELL(t)]))
    c.eng.axioms.append(z3.ForAll([t, j], Implies(And(0 <= j, j < NSPELL(t)), SPELLPOS(t, SPELLS(t, j)) == j), patterns=[SPELLS(t, j)]))
    c.eng.count_unique = c.eng.opaque_text = True
    c.eng.overrides["utils.all_underscore_replacements"] = lambda e, s, a, kw: SeqV(SeqC(NSPELL(to_u(a[0])), lambda j: Sym(SPELLS(to_u(a[0]), j))))
    text = lambda x: PB.join_text(c.eng, SV("Select * from ["), x, SV("]"))
    return lambda t, j: And(0 <= j, j < NSPELL(t), ANSWERS(text(SPELLS(t, j)))), lambda t, j: U.str(SPELLS(t, j))


def instances(fs, i):
    """instances at i of the statements about everything of its sort in fs"""
    out, todo = [], list(fs)
    while todo:
        t = todo.pop()
        if not z3.is_quantifier(t): todo.extend(t.children())
        elif t.is_forall() and t.num_vars() == 1 and t.var_sort(0) == i.sort(): out.append(Implies(t, z3.substitute_vars(t.body(), i)))
    return out


def positions(x):
    """the positions x speaks of"""
    out, todo = [], [x]
    while todo:
        t = todo.pop()
        if t.sort() == Z() and not z3.is_int_value(t): out.append(t)
        else: todo.extend(t.children())
    return out


def at_table(fs, t):
    return [z3.substitute_vars(p.body(), t) for p in fs if z3.is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and p.var_sort(0) == U]


def members_count(f, i):
    """instances of what a count of zero means"""
    return [Implies(z3.substitute_vars(lam.body(), i), n >= 1) for n, lam in counted(f)]


def scalar(c, v, facts, t, i):
    if isinstance(v, UnionC):
        facts = facts + instances([v.c], i) + at_table(c.st.pc, t) + members_count(v.c, i)
    def shown(goal):
        q = z3.Solver(); q.set("timeout", 2000)
        q.add(*facts); q.add(Not(goal))
        return q.check() == z3.unsat
    while isinstance(v, UnionC):
        if all(shown(g) for g in v.c.children() if z3.is_and(v.c)) and (z3.is_and(v.c) or shown(v.c)): v = v.a
        elif shown(Not(v.c)): v = v.b
        else: return to_u(settled(c, v, facts))
    return v.v if isinstance(v, NoneC) else v


def table_names(target, where):
    mod, cls, name = target.split(".")
    def run(c):
        TABLE = F("is_table", U, B())
        c.eng.string_keys = TABLE
        x = fresh_u("x")
        c.eng.axioms.append(z3.ForAll([x], Implies(TABLE(x), U.is_str(x)), patterns=[TABLE(x)]))
        tabs = SetC(lambda x: TABLE(x), "frozenset")
        fac = c.eng.alloc(c.st, ObjC(None, {"all_tables": tabs}))
        me = c.eng.alloc(c.st, ObjC(c.eng.global_name(cls, source.module(mod)), {"pan_dat_factory": fac, "tic_dat_factory": fac}))
        if where == "directory":
            n, cand_ = directory(c)
            cand, value = (lambda t, i: cand_(i, U.s(t))), (lambda t, i: U.str(JOIN(AT(i))))
            args = [Sym(z3.Const("directory", U))]
        elif where == "keys":
            n = entries(c)
            cand = lambda t, i: And(0 <= i, i < n, FOLD(AT(i)) == PB.LOWER(U.s(t)))
            value = lambda t, i: U.str(AT(i))
            args = [SeqV(SeqC(n, lambda j: Sym(AT(j))))]
        else:
            cand, value = spellings(c)
            c.eng.B.EXTERN["sqlite3.connect"] = Prim("connect", lambda e, s, a, kw: Connection())
            args = [Connection()] if where == "connection" else [Sym(z3.Const("db_file", S())), c.eng.alloc(c.st, tabs)]
        t, i, j = z3.Const("table", U), z3.Const("one_position", Z()), z3.Const("another_position", Z())
        u, x, y = fresh_u("t"), fresh_const("x", Z()), fresh_const("y", Z())
        c.allow_raise("TicDatError", lambda st: Exists([u, x, y], And(TABLE(u), cand(u, x), cand(u, y), x != y)))
        r = c.content(c.call(c.fn(target), [me] + args))
        c.ensure("only tables are matched", TABLE(t), hyps=[r.dom(t)])
        c.ensure("two matches of a table are refused", i == j, hyps=[TABLE(t), cand(t, i), cand(t, j)])
        h = [TABLE(t), cand(t, i)]
        found = to_u(scalar(c, r.get(t), h, t, i))
        w = positions(found)
        known = at_table(c.st.pc, t) + at_table(c.eng.axioms, t)        # instances of what holds already
        c.ensure("a matched table is there", r.dom(t), hyps=h + at_table(c.st.pc, t) + members_count(r.dom(t), i))
        c.ensure("a match is found", Or([And(cand(t, k), found == value(t, k)) for k in w]), hyps=h + known)
        # the earlier postcondition: candidates of the same table are the same one
        c.ensure("it is the match", found == value(t, i), hyps=h + [Or([And(cand(t, k), found == value(t, k)) for k in w])] + [Implies(cand(t, k), k == i) for k in w])
        c.ensure("a table without a match is left out", Exists([x], cand(t, x)), hyps=[r.dom(t)])
    return Contract("C20.%s" % target, target, run)


CONTRACTS += [table_names("pandatio.CsvPanFactory._get_table_names", "directory"), table_names("pandatio.JsonPanFactory._get_table_names", "keys"),
              table_names("pandatio.SqlPanFactory._get_table_names", "connection"), table_names("sqlitetd.SQLiteTicFactory._get_table_names", "file")]
