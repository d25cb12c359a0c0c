from contracts.dat import *


def get_full_row(c):
    fa = Factory(c); fa.build()
    dat = Dat(c, fa)
    t, k, f = z3.Const("table", U), z3.Const("pk", U), z3.Const("field", U)
    c.assume(And(fa.TABLE(t), Not(fa.GENERIC(t)), fa.NPK(t) > 0, KEYED(t, k)))
    r = c.call(fa.method("_get_full_row"), [dat.ref, Sym(t), Sym(k)])
    m = c.content(r)
    c.ensure("the full row has exactly the table's fields", m.dom(f) == fa.IS_FIELD(t, f))
    c.ensure("key fields come from the key, data fields from the row", Implies(fa.IS_FIELD(t, f), to_u(m.get(f)) == dat.full(t, k, f)))
    m2 = c.eng.content(c.st, Ref(dat.ref.cid, (t, k)))
    c.ensure("the row itself is unchanged", And(m2.dom(f) == fa.IS_DF(t, f), Implies(fa.IS_DF(t, f), to_u(m2.get(f)) == CELLP(t, k, f))))


def bad_spec(fa, dat, t, f, k, keyed):
    """row k of t (a key, or a position for tables without primary key) holds a value invalid for the type of field f;
    primary key fields without type refuse nulls"""
    v = dat.full(t, k, f) if keyed else CELLR(t, k, f)
    isrow = KEYED(t, k) if keyed else And(0 <= k, k < NROWS(t))
    return And(isrow, Or(And(fa.typed(t, f), Not(VALID(t, f, v))),
                         And(Not(fa.typed(t, f)), fa.TABLE(t), Not(fa.GENERIC(t)), fa.IS_PK(t, f), is_null(v))))


def find_failures(limited):
    def run(c):
        c.eng.eq_mode = "numeric"
        fa = Factory(c); opaque_types(fa); fa.build()
        dat = Dat(c, fa)
        plain_nulls(c)
        good_object(c); schema_copy(c, fa); use_full_row(c, fa, dat)
        mf = z3.Const("max_failures", Z())
        args = [dat.ref]
        if limited: c.assume(mf > 0); args.append(Sym(mf))
        r = c.call(fa.method("find_data_type_failures"), args)
        m = c.content(r)
        t, f, k, v = z3.Const("table", U), z3.Const("field", U), z3.Const("row", U), z3.Const("value", U)
        i = z3.Const("position", Z())
        key = tup_u([t, f])
        entry = m.get(key)
        bad_values, pks = c.item(entry, 0), c.item(entry, 1)
        mem = c.member
        for keyed in (True, False):
            hyp = [dat.haspk(t) if keyed else Not(dat.haspk(t))]
            name = "keyed table: " if keyed else "keyless table: "
            row = k if keyed else i
            rowu = k if keyed else U.int(i)
            spec = lambda x: bad_spec(fa, dat, t, f, x, keyed)
            x = fresh_const("x", row.sort())
            some = z3.Exists([x], spec(x))
            value = lambda x: dat.full(t, x, f) if keyed else CELLR(t, x, f)
            if not limited:
                c.ensure(name + "a pair is reported exactly when some row fails", m.dom(key) == some, hyps=hyp)
                c.ensure(name + "exactly the failing rows are listed", Implies(m.dom(key), mem(pks, rowu) == spec(row)), hyps=hyp)
                if not keyed: c.ensure(name + "rows are listed by position", Implies(And(m.dom(key), mem(pks, k)), U.is_int(k)), hyps=hyp)
                c.ensure(name + "exactly the bad values are listed", Implies(m.dom(key), mem(bad_values, v) == z3.Exists([x], And(spec(x), value(x) == v))), hyps=hyp)
            else:
                c.ensure(name + "with a limit only failing pairs are reported", Implies(m.dom(key), some), hyps=hyp)
                c.ensure(name + "with a limit only failing rows are listed", Implies(And(m.dom(key), mem(pks, rowu)), spec(row)), hyps=hyp)
        d = c.eng.content(c.st, Ref(fa.ref.cid, ("_data_types", t)))
        c.ensure("the schema's types are unchanged", d.dom(f) == fa.HAS_DT(t, f))
    return run


CONTRACTS = [Contract("C02.get_full_row", "ticdatfactory.TicDatFactory._get_full_row", get_full_row, covers=("C06",)),
             Contract("C02.find_data_type_failures", "ticdatfactory.TicDatFactory.find_data_type_failures", find_failures(False), covers=("C03",)),
             Contract("C02.find_data_type_failures_limited", "ticdatfactory.TicDatFactory.find_data_type_failures", find_failures(True))]
