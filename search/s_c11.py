from lib import *
from ticdat import TicDatFactory, PanDatFactory
from s_c10 import random_factory, observe, diff


def preds(f): return {(t, n): v for t in f.all_tables for n, v in f.get_row_predicates(t).items()}


def restrict(o, keep, drop=()):
    """expected observation after keeping tables `keep` and dropping the (table, field) pairs in `drop`"""
    r = dict(o)
    r["tables"] = {t: (v if v == ["*"] else [[x for x in part if (t, x) not in drop] for part in v]) for t, v in o["tables"].items() if t in keep}
    r["types"] = {k: v for k, v in o["types"].items() if k[0] in keep and k not in drop}
    r["defaults"] = {k: v for k, v in o["defaults"].items() if k[0] in keep and k not in drop}
    r["fks"] = {x for x in o["fks"] if x[0] in keep and x[1] in keep and not any((x[0], a) in drop or (x[1], b) in drop for a, b in x[2])}
    r["params"] = o["params"] if "parameters" in keep else {}
    r["tooltips"] = {k: v for k, v in o["tooltips"].items() if (k if isinstance(k, str) else k[0]) in keep and k not in drop}
    return r


def cmp(got, want, what):
    need(not diff(want, got), lambda: "%s: %s" % (what, short(diff(want, got))))


@test(weight=3)
def clone_edits(rng, rec):
    cls = rng.choice([TicDatFactory, PanDatFactory])
    s, f, exp = random_factory(rng, cls)
    if cls is TicDatFactory and rng.random() < .3: f.enable_foreign_key_links()
    if rng.random() < .3: f.TicDat() if cls is TicDatFactory else f.PanDat()      # a used factory can still be cloned
    o, p0 = observe(f), preds(f)
    ts = sorted(f.all_tables)
    plainT = sorted(s.tables)
    op = rng.choice(["restrict", "restrict", "addtable", "addcol", "addcol", "rmcol", "rmcol", "bad", "crosskind"])
    rec.note((cls.__name__, dict(s.tables), {k: v for k, v in exp.items() if k != "preds"}, op))
    gens = tuple(exp["generators"])
    def check_gen(g, keep):
        if cls is TicDatFactory and isinstance(g, TicDatFactory):
            need(tuple(g.generator_tables) == tuple(t for t in gens if t in keep), lambda: "generator tables %r" % (g.generator_tables,))
    if op == "restrict":
        keep = set(rng.sample(ts, rng.randint(1, len(ts))))
        g = f.clone(table_restrictions=rng.choice([list, set, tuple, frozenset])(keep))
        want = restrict(o, keep)
        cmp(observe(g), want, "restricted to %s" % sorted(keep)); check_gen(g, keep)
        need(preds(g) == {k: v for k, v in p0.items() if k[0] in keep}, "row predicates differ")
    elif op == "crosskind":
        keep = set(rng.sample(ts, rng.randint(1, len(ts))))
        other = PanDatFactory if cls is TicDatFactory else TicDatFactory
        g = f.clone(table_restrictions=keep, clone_factory=other)
        need(isinstance(g, other), "wrong kind")
        want, got = restrict(o, keep), observe(g)
        for k in ("dup", "munge", "xlsx"): want.pop(k); got.pop(k)
        cmp(got, want, "cloned to %s with %s" % (other.__name__, sorted(keep)))
    elif op == "addtable":
        pk, df = rng.choice([(["n1"], ["n2", "n3"]), ([], ["n2"]), (["a", "b"], [])])
        g = f.clone_add_a_table("brand_new", rng.choice([list, tuple])(pk), df)
        want = dict(o, tables=dict(o["tables"], brand_new=[list(pk), list(df)]), defaults=dict(o["defaults"], **{}))
        want["defaults"].update({("brand_new", x): 0 for x in df})
        cmp(observe(g), want, "with a new table"); check_gen(g, ts); need(preds(g) == p0, "row predicates differ")
    elif op == "addcol":
        t = rng.choice([x for x in plainT])
        which = rng.choice(["primary key", "data"])
        if t == "parameters" and exp["params"] or (t in gens and which == "primary key"): return
        cur = o["tables"][t][0 if which == "primary key" else 1]
        pos = rng.choice(["append", 0, len(cur), rng.randint(0, len(cur))])
        g = f.clone_add_a_column(t, "brandnew", which, pos) if pos != "append" or rng.random() < .5 else f.clone_add_a_column(t, "brandnew", which)
        new = list(cur); new.insert(len(cur) if pos == "append" else pos, "brandnew")
        tb = [list(x) for x in o["tables"][t]]; tb[0 if which == "primary key" else 1] = new
        want = dict(o, tables=dict(o["tables"], **{t: tb}), defaults=dict(o["defaults"]))
        if which == "data": want["defaults"][t, "brandnew"] = 0
        cmp(observe(g), want, "with %s column at %s of %s" % (which, pos, t)); check_gen(g, ts); need(preds(g) == p0, "row predicates differ")
    elif op == "rmcol":
        t = rng.choice(plainT)
        fs = o["tables"][t][0] + o["tables"][t][1]
        if len(fs) < 2 or t == "parameters" and exp["params"]: return
        x = rng.choice(fs)
        g = f.clone_remove_a_column(t, x)
        cmp(observe(g), restrict(o, set(ts), {(t, x)}), "without %s of %s" % (x, t)); check_gen(g, ts); need(preds(g) == p0, "row predicates differ")
    else:
        t = rng.choice(plainT)
        n = [len(o["tables"][t][0]), len(o["tables"][t][1])]
        bads = [lambda: f.clone_add_a_table(t, ["a"], ["b"]), lambda: f.clone_add_a_table("zz", [], []), lambda: f.clone_add_a_table("zz", "ab", []), lambda: f.clone_add_a_table("zz", ["a"], ["a"]),
                lambda: f.clone_add_a_column("nosuch", "a", "data"), lambda: f.clone_add_a_column(t, o["tables"][t][1][0] if n[1] else o["tables"][t][0][0], "data" if n[1] else "primary key"),
                lambda: f.clone_add_a_column(t, (o["tables"][t][0] + o["tables"][t][1])[0], rng.choice(["data", "primary key"])),
                lambda: f.clone_add_a_column(t, "qq", "data", n[1] + 1), lambda: f.clone_add_a_column(t, "qq", "primary key", -1), lambda: f.clone_add_a_column(t, "qq", "nokind"),
                lambda: f.clone_remove_a_column(t, "nosuch"), lambda: f.clone_remove_a_column("nosuch", "a"), lambda: f.clone(table_restrictions=["nosuch"]),
                lambda: f.clone(table_restrictions=[t, "nosuch"]), lambda: f.clone(table_restrictions=[])]
        i = rng.randrange(len(bads))
        need(raises(bads[i]) is not None, "impossible request %d was accepted" % i)
    need(not diff(o, observe(f)) and preds(f) == p0, "the original factory was changed")
    if cls is TicDatFactory: need(tuple(f.generator_tables) == gens, "generator tables of the original changed")


@test
def clones_do_not_share(rng, rec):
    cls = rng.choice([TicDatFactory, PanDatFactory])
    s, f, exp = random_factory(rng, cls)
    g = f.clone()
    o = observe(f)
    rec.note((cls.__name__, dict(s.tables)))
    t = rng.choice(sorted(s.tables)); x = rng.choice(s.fields(t))
    if not (t == "parameters" and exp["params"]): g.set_data_type(t, x)
    g.set_default_value(t, x, "changed"); g.set_tooltip(t, x, "other"); g.clear_foreign_keys(); g.set_infinity_io_flag(77)
    for p in list(g.parameters): g.remove_parameter(p)
    need(not diff(o, observe(f)), lambda: "editing a clone changed the original: %s" % short(diff(o, observe(f))))
