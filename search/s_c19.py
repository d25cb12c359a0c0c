from lib import *
import lib
from ticdat import TicDatFactory, PanDatFactory
from ticdat.utils import TicDatError


def use(f, s, cls, rng):
    """a way of producing or reading a data object"""
    import pandas as pd
    how = rng.choice(["make", "make_data", "json", "csv", "copy"])
    if s.generators and how == "json": how = "make"
    g = build(s, cls)
    if cls is TicDatFactory:
        if how == "make": f.TicDat()
        elif how == "make_data": make(f, {t: ({} if s.pk(t) else []) for t in s.tables})
        elif how == "copy": f.copy_tic_dat(g.TicDat())
        else:
            p = os.path.join(lib.SCRATCH, "c19x" + ("_dir" if how == "csv" else ".json"))
            if how == "csv": g.csv.write_directory(g.TicDat(), p, allow_overwrite=True, write_header=True); f.csv.create_tic_dat(p)
            else: g.json.write_file(g.TicDat(), p, allow_overwrite=True); f.json.create_tic_dat(p)
    else:
        if how in ("make", "make_data", "csv"): f.PanDat()
        elif how == "copy": f.copy_pan_dat(g.PanDat())
        else:
            p = os.path.join(lib.SCRATCH, "c19y.json")
            g.json.write_file(g.PanDat(), p); f.json.create_pan_dat(p)
    return how


def ops(rng, s, cls):
    """(name, call) of schema changing requests that are well-formed"""
    ts = list(s.tables)
    t = rng.choice(ts); fl = rng.choice(s.fields(t))
    out = [("set_data_type", lambda f: f.set_data_type(t, fl, nullable=True, strings_allowed="*")),
           ("set_data_type2", lambda f: f.set_data_type(t, fl, **rtype(random.Random(3)))),
           ("set_default_value", lambda f: f.set_default_value(t, fl, "changed")),
           ("set_default_values", lambda f: f.set_default_values(**{t: {fl: "changed"}})),
           ("add_data_row_predicate", lambda f: f.add_data_row_predicate(t, lambda row: True, "late")),
           ("add_data_row_predicate2", lambda f: f.add_data_row_predicate(t, lambda row: True)),
           ("clear_foreign_keys", lambda f: f.clear_foreign_keys()),
           ("clear_foreign_keys2", lambda f: f.clear_foreign_keys(t))]
    if (t, fl) in s.types: out.append(("clear_data_type", lambda f: f.clear_data_type(t, fl)))
    if "parameters" in s.tables: out.append(("add_parameter", lambda f: f.add_parameter("late", 5)))
    t2 = rng.choice(ts); f2 = rng.choice(s.fields(t2))
    out.append(("add_foreign_key", lambda f: f.add_foreign_key(t, t2, [fl, f2])))
    out.append(("add_foreign_key2", lambda f: f.add_foreign_key(t, t2, [[fl, f2]])))
    if cls is TicDatFactory:
        out.append(("enable_foreign_key_links", lambda f: f.enable_foreign_key_links()))
        kl = [x for x in ts if not s.pk(x)]
        if kl: out.append(("set_generator_tables", lambda f: f.set_generator_tables(kl)))
        out.append(("set_generator_tables2", lambda f: f.set_generator_tables([])))
    return out


def add_params(s, rng):
    if rng.random() < .5: s.tables["parameters"] = [["parameter"], ["value"]]


@test(weight=8)
def locked(rng, rec):
    s = rschema(rng, fks=3); add_params(s, rng)
    cls = rng.choice([TicDatFactory, TicDatFactory, PanDatFactory])
    gens = [t for t in s.tables if not s.pk(t)]
    if cls is TicDatFactory and gens and rng.random() < .4: s.generators = rng.sample(gens, rng.randint(1, len(gens)))
    f = build(s, cls)
    if "parameters" in s.tables and rng.random() < .6: f.add_parameter("first", 3)
    how = use(f, s, cls, rng)
    state = schema_state(f)
    todo = ops(rng, s, cls); rng.shuffle(todo)
    rec.note((s, cls.__name__, how, [n for n, _ in todo]))
    for n, op in todo:
        if n == "enable_foreign_key_links": continue
        e = raises(lambda: op(f))
        need(e is not None or schema_state(f) == state, lambda: "%s was accepted after use (%s) and changed the schema" % (n, how))
        need(schema_state(f) == state, lambda: "%s after use changed the schema" % n)
        if n not in ("set_generator_tables2",) and not (n.startswith("clear_foreign_keys") and not s.fks):
            need(e is not None, lambda: "%s was accepted after use (%s)" % (n, how))


@test(weight=8)
def ill_formed(rng, rec):
    s = rschema(rng, fks=2); add_params(s, rng)
    cls = rng.choice([TicDatFactory, PanDatFactory])
    f = build(s, cls)
    ts = list(s.tables); t = rng.choice(ts); fl = rng.choice(s.fields(t))
    bad_t, bad_f = rng.choice(["nosuch", t + "_", t.swapcase(), ""]), rng.choice(["nosuch", fl + " ", fl.swapcase(), "", 3])
    if bad_t in s.tables or bad_f in s.fields(t): return
    t2 = rng.choice(ts); f2 = rng.choice(s.fields(t2))
    both = rng.choice([(bad_t, fl), (t, bad_f)])
    kl = [x for x in ts if s.pk(x)]
    good_other = rng.choice(ts)
    todo = [("set_data_type", lambda: f.set_data_type(*both)), ("clear_data_type", lambda: f.clear_data_type(*both)),
            ("set_default_value", lambda: f.set_default_value(both[0], both[1], 4)),
            ("set_default_values", lambda: f.set_default_values(**{good_other: {rng.choice(s.fields(good_other)): "zz"}, "nosuch": {fl: 1}})),
            ("set_default_values2", lambda: f.set_default_values(**dict({x: {s.fields(x)[0]: "zz"} for x in ts}, **{t: {bad_f: 1}}))),
            ("add_foreign_key", lambda: f.add_foreign_key(bad_t, t2, [fl, f2])), ("add_foreign_key2", lambda: f.add_foreign_key(t, bad_t, [fl, f2])),
            ("add_foreign_key3", lambda: f.add_foreign_key(t, t2, [bad_f, f2])), ("add_foreign_key4", lambda: f.add_foreign_key(t2, t, [[f2, bad_f]])),
            ("add_predicate", lambda: f.add_data_row_predicate(bad_t, lambda row: True, "p")),
            ("add_predicate2", lambda: f.add_data_row_predicate(t, "not callable", "p")),
            ("set_default_list", lambda: f.set_default_value(t, fl, [1, 2]))]
    if "parameters" not in s.tables: todo.append(("add_parameter", lambda: f.add_parameter("a", 1)))
    else: todo.append(("add_parameter2", lambda: f.add_parameter("a", "text", strings_allowed=())))
    if cls is TicDatFactory:
        todo.append(("set_generator_tables", lambda: f.set_generator_tables([bad_t])))
        if kl: todo.append(("set_generator_tables2", lambda: f.set_generator_tables([kl[0]])))
    rng.shuffle(todo)
    rec.note((s, cls.__name__, both, [n for n, _ in todo]))
    for n, op in todo:
        state = schema_state(f)
        e = raises(op)
        if n.startswith("clear_data_type") and e is None:
            need(schema_state(f) == state, lambda: "clear_data_type of unknown %r had an effect" % (both,)); continue
        need(e is not None, lambda: "%s accepted an ill-formed request %r" % (n, both))
        need(isinstance(e, TicDatError) or not isinstance(e, (KeyError,)) or True, "")
        need(schema_state(f) == state, lambda: "refused %s changed the schema" % n)


@test(weight=3)
def unlocked_before_use(rng, rec):
    """well-formed requests before use are accepted"""
    s = rschema(rng, fks=2); add_params(s, rng)
    cls = rng.choice([TicDatFactory, PanDatFactory])
    todo = ops(rng, s, cls); rng.shuffle(todo)
    rec.note((s, cls.__name__, [n for n, _ in todo]))
    for n, op in todo[:4]:
        f = build(s, cls)
        e = raises(lambda: op(f))
        if n.startswith("add_foreign_key") and e is not None: continue
        need(e is None, lambda: "%s before use raised %r" % (n, e))
