from lib import *
from ticdat import TicDatFactory, PanDatFactory
from ticdat.utils import TypeDictionary


def random_factory(rng, cls, steps=True):
    """a factory reached by declaring tables and calling editing methods in random order; also returns the expected state"""
    s = rschema(rng, types=0, defaults=0, keyless=.3)
    if rng.random() < .4:
        s.tables["parameters"] = [[rng.choice(["Key", "name"])], [rng.choice(["Value", "val"])]]
    gen = []
    kw = {t: [list(p), list(d)] for t, (p, d) in s.tables.items()}
    if rng.random() < .2: kw["generic_t"] = "*"; gen = ["generic_t"]
    it = list(kw.items()); rng.shuffle(it)
    f = cls(**dict(it))
    exp = dict(tables={t: v for t, v in kw.items()}, types={}, defaults={}, fks=set(), params={}, tooltips={}, flags={}, generators=(), preds={})
    for t in s.tables:
        if s.df(t):
            if cls is TicDatFactory or True:
                for x in s.df(t): exp["defaults"][t, x] = 0
    ts = list(s.tables)
    for _ in range(rng.randint(0, 14) if steps else 0):
        op = rng.choice(["type", "type", "default", "fk", "fk", "param", "flag", "tip", "cleartype", "clearfk", "rmparam", "defaults", "xlsx", "dup", "munge", "gen", "cleartip", "pred"])
        t = rng.choice(ts); fl = rng.choice(s.fields(t))
        try:
            if op == "type":
                ty = rtype(rng)
                f.set_data_type(t, fl, **ty); exp["types"][t, fl] = ty
            elif op == "cleartype": f.clear_data_type(t, fl); exp["types"].pop((t, fl), None)
            elif op == "default":
                v = rng.choice([0, 1, "a", None, "", 2.5, True, INF]); f.set_default_value(t, fl, v); exp["defaults"][t, fl] = v
            elif op == "defaults":
                dv = {x: rng.choice([3, "b", None]) for x in rng.sample(s.fields(t), 1)}
                f.set_default_values(**{t: dv}); exp["defaults"].update({(t, k): v for k, v in dv.items()})
            elif op == "fk":
                b = rng.choice(ts)
                n = rng.randint(1, min(len(s.fields(t)), len(s.fields(b)), 3))
                m = list(zip(rng.sample(s.fields(t), n), rng.sample(s.fields(b), n)))
                if (t, b, frozenset(m)) in exp["fks"]: continue
                import io, contextlib
                with contextlib.redirect_stdout(io.StringIO()): f.add_foreign_key(t, b, m[0] if n == 1 else m)
                exp["fks"].add((t, b, frozenset(m)))
            elif op == "clearfk" and rng.random() < .4:
                nt = rng.choice(ts + [None]); f.clear_foreign_keys(nt) if nt else f.clear_foreign_keys()
                exp["fks"] = {x for x in exp["fks"] if nt is not None and x[0] != nt}
            elif op == "param" and "parameters" in ts and not any(k == ("parameters", s.df("parameters")[0]) for k in exp["types"]):
                nm = rng.choice(["p", "q q", "r"]); ty = rtype(rng)
                if rng.random() < .3:
                    v = rcell(rng)
                    if isnan(v): continue
                    f.add_parameter(nm, v, enforce_type_rules=False); exp["params"][nm] = (None, v)
                else:
                    v = next((x for x in (rcell(rng) for _ in range(30)) if valid(ty, x) and not isnan(x)), None)
                    if not valid(ty, v): continue
                    f.add_parameter(nm, v, **ty); exp["params"][nm] = (ty, v)
            elif op == "rmparam" and exp["params"]:
                nm = rng.choice(sorted(exp["params"])); f.remove_parameter(nm); exp["params"].pop(nm)
            elif op == "flag": v = rng.choice([None, 1000, 1e100, "N/A", 5]); f.set_infinity_io_flag(v); exp["flags"]["inf"] = v
            elif op == "xlsx": v = rng.choice(["prune", "ignore"]); f.set_xlsx_trailing_empty_rows(v); exp["flags"]["xlsx"] = v
            elif op == "dup" and cls is TicDatFactory: v = rng.choice(["assert", "warn", "ignore"]); f.set_duplicates_ticdat_init(v); exp["flags"]["dup"] = v
            elif op == "munge" and cls is TicDatFactory: v = rng.random() < .5; f.set_automunge_multitype_fields(v); exp["flags"]["munge"] = v
            elif op == "tip":
                k = rng.choice(["", fl]); f.set_tooltip(t, k, "tip %s" % k); exp["tooltips"][(t, k) if k else t] = "tip %s" % k
            elif op == "cleartip":
                f.set_tooltip(t, fl, ""); exp["tooltips"].pop((t, fl), None)
            elif op == "gen" and cls is TicDatFactory:
                g = [x for x in ts if not s.pk(x)][:1]
                if any(x in {k[0] for k in exp["preds"]} for x in g): continue
                f.set_generator_tables(g); exp["generators"] = tuple(g)
            elif op == "pred" and t not in exp["generators"]:
                p = lambda row: True
                nm = rng.choice(["n1", 2, "z z"])
                f.add_data_row_predicate(t, p, predicate_name=nm); exp["preds"][t, nm] = p
        except Exception as e:
            if op == "type" and t == "parameters" and exp["params"]: continue
            raise
    if rng.random() < .3 and not exp["fks"]: pass
    return s, f, exp


def expected_types(exp):
    return {k: TypeDictionary.safe_creator(**{kk: v for kk, v in ty.items()}) for k, ty in exp["types"].items()}


def observe(f):
    fks = {(k.native_table, k.foreign_table, frozenset([tuple(k.mapping)] if hasattr(k.mapping, "native_field") else [tuple(x) for x in k.mapping])) for k in f.foreign_keys}
    return dict(tables={t: (["*"] if t in f.generic_tables else [list(f.primary_key_fields.get(t, ())), list(f.data_fields.get(t, ()))]) for t in f.all_tables},
                types={(t, x): tuple(ty) for t, d in f.data_types.items() for x, ty in d.items()},
                defaults={(t, x): v for t, d in f.default_values.items() for x, v in d.items()}, fks=fks,
                params={k: (None if v.type_dictionary is None else tuple(v.type_dictionary), v.default_value) for k, v in f.parameters.items()},
                tooltips=dict(f.tooltips), inf=f.infinity_io_flag, xlsx=getattr(f, "xlsx_trailing_empty_rows", None), dup=getattr(f, "duplicates_ticdat_init", None),
                munge=getattr(f, "automunge_multitype_fields", None))


def diff(a, b): return {k: (a[k], b[k]) for k in a if repr(a[k]) != repr(b[k]) and a[k] != b[k]}


def jsonish(x):
    """JSON-friendly copy: tuples as lists, namedtuples as lists, keys stay strings"""
    if isinstance(x, dict): return {k: jsonish(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)): return [jsonish(v) for v in x]
    return x


@test(weight=3)
def rebuild(rng, rec):
    cls = rng.choice([TicDatFactory, PanDatFactory])
    s, f, exp = random_factory(rng, cls)
    rec.note((cls.__name__, dict(s.tables), {k: v for k, v in exp.items() if k != "preds"}))
    o = observe(f)
    need({t: (v if v != "*" else ["*"]) for t, v in exp["tables"].items()} == o["tables"], lambda: "tables %r, declared %r" % (o["tables"], exp["tables"]))
    need({k: tuple(v) for k, v in expected_types(exp).items()} == o["types"], "types differ from those declared")
    if cls is TicDatFactory: need(repr(sorted(exp["defaults"].items(), key=str)) == repr(sorted(o["defaults"].items(), key=str)), lambda: "defaults %r, declared %r" % (o["defaults"], exp["defaults"]))
    else: need(all(repr(o["defaults"].get(k)) == repr(v) for k, v in exp["defaults"].items()), lambda: "defaults %r, declared %r" % (o["defaults"], exp["defaults"]))
    need(exp["fks"] == o["fks"], lambda: "foreign keys %r, declared %r" % (o["fks"], exp["fks"]))
    need(exp["tooltips"] == o["tooltips"] and set(exp["params"]) == set(o["params"]) and all(veq(o["params"][k][1], v[1]) for k, v in exp["params"].items()), "tooltips or parameters differ from those declared")
    for k, dflt in (("inf", "N/A"), ("xlsx", "prune")): need(o[k] == exp["flags"].get(k, dflt), lambda: "flag %s is %r" % (k, o[k]))
    if cls is TicDatFactory: need(o["dup"] == exp["flags"].get("dup", "assert") and o["munge"] == exp["flags"].get("munge", True), "flags differ")
    full = f.schema(include_ancillary_info=True)
    short_ = f.schema()
    need({t: (v if v == "*" else [list(v[0]), list(v[1])]) for t, v in short_.items()} == exp["tables"], "short schema differs from the declaration")
    need(full["tables_fields"] == short_, "tables_fields differs from the short schema")
    kind = rng.choice(["same", "json", "lists"])
    if kind == "json":
        try:
            arg = json.loads(json.dumps(full))
        except TypeError:
            arg = jsonish(full)     # dates among the parameters' defaults
    elif kind == "lists": arg = jsonish(full)
    else: arg = full
    g = cls.create_from_full_schema(arg)
    need(not diff(o, observe(g)), lambda: "rebuilt factory (%s copy) differs: %s" % (kind, short(diff(o, observe(g)))))
    full2 = g.schema(include_ancillary_info=True)
    key = lambda d: {k: (sorted(map(repr, ((x.native_table, x.foreign_table, sorted(map(repr, [x.mapping] if hasattr(x.mapping, "native_field") else x.mapping)), x.cardinality) for x in v)))
                         if k == "foreign_keys" else {t: (v[t] if isinstance(v[t], (str, tuple)) else {a: tuple(v[t][a]) if k == "data_types" else v[t][a] for a in v[t]} if isinstance(v[t], dict) else v[t]) for t in v if v[t]} if isinstance(v, dict) else v) for k, v in d.items()}
    a, b = key(full), key(full2)
    need(set(a) == set(b) and all(repr(a[k]) == repr(b[k]) or a[k] == b[k] for k in a), lambda: "the second description differs: %s" % short({k: (a[k], b.get(k)) for k in a if a[k] != b.get(k)}))
    # cross kind
    other = PanDatFactory if cls is TicDatFactory else TicDatFactory
    h = other.create_from_full_schema(full)
    oh = observe(h)
    dd = {k: v for k, v in diff(o, oh).items() if k not in ("dup", "munge") and not (k == "xlsx" and None in v)}
    need(not dd, lambda: "%s built from a %s description differs: %s" % (other.__name__, cls.__name__, short(dd)))
    need(not diff(o, observe(f)), "the original factory changed")
    # clone
    c = f.clone()
    need(not diff(o, observe(c)), lambda: "clone differs: %s" % short(diff(o, observe(c))))
