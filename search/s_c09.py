from lib import *
from ticdat import TicDatFactory, freeze_me
from ticdat.utils import FrozenDict, deep_freeze, FreezeableDict, td_row_factory
import copy as _copy


def dict_ops(rng, k, miss, val):
    return [("setitem", lambda d: d.__setitem__(k, val)), ("setmiss", lambda d: d.__setitem__(miss, val)), ("delitem", lambda d: d.__delitem__(k)),
            ("pop", lambda d: d.pop(k)), ("popdefault", lambda d: d.pop(miss, None)), ("popk", lambda d: d.pop(k, 5)), ("clear", lambda d: d.clear()),
            ("popitem", lambda d: d.popitem()), ("update", lambda d: d.update({k: val})), ("update2", lambda d: d.update([(miss, val)])),
            ("setdefault", lambda d: d.setdefault(miss, val)), ("update3", lambda d: d.update(newkw=val)), ("update4", lambda d: d.update({k: val}, newkw=val)),
            ("setdefault2", lambda d: d.setdefault(miss)), ("ior", lambda d: d.__ior__({miss: val})),
            ("attr", lambda d: setattr(d, "newattr", 1)), ("unfreeze", lambda d: setattr(d, "_dataFrozen", False)),
            ("unfreeze2", lambda d: setattr(d, "_attributesFrozen", False)), ("delattr", lambda d: delattr(d, "_dataFrozen")),
            ("delattr2", lambda d: delattr(d, "_attributesFrozen"))]


def row_ops(rng, f):
    return [("setitem", lambda r: r.__setitem__(f, "hacked")), ("attr", lambda r: setattr(r, "zzz", 1)), ("unfreeze", lambda r: setattr(r, "_dataFrozen", False)),
            ("unfreeze2", lambda r: setattr(r, "_attributesFrozen", False)), ("delattr", lambda r: delattr(r, "_data")), ("attr2", lambda r: setattr(r, "_data", [])),
            ("delattr2", lambda r: delattr(r, "_dataFrozen"))]


def seq_ops():
    return [("append", lambda d: d.append({})), ("set", lambda d: d.__setitem__(0, {})), ("del", lambda d: d.__delitem__(0)), ("pop", lambda d: d.pop()),
            ("insert", lambda d: d.insert(0, {})), ("extend", lambda d: d.extend([])), ("clear", lambda d: d.clear()), ("iadd", lambda d: d.__iadd__([1])),
            ("reverse", lambda d: d.reverse()), ("remove", lambda d: d.remove(d[0]))]


def attempt(name, op, obj):
    try:
        op(obj)
    except Exception:
        return
    raise Fail("operation %s on frozen %s did not raise" % (name, type(obj).__name__))


@test(weight=4)
def frozen_data(rng, rec):
    s = rschema(rng, types=0, fks=2, ntab=(1, 4))
    links = rng.random() < .5
    if links:
        s.fks = [(a, b, m) for a, b, m in s.fks if set(y for _, y in m) == set(s.pk(b)) and len(m) == len(s.pk(b))]
        s.fks = list({(a, b, frozenset(x for x, _ in m)): (a, b, m) for a, b, m in s.fks}.values())   # see C30 known finding
    kc = lambda r: r.choice([0, 1, "a"])
    d = rdat(rng, s, keycell=kc, cell=lambda r: r.choice([0, 1, "a", 2.5]))
    f = build(s, TicDatFactory)
    if links: f.enable_foreign_key_links()
    rec.note((s, d, links))
    dat = make(f, d)
    linked = []
    if links:
        for t in s.tables:
            if s.pk(t):
                for r in getattr(dat, t).values():
                    linked += [v for k, v in vars(r).items() if isinstance(v, dict)]
    r = rng.choice([f.freeze_me, freeze_me, lambda x: (freeze_me(x), freeze_me(x))[1]])(dat)
    need(r is dat, "freeze_me does not return the object")
    def content(): return plain(s, dat), [{k: dict(r) for k, r in l.items()} for l in linked]
    before = content()
    need(same_plain(before[0], d), "freezing changed the content")
    ops = []
    for t in s.tables:
        tb = getattr(dat, t)
        if s.pk(t):
            k = next(iter(tb), 0 if len(s.pk(t)) == 1 else tuple(0 for _ in s.pk(t)))
            miss = "zz" if len(s.pk(t)) == 1 else tuple("zz" for _ in s.pk(t))
            val = {x: 7 for x in s.df(t)}
            ops += [("%s.%s" % (t, n), o, tb) for n, o in dict_ops(rng, k, miss, val) if k in tb or n in ("setmiss", "popdefault", "clear", "update2", "update3", "setdefault", "setdefault2", "ior", "attr", "unfreeze", "unfreeze2", "delattr", "delattr2", "popitem")]
            need(raises(lambda: tb[miss]) is not None and miss not in tb, "looking up a missing key in a frozen table inserted a row")
            rows = list(tb.values())
        else:
            ops += [("%s.%s" % (t, n), o, tb) for n, o in seq_ops() if len(tb) or n in ("append", "insert", "extend", "clear")]
            rows = list(tb)
        for row in rows[:3]:
            ops += [("%s row.%s" % (t, n), o, row) for n, o in (row_ops(rng, s.df(t)[0]) if s.df(t) else dict_ops(rng, "a", "b", 1)) if s.df(t) or n not in ("delitem", "pop", "popk")]
        ops += [("dat.%s=" % t, lambda x, t=t: setattr(x, t, {}), dat), ("del dat.%s" % t, lambda x, t=t: delattr(x, t), dat)]
    for l in linked:
        k = next(iter(l), "q")
        ops += [("link.%s" % n, o, l) for n, o in dict_ops(rng, k, "zz", 1) if k in l or n in ("setmiss", "clear", "update2", "update3", "setdefault", "setdefault2", "attr", "ior", "unfreeze", "unfreeze2", "popitem", "popdefault")]
    ops += [("dat.new", lambda x: setattr(x, "new", 1), dat), ("dat._isFrozen", lambda x: setattr(x, "_isFrozen", False), dat), ("del frozen", lambda x: delattr(x, "_isFrozen"), dat)]
    rng.shuffle(ops)
    for n, o, x in ops:
        attempt(n, o, x)
        after = content()
        need(same_plain(after[0], before[0]) and after[1] == before[1], "operation %s changed frozen data" % n)


@test(weight=3)
def frozen_dict(rng, rec):
    def nest(depth):
        r = rng.random()
        if depth == 0 or r < .3: return rcell(rng)
        if r < .55: return {rkeycell(rng): nest(depth - 1) for _ in range(rng.randint(0, 3))}
        if r < .75: return [nest(depth - 1) for _ in range(rng.randint(0, 3))]
        if r < .9: return tuple(nest(depth - 1) for _ in range(rng.randint(0, 3)))
        return {rkeycell(rng) for _ in range(rng.randint(0, 3))}
    x = {k: nest(3) for k in ("a", "b", 1)}
    x0 = _copy.deepcopy(x)
    rec.note(x)
    fr = deep_freeze(x)
    def same(a, b):
        if isinstance(b, dict): return isinstance(a, FrozenDict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
        if isinstance(b, (list, tuple)): return isinstance(a, tuple) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        if isinstance(b, set): return isinstance(a, frozenset) and a == frozenset(b)
        return veq(a, b)
    need(same(fr, x0), lambda: "deep_freeze of %r is %r" % (x0, fr))
    need(same(deep_freeze(x), x0) and list(x) == list(x0) and not isinstance(x, FrozenDict), "deep_freeze changed its argument")
    for d in [fr] + [v for v in fr.values() if isinstance(v, dict)] + [FrozenDict(x), FrozenDict({})]:
        k = next(iter(d), "a")
        for n, o in dict_ops(rng, k, "zz", 1):
            if k not in d and n in ("delitem", "pop"): continue
            b = dict(d)
            attempt("frozen dict " + n, o, d)
            need(repr(dict(d)) == repr(b), "operation %s changed a frozen dictionary" % n)


@test
def factory_properties_are_frozen(rng, rec):
    s = rschema(rng, fks=2)
    f = build(s, TicDatFactory)
    before = schema_state(f)
    rec.note(s)
    for x in (f.default_values, f.data_types, f.tooltips, f.parameters, f.primary_key_fields, f.data_fields, f.foreign_keys, f.generator_tables, f.all_tables):
        if isinstance(x, dict):
            for n, o in dict_ops(rng, next(iter(x), "a"), "zz", 1):
                if not x and n in ("delitem", "pop"): continue
                attempt("schema dict " + n, o, x)
            for v in x.values():
                need(isinstance(v, (FrozenDict, tuple, frozenset, str)), "schema holds mutable %r" % (v,))
        else: need(isinstance(x, (tuple, frozenset)), "schema property is mutable: %r" % (x,))
    need(before == schema_state(f), "schema changed")
    e = raises(lambda: setattr(f, "newattr", 1))
    need(e is not None, "attributes can be added to a factory")
