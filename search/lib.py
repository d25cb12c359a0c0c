"""Generators and harness shared by the run-time contract evaluations.  Oracles here never call ticdat."""
import random, math, datetime, traceback, os, itertools, collections, json
RULE = ("each case is generated from its own integer seed (random schema, configuration and data, skewed to boundary values, overlapping keys and "
        "odd orders); it is non-trivial when the contract's precondition held and the result was compared with the specification, and distinct by the "
        "hash of its input")
SCRATCH = "/tmp"
INF = float("inf")
NAN = float("nan")


class Fail(Exception):
    def __init__(self, msg, sig=None): Exception.__init__(self, msg); self.sig = sig


class Rec:
    def __init__(self): self.desc, self.key, self.nontrivial, self.fail = None, None, False, None
    def note(self, desc):
        self.desc = desc
        self.key = hash(str(desc)); self.nontrivial = True


class Test:
    def __init__(self, f, weight, once): self.f, self.name, self.weight, self.once = f, f.__name__, weight, once


_TESTS = {}


def test(f=None, weight=1, once=False):
    def deco(g):
        _TESTS.setdefault(g.__module__, collections.OrderedDict())[g.__name__] = Test(g, weight, once)
        return g
    return deco(f) if f is not None else deco


def tests_of(m): return _TESTS[m.__name__]


def run_case(t, seed):
    rec = Rec()
    rng = random.Random(seed)
    try:
        t.f(rng, rec)
    except Fail as e:
        rec.fail = {"test": t.name, "seed": seed, "message": str(e), "sig": e.sig or t.name, "input": short(rec.desc, 3000)}
    except Exception as e:
        tb = traceback.format_exc()
        rec.fail = {"test": t.name, "seed": seed, "message": "unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-1200:]), "sig": t.name + ":unexpected",
                    "input": short(rec.desc, 3000)}
    return rec


_known = None


def is_known(prop, f):
    global _known
    if _known is None:
        _known = set()
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                if l.startswith("KNOWN-FINDING:"):
                    w = l.split()
                    _known.add((w[1].split("=")[1], w[2].split("=", 1)[1]))
    return (prop, f["sig"]) in _known


def short(x, n=1200):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def need(cond, msg, sig=None):
    if not cond: raise Fail(msg() if callable(msg) else msg, sig)


def raises(f, *classes):
    """the exception class raised, or None"""
    try:
        f()
    except (classes or (Exception,)) as e:
        return e
    return None


# ------------------------------------------------------------------------------------------ values
def isnan(x): return isinstance(x, float) and x != x


def isnull(x):
    if x is None: return True
    if isnan(x): return True
    try:
        import pandas as pd
        return x is pd.NaT
    except ImportError:
        return False


def veq(a, b):
    """same Python value, same kind, NaN equal to NaN"""
    if isnan(a) and isnan(b): return True
    if isinstance(a, bool) != isinstance(b, bool): return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and veq(v, b[k]) for k, v in a.items())
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))): return False
    return a == b


STRS = ["", "a", "b", "A", "x y", "it's", "''", "1", "1.5", "nan", "inf", "-inf", "true", "False", "  ", "2020-01-01", "héé", '"q"', "NULL", "None", "a,b", "0", "1e3"]
NUMS = [0, 1, 2, 3, -1, 5, 10, 0.5, 1.5, -2.5, 1e6, 10**12, INF, -INF, 100, 1.0, 3.0]
DATES = [datetime.datetime(2020, 1, 1), datetime.datetime(1999, 12, 31, 23, 59, 5)]


def rstr(rng):
    return rng.choice(STRS) if rng.random() < .6 else "".join(rng.choice("abAB '\"_1,") for _ in range(rng.randrange(6)))


def rnum(rng):
    r = rng.random()
    if r < .65: return rng.choice(NUMS)
    if r < .85: return rng.randrange(-20, 21)
    return round(rng.uniform(-50, 50), 3)


def rcell(rng):
    r = rng.random()
    if r < .45: return rnum(rng)
    if r < .75: return rstr(rng)
    if r < .82: return None
    if r < .87: return NAN
    if r < .94: return rng.choice([True, False])
    return rng.choice(DATES)


def rkeycell(rng):
    """hashable, equality-friendly key cell"""
    r = rng.random()
    if r < .5: return rng.randrange(0, 4)
    if r < .9: return rng.choice(["a", "b", "c", "d e", "", "a'b"])
    return rng.choice([1.5, -1, None, 10**10])


# ------------------------------------------------------------------------------------------ type rules
TYPE_KEYS = ["number_allowed", "inclusive_min", "inclusive_max", "min", "max", "must_be_int", "strings_allowed", "nullable", "datetime"]


def rtype(rng):
    lo = rng.choice([0, 0, 1, -5, 2, -INF, 0.5, -1])
    hi = rng.choice([INF, INF, 10, 5, 3, 2, 100, 2.5])
    if rng.random() < .06: lo = hi = rng.choice([3, INF, -INF, 0])
    if lo > hi: lo, hi = hi, lo
    return dict(number_allowed=rng.random() < .75, inclusive_min=rng.random() < .6, inclusive_max=rng.random() < .5, min=lo, max=hi,
                must_be_int=rng.random() < .3, strings_allowed=rng.choice([(), (), "*", ("a",), ("a", "b", "x y"), ["1", ""]]),
                nullable=rng.random() < .4, datetime=rng.random() < .08)


def readable_date(x):
    """a date, or something (a string, say) whose text a standard date reader accepts; plain numbers are not dates"""
    import pandas as pd, dateutil.parser, numbers
    if isinstance(x, datetime.datetime): return True
    if isinstance(x, numbers.Number) and not isinstance(x, bool): return False
    for y in (x, str(x)):
        for f in (pd.Timestamp, dateutil.parser.parse):
            try:
                r = f(y); repr(r)
            except Exception:
                continue
            if r is not None and not isnull(r): return True
    return False


def valid(ty, x):
    """property C01 from its text"""
    if isnull(x): return bool(ty["nullable"])
    if ty["datetime"]: return isinstance(x, datetime.datetime) or readable_date(x)
    if isinstance(x, bool): return False
    import numbers
    if isinstance(x, numbers.Number):
        if not ty["number_allowed"]: return False
        if x < ty["min"] or (x == ty["min"] and not ty["inclusive_min"]): return False
        if x > ty["max"] or (x == ty["max"] and not ty["inclusive_max"]): return False
        if ty["must_be_int"]:
            if x in (INF, -INF): return x == INF and ty["max"] == INF and bool(ty["inclusive_max"])
            return x == math.floor(x)
        return True
    if isinstance(x, str): return ty["strings_allowed"] == "*" or x in ty["strings_allowed"]
    return False


PK_DEFAULT = dict(number_allowed=True, inclusive_min=True, inclusive_max=True, min=-INF, max=INF, must_be_int=False, strings_allowed="*", nullable=False, datetime=False)

# ------------------------------------------------------------------------------------------ schemas and data
TNAMES = ["foods", "Nutrition", "nutrition_quantities", "t", "arcs", "Big_Table_1", "inflow", "costs_", "lanes"]
FNAMES = ["name", "Cost", "qty", "source", "destination", "k 1", "Min Nutrition", "max_nutrition", "f", "g", "commodity", "zz"]


class Schema:
    def __init__(self): self.tables, self.types, self.defaults, self.fks, self.generators = collections.OrderedDict(), {}, {}, [], []
    def fields(self, t): return tuple(self.tables[t][0]) + tuple(self.tables[t][1])
    def pk(self, t): return tuple(self.tables[t][0])
    def df(self, t): return tuple(self.tables[t][1])
    def __repr__(self): return "Schema(tables=%r, types=%r, defaults=%r, fks=%r)" % (dict(self.tables), self.types, self.defaults, self.fks)


def rschema(rng, ntab=(1, 4), types=.5, defaults=.3, fks=0, keyless=.25, keyed_only=False, maxpk=3, maxdf=3, names=None, fnames=None):
    s = Schema()
    names = list(names or TNAMES); rng.shuffle(names)
    for t in names[:rng.randint(*ntab)]:
        fs = list(fnames or FNAMES); rng.shuffle(fs)
        npk = 0 if (rng.random() < keyless and not keyed_only) else rng.choice([1, 1, 2, min(3, maxpk)][:max(1, maxpk + 1)])
        ndf = rng.randint(0 if npk else 1, maxdf)
        s.tables[t] = [fs[:npk], fs[npk:npk + ndf]]
    ts = list(s.tables)
    for t in ts:
        for f in s.fields(t):
            if rng.random() < types: s.types[t, f] = rtype(rng)
            if rng.random() < defaults: s.defaults[t, f] = rng.choice([0, 1, 5, "a", None, "", -1, 2.5])
    for _ in range(rng.randint(0, fks) if fks else 0):
        a, b = rng.choice(ts), rng.choice(ts)
        nf, ff = list(s.fields(a)), list(s.fields(b))
        rng.shuffle(nf)
        if rng.random() < .6 and s.pk(b): ff = list(s.pk(b))
        rng.shuffle(ff)
        n = min(len(nf), len(ff)); n = n if rng.random() < .6 else rng.randint(1, n)
        m = list(zip(nf[:n], ff[:n]))
        if rng.random() < .7 and n == len(s.pk(b)) or n == 1 or rng.random() < .3:
            if not any(x[0] == a and x[1] == b and set(x[2]) == set(m) for x in s.fks): s.fks.append((a, b, m))
    return s


def build(s, cls, types=True):
    f = cls(**{t: [list(p), list(d)] for t, (p, d) in s.tables.items()})
    if types:
        for (t, fl), ty in s.types.items(): f.set_data_type(t, fl, **ty)
        for (t, fl), d in s.defaults.items(): f.set_default_value(t, fl, d)
    for a, b, m in s.fks: f.add_foreign_key(a, b, m[0] if len(m) == 1 else m)
    if s.generators: f.set_generator_tables(s.generators)
    return f


def rrow_cell(rng, s, t, f, cell):
    ty = s.types.get((t, f))
    if ty is not None and rng.random() < .7:
        for _ in range(6):
            x = cell(rng)
            if valid(ty, x): return x
    return cell(rng)


def rdat(rng, s, nrows=(0, 6), keycell=rkeycell, cell=rcell, fkbias=0.):
    """plain data: {t: {key: {f: v}}} or {t: [ {f: v} ]}; keys scalar for one-field keys"""
    out = {}
    pool = {}
    for t in s.tables:
        if s.pk(t):
            d = {}
            for _ in range(rng.randint(*nrows)):
                k = []
                for f in s.pk(t):
                    v = keycell(rng)
                    k.append(v)
                row = {f: rrow_cell(rng, s, t, f, cell) for f in s.df(t)}
                d[k[0] if len(k) == 1 else tuple(k)] = row
            out[t] = d
        else:
            out[t] = [{f: rrow_cell(rng, s, t, f, cell) for f in s.df(t)} for _ in range(rng.randint(*nrows))]
    return out


def full_rows(s, d, t):
    """[(key or position, full row dict)] of plain data"""
    if s.pk(t):
        return [(k, dict(dict(zip(s.pk(t), (k,) if len(s.pk(t)) == 1 else k)), **r)) for k, r in d[t].items()]
    return list(enumerate(d[t]))


def plain(s, dat):
    """ticdat row-table object -> plain data, by the public interface"""
    out = {}
    for t in s.tables:
        tb = getattr(dat, t)
        if s.pk(t): out[t] = {k: dict(r) for k, r in tb.items()}
        else: out[t] = [dict(r) for r in tb]
    return out


def make(f, d): return f.TicDat(**{t: (dict((k, dict(r)) for k, r in v.items()) if isinstance(v, dict) else [dict(r) for r in v]) for t, v in d.items()})


def same_plain(a, b):
    if set(a) != set(b): return False
    for t in a:
        if isinstance(a[t], dict):
            if list(a[t]) != list(b[t]) : return False
            if not all(list(a[t][k]) == list(b[t][k]) and veq(a[t][k], b[t][k]) for k in a[t]): return False
        elif not (len(a[t]) == len(b[t]) and all(veq(x, y) for x, y in zip(a[t], b[t]))): return False
    return True


def vset(xs):
    """list of values as a comparable set, NaN-aware and kind-aware"""
    return {("nan",) if isnan(x) else (isinstance(x, bool), x) for x in xs}


def schema_state(f):
    """observable schema of a factory, as plain values"""
    return json.dumps({"schema": repr(sorted(map(repr, f.schema(True).items()))), "gen": repr(getattr(f, "generator_tables", None)), "preds": {t: repr(sorted(map(repr, f.get_row_predicates(t).items()))) for t in sorted(f.all_tables)}}, sort_keys=True)
