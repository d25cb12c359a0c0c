from lib import *
from ticdat import TicDatFactory
from ticdat import sqlitetd
import sqlite3, datetime, tempfile


def rtext(rng, semi=True):
    while True:
        n = rng.randrange(7)
        x = "".join(rng.choice("''ab\" %_;-[]()\\é1" if semi else "''ab\" %_-[]()\\é1") for _ in range(n))
        if "''" not in x: return x


_con = sqlite3.connect(":memory:")


def sql_exact(x):
    """does SQLite's own text-to-double conversion give this float back? (some builds lose the last digit)"""
    return not isinstance(x, float) or x != x or abs(x) == INF or _con.execute("select " + repr(x)).fetchone()[0] == x


def lit(rng, semi=True):
    while True:
        x = lit_(rng, semi)
        if sql_exact(x): return x


def lit_(rng, semi=True):
    r = rng.random()
    if r < .6: return rtext(rng, semi)
    if r < .75: return rng.choice([0, 1, -5, 10**15, 2.5, -0.125, 1e300, 1e-300, 123456789.125, INF, -INF, True, False, round(rng.uniform(-9, 9), rng.randrange(17))])
    if r < .85: return None
    if r < .9: return NAN
    return rng.choice(DATES)


def expected(x):
    if isnull(x): return None
    if isinstance(x, bool): return x
    if isinstance(x, datetime.datetime) or (isinstance(x, float) and abs(x) == INF): return str(x)
    return x


@test(weight=20)
def literals(rng, rec):
    x = lit(rng)
    rec.note((x,))
    con = sqlite3.connect(":memory:")
    try:
        txt = sqlitetd._insert_format(x)
        con.execute("create table t (a, b)")
        con.execute("insert into t (a, b) values (%s, 'sentinel')" % txt)
        (a, b), = con.execute("select a, b from t").fetchall()
    finally:
        con.close()
    e = expected(x)
    need(b == "sentinel" and veq(a if not isinstance(x, bool) else bool(a), e), lambda: "%r written as %s reads back as %r" % (x, txt, a))


@test(weight=2)
def sql_files(rng, rec):
    s = rschema(rng, types=0, defaults=.6, ntab=(1, 3), fks=2)
    for k in list(s.defaults):
        if rng.random() < .6: s.defaults[k] = rng.choice(["it's", "a", None, "'q'", 5, -1, 2.5, "x y", ""])
    f = build(s, TicDatFactory)
    for t in s.tables:
        for x in s.df(t):
            if (t, x) not in s.defaults or isinstance(s.defaults[t, x], (int, float)):
                f.set_default_value(t, x, rng.choice(["", "d'f", None])); s.defaults[t, x] = f.default_values[t][x]
    cell = lambda r: (lambda v: v if not isinstance(v, bool) else "b")(lit(r, semi=False))
    kc = lambda r: (lambda v: v if not (isnull(v) or isinstance(v, (bool, datetime.datetime))) else "k'%d" % r.randrange(5))(lit(r, semi=False))
    d = rdat(rng, s, keycell=kc, cell=cell, nrows=(0, 4))
    rec.note((s, d))
    dat = make(f, d)
    p = tempfile.mkdtemp(dir=__import__("lib").SCRATCH)
    schema = rng.random() < .5
    path = os.path.join(p, "x.sql")
    f.sql.write_sql_file(dat, path, include_schema=schema)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): r = f.sql.create_tic_dat_from_sql(path, includes_schema=schema)
    got = plain(s, r)

    def rd(x):
        if isnull(x): return None
        if isinstance(x, datetime.datetime): return str(x)
        if isinstance(x, str) and x.lower() in ("inf", "-inf"): return float(x)
        if isinstance(x, str) and x.lower() in ("true", "false"): return x.lower() == "true"
        return x
    for t in d:
        if isinstance(d[t], dict):
            exp = {tuple(map(rd, k)) if isinstance(k, tuple) else rd(k): {a: rd(b) for a, b in v.items()} for k, v in d[t].items()}
            need(same_plain({t: {k: exp[k] for k in sorted(exp, key=repr)}}, {t: {k: got[t][k] for k in sorted(got[t], key=repr)}}), lambda: "%s: %r read back as %r" % (t, exp, got[t]))
        else:
            exp = [{a: rd(b) for a, b in v.items()} for v in d[t]]
            need(same_plain({t: exp}, {t: got[t]}), lambda: "%s: %r read back as %r" % (t, exp, got[t]))


@test(weight=2)
def declared_defaults(rng, rec):
    """a default rendered into the schema denotes that value for a row inserted without the field"""
    x = rng.choice([rtext(rng), None, 5, -2.5, 0, INF, "None", "inf", 1e20])
    f = TicDatFactory(t=[["k"], ["f"]]); f.set_default_value("t", "f", x)
    rec.note((x,))
    con = sqlite3.connect(":memory:")
    try:
        for q in f.sql._get_schema_sql(("t",)): con.execute(q)
        con.execute("insert into t (k) values (1)")
        (a,), = con.execute("select f from t").fetchall()
    finally: con.close()
    e = expected(x)
    need(veq(a, e) or (isinstance(e, (int, float)) and not isinstance(e, bool) and a == e), lambda: "default %r denotes %r in SQL" % (x, a))
