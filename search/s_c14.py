from lib import *
from ticdat import TicDatFactory, PanDatFactory
from ticdat import sqlitetd, pgtd
import io, contextlib, signal, sqlite3


class Timeout(Exception): pass


def limited(f, secs=10):
    def h(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    try:
        return f()
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)


def rgraph(rng, acyclic):
    n = rng.randint(1, 6)
    ts = ["%s%d" % (rng.choice("abxyz"), i) for i in range(n)]
    order = list(ts); rng.shuffle(order)
    edges = set()
    for _ in range(rng.randint(0, 2 * n)):
        a, b = rng.choice(ts), rng.choice(ts)
        if acyclic:
            if a == b: continue
            if order.index(a) < order.index(b): a, b = b, a
        edges.add((a, b))
    decl = list(ts); rng.shuffle(decl)
    return decl, sorted(edges, key=lambda e: rng.random())


@test(weight=6)
def order(rng, rec):
    acyclic = rng.random() < .6
    ts, edges = rgraph(rng, acyclic)
    cls = rng.choice([TicDatFactory, PanDatFactory])
    f = cls(**{t: [["k"], ["f", "g"]] for t in ts})
    with contextlib.redirect_stdout(io.StringIO()):
        for a, b in edges:
            f.add_foreign_key(a, b, [rng.choice(["k", "f", "g"]), rng.choice(["k", "k", "f"])])
    rec.note((cls.__name__, ts, edges))
    if cls is TicDatFactory: impls = [("sqlite", f.sql), ("postgres", pgtd.PostgresTicFactory(f))]
    else: impls = [("postgres", pgtd.PostgresPanFactory(f))]
    cyc = not acyclic and has_cycle(ts, edges)
    for name, x in impls:
        try:
            o = limited(x._ordered_tables)
        except (RecursionError, Timeout) as e:
            raise Fail("%s table order does not terminate for %s" % (name, edges))
        need(sorted(o) == sorted(ts), lambda: "%s: order %s is not every table once of %s" % (name, o, ts))
        if not cyc:
            for a, b in edges: need(o.index(b) < o.index(a), lambda: "%s: %s before its parent %s in %s" % (name, a, b, o))
    if cls is TicDatFactory:
        sub = [t for t in ts if rng.random() < .6]
        sqls = f.sql._get_schema_sql(sub)
        made = [q.split("[")[1].split("]")[0] for q in sqls]
        need(sorted(made) == sorted(sub), lambda: "schema creates %s for %s" % (made, sub))
        if not cyc: need(all(made.index(b) < made.index(a) for a, b in edges if a in made and b in made), lambda: "created in order %s with keys %s" % (made, edges))
        con = sqlite3.connect(":memory:")
        try:
            for q in sqls: con.execute(q)
        finally: con.close()


def has_cycle(ts, edges):
    out = {t: {b for a, b in edges if a == t} for t in ts}
    seen = {}

    def go(t):
        if seen.get(t) == 1: return True
        if seen.get(t) == 2: return False
        seen[t] = 1
        r = any(go(b) for b in out[t])
        seen[t] = 2
        return r
    return any(go(t) for t in ts)


@test(weight=1)
def pg_statements(rng, rec):
    """what the PostgreSQL writer would execute, on a recording connection"""
    ts, edges = rgraph(rng, True)
    f = TicDatFactory(**{t: [["k"], ["f"]] for t in ts})
    for a, b in edges: f.add_foreign_key(a, b, ["k", "k"])
    rec.note((ts, edges))
    got = []

    class Con:
        def execute(self, q, *a):
            q = str(q)
            got.append(q)
            return [("sch",)] if "schemata" in q else []
    pgtd.PostgresTicFactory(f).write_schema(Con(), "sch")
    made = [q.split("TABLE sch.")[1].split(" ")[0] for q in got if "CREATE TABLE" in q]
    need(sorted(made) == sorted(ts) and all(made.index(b) < made.index(a) for a, b in edges), lambda: "created %s with keys %s" % (made, edges))
    del got[:]
    pgtd.PostgresTicFactory(f)._handle_prexisting_rows(Con(), "sch", {})
    gone = [q.split("sch.")[1].split()[0] for q in got if "truncate" in q.lower()]
    need(sorted(gone) == sorted(ts) and all(gone.index(b) > gone.index(a) for a, b in edges), lambda: "emptied %s with keys %s" % (gone, edges))
