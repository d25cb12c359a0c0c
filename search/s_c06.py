from lib import *
from ticdat import TicDatFactory


class Boom(Exception): pass


def pred_behaviour(rng, msg):
    kind = rng.choice(["hash", "hash", "raise", "always", "never", "truthy", "kw"])
    salt = rng.randrange(1000)

    def score(row): return (sum(ord(c) for c in repr(sorted(row.items(), key=lambda x: x[0]))) + salt) % 5

    def p(row, **kw):
        b = score(row)
        if kind == "raise" and b == 0: raise Boom("bad row")
        if kind == "kw": b = (b + len(kw) + sum(kw.values())) % 5
        if kind == "always": b = 4
        if kind == "never": b = 0
        if msg: return [True, "msg%d" % b, True, 1, "" if kind == "truthy" else None][b]
        return [False, True, 0 if kind == "truthy" else False, "yes", True][b]
    return p


@test(weight=6)
def failures_listed_exactly(rng, rec):
    s = rschema(rng, types=0, keyless=.35)
    d = rdat(rng, s, cell=lambda r: rng.choice([0, 1, 2, "a", None, 3.5]))
    f = build(s, TicDatFactory)
    preds, seen = {}, {}
    makers = []
    for t in s.tables:
        for i in range(rng.randint(0, 3)):
            msg = rng.random() < .4
            p = pred_behaviour(rng, msg)
            mk = None
            if rng.random() < .4:
                mkind = rng.choice(["ok", "ok", "raise", "notdict"])
                if makers and rng.random() < .4: mk, mkind = rng.choice(makers)
                else:
                    def mk(dat, mkind=mkind, n=rng.randrange(3), calls=[]):
                        calls.append(1)
                        if mkind == "raise": raise Boom("no args")
                        return {"z%d" % j: j + 1 for j in range(n)} if mkind == "ok" else [1]
                    makers.append((mk, mkind))
            else: mkind = "none"
            name = rng.choice([None, "p%d" % i, i, "q q%d" % i])
            log = []
            def wrapped(row, _p=p, _log=log, **kw):
                _log.append((dict(row), kw))
                return _p(row, **kw)
            f.add_data_row_predicate(t, wrapped, predicate_name=name, predicate_kwargs_maker=mk, predicate_failure_response="Error Message" if msg else "Boolean")
            if name is None:
                name = 0
                while (t, name) in preds: name += 1
            preds[t, name] = (p, mk, mkind, msg, log)
    handled = rng.random() < .6
    rec.note((s, d, sorted(map(str, preds)), handled))
    dat = make(f, d)
    before = plain(s, dat)
    want, esc = {}, False
    for (t, n), (p, mk, mkind, msg, log) in preds.items():
        kw = {}
        if mk is not None:
            if mkind == "raise":
                if not handled: esc = True
                want[t, n] = ("*", "Exception<no args>"); continue
            if mkind == "notdict": want[t, n] = ("*", None); continue
            kw = mk(None)
        bad = []
        for k, row in full_rows(s, d, t):
            try: r = p(row, **kw)
            except Boom as e:
                if not handled: esc = True
                r = "Exception<bad row>" if msg else False
            if msg and r is not True: bad.append((k, str(r)))
            if not msg and not r: bad.append(k)
        if bad: want[t, n] = bad
    for v in preds.values(): del v[4][:]
    call = lambda **kw: f.find_data_row_failures(dat, exception_handling="Handled as Failure" if handled else "Unhandled", **kw)
    if esc:
        e = raises(call)
        need(isinstance(e, Boom), "an exception of a predicate (or argument maker) should reach the caller, got %r" % (e,))
        return
    got = call()
    need({tuple(k) for k in got} == set(want), lambda: "reported %s, expected %s" % (sorted(map(str, got)), sorted(map(str, want))))
    for k, v in got.items():
        w = want[tuple(k)]
        if isinstance(w, tuple):
            need(v.primary_key == "*" and isinstance(v.error_message, str) and (w[1] is None or v.error_message == w[1]), lambda: "%s: %r" % (k, v))
        else: need(len(v) == len(w) and {tuple(x) if preds[tuple(k)][3] else x for x in v} == set(w), lambda: "%s: %r, expected %r" % (k, v, w))
    for (t, n), (p, mk, mkind, msg, log) in preds.items():
        if mkind in ("none", "ok"):
            rows = [r for _, r in full_rows(s, d, t)]
            need(len(log) == len(rows) and all(any(veq(a, r) and set(a) == set(r) for r in rows) for a, _ in log),
                 lambda: "predicate %s was called with %r for rows %r" % ((t, n), [a for a, _ in log], rows))
            need(all(kw == (mk(None) if mk else {}) for _, kw in log), "predicate called with the wrong arguments")
    need(same_plain(before, plain(s, dat)), "the check changed the data")
    total = sum(1 if isinstance(w, tuple) else len(w) for w in want.values())
    lim = rng.choice([1, 2, 3, total or 1, total + 1])
    lg, n = call(max_failures=lim), 0
    for k, v in lg.items():
        need(tuple(k) in want, "limited report has a predicate without failures")
        w = want[tuple(k)]
        if isinstance(w, tuple): n += 1
        else:
            need({tuple(x) if preds[tuple(k)][3] else x for x in v} <= set(w), "limited report lists good rows"); n += len(v)
    need(n >= min(lim, total), "limit %s of %s failures, only %s reported" % (lim, total, n))


@test(weight=3)
def parameters_rows(rng, rec):
    pk, dfl = rng.choice([("Key", "Value"), ("name", "val")])
    f = TicDatFactory(parameters=[[pk], [dfl]], t=[["a"], ["b"]])
    tys = {}
    for p in rng.sample(["p", "q", "r", "some param"], rng.randint(1, 3)):
        ty = rtype(rng)
        dv = next((x for x in (rcell(rng) for _ in range(30)) if valid(ty, x)), None)
        if not valid(ty, dv) or rng.random() < .3: f.add_parameter(p, dv, enforce_type_rules=False); tys[p] = None
        else: f.add_parameter(p, dv, **ty); tys[p] = ty
    names = []
    for nm in rng.sample(["Good Name/Value Check", "Good Name/Value Check_0", "Good Name/Value Check_1", "x"], rng.randint(0, 3)):
        f.add_data_row_predicate("parameters", lambda row: True, predicate_name=nm); names.append(nm)
    d = {k: rcell(rng) for k in rng.sample(["p", "q", "r", "some param", "bad", "P"], rng.randint(0, 5))}
    rec.note((tys, d, names))
    dat = f.TicDat(parameters={k: {dfl: v} for k, v in d.items()})
    got = f.find_data_row_failures(dat, exception_handling=rng.choice(["Unhandled", "Handled as Failure", "__debug__"]))
    bad = {k for k, v in d.items() if k not in tys or (tys[k] is not None and not valid(tys[k], v))}
    need(len(got) == (1 if bad else 0), lambda: "entries %s, expected failing parameters %s" % (got, bad))
    if bad:
        [(k, v)] = got.items()
        need(k.table == "parameters" and k.predicate_name not in names and k.predicate_name.startswith("Good Name/Value Check"), "entry named %s" % (k,))
        need(set(v) == bad and len(v) == len(bad), lambda: "failing parameters %r, expected %r" % (v, bad))
    need({k: r[dfl] for k, r in dat.parameters.items()}.keys() == d.keys(), "data changed")
