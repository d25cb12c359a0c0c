from lib import *
from ticdat import TicDatFactory
from ticdat.utils import TicDatError


@test(weight=6)
def repair_changes_exactly_failing_data_cells(rng, rec):
    s = rschema(rng, types=.6)
    d = rdat(rng, s)
    repl = {}
    for t in s.tables:
        for fl in s.df(t):
            if (t, fl) in s.types and rng.random() < .5:
                repl[t, fl] = next((x for x in (rcell(rng) for _ in range(20)) if valid(s.types[t, fl], x)), 0)
            elif rng.random() < .1: repl[t, fl] = 7
            if (t, fl) in s.types and rng.random() < .6:
                s.defaults[t, fl] = next((x for x in (rng.choice([0, 1, 3, "a", None, "1", 2, -1]) for _ in range(20)) if valid(s.types[t, fl], x)), 0)
    bad = None
    r = rng.random()
    tl = list(s.tables)
    if r < .05: repl["nosuch", "x"] = 1; bad = True
    elif r < .1: repl[tl[0], "nosuchfield"] = 1; bad = True
    elif r < .17 and s.pk(tl[0]): repl[tl[0], s.pk(tl[0])[0]] = 1; bad = True
    elif r < .27 and s.types: repl.update({k: rng.choice(["zzzz", -10**9, object]) for k in s.types if k[1] in s.df(k[0])})
    items = list(repl.items()); rng.shuffle(items); repl = dict(items)
    rec.note((s, d, repl))
    f = build(s, TicDatFactory)
    dat = make(f, d)
    failing = {(t, fl): [k for k, r in full_rows(s, d, t) if not valid(s.types[t, fl], r[fl])] for t in s.tables for fl in s.df(t) if (t, fl) in s.types}
    failing = {k: v for k, v in failing.items() if v}
    use = {k: repl.get(k, s.defaults.get(k, 0)) for k in failing}
    refuse = bad or any(not valid(s.types[k], v) for k, v in use.items())
    arg = {k: v for k, v in repl.items()}
    e = raises(lambda: f.replace_data_type_failures(dat, arg) if arg or rng.random() < .5 else f.replace_data_type_failures(dat))
    if refuse:
        need(e is not None, lambda: "an unusable replacement was accepted: %r" % (use,))
        need(isinstance(e, TicDatError), "unexpected error %r" % (e,))
        need(same_plain(plain(s, dat), d), "data changed although the repair was refused")
        return
    need(e is None, "repair refused: %r" % (e,))
    want = {t: ({k: dict(r) for k, r in v.items()} if isinstance(v, dict) else [dict(r) for r in v]) for t, v in d.items()}
    for (t, fl), ks in failing.items():
        for k in ks: want[t][k][fl] = use[t, fl]
    need(same_plain(plain(s, dat), want), lambda: "after repair %s, expected %s" % (short(plain(s, dat)), short(want)))
    left = {k for k in f.find_data_type_failures(dat) if k[1] in s.df(k[0])}
    need(not left, "data fields still fail: %s" % left)
    need(arg == repl, "the replacement dictionary was changed")
