from lib import *
from ticdat.utils import ampl_format

LABELS = ["a", "b", "set_x", "x1"]


@test(weight=30)
def formatting(rng, rec):
    vals = {l: rng.choice([1, 2.5, "v", "{z}", "{{a}}", "}", "", None, "{"]) for l in LABELS}
    toks = []
    for _ in range(rng.randint(0, 8)):
        r = rng.random()
        if r < .3: toks.append(("label", rng.choice(LABELS)))
        elif r < .6: toks.append(("brace", rng.choice("{}")))
        else: toks.append(("text", rng.choice(["x", " ", "\n", "set A;", "{1,2}", "[", "]", "_", "%s", "\\", "{i in S}", "é", "}{", "{}", ":", "!r"])))
    # doubled braces arise from labels only: single braces never stand next to each other or to a label
    out, exp = "", ""
    for kind, x in toks:
        t = "{{" + x + "}}" if kind == "label" else x
        if out and ((out[-1] in "{}" and t[0] in "{}") and (out[-1] == t[0])): out += " "; exp += " "
        out += t; exp += str(vals[x]) if kind == "label" else x
    rec.note((out, vals))
    got = ampl_format(out, **vals)
    need(got == exp, lambda: "%r becomes %r instead of %r" % (out, got, exp))


@test(weight=2)
def refused(rng, rec):
    x = rng.choice([None, 5, 2.5, [], {}])
    rec.note((repr(x),))
    need(raises(lambda: ampl_format(x)) is not None, "not a string, not refused")
    need(raises(lambda: ampl_format("{{nope}}", a=1)) is not None, "unknown label accepted")
