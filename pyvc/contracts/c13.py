from contracts.common import *
"""What is written into SQL text: a string becomes a literal whose every quote is doubled, so it neither ends early nor changes; nulls become null; the infinities, dates
and numbers their own text."""
S = lambda: z3.StringSort()
SV = z3.StringVal
QUOTE = SV("'")
ESCAPED = lambda t: PB.replace_all(None, t, QUOTE, SV("''"))
CHAR = lambda t, i: z3.SubString(t, i, 1)
PIECE = F("piece_of_text", Z(), S())


def pieces(c, text):
    """the text put together from the escapes of its characters, one for each, in order, is the escaped text (what replacing every quote by two means)"""
    def rule(st, sep, arg):
        if not (z3.is_string_value(sep) and sep.as_string() == ""): return None
        s = c.eng.as_seqc(c.content(arg) if isinstance(arg, Ref) else arg.content)
        i = z3.Const("position", Z())
        at = c.eng.as_str(st, s.at(i))
        c.eng.oblige("a piece for each character", st, s.n == z3.Length(text))
        neighbours = And(Implies(i > 0, Not(And(CHAR(text, i - 1) == QUOTE, CHAR(text, i) == QUOTE))), Implies(i + 1 < z3.Length(text), Not(And(CHAR(text, i) == QUOTE, CHAR(text, i + 1) == QUOTE))))
        c.eng.oblige("each piece is the character, a quote doubled", st, Implies(And(0 <= i, i < z3.Length(text), neighbours), at == If(CHAR(text, i) == QUOTE, SV("''"), CHAR(text, i))))
        return Sym(ESCAPED(text))
    c.eng.join_rule = rule


def fix_str(c):
    x = z3.Const("text", S())
    pieces(c, x)
    r = c.call(c.fn("sqlitetd._fix_str"), [Sym(x)])
    c.ensure("every quote doubled, all else kept", c.eng.as_str(c.st, r) == ESCAPED(x))


def insert_format(kind):
    def run(c):
        x = z3.Const("x", U)
        c.eng.eq_mode = "numeric"
        c.eng.overrides["sqlitetd._fix_str"] = lambda e, s, a, kw: Sym(ESCAPED(e.as_str(s, a[0])))
        is_ = dict(string=U.is_str(x), null=Or(U.is_none(x), U.is_nan(x)), infinity=U.is_pinf(x), minus=U.is_ninf(x), boolean=U.is_bool(x), integer=U.is_int(x), real=U.is_real(x), date=U.is_dt(x))[kind]
        c.assume(is_)
        c.eng.axioms += [PB.STR_OF(U.pinf) == SV("inf"), PB.STR_OF(U.ninf) == SV("-inf")]
        r = c.call(c.fn("sqlitetd._insert_format"), [Sym(x)])
        t = c.eng.as_str(c.st, r)
        want = dict(string=z3.Concat(QUOTE, ESCAPED(U.s(x)), QUOTE), null=SV("null"), infinity=SV("'inf'"), minus=SV("'-inf'"), date=z3.Concat(QUOTE, PB.STR_OF(x), QUOTE)).get(kind)
        if want is None: want = raw(PB.b_str(c.eng, c.st, [Sym(x)], {}))
        c.ensure(dict(string="a literal of the string, its quotes doubled", null="nulls are null").get(kind, "its own text"), t == want)
    return Contract("C13._insert_format(%s)" % kind, "sqlitetd._insert_format", run)


def write_cell(kind):
    """the value a cell is written as: booleans and dates as their text (a null date as null), anything else as the infinity flag has it (C12)"""
    def run(c):
        x = z3.Const("x", U)
        c.eng.eq_mode = "numeric"
        FLAGGED = F("infinity_flag_cell", U, U, U, U)
        class Tdf(Model):
            def attr(self, eng, st, name):
                if name != "_infinity_flag_write_cell": raise Unsupported("factory." + name)
                return Prim(name, lambda e, s, a, kw: Sym(FLAGGED(*[to_u(q) for q in a])))
        t, f = z3.Const("table", U), z3.Const("field", U)
        me = c.eng.alloc(c.st, ObjC(c.eng.global_name("SQLiteTicFactory", source.module("sqlitetd")), {"tic_dat_factory": Tdf()}))
        c.assume(dict(boolean=U.is_bool(x), date=U.is_dt(x), other=Not(Or(U.is_bool(x), U.is_dt(x), U.is_obj(x))))[kind])
        r = c.call(c.fn("sqlitetd.SQLiteTicFactory._write_data_cell"), [me, Sym(t), Sym(f), Sym(x)])
        c.ensure("what the cell is written as", to_u(r) == (FLAGGED(t, f, x) if kind == "other" else U.str(PB.STR_OF(x))))
    return Contract("C13._write_data_cell(%s)" % kind, "sqlitetd.SQLiteTicFactory._write_data_cell", run)


CONTRACTS = [Contract("C13._fix_str", "sqlitetd._fix_str", fix_str)] + [insert_format(k) for k in ("string", "null", "infinity", "minus", "boolean", "integer", "real", "date")]
CONTRACTS += [write_cell(k) for k in ("boolean", "date", "other")]
