from contracts.common import *


class DF(Model):
    """a DataFrame: n rows, w distinctly named columns; contract of columns / itertuples"""
    def __init__(self, n, w, name, idx, cell): self.n, self.w, self.name, self.idx, self.cell = n, w, name, idx, cell
    def type_is(self, eng, st, cls): return z3.BoolVal("DataFrame" in str(cls))
    def length(self, eng, st): return self.n
    def attr(self, eng, st, name):
        if name == "columns": return SeqV(SeqC(self.w, lambda j: Sym(self.name(j)), "tuple"))
        if name == "itertuples":
            return Prim(name, lambda e, s, a, k: IterV(SeqC(self.n, lambda i: SeqV(SeqC(self.w + 1, lambda j: Sym(z3.If(j == 0, self.idx(i), self.cell(i, j - 1))), "tuple")))))
        raise Unsupported("DataFrame." + name)


def faster_df_apply(c):
    n, w = z3.Const("nrows", Z()), z3.Const("ncols", Z())
    NAME, POS, IDX, CELL = F("column_name", Z(), U), F("column_position", U, Z()), F("row_label", Z(), U), F("frame_cell", Z(), Z(), U)
    RES = F("applied", Z(), U)
    j = fresh_const("j", Z())
    c.assume(And(n >= 0, w >= 0, z3.ForAll([j], Implies(And(0 <= j, j < w), POS(NAME(j)) == j), patterns=[NAME(j)])))
    iscol = lambda f: And(0 <= POS(f), POS(f) < w, NAME(POS(f)) == f)
    f = z3.Const("field", U)
    def func(eng, st, args, kw):
        i = [b for b in eng.binders if b.sort() == Z()][-1]
        m = eng.content(st, args[0])
        eng.oblige("the function gets exactly the row's fields", st, m.dom(f) == iscol(f))
        eng.oblige("the function gets the row's values", st, Implies(iscol(f), to_u(m.get(f)) == CELL(i, POS(f))))
        return Sym(RES(i))
    made = {}
    def series(eng, st, args, kw):
        made["data"], made["index"] = c.content(args[0]), c.content(kw["index"])
        return Con(None)
    c.eng.ext["utils.pd"] = Mod("pandas")
    c.eng.B.EXTERN["pandas.Series"] = Prim("Series", series)
    c.eng.B.EXTERN["numpy.float64"] = Con("float64")
    c.call(c.fn("utils.faster_df_apply"), [DF(n, w, NAME, IDX, CELL), Prim("func", func)])
    d, ix = c.eng.as_seqc(made["data"]), c.eng.as_seqc(made["index"])
    i = z3.Const("row", Z())
    c.ensure("one result per row", And(d.n == n, ix.n == n))
    c.ensure("results stand in row order", Implies(And(0 <= i, i < n), And(to_u(d.at(i)) == RES(i), to_u(ix.at(i)) == IDX(i))))


CONTRACTS = [Contract("C24.faster_df_apply", "utils.faster_df_apply", faster_df_apply, covers=("C25",))]
