from contracts.common import *

NULLROW = z3.Function("all_cells_null", z3.IntSort(), z3.BoolSort())


class Series(Model):
    """result of applying a function to the rows [lo, hi) of a frame: f(row number)"""
    def __init__(self, lo, hi, f): self.lo, self.hi, self.f = lo, hi, f
    def attr(self, eng, st, name):
        if name != "all": raise Unsupported("Series attribute " + name)
        j = fresh_const("j", z3.IntSort())
        return Prim(name, lambda e, s, a, k: Sym(ForAll([j], Implies(And(self.lo <= j, j < self.hi), self.f(j)))))
    def subst(self, pairs): return Series(subst(self.lo, pairs), subst(self.hi, pairs), lambda j: subst(self.f(j), pairs))


class Frame(Model):
    """rows [lo, hi) of a frame; contract of pandas tail / head / copy / len"""
    def __init__(self, lo, hi, fresh=False): self.lo, self.hi, self.fresh = lo, hi, fresh
    def to_u(self): raise Unsupported("frame as key")
    def subst(self, pairs): return Frame(subst(self.lo, pairs), subst(self.hi, pairs), self.fresh)
    def truthy(self, eng, st): raise Unsupported("truth value of a frame")
    def length(self, eng, st): return z3.simplify(self.hi - self.lo)
    def attr(self, eng, st, name):
        n = self.hi - self.lo
        def cut(a): return z3.If(a >= 0, z3.If(a < n, a, n), z3.If(n + a > 0, n + a, z3.IntVal(0)))
        if name == "tail": return Prim(name, lambda e, s, a, k: Frame(z3.simplify(self.hi - cut(e.as_int(s, a[0]))), self.hi))
        if name == "head": return Prim(name, lambda e, s, a, k: Frame(self.lo, z3.simplify(self.lo + cut(e.as_int(s, a[0])))))
        if name == "copy": return Prim(name, lambda e, s, a, k: Frame(self.lo, self.hi, True))
        raise Unsupported("DataFrame." + name)


COL = z3.Function("column", U, z3.BoolSort())
CELL = z3.Function("frame_cell", z3.IntSort(), U, U)


def row(c, st, j): return c.eng.alloc(st, MapC(lambda f: COL(f), lambda f: Sym(CELL(j, f))))


def use_apply(c):
    """contract of utils.faster_df_apply on a frame: the function applied to each row's field -> value dictionary, in row order;
    after the first row for which trip_wire_check is truthy its result takes over"""
    def run(eng, st, args, kw):
        df, f = args[0], args[1]
        trip = args[2] if len(args) > 2 else kw.get("trip_wire_check")
        def at(fn, j):
            s = st.fork()
            r = eng.truthy(s, eng.call(s, fn, [row(c, s, j)], {}))
            return r
        if trip is None: return Series(df.lo, df.hi, lambda j: at(f, j))
        first = at(f, df.lo)
        s = st.fork()
        nf = eng.call(s, trip, [Sym(first)], {})
        def later(v, j):
            if isinstance(v, Ite): return z3.If(v.c, later(v.a, j), later(v.b, j))
            if not isinstance(v, Fn): raise Unsupported("trip wire that does not trip on the first row")
            return at(v, j)
        return Series(df.lo, df.hi, lambda j: z3.If(j == df.lo, first, later(nf, j)))
    c.eng.overrides["utils.faster_df_apply"] = run


def null_row(j):
    f = fresh_const("f", U)
    return ForAll([f], Implies(COL(f), is_null(CELL(j, f))))


def last_null(n, k):
    """the last k of n rows are entirely null"""
    j = fresh_const("j", z3.IntSort())
    return ForAll([j], Implies(And(n - k <= j, j < n), NULLROW(j)))


def is_last(c):
    n, k = z3.Const("nrows", Z()), z3.Const("last_rows", Z())
    c.assume(And(0 <= n, 0 < k, k <= n))
    use_apply(c)
    j = fresh_const("j", z3.IntSort())
    c.eng.axioms.append(z3.ForAll([j], NULLROW(j) == null_row(j), patterns=[NULLROW(j)]))
    r = c.call(c.fn("pandatfactory._is_last_rows_all_nan"), [Frame(z3.IntVal(0), n), Sym(k)])
    c.hint(n - 1, n - k)
    c.ensure("true exactly when the last rows are entirely null", c.eng.truthy(c.st, r) == last_null(n, k))


def use_is_last(c, n):
    def run(eng, st, args, kw):
        k = eng.as_int(st, args[1])
        eng.raise_(st, "AssertionError", Not(And(0 < k, k <= n)))
        return Sym(last_null(n, k))
    c.eng.overrides["pandatfactory._is_last_rows_all_nan"] = run


def spec(n, lo, hi, r):
    """r is the number of trailing null rows, known to lie in [lo, hi]"""
    return And(lo <= r, r <= hi, last_null(n, r), Or(r == hi, Not(last_null(n, r + 1))))


def find_number(c):
    n, lo, hi = z3.Const("nrows", Z()), z3.Const("min_rtn", Z()), z3.Const("max_rtn", Z())
    ctx = lambda lo, hi: And(0 <= lo, lo <= hi, hi <= n, last_null(n, lo), Or(hi == n, Not(last_null(n, hi + 1))))
    c.assume(ctx(lo, hi))
    use_is_last(c, n)
    def again(eng, st, args, kw):
        a, b = eng.as_int(st, args[1]), eng.as_int(st, args[2])
        eng.oblige("the recursive call meets its precondition", st, ctx(a, b))
        eng.oblige("the interval shrinks", st, And(b - a < hi - lo, b - a >= 0))
        r = fresh_const("inner", Z())
        st.assume(spec(n, a, b, r))
        return Sym(r)
    c.eng.recursive["pandatfactory._find_number_all_nan_last_rows"] = again
    c.st.assume(TRUE)
    r = c.call(c.fn("pandatfactory._find_number_all_nan_last_rows"), [Frame(z3.IntVal(0), n), Sym(lo), Sym(hi)])
    r = c.eng.as_int(c.st, r)
    c.ensure("the longest run of null rows at the end is counted", And(lo <= r, r <= hi, last_null(n, r), Or(r == n, Not(last_null(n, r + 1)))))


def remove_trailing(c):
    n = z3.Const("nrows", Z())
    c.assume(n >= 0)
    q = fresh_const("run", Z())
    c.assume(And(0 <= q, q <= n, last_null(n, q), Or(q == n, Not(last_null(n, q + 1)))))
    def count(eng, st, args, kw):
        a, b = eng.as_int(st, args[1]), eng.as_int(st, args[2])
        eng.oblige("the search starts from the whole frame", st, And(a == 0, b == n))
        return Sym(q)
    c.eng.overrides["pandatfactory._find_number_all_nan_last_rows"] = count
    df = Frame(z3.IntVal(0), n)
    r = c.call(c.fn("pandatfactory.remove_trailing_all_nan"), [df])
    def both(v, cond):
        if isinstance(v, Ite): both(v.a, And(cond, v.c)); both(v.b, And(cond, Not(v.c))); return
        c.ensure("exactly the trailing run is dropped", And(v.lo == 0, v.hi == n - q), hyps=[cond])
    both(r, TRUE)


def openpyxl(c):
    """the sheet wrapper: rows are counted from the top, the trailing run of entirely empty rows is not counted"""
    n, prune = z3.Const("max_row", Z()), z3.Const("prune", B())
    EMPTY = z3.Function("row_is_empty", z3.IntSort(), z3.BoolSort())
    CELLAT, W = z3.Function("sheet_cell", z3.IntSort(), z3.IntSort(), U), z3.Const("width", Z())
    j = fresh_const("j", Z())
    c.assume(And(n >= 1, W >= 0))
    i = fresh_const("i", Z())
    c.eng.axioms.append(z3.ForAll([i], EMPTY(i) == ForAll([j], Implies(And(0 <= j, j < W), CELLAT(i, j) == U.none)), patterns=[EMPTY(i)]))
    class Cell(Model):
        def __init__(self, i, j): self.i, self.j = i, j
        def attr(self, eng, st, name):
            if name != "value": raise Unsupported("cell attribute " + name)
            return Sym(CELLAT(self.i, self.j))
        def subst(self, pairs): return Cell(subst(self.i, pairs), subst(self.j, pairs))
    class Sheet(Model):
        def attr(self, eng, st, name):
            if name == "max_column": return Sym(W)
            if name == "max_row": return Sym(n)
            if name == "iter_rows":
                def rows(e, s, a, k):
                    lo, hi = e.as_int(s, k["min_row"]), e.as_int(s, k["max_row"])
                    c0, c1 = e.as_int(s, k["min_col"]), e.as_int(s, k["max_col"])
                    e.raise_(s, "IndexError", Not(And(1 <= lo, lo == hi, c0 == 1, c1 == W)))
                    return IterV(SeqC(z3.IntVal(1), lambda q: SeqV(SeqC(W, lambda x: Cell(lo - 1, x), "tuple"))))
                return Prim(name, rows)
            raise Unsupported("sheet attribute " + name)
    def inv(eng, st, s, frames, fn):
        eng.while_rule(st, s, frames, fn,
                       lambda get, stx: [("the rows below are empty", And(eng.as_int(stx, get("i")) >= -1, eng.as_int(stx, get("i")) < n,
                                          ForAll([j], Implies(And(eng.as_int(stx, get("i")) < j, j < n), EMPTY(j)))))],
                       variant=lambda get, stx: eng.as_int(stx, get("i")) + 1, name="trailing rows")
    c.eng.while_invariants[("xls._OpenPyxlSheetWrapper.__init__", 0)] = inv
    cls = c.eng.global_name("_OpenPyxlSheetWrapper", source.module("xls"))
    r = c.call(cls, [Sheet(), Sym(prune)])
    m = c.eng.as_int(c.st, c.content(r).attrs["_max_row"])
    tail = lambda k: ForAll([j], Implies(And(k <= j, j < n), EMPTY(j)))
    c.ensure("with pruning exactly the longest empty run at the end is left out", And(0 <= m, m <= n, tail(m), Implies(m > 0, Not(EMPTY(m - 1)))), hyps=[prune])
    c.ensure("without pruning every row counts", m == n, hyps=[Not(prune)])


CONTRACTS = [Contract("C25.is_last_rows_all_nan", "pandatfactory._is_last_rows_all_nan", is_last),
             Contract("C25.find_number_all_nan_last_rows", "pandatfactory._find_number_all_nan_last_rows", find_number),
             Contract("C25.remove_trailing_all_nan", "pandatfactory.remove_trailing_all_nan", remove_trailing),
             Contract("C25.openpyxl_sheet", "xls._OpenPyxlSheetWrapper.__init__", openpyxl)]
