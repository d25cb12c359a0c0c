"""Contract runner: executes the real (freshly parsed) function against its contract and discharges every obligation."""
import time, itertools, subprocess, tempfile, os, traceback
import z3
from values import *
import values as VV
import engine as EN
from engine import Engine, St, Exit
import source

TIMEOUT_MS = int(os.environ.get("PYVC_TIMEOUT_MS", "20000"))


class Obligation:
    def __init__(self, name, status, backend, secs, detail=""):
        self.name, self.status, self.backend, self.secs, self.detail = name, status, backend, secs, detail
    def as_dict(self):
        return {"obligation": self.name, "status": self.status, "backend": self.backend, "seconds": round(self.secs, 3), "detail": self.detail}


def _cvc5(smt2, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2); name = f.name
    try:
        r = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % timeout, name], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "error"
    except Exception as e:
        return "error"
    finally:
        os.unlink(name)


def split_goal(g, hyps=(), depth=0):
    """equivalent list of (extra hypotheses, simpler goal)"""
    if depth > 6: return [(hyps, g)]
    if z3.is_and(g): return [x for c in g.children() for x in split_goal(c, hyps, depth + 1)]
    if z3.is_implies(g): return split_goal(g.arg(1), hyps + (g.arg(0),), depth + 1)
    if z3.is_eq(g) and g.arg(0).sort() == z3.BoolSort():
        a, b = g.children()
        return split_goal(Implies(a, b), hyps, depth + 1) + split_goal(Implies(b, a), hyps, depth + 1)
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and g.sort() == z3.BoolSort():
        return split_goal(Implies(g.arg(0), g.arg(1)), hyps, depth + 1) + split_goal(Implies(Not(g.arg(0)), g.arg(2)), hyps, depth + 1)
    if z3.is_quantifier(g) and g.is_forall():
        cs = [fresh_const("sk", g.var_sort(i)) for i in range(g.num_vars())]
        return split_goal(z3.substitute_vars(g.body(), *reversed(cs)), hyps, depth + 1)
    return [(hyps, g)]


def instances(fs, hints):
    """instances of the closed quantified subformulas at the hint terms; each is valid, so adding it assumes nothing"""
    out, seen = [], set()
    def closed(q):
        todo, s2 = [(q, 0)], set()
        while todo:
            t, d = todo.pop()
            if (t.get_id(), d) in s2: continue
            s2.add((t.get_id(), d))
            if z3.is_var(t) and z3.get_var_index(t) >= d: return False
            if z3.is_quantifier(t): todo.append((t.body(), d + t.num_vars()))
            else: todo.extend((c, d) for c in t.children())
        return True
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            if not t.is_lambda() and t.num_vars() <= 2 and closed(t):
                sorts = [t.var_sort(i) for i in range(t.num_vars())]
                for vs in itertools.product(*[[h for h in hints if h.sort() == so] for so in sorts]):
                    inst = z3.substitute_vars(t.body(), *reversed(vs))
                    out.append(z3.Implies(t, inst) if t.is_forall() else z3.Implies(inst, t))
                    if len(out) > 400: return out
        else: todo.extend(t.children())
    return out


def check(hyps, goal, timeout=None, cvc5=True):
    """('proved'|'refuted'|'unknown', backend, secs, detail)"""
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g): return "proved", "z3-simplify", time.time() - t0, ""
    parts = split_goal(goal)
    if len(parts) == 1: return check1(list(hyps) + list(parts[0][0]), parts[0][1], timeout, cvc5)
    backs, worst = [], None
    for h, g in parts:
        r, be, _, d = check1(list(hyps) + list(h), g, timeout, cvc5)
        if be not in backs: backs.append(be)
        if r == "refuted": return r, be, time.time() - t0, d
        if r != "proved" and worst is None: worst = (r, be, d)
    if worst: return worst[0], worst[1], time.time() - t0, worst[2]
    return "proved", "+".join(b for b in backs), time.time() - t0, ""


def check1(hyps, goal, timeout=None, cvc5=True):
    timeout = timeout or TIMEOUT_MS
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g): return "proved", "z3-simplify", time.time() - t0, ""
    s = z3.Solver()
    s.set("timeout", timeout)
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat: return "proved", "z3", time.time() - t0, ""
    if r == z3.sat:
        try: d = model_text(s.model())
        except Exception: d = "model unavailable"
        return "refuted", "z3", time.time() - t0, d
    reason = s.reason_unknown()
    # other z3 configurations
    for opts in ({"smt.mbqi": False}, {"smt.random_seed": 7, "smt.arith.solver": 2}):
        s2 = z3.Solver()
        s2.set("timeout", timeout)
        try:
            for k, v in opts.items(): s2.set(k, v)
        except z3.Z3Exception: continue
        for h in hyps: s2.add(h)
        s2.add(z3.Not(goal))
        r = s2.check()
        if r == z3.unsat: return "proved", "z3" + str(opts), time.time() - t0, ""
    if os.environ.get("PYVC_DUMP"):
        n = os.path.join(os.environ["PYVC_DUMP"], "q%d.smt2" % len(os.listdir(os.environ["PYVC_DUMP"])))
        open(n, "w").write(s.to_smt2()); print("dumped", n, str(goal)[:300])
        s3 = z3.Solver(); s3.set("timeout", 5000)
        for h in hyps:
            if not z3.is_quantifier(h): s3.add(h)
        s3.add(z3.Not(goal)); print("  without quantified hypotheses:", s3.check())
    if cvc5:
        try:
            out = _cvc5(s.to_smt2(), timeout)
        except Exception: out = "error"
        if out == "unsat": return "proved", "cvc5", time.time() - t0, ""
    return "unknown", "z3+cvc5", time.time() - t0, reason


def model_text(m):
    out = []
    for d in list(m.decls())[:80]:
        try: out.append("%s = %s" % (d.name(), str(m[d])[:200]))
        except Exception: pass
    return "; ".join(out)[:4000]


def satisfiable_hint(hyps, timeout=3000):
    """vacuity guard: 'unsat' means the hypotheses are contradictory"""
    s = z3.Solver(); s.set("timeout", timeout)
    for h in hyps: s.add(h)
    return str(s.check())


class Contract:
    """name, target: 'module.Qual'; run(c): builds the symbolic input, calls the real function, states obligations via c.*"""
    def __init__(self, name, target, run, covers=(), note=""):
        self.name, self.target, self.run, self.covers, self.note = name, target, run, covers, note


class Case:
    """one symbolic execution of a function under contract"""
    def __init__(self, contract):
        self.c = contract
        self.eng = Engine()
        self.eng.obligations = []
        self.st = St()
        self.eng.prepare(self.st)
        self.results = []
        self.pre_pc = None
        self.posts = []
        self.hints = []
        self.allow = []
        self.assumptions = []
        self.vac = None
        self.cases = []
        self.refusal = None

    # ---- helpers for building inputs
    def fn(self, target):
        """function value of a module-level or class-level function"""
        mod, qual = target.split(".", 1)
        m = source.module(mod)
        parts = qual.split(".")
        if len(parts) == 1:
            v = self.eng.global_name(qual, m)
            return v
        cls = self.eng.global_name(parts[0], m)
        if isinstance(cls, ClassV):
            f = self.eng.find_method(cls, parts[1])
            if f is not None and len(parts) == 2: return f
        node = m.find(qual)
        if node is None: raise Unsupported("%s not found in the source" % target)
        return Fn(node, (), m, qual)

    def assume(self, f): self.st.assume(f)

    def call(self, f, args, kwargs=None):
        st = self.st
        if self.pre_pc is None: self.pre_pc = st.pc
        try:
            r = self.eng.call(st, f, args, kwargs or {})
        except Unsupported as e:
            self.eng.unsupported(st, str(e)); r = Con(None)
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception, RecursionError, AssertionError) as e:
            if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
            self.eng.unsupported(st, "engine limit: %s: %s" % (type(e).__name__, e)); r = Con(None)
        return r

    def content(self, v):
        """the container a value denotes, alternatives merged"""
        if isinstance(v, Ite): return VV.mk_union(v.c, self.content(v.a), self.content(v.b))
        if isinstance(v, (SeqV, IterV)): return v.content
        if isinstance(v, Content): return v
        return self.eng.content(self.st, v)

    def item(self, v, i):
        """component i of a tuple value, alternatives merged"""
        if isinstance(v, Ite): return VV.mk_ite(v.c, self.item(v.a, i), self.item(v.b, i))
        if isinstance(v, Tup): return v.items[i]
        if isinstance(v, Con) and v.v is None or isinstance(v, Sym) and v.t.eq(U.none): return Con(None)
        if isinstance(v, Sym) and v.t.sort() == U: return self.eng.getitem(self.st.fork(), v, Con(i))
        return self.eng.getitem(self.st, v, Con(i))

    def member(self, s, x):
        """x (a term) is in the collection s; None counts as empty"""
        if isinstance(s, Ite): return VV.If(s.c, self.member(s.a, x), self.member(s.b, x))
        if isinstance(s, Con) and s.v is None: return FALSE
        mode, self.eng.eq_mode = self.eng.eq_mode, "structural"
        try: return self.eng.in_(self.st, Sym(x), s)
        finally: self.eng.eq_mode = mode

    def split(self, *conds):
        """every obligation is checked case by case; that the cases are exhaustive is checked as well"""
        self.cases = list(conds)

    def check(self, hyps, goal):
        if not self.cases: return check(hyps, goal)
        t0, back, worst = time.time(), [], None
        for k in self.cases + [Not(Or(self.cases))]:
            st, be, _, d = check(list(hyps) + [k], goal)
            if be not in back: back.append(be)
            if st == "refuted": return st, be, time.time() - t0, d
            if st != "proved" and worst is None: worst = (st, be, d)
        return (worst[0], worst[1], time.time() - t0, worst[2]) if worst else ("proved", "+".join(back), time.time() - t0, "")

    def dead_end(self): return self.st.dead

    def allow_raise(self, cls, cond_fn):
        """exits raising cls are permitted exactly when cond_fn(state) holds"""
        self.allow.append((cls, cond_fn))

    def hint(self, *terms):
        """terms at which quantified facts are instantiated for the obligations"""
        self.hints += list(terms)

    def with_hints(self, fs, extra=()):
        fs, todo = [], list(fs)
        h = self.hints + list(extra)
        if not h: return todo
        while todo:
            f = todo.pop(0)
            neg = z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_forall()
            q = f.arg(0) if neg else f
            if z3.is_quantifier(q) and (neg or not q.is_forall()):
                cs = [fresh_const("sk", q.var_sort(i)) for i in range(q.num_vars())]
                b = z3.substitute_vars(q.body(), *reversed(cs))
                todo.append(Not(b) if neg else b); h = h + cs
            elif z3.is_and(f): todo += f.children()
            else: fs.append(f)
        return fs + instances(fs, h) if h else fs

    def ensure(self, label, f, st=None, hyps=()):
        self.posts.append((label, (st or self.st).pc, f, list(hyps)))

    def never_returns(self, label):
        """the call must end in one of the allowed exceptions"""
        self.refusal = label

    def discharge(self):
        out = []
        nm = self.c.name
        seen = {}
        def add(label, pc, goal, hyps=()):
            n = "%s/%s" % (nm, label)
            k = seen.get(n, 0); seen[n] = k + 1
            if k: n += "#%d" % k
            st, be, secs, d = self.check(self.with_hints(list(self.eng.axioms) + list(pc) + list(hyps)), goal)
            out.append(Obligation(n, st, be, secs, d))
        for x in self.eng.exits:
            if x.kind == "unsupported":
                st, be, secs, d = check(list(self.eng.axioms) + list(x.st.pc), FALSE, timeout=8000, cvc5=False)
                out.append(Obligation("%s/within-reach(%s)" % (nm, str(x.value)[:120]), "proved" if st == "proved" else "unsupported", be, secs, str(x.value)))
            elif x.kind == "raise":
                cls = x.value.cls if isinstance(x.value, Exc) else str(x.value)
                goals = [f(x.st) for c, f in self.allow if c == cls or c == "*"]
                st, be, secs, d = self.check(self.with_hints(list(self.eng.axioms) + list(x.st.pc), x.hints), Or(goals))
                out.append(Obligation("%s/no-%s(%s)" % (nm, cls, x.where), st, be, secs, d))
            else:
                out.append(Obligation("%s/exit-%s" % (nm, x.kind), "unsupported", "engine", 0, ""))
        for label, pc, f in self.eng.obligations: add(label, pc, f)
        for label, pc, f, hyps in self.posts:
            if not (len(pc) and z3.is_false(pc[-1])): add(label, pc, f, hyps)
        if self.refusal:
            st, be, secs, d = self.check(self.with_hints(list(self.eng.axioms) + list(self.st.pc)), FALSE)
            out.append(Obligation("%s/%s" % (nm, self.refusal), st, be, secs, d))
            raises = [x for x in self.eng.exits if x.kind == "raise"]
            if not any(satisfiable_hint(list(self.eng.axioms) + list(x.st.pc)) != "unsat" for x in raises):
                out.append(Obligation(nm + "/vacuity(no refusal)", "vacuous", "z3", 0, "no exceptional exit is reachable"))
        # vacuity: the precondition must be satisfiable, and so must be the path to normal completion if posts exist
        if satisfiable_hint(list(self.eng.axioms) + list(self.pre_pc or ())) == "unsat":
            out.append(Obligation(nm + "/vacuity(precondition)", "vacuous", "z3", 0, "contradictory precondition"))
        live = [pc for _, pc, _, _ in self.posts if not (len(pc) and z3.is_false(pc[-1]))]
        if self.posts and not live:
            out.append(Obligation(nm + "/vacuity(no normal exit)", "vacuous", "engine", 0, "function never returns normally"))
        for pc in live[:1]:
            if satisfiable_hint(list(self.eng.axioms) + list(pc)) == "unsat":
                out.append(Obligation(nm + "/vacuity(return state)", "vacuous", "z3", 0, "return state contradictory"))
        if not out: out.append(Obligation(nm + "/no-obligations", "vacuous", "engine", 0, "no obligations generated"))
        return out


def run_contract(c):
    t0 = time.time()
    case = Case(c)
    obl = []
    try:
        c.run(case)
        obl = case.discharge()
    except Unsupported as e:
        obl = [Obligation(c.name + "/within-reach", "unsupported", "engine", time.time() - t0, str(e))]
    except Exception as e:
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
        obl = [Obligation(c.name + "/within-reach", "unsupported", "engine", time.time() - t0, "%s: %s" % (type(e).__name__, e))]
    return {"contract": c.name, "target": c.target, "note": c.note, "executed": sorted(case.eng.executed), "extern": sorted(case.eng.extern_used),
            "overrides": sorted(case.eng.overrides), "wall": time.time() - t0, "obligations": [o.as_dict() for o in obl]}
