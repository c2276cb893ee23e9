"""Discharging verification conditions.

Back ends, in the order tried: simplification, exact algebra (rational-function
normal form), case splitting on branch conditions, z3, cvc5.  An obligation is
`proved`, `refuted` (with an assignment under which the hypotheses hold and the
goal does not, confirmed by exact or floating evaluation) or `unknown`.
"""
import random
import subprocess
import tempfile
import time
import os
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE
from .algebra import Alg, TooBig

try:
    import z3
except Exception:      # pragma: no cover
    z3 = None


class Result:
    __slots__ = ("status", "backend", "model", "secs", "note")

    def __init__(self, status, backend, model=None, secs=0.0, note=""):
        self.status, self.backend, self.model, self.secs, self.note = status, backend, model, secs, note

    def __repr__(self):
        return "<%s by %s %.2fs %s>" % (self.status, self.backend, self.secs, self.note)


# ------------------------------------------------------------------ z3 bridge
class Z3:
    def __init__(self):
        self.ctx = z3.Context()
        self.memo = {}
        self.extra = []
        self.funs = {}
        self.vars = {}
        self.seen_uf = []

    def sort(self, s):
        c = self.ctx
        if s == "I":
            return z3.IntSort(c)
        if s == "R":
            return z3.RealSort(c)
        if s == "B":
            return z3.BoolSort(c)
        return z3.DeclareSort(s, c)

    def tr(self, t):
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            pend = [a for a in x.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[x.id] = self.tr1(x, [memo[a.id] for a in x.args])
            stack.pop()
        return memo[t.id]

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def both(self, a, b):
        if z3.is_real(a) or z3.is_real(b):
            return self.real(a), self.real(b)
        return a, b

    def tr1(self, x, a):
        op = x.op
        c = self.ctx
        if op == "num":
            if x.sort == "I" and x.val.denominator == 1:
                return z3.IntVal(int(x.val), c)
            return z3.RealVal(str(x.val), c)
        if op == "bool":
            return z3.BoolVal(x.val, c)
        if op == "var":
            v = z3.Const(str(x.val), self.sort(x.sort))
            self.vars[x.val] = v
            return v
        if op == "sconst":
            return z3.Const("str:" + str(x.val), self.sort(x.sort))
        if op == "add":
            p, q = self.both(*a)
            return p + q
        if op == "mul":
            p, q = self.both(*a)
            return p * q
        if op == "div":
            return self.real(a[0]) / self.real(a[1])
        if op == "idiv":
            p, q = a
            r = z3.Int("q!%d" % x.id, c)
            ap, aq = z3.If(p >= 0, p, -p), z3.If(q >= 0, q, -q)
            d = ap / aq
            return z3.If((p >= 0) == (q >= 0), d, -d)
        if op == "imod":
            p, q = a
            ap, aq = z3.If(p >= 0, p, -p), z3.If(q >= 0, q, -q)
            d = ap % aq
            return z3.If(p >= 0, d, -d)
        if op == "ite":
            p, q = a[1], a[2]
            if x.sort in "IR":
                p, q = self.both(p, q)
            return z3.If(a[0], p, q)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "lt":
            p, q = self.both(*a)
            return p < q
        if op == "le":
            p, q = self.both(*a)
            return p <= q
        if op == "eq":
            p, q = a
            if x.args[0].sort in "IR":
                p, q = self.both(p, q)
            return p == q
        if op == "iff":
            return a[0] == a[1]
        if op == "uf":
            key = (x.val, tuple(y.sort for y in x.args), x.sort)
            if key not in self.funs:
                self.funs[key] = z3.Function(str(x.val), *([self.sort(s) for s in key[1]] + [self.sort(x.sort)])) if key[1] else None
            f = self.funs[key]
            r = f(*a) if f is not None else z3.Const(str(x.val), self.sort(x.sort))
            if x.val == "sqrt":
                u = self.real(a[0])
                self.extra.append(r >= 0)
                self.extra.append(z3.Implies(u >= 0, r * r == u))
            elif x.val in ("sin", "cos"):
                self.extra.append(z3.And(r >= -1, r <= 1))
                o = "cos" if x.val == "sin" else "sin"
                k2 = (o,) + key[1:]
                if k2 not in self.funs:
                    self.funs[k2] = z3.Function(o, *([self.sort(s) for s in key[1]] + [self.sort(x.sort)]))
                g = self.funs[k2](*a)
                self.extra.append(r * r + g * g == 1)
            elif x.val == "exp":
                self.extra.append(r > 0)
            return r
        raise ValueError("z3: " + op)


def z3_check(hyps, goal, timeout, axioms=()):
    """('proved'|'refuted'|'unknown', model env or None)"""
    b = Z3()
    s = z3.Solver(ctx=b.ctx)
    s.set("timeout", int(timeout * 1000))
    for h in hyps:
        s.add(b.tr(h))
    for h in axioms:
        s.add(b.tr(h))
    s.add(z3.Not(b.tr(goal)))
    for e in b.extra:
        s.add(e)
    r = s.check()
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        return "refuted", model_env(b, s.model())
    return "unknown", None


def _val(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)


class Model:
    """variables -> numbers, plus values of uninterpreted functions"""

    def __init__(self, env, uf=None):
        self.env = env
        self.uf = uf or (lambda n, a: 0)

    def evaluate(self, t, memo=None):
        return T.evaluate(t, DefaultEnv(self.env), self.uf, memo)


class DefaultEnv(dict):
    def __contains__(self, k):
        return True

    def __missing__(self, k):
        return 0


def model_env(b, m):
    env = {}
    for n, v in b.vars.items():
        try:
            env[n] = _val(m.eval(v, model_completion=True))
        except Exception:
            pass
    tabs = {}
    funs = dict(b.funs)

    def uf(name, args):
        for (n, ss, rs), f in funs.items():
            if n == name and len(ss) == len(args) and f is not None:
                zs = []
                for a, s in zip(args, ss):
                    if s == "I":
                        zs.append(z3.IntVal(int(a), b.ctx))
                    elif s == "R":
                        zs.append(z3.RealVal(str(Fraction(a)), b.ctx))
                    else:
                        return 0
                return _val(m.eval(f(*zs), model_completion=True))
        return 0
    return Model(env, uf)


def to_smt2(hyps, goal, axioms=()):
    b = Z3()
    s = z3.Solver(ctx=b.ctx)
    for h in list(hyps) + list(axioms):
        s.add(b.tr(h))
    s.add(z3.Not(b.tr(goal)))
    for e in b.extra:
        s.add(e)
    return "(set-logic ALL)\n" + s.to_smt2()


def cvc5_check(hyps, goal, timeout, axioms=()):
    txt = to_smt2(hyps, goal, axioms)
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            o = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 5).stdout
        except subprocess.TimeoutExpired:
            return "unknown"
        w = o.strip().split("\n")[0] if o.strip() else ""
        return "proved" if w == "unsat" else ("refuted" if w == "sat" else "unknown")
    finally:
        os.unlink(p)


# ------------------------------------------------------------------ sampling
class RandUF:
    def __init__(self, seed, scale, ranges=None):
        self.seed, self.scale = seed, scale
        self.tab = {}
        self.ranges = ranges or {}

    def __call__(self, name, args):
        k = (name, tuple(args))
        if k not in self.tab:
            r = random.Random("%s|%s|%s" % (self.seed, name, ",".join(map(str, args))))
            if name == "trunc":
                v = int(args[0])
            elif name in ("floor", "ceil"):
                v = getattr(__import__("math"), name)(args[0])
            elif name in self.ranges:
                lo, hi = self.ranges[name]
                v = Fraction(r.randint(int(lo * 1000), int(hi * 1000)), 1000)
            else:
                v = Fraction(r.randint(-900, 900), 100) * self.scale
            self.tab[k] = v
        return self.tab[k]


def sample_refute(hyps, goal, tries, seed=1, ranges=None, tol=1e-9, bias=None):
    """search an assignment with hyps true and goal false"""
    fv = T.free_vars(list(hyps) + [goal])
    rnd = random.Random(seed)
    approx = any(t.op == "uf" and t.val in T._MATH for t in T.subterms(list(hyps) + [goal]))
    for k in range(tries):
        env = {}
        scale = rnd.choice([Fraction(1), Fraction(1), Fraction(1, 10), Fraction(3)])
        for v in fv:
            if ranges and v.val in ranges:
                lo, hi = ranges[v.val]
                if v.sort == "I":
                    env[v.val] = rnd.randint(int(lo), int(hi))
                else:
                    env[v.val] = Fraction(rnd.randint(int(lo * 10000), int(hi * 10000)), 10000)
            elif v.sort == "I":
                env[v.val] = rnd.randint(-2, 9) if rnd.random() < .3 else rnd.randint(0, 6)
            elif v.sort == "B":
                env[v.val] = rnd.random() < .5
            elif v.sort == "R":
                env[v.val] = Fraction(rnd.randint(-900, 900), 100) * scale if rnd.random() > .1 else Fraction(rnd.choice([0, 1, -1, 2]))
            else:
                env[v.val] = rnd.choice(["a", "b"])
        uf = RandUF((seed, k), scale, ranges)
        m = Model(env, uf)
        memo = {}
        try:
            if bias and not bias(env):
                continue
            if not all(m.evaluate(h, memo) for h in hyps):
                continue
            if not holds(m, goal, memo, approx, tol):
                return m
        except (T.EvalError, ZeroDivisionError, OverflowError, TypeError, ValueError):
            continue
    return None


def holds(m, goal, memo, approx, tol):
    if goal.op == "eq" and approx:
        a, b = float(m.evaluate(goal.args[0], memo)), float(m.evaluate(goal.args[1], memo))
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    if goal.op in ("le", "lt") and approx:
        a, b = float(m.evaluate(goal.args[0], memo)), float(m.evaluate(goal.args[1], memo))
        return a <= b + tol * (1 + abs(a) + abs(b))
    if goal.op == "and":
        return all(holds(m, g, memo, approx, tol) for g in goal.args)
    if goal.op == "or":
        return any(holds(m, g, memo, approx, tol) for g in goal.args)
    return m.evaluate(goal, memo)


# ------------------------------------------------------------------ splitting
def goals(goal):
    if goal.op == "and":
        for g in goal.args:
            yield from goals(g)
    else:
        yield goal


def first_split(ts):
    """the condition of some ite (an atom), outermost first"""
    best = None
    seen = set()
    st = list(ts)
    while st:
        t = st.pop(0)
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite":
            return atom_of(t.args[0])
        st.extend(t.args)
    return None


def atom_of(c):
    while c.op in ("and", "or", "not"):
        c = c.args[0]
    return c


class Prover:
    def __init__(self, timeout=10.0, maxcases=4096, seed=1, ranges=None, tries=60, use_cvc5=True):
        self.timeout, self.maxcases, self.seed, self.ranges, self.tries = timeout, maxcases, seed, ranges, tries
        self.stats = {}
        self.use_cvc5 = use_cvc5
        self.queries = 0

    def feasible(self, hyps):
        """False only when z3 shows the hypotheses contradictory"""
        if any(h is FALSE for h in hyps):
            return False
        self.queries += 1
        try:
            r, _ = z3_check(hyps, FALSE, 2.0)
        except Exception:
            return True
        return r != "proved"

    def prove(self, hyps, goal, axioms=()):
        t0 = time.time()
        hyps = [h for h in hyps if h is not TRUE]
        res = None
        worst = Result("proved", "simplification")
        used = set()
        for g in goals(goal):
            r = self.prove1(hyps, g, list(axioms))
            used.add(r.backend)
            if r.status == "refuted":
                worst = r
                break
            if r.status == "unknown" and worst.status == "proved":
                worst = r
        worst.secs = time.time() - t0
        if worst.status == "proved":
            for b in ("cvc5", "z3", "algebra+cases", "algebra", "simplification"):
                if b in used:
                    worst.backend = b
                    break
        return worst

    def prove1(self, hyps, g, axioms):
        if g is TRUE:
            return Result("proved", "simplification")
        if g in hyps or any(h is FALSE for h in hyps):
            return Result("proved", "simplification")
        if g.op == "or":
            # a or b or c : assume the negation of all but the equality disjunct
            main = [x for x in g.args if x.op == "eq"] or [g.args[-1]]
            k = main[0]
            rest = [T.lnot(x) for x in g.args if x is not k]
            h2 = list(hyps)
            for r in rest:
                h2.extend(r.args if r.op == "and" else (r,))
            if k.op == "and":
                worst = None
                for s in k.args:
                    worst = self.prove1(h2, s, axioms)
                    if worst.status != "proved":
                        return worst
                return worst
            return self.prove1(h2, k, axioms)
        if g.op == "eq" and g.args[0].sort in "IR":
            self.cases = 0
            try:
                r = self.eqcases(hyps, g.args[0], g.args[1], axioms)
            except TooBig:
                r = None
            if r is not None:
                return r
        return self.smt(hyps, g, axioms)

    def eqcases(self, hyps, a, b, axioms, depth=0):
        """equality by normal form, splitting on ite conditions.  Returns a
        Result, or None when it should go to the SMT solvers."""
        self.cases += 1
        if self.cases > self.maxcases:
            return None
        # use equalities  var = term  and  var = constant
        sub = {}
        for h in hyps:
            if h.op == "eq":
                x, y = h.args
                for u, v in ((x, y), (y, x)):
                    if u.op in ("var",) and u not in sub and u not in T.free_vars([v]) and not any(w in sub for w in T.free_vars([v])):
                        sub[u] = v
                        break
        if sub:
            a, b = T.subst(a, sub), T.subst(b, sub)
        c = first_split([a, b])
        if c is None:
            al = Alg()
            if al.equal(a, b):
                return Result("proved", "algebra" if depth == 0 else "algebra+cases")
            m = sample_refute(hyps, T.eq(a, b), self.tries, self.seed, self.ranges)
            if m is None:
                return None
            return Result("refuted", "algebra", m)
        hs = set(hyps)
        outcomes = []
        for lit, val in ((c, TRUE), (T.lnot(c), FALSE)):
            if T.lnot(lit) in hs:
                continue
            h2 = hyps if lit in hs else hyps + [lit]
            if lit not in hs and not self.feasible(h2):
                continue
            m = {c: val, T.lnot(c): T.lnot(val)}
            r = self.eqcases(h2, T.subst(a, m), T.subst(b, m), axioms, depth + 1)
            if r is None:
                r = self.smt(h2, T.eq(a, b), axioms)
            if r.status == "refuted":
                return r
            outcomes.append(r)
        for r in outcomes:
            if r.status != "proved":
                return r
        if not outcomes:
            return Result("proved", "z3")
        for r in outcomes:
            if r.backend in ("z3", "cvc5"):
                return r
        return Result("proved", "algebra+cases")

    def smt(self, hyps, g, axioms):
        self.queries += 1
        # congruence of uninterpreted arrays is z3's job
        m = sample_refute(hyps, g, min(self.tries, 30), self.seed, self.ranges)
        if m is not None:
            return Result("refuted", "sampling", m)
        try:
            r, mod = z3_check(hyps, g, self.timeout, axioms)
        except Exception as ex:       # translation problem
            return Result("unknown", "z3", note=str(ex)[:200])
        if r == "proved":
            return Result("proved", "z3")
        if r == "refuted":
            try:
                memo = {}
                approx = any(t.op == "uf" and t.val in T._MATH for t in T.subterms(list(hyps) + [g]))
                if all(mod.evaluate(h, memo) for h in hyps) and not holds(mod, g, memo, approx, 1e-9):
                    return Result("refuted", "z3", mod)
            except Exception:
                pass
            m = sample_refute(hyps, g, self.tries * 5, self.seed + 1, self.ranges)
            if m is not None:
                return Result("refuted", "z3+sampling", m)
            return Result("unknown", "z3", note="z3 reports a model that evaluation does not confirm")
        if self.use_cvc5:
            try:
                if cvc5_check(hyps, g, self.timeout, axioms) == "proved":
                    return Result("proved", "cvc5")
            except Exception:
                pass
        m = sample_refute(hyps, g, self.tries * 5, self.seed + 1, self.ranges)
        if m is not None:
            return Result("refuted", "sampling", m)
        return Result("unknown", "z3", note="solver gave no answer in %.0f s" % self.timeout)
