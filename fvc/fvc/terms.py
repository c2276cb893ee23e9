"""Hash-consed terms: the verification conditions' language.

Sorts: 'I' mathematical integer, 'R' real, 'B' bool, any other string is an
uninterpreted sort.  Machine doubles are read as reals and machine integers as
integers; both readings are listed as assumptions in the evidence files.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(200000)


class Term:
    __slots__ = ("op", "args", "val", "sort", "id", "_h", "nf", "fvc")
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # arithmetic sugar, used by contracts
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return mul(num(-1), self)
    def __pow__(self, n):
        r = num(1)
        for _ in range(n):
            r = mul(r, self)
        return r
    def __le__(self, o): return le(self, lift(o))
    def __lt__(self, o): return lt(self, lift(o))
    def __ge__(self, o): return le(lift(o), self)
    def __gt__(self, o): return lt(lift(o), self)


_tab = {}


def mk(op, args=(), val=None, sort="R"):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
        Term._n += 1
        t.id = Term._n
        t._h = t.id
        t.nf = None
        t.fvc = None
        _tab[key] = t
    return t


def num(v, sort=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return mk("num", (), Fraction(v), sort or "I")
    f = Fraction(v)
    return mk("num", (), f, sort or "R")


def real(v):
    return mk("num", (), Fraction(v), "R")


TRUE = mk("bool", (), True, "B")
FALSE = mk("bool", (), False, "B")


def lift(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return num(v)
    if isinstance(v, (float, Fraction)):
        return real(Fraction(v))
    raise TypeError("lift %r" % (v,))


def var(name, sort="R"):
    return mk("var", (), name, sort)


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def fresh(hint, sort="R"):
    _fresh[0] += 1
    return var("%s!%d" % (hint, _fresh[0]), sort)


def uf(name, args, sort="R"):
    return mk("uf", tuple(args), name, sort)


def isnum(t):
    return t.op == "num"


def _arith_sort(a, b):
    return "R" if (a.sort == "R" or b.sort == "R") else "I"


def b2i(t):
    return ite(t, num(1), num(0)) if t.sort == "B" else t


def add(a, b):
    a, b = b2i(a), b2i(b)
    if isnum(a) and isnum(b):
        return mk("num", (), a.val + b.val, _arith_sort(a, b))
    if isnum(a) and a.val == 0 and (b.sort == "R" or a.sort == "I"):
        return b
    if isnum(b) and b.val == 0 and (a.sort == "R" or b.sort == "I"):
        return a
    if isnum(a):
        a, b = b, a
    # (x + c) + d
    if isnum(b) and a.op == "add" and isnum(a.args[1]):
        return add(a.args[0], add(a.args[1], b))
    return mk("add", (a, b), None, _arith_sort(a, b))


def sub(a, b):
    if a is b and a.sort != "B":
        return mk("num", (), Fraction(0), a.sort)
    return add(a, mul(num(-1), b))


def mul(a, b):
    a, b = b2i(a), b2i(b)
    if isnum(a) and isnum(b):
        return mk("num", (), a.val * b.val, _arith_sort(a, b))
    if isnum(b):
        a, b = b, a
    if isnum(a):
        if a.val == 0:
            return mk("num", (), Fraction(0), _arith_sort(a, b))
        if a.val == 1 and (b.sort == "R" or a.sort == "I"):
            return b
        if b.op == "mul" and isnum(b.args[0]):
            return mul(mul(a, b.args[0]), b.args[1])
        if b.op == "add" and isnum(b.args[1]):
            return add(mul(a, b.args[0]), mul(a, b.args[1]))
    return mk("mul", (a, b), None, _arith_sort(a, b))


def div(a, b):
    """real division"""
    a, b = b2i(a), b2i(b)
    if isnum(b) and b.val != 0:
        if isnum(a):
            return mk("num", (), a.val / b.val, "R")
        return mul(real(1 / b.val), a)
    if isnum(a) and a.val == 0:
        return real(0)
    return mk("div", (a, b), None, "R")


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def idiv(a, b):
    """C integer division, truncating"""
    a, b = b2i(a), b2i(b)
    if isnum(a) and isnum(b) and b.val != 0:
        return num(int(_tdiv(int(a.val), int(b.val))))
    if isnum(b) and b.val == 1:
        return a
    return mk("idiv", (a, b), None, "I")


def imod(a, b):
    a, b = b2i(a), b2i(b)
    if isnum(a) and isnum(b) and b.val != 0:
        x, y = int(a.val), int(b.val)
        return num(int(x - _tdiv(x, y) * y))
    if isnum(b) and b.val == 1:
        return num(0)
    return mk("imod", (a, b), None, "I")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isnum(a) and isnum(b) and a.val == b.val:
        return a if a.sort == "R" else b
    if a.sort == "B" and b.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return lnot(c)
        return lor(land(c, a), land(lnot(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        a = b2i(a)
    if b.sort == "B":
        b = b2i(b)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    s = a.sort if a.sort == b.sort else "R"
    return mk("ite", (c, a, b), None, s)


def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), None, "B")


def land(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y.id in seen:
                continue
            if lnot(y).id in seen:
                return FALSE
            seen.add(y.id)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), None, "B")


def lor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        ys = x.args if x.op == "or" else (x,)
        for y in ys:
            if y.id in seen:
                continue
            if lnot(y).id in seen:
                return TRUE
            seen.add(y.id)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), None, "B")


def implies(a, b):
    return lor(lnot(a), b)


def lt(a, b):
    a, b = b2i(a), b2i(b)
    if isnum(a) and isnum(b):
        return TRUE if a.val < b.val else FALSE
    if a is b:
        return FALSE
    d = _constdiff(a, b)
    if d is not None:
        return TRUE if d < 0 else FALSE
    return mk("lt", (a, b), None, "B")


def le(a, b):
    a, b = b2i(a), b2i(b)
    if isnum(a) and isnum(b):
        return TRUE if a.val <= b.val else FALSE
    if a is b:
        return TRUE
    d = _constdiff(a, b)
    if d is not None:
        return TRUE if d <= 0 else FALSE
    return mk("le", (a, b), None, "B")


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return lnot(b)
        if b is FALSE:
            return lnot(a)
        return mk("iff", (a, b), None, "B")
    a, b = b2i(a), b2i(b)
    if isnum(a) and isnum(b):
        return TRUE if a.val == b.val else FALSE
    if a.sort in "IR":
        d = _constdiff(a, b)
        if d is not None:
            return TRUE if d == 0 else FALSE
    # equality with an ite whose branches are constants
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and isnum(y) and isnum(x.args[1]) and isnum(x.args[2]):
            p = x.args[1].val == y.val
            q = x.args[2].val == y.val
            if p and q:
                return TRUE
            if p:
                return x.args[0]
            if q:
                return lnot(x.args[0])
            return FALSE
    if a.op == "sconst" and b.op == "sconst":
        return TRUE if a.val == b.val else FALSE
    if b.id < a.id:
        a, b = b, a
    return mk("eq", (a, b), None, "B")


def ne(a, b):
    return lnot(eq(a, b))


def linform(t, depth=0):
    """linear form over non-linear atoms: ({id:coef}, const); memoised."""
    if t.fvc is not None:
        return t.fvc
    if t.op == "num":
        r = ({}, t.val)
    elif t.op == "add":
        (m1, c1), (m2, c2) = linform(t.args[0]), linform(t.args[1])
        m = dict(m1)
        for k, v in m2.items():
            w = m.get(k, 0) + v
            if w:
                m[k] = w
            else:
                m.pop(k, None)
        r = (m, c1 + c2)
    elif t.op == "mul" and isnum(t.args[0]):
        m1, c1 = linform(t.args[1])
        k0 = t.args[0].val
        r = ({k: v * k0 for k, v in m1.items()}, c1 * k0)
    else:
        r = ({t.id: Fraction(1)}, Fraction(0))
    if len(r[0]) > 12:
        r = ({t.id: Fraction(1)}, Fraction(0))
    t.fvc = r
    return r


def _constdiff(a, b):
    if a.sort == "B" or b.sort == "B" or a.sort not in "IR" or b.sort not in "IR":
        return None
    m1, c1 = linform(a)
    m2, c2 = linform(b)
    if m1 == m2:
        return c1 - c2
    return None


# -------------------------------------------------------------- real functions
def sqrt(x):
    x = lift(x)
    if isnum(x) and x.val >= 0:
        n, d = x.val.numerator, x.val.denominator
        a, b = math.isqrt(n), math.isqrt(d)
        if a * a == n and b * b == d:
            return real(Fraction(a, b))
    return uf("sqrt", (x,))


def fabs(x):
    x = lift(x)
    if isnum(x):
        return mk("num", (), abs(x.val), x.sort)
    return ite(lt(x, num(0)), -x, x)


def tmin(a, b):
    a, b = lift(a), lift(b)
    return ite(lt(b, a), b, a)


def tmax(a, b):
    a, b = lift(a), lift(b)
    return ite(lt(a, b), b, a)


def trig(name, x):
    x = lift(x)
    if isnum(x) and x.val == 0:
        return real({"sin": 0, "cos": 1, "tan": 0}[name]) if name in ("sin", "cos", "tan") else uf(name, (x,))
    if name == "tan":
        return div(uf("sin", (x,)), uf("cos", (x,)))
    return uf(name, (x,))


def power(a, b):
    a, b = lift(a), lift(b)
    if isnum(b) and b.val.denominator == 1 and abs(b.val) <= 12:
        n = int(b.val)
        r = real(1)
        for _ in range(abs(n)):
            r = mul(r, a)
        return r if n >= 0 else div(real(1), r)
    if isnum(b) and b.val == Fraction(1, 2):
        return sqrt(a)
    return uf("pow", (a, b))


def tsum(xs):
    r = num(0)
    for x in xs:
        r = r + x
    return r


# -------------------------------------------------------------- traversal
def subterms(roots):
    seen = set()
    out = []
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        st.extend(t.args)
    return out


def free_vars(roots):
    return [t for t in subterms(roots) if t.op == "var"]


def rebuild(t, args):
    op = t.op
    if op == "add": return add(*args)
    if op == "mul": return mul(*args)
    if op == "div": return div(*args)
    if op == "idiv": return idiv(*args)
    if op == "imod": return imod(*args)
    if op == "ite": return ite(*args)
    if op == "not": return lnot(*args)
    if op == "and": return land(*args)
    if op == "or": return lor(*args)
    if op == "lt": return lt(*args)
    if op == "le": return le(*args)
    if op == "eq": return eq(*args)
    if op == "iff": return eq(*args)
    if op == "uf":
        if t.val == "sqrt": return sqrt(args[0])
        return mk("uf", args, t.val, t.sort)
    return mk(op, args, t.val, t.sort)


def subst(t, m, memo=None):
    """m: {term: term}; simultaneous substitution of whole subterms"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x in m:
            memo[x.id] = m[x]
            stack.pop()
            continue
        if not x.args:
            memo[x.id] = x
            stack.pop()
            continue
        pend = [a for a in x.args if a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        na = tuple(memo[a.id] for a in x.args)
        memo[x.id] = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x, na)
        stack.pop()
    return memo[t.id]


def show(t, depth=6):
    if t.op == "num":
        return str(t.val)
    if t.op in ("var", "bool", "sconst"):
        return str(t.val)
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in t.args]
    if t.op == "uf":
        return "%s(%s)" % (t.val, ",".join(a))
    sym = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "le": " <= ", "eq": " == ", "and": " && ", "or": " || ", "iff": " <=> ", "idiv": " div ", "imod": " mod "}
    if t.op in sym:
        return "(" + sym[t.op].join(a) + ")"
    return "%s(%s)" % (t.op, ",".join(a))


# -------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, ufenv=None, memo=None):
    """numeric evaluation; env: {var name: number}; ufenv(name,args)->number"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op == "ite":
            c = x.args[0]
            if c.id not in memo:
                stack.append(c)
                continue
            b = x.args[1] if memo[c.id] else x.args[2]
            if b.id not in memo:
                stack.append(b)
                continue
            memo[x.id] = memo[b.id]
            stack.pop()
            continue
        pend = [a for a in x.args if a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        a = [memo[y.id] for y in x.args]
        memo[x.id] = _ev1(x, a, env, ufenv)
        stack.pop()
    return memo[t.id]


_MATH = {"sqrt": lambda x: math.sqrt(x), "sin": math.sin, "cos": math.cos, "tan": math.tan, "acos": math.acos,
         "asin": math.asin, "atan": math.atan, "atan2": math.atan2, "exp": math.exp, "log": math.log, "pow": lambda a, b: float(a) ** float(b),
         "tanh": math.tanh, "floor": math.floor, "ceil": math.ceil, "cosh": math.cosh, "sinh": math.sinh, "log10": math.log10}


def _ev1(x, a, env, ufenv):
    op = x.op
    if op == "num":
        return int(x.val) if (x.sort == "I" or x.val.denominator == 1 and x.sort == "I") else x.val
    if op == "bool":
        return x.val
    if op == "var":
        if x.val in env:
            return env[x.val]
        raise EvalError("no value for " + str(x.val))
    if op == "add": return a[0] + a[1]
    if op == "mul": return a[0] * a[1]
    if op == "div":
        if a[1] == 0:
            raise EvalError("division by zero")
        if isinstance(a[0], int) and isinstance(a[1], int):
            return Fraction(a[0], a[1])
        return a[0] / a[1]
    if op == "idiv":
        if a[1] == 0:
            raise EvalError("idiv by zero")
        return _tdiv(a[0], a[1])
    if op == "imod":
        if a[1] == 0:
            raise EvalError("imod by zero")
        return a[0] - _tdiv(a[0], a[1]) * a[1]
    if op == "lt": return a[0] < a[1]
    if op == "le": return a[0] <= a[1]
    if op in ("eq", "iff"): return a[0] == a[1]
    if op == "not": return not a[0]
    if op == "and": return all(a)
    if op == "or": return any(a)
    if op == "uf":
        f = _MATH.get(x.val)
        if f and not (ufenv and x.val in getattr(ufenv, "override", ())):
            try:
                return f(*[float(v) for v in a])
            except (ValueError, OverflowError):
                raise EvalError("domain " + x.val)
        if ufenv:
            v = ufenv(x.val, tuple(a))
            if x.sort == "B" and not isinstance(v, bool):
                return v > 0
            if x.sort == "I" and not isinstance(v, int):
                return math.floor(v)
            return v
        raise EvalError("uf " + x.val)
    if op == "sconst":
        return x.val
    raise EvalError("op " + op)
