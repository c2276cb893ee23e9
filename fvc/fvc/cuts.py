"""Cutting equal subterms: a subterm of the code proved equal to a subterm of the
contract is replaced on both sides by one new variable.  Whatever is proved about
the result for all values of the variable holds for the original terms."""
from . import terms as T
from .algebra import Alg


def same(a, b, memo=None):
    """equal as rational functions, looking through equal conditionals"""
    if a is b:
        return True
    if a.sort != b.sort:
        return False
    if a.op == "ite" and b.op == "ite":
        if same(a.args[0], b.args[0]):
            return same(a.args[1], b.args[1]) and same(a.args[2], b.args[2])
        n = T.lnot(b.args[0])
        return same(a.args[0], n) and same(a.args[1], b.args[2]) and same(a.args[2], b.args[1])
    if a.op in ("lt", "le") and b.op == a.op:
        return same(T.sub(a.args[1], a.args[0]), T.sub(b.args[1], b.args[0]))
    if a.op == "not" and b.op == "not":
        return same(a.args[0], b.args[0])
    if a.op == "uf" and b.op == "uf":
        if a.val == b.val and len(a.args) == len(b.args) and all(same(p, q) for p, q in zip(a.args, b.args)):
            return True
        return False
    if a.sort not in ("R", "I") or "ite" in (a.op, b.op):
        return False
    try:
        return Alg().equal(a, b)
    except Exception:
        return False


class Cuts:
    """pairs (contract subterm -> variable), applied in the order they are added"""

    def __init__(self):
        self.steps = []
        self.n = 0

    def apply(self, t):
        for st in self.steps:
            t = st(t)
        return t

    def add(self, specs, ops, prefix="cut"):
        """specs: contract terms (already reduced by the earlier cuts); any subterm with an operator in `ops`
        equal to one of them becomes its variable.  Returns the variables."""
        vs = []
        for s in specs:
            for q, v in zip(specs, vs):
                if q is s or same(q, s):
                    vs.append(v)
                    break
            else:
                self.n += 1
                vs.append(T.var("%s%d" % (prefix, self.n), s.sort))
        cache = {}

        def step(t):
            m = {}
            for q in T.subterms([t]):
                if (q.op if q.op != "uf" else q.val) not in ops and q.op not in ops:
                    continue
                if q not in cache:
                    cache[q] = None
                    for s, v in zip(specs, vs):
                        if same(q, s):
                            cache[q] = v
                            break
                if cache[q] is not None:
                    m[q] = cache[q]
            return T.subst(t, m) if m else t
        self.steps.append(step)
        return vs

    def assume(self, cond, value=True):
        """a condition whose value is a hypothesis"""
        def step(t):
            m = {}
            for q in T.subterms([t]):
                if q.sort == "B" and q.op in ("lt", "le", "eq", "not", "var", "uf"):
                    if same(q, cond):
                        m[q] = T.TRUE if value else T.FALSE
                    elif same(q, T.lnot(cond)):
                        m[q] = T.FALSE if value else T.TRUE
            return T.subst(t, m) if m else t
        self.steps.append(step)
