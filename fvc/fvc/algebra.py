"""Exact polynomial / rational-function arithmetic over the rationals: the
back end that discharges algebraic identities.  A polynomial is a dict from
monomials (sorted tuples of (atom id, exponent)) to Fractions."""
from fractions import Fraction
from . import terms as T


class TooBig(Exception):
    pass


LIMIT = 60000


def padd(p, q, k=1):
    if len(p) < len(q) and k == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            out.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Alg:
    """normal forms relative to a set of rewrite facts:
       sqrt(u)^2 -> u, sin(x)^2 -> 1 - cos(x)^2."""

    def __init__(self):
        self.atoms = {}      # id -> Term
        self.canon = {}
        self.sq = {}         # atom id -> (rational function of its square) or None
        self.memo = {}
        self.used_sqrt = set()
        self.work = 0

    def atom(self, t):
        if t.op == "uf" and t.val in T._MATH and t.id not in self.atoms:
            # congruence: equal arguments give one atom
            try:
                k = (t.val,) + tuple(tuple(frozenset(p.items()) for p in self.rf(a)) for a in t.args)
                c = self.canon.setdefault(k, t.id)
                if c != t.id and c in self.atoms:
                    return {((c, 1),): Fraction(1)}
            except TooBig:
                pass
        if t.id not in self.atoms:
            self.atoms[t.id] = t
            if t.op == "uf" and t.val == "sin":
                c = T.uf("cos", t.args)
                self.atoms[c.id] = c
                self.sq[t.id] = ({(): Fraction(1), ((c.id, 2),): Fraction(-1)}, {(): Fraction(1)})
            elif t.op == "uf" and t.val == "sqrt":
                n, d = self.rf(t.args[0])
                if len(d) == 1 and () in d:
                    self.sq[t.id] = ({m: c / d[()] for m, c in n.items()}, {(): Fraction(1)})
                    self.used_sqrt.add(t)
        return {((t.id, 1),): Fraction(1)}

    def reduce_sq(self, p):
        while True:
            hit = None
            for m in p:
                for (a, e) in m:
                    if e >= 2 and a in self.sq:
                        hit = a
                        break
                if hit:
                    break
            if not hit:
                return p
            rn = self.sq[hit][0]
            out = {}
            pw = {0: {(): Fraction(1)}}
            groups = {}
            for m, c in p.items():
                e = 0
                rest = []
                for (a, k) in m:
                    if a == hit:
                        e = k
                    else:
                        rest.append((a, k))
                if e >= 2:
                    base = tuple(rest) if e % 2 == 0 else tuple(sorted(rest + [(hit, 1)]))
                    g = groups.setdefault(e // 2, {})
                    g[base] = g.get(base, 0) + c
                else:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
            for e, g in sorted(groups.items()):
                k = max(pw)
                while k < e:
                    pw[k + 1] = self.pmul0(pw[k], rn)
                    k += 1
                out = padd(out, self.pmul0(g, pw[e]))
            p = out

    def pmul0(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        self.work += len(p) * len(q)
        if self.work > 60_000_000 or len(p) * len(q) > 8_000_000:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def pmul(self, p, q):
        return self.reduce_sq(self.pmul0(p, q)) if self.sq else self.pmul0(p, q)

    def rf(self, t):
        """rational function (num, den) of a term"""
        stack = [t]
        memo = self.memo
        one = {(): Fraction(1)}
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op in ("add", "mul", "div"):
                pend = [a for a in x.args if a.id not in memo]
                if pend:
                    stack.extend(pend)
                    continue
                (n1, d1), (n2, d2) = memo[x.args[0].id], memo[x.args[1].id]
                if x.op == "mul":
                    r = self.norm(self.pmul(n1, n2), self.pmul(d1, d2))
                elif x.op == "div":
                    r = self.norm(self.pmul(n1, d2), self.pmul(d1, n2))
                else:
                    if d1 == d2:
                        r = (padd(n1, n2), d1)
                    else:
                        r = self.addrf(n1, d1, n2, d2)
                    if not r[0]:
                        r = ({}, one)
                memo[x.id] = r
            elif x.op == "num":
                memo[x.id] = ({(): x.val} if x.val else {}, one)
            else:
                memo[x.id] = (self.atom(x), one)
            stack.pop()
        return memo[t.id]

    def addrf(self, n1, d1, n2, d2):
        # common monomial-denominator shortcut
        if len(d1) == 1 and len(d2) == 1:
            (m1, c1), = d1.items()
            (m2, c2), = d2.items()
            e1, e2 = dict(m1), dict(m2)
            l = {a: max(e1.get(a, 0), e2.get(a, 0)) for a in set(e1) | set(e2)}
            f1 = tuple(sorted((a, l[a] - e1.get(a, 0)) for a in l if l[a] > e1.get(a, 0)))
            f2 = tuple(sorted((a, l[a] - e2.get(a, 0)) for a in l if l[a] > e2.get(a, 0)))
            p = padd(self.pmul(n1, {f1: 1 / c1}), self.pmul(n2, {f2: 1 / c2}))
            return p, {tuple(sorted(l.items())): Fraction(1)}
        q = self.pdivexact(d1, d2)
        if q is not None:
            return padd(n1, self.pmul(n2, q)), d1
        q = self.pdivexact(d2, d1)
        if q is not None:
            return padd(self.pmul(n1, q), n2), d2
        return padd(self.pmul(n1, d2), self.pmul(n2, d1)), self.pmul(d1, d2)

    def pdivexact(self, p, q):
        """p / q if q divides p by (short) multivariate division, else None"""
        if len(q) > 40 or len(p) > 4000:
            return None
        if len(q) == 1:
            (m, c), = q.items()
            out = {}
            e = dict(m)
            for pm, pc in p.items():
                d = dict(pm)
                for a, k in e.items():
                    if d.get(a, 0) < k:
                        return None
                    d[a] -= k
                out[tuple(sorted((a, k) for a, k in d.items() if k))] = pc / c
            return out
        def lead(x):
            return max(x, key=lambda m: (sum(e for _, e in m), m))
        lq = lead(q)
        cq = q[lq]
        rem = dict(p)
        out = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 400:
                return None
            lr = lead(rem)
            d = dict(lr)
            for a, k in lq:
                if d.get(a, 0) < k:
                    return None
                d[a] -= k
            m = tuple(sorted((a, k) for a, k in d.items() if k))
            c = rem[lr] / cq
            out[m] = out.get(m, 0) + c
            rem = padd(rem, self.pmul0({m: c}, q), -1)
        return out

    def norm(self, n, d):
        one = {(): Fraction(1)}
        if not n:
            return ({}, one)
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
            if not m:
                return (n, one)
            # cancel the common monomial
            com = dict(m)
            for k in n:
                e = dict(k)
                for a in list(com):
                    com[a] = min(com[a], e.get(a, 0))
                    if not com[a]:
                        del com[a]
                if not com:
                    break
            if com:
                def dv(k):
                    e = dict(k)
                    for a, x in com.items():
                        e[a] -= x
                    return tuple(sorted((a, x) for a, x in e.items() if x))
                n = {dv(k): v for k, v in n.items()}
                m = dv(m)
            return (n, {m: Fraction(1)} if m else one)
        if n == d:
            return (one, one)
        q = self.pdivexact(n, d)
        if q is not None:
            return (q, one)
        return (n, d)

    def equal(self, a, b):
        """True / False as rational functions (False: not identical)"""
        (n1, d1), (n2, d2) = self.rf(a), self.rf(b)
        if d1 == d2:
            diff = padd(n1, n2, -1)
        else:
            diff = padd(self.pmul(n1, d2), self.pmul(n2, d1), -1)
        return not self.reduce_sq(diff) if self.sq else not diff

    def poly_to_term(self, p):
        r = T.num(0)
        for m, c in p.items():
            t = T.num(c) if c.denominator == 1 else T.real(c)
            for a, e in m:
                for _ in range(e):
                    t = T.mul(t, self.atoms[a])
            r = T.add(r, t)
        return r

    def denoms(self):
        return [d for (n, d) in self.memo.values() if not (len(d) == 1 and () in d)]
