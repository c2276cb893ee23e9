"""oracles for element geometry, written from the definitions"""
from fractions import Fraction
from fvc import terms as T
from fvc.terms import real

XI = [(a, b, c) for c in (-1, 1) for b in (-1, 1) for a in (-1, 1)]  # tensor order: i fastest


def det3(m):
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])


_coef = None


def vol_coefs():
    """V = sum c[a,b,g] x_a y_b z_g : integral of the Jacobian of the trilinear map,
    by Simpson's rule (exact: the integrand has degree at most 3 in each variable)"""
    global _coef
    if _coef is None:
        c = {}
        for p, wp in ((-1, 1), (0, 4), (1, 1)):
            for q, wq in ((-1, 1), (0, 4), (1, 1)):
                for r, wr in ((-1, 1), (0, 4), (1, 1)):
                    w = Fraction(wp * wq * wr, 27)
                    g = []
                    for (a, b, d) in XI:
                        g.append((Fraction(a * (1 + b * q) * (1 + d * r), 8), Fraction(b * (1 + a * p) * (1 + d * r), 8), Fraction(d * (1 + a * p) * (1 + b * q), 8)))
                    for i in range(8):
                        for j in range(8):
                            for k in range(8):
                                v = det3([g[i], g[j], g[k]])
                                if v:
                                    c[i, j, k] = c.get((i, j, k), 0) + w * v
        _coef = {k: v for k, v in c.items() if v}
    return _coef


def hexvol(X):
    """X[node][dim] terms"""
    return T.tsum([real(v) * X[i][0] * X[j][1] * X[k][2] for (i, j, k), v in vol_coefs().items()])


def hexgrad(X, n, d):
    """derivative of the volume with respect to coordinate d of node n"""
    s = []
    for (i, j, k), v in vol_coefs().items():
        ix = (i, j, k)
        if ix[d] == n:
            t = real(v)
            for m in range(3):
                if m != d:
                    t = t * X[ix[m]][m]
            s.append(t)
    return T.tsum(s)


def quadarea(X):
    return T.tsum([X[i][0] * X[(i + 1) % 4][1] - X[(i + 1) % 4][0] * X[i][1] for i in range(4)]) / 2


def quadgrad(X, n, d):
    a, b = X[(n + 1) % 4], X[(n - 1) % 4]
    return (a[1] - b[1]) / 2 if d == 0 else (b[0] - a[0]) / 2


def rzvol(X):
    """integral of y over the quadrilateral (volume per radian of revolution about y = 0)"""
    return T.tsum([(X[i][1] + X[(i + 1) % 4][1]) * (X[i][0] * X[(i + 1) % 4][1] - X[(i + 1) % 4][0] * X[i][1]) for i in range(4)]) / 6


# ---- contracts of the geometry functions (proved in C11), for their callers
def _args(x, st, args, env):
    return lambda k: x.read(st, x.lval(args[k], st, env), x.tu.strip(args[k]["t"]))


def _coords(x, st, crd, nod, n, d):
    from props.multi import I, R
    return [[x.aread(st, crd, (x.read(st, x.elem(nod, [T.num(k)], st, {}, {}), I), T.num(i)), (), R) for i in range(d)] for k in range(n)]


def install(x, opaque=False):
    """callers see the contract, not the body.  opaque: the normals are unknown
    numbers that sum to zero over the corners"""
    from props.multi import R
    from fvc.execu import Opaque

    def bmat(n, d, grad):
        def c(x, st, thislv, args, env, e):
            get = _args(x, st, args, env)
            B, crd, nod = get(0), get(2), get(3)
            X = _coords(x, st, crd, nod, n, d)
            for i in range(n):
                for k in range(d):
                    x.write(st, x.elem(B, [T.num(i), T.num(k)], st, {}, {}), R, grad(X, i, k))
            return Opaque("void")
        return c

    def bopq(n, d):
        def c(x, st, thislv, args, env, e):
            get = _args(x, st, args, env)
            B, el = get(0), x.ev(args[1], st, env)
            b = [[T.uf("normal", (el, T.num(i), T.num(k)), "R") for k in range(d)] for i in range(n - 1)]
            b.append([T.real(0) - T.tsum([b[i][k] for i in range(n - 1)]) for k in range(d)])
            for i in range(n):
                for k in range(d):
                    x.write(st, x.elem(B, [T.num(i), T.num(k)], st, {}, {}), R, b[i][k])
            return Opaque("void")
        return c

    def area(x, st, thislv, args, env, e):
        get = _args(x, st, args, env)
        if opaque:
            return T.uf("area", (x.ev(args[0], st, env),), "R")
        return quadarea(_coords(x, st, get(1), get(2), 4, 2))

    def weights(x, st, thislv, args, env, e):
        get = _args(x, st, args, env)
        W, el = get(0), x.ev(args[1], st, env)
        for i in range(4):
            x.write(st, x.elem(W, [T.num(i)], st, {}, {}), R, T.uf("corner_area", (el, T.num(i)), "R"))
        return Opaque("void")
    x.contracts["geometry::get_bmatrix"] = bopq(8, 3) if opaque else bmat(8, 3, hexgrad)
    x.contracts["geometry::get_bmatrix2D"] = bopq(4, 2) if opaque else bmat(4, 2, quadgrad)
    x.contracts["geometry::get_area_quad"] = area
    x.contracts["geometry::get_area_weights2D"] = weights
    x.assumptions.add("callers use the contracts of the geometry functions (discharged by C11)")
