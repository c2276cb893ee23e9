"""C16 artificial viscosity"""
from props.multi import *
from fvc.loops import Acc
from fvc.cuts import Cuts

NAMES = "nodes pars velgrad eroded vel den sspd force normal nbrs num_nbrs vol fuzz small elem point mat".split()
HEX = [[1, 2, 4], [0, 3, 5], [0, 3, 6], [2, 1, 7], [6, 5, 0], [4, 7, 1], [4, 7, 2], [6, 5, 3]]
QUAD = [[1, 3], [0, 2], [1, 3], [2, 0]]
MODELS = [("MARS", "MARSDissipationModel", 8, 3, False), ("directional MARS", "DirMARSDissipationModel", 8, 3, True), ("MARS RZ", "MARSRZDissipationModel", 4, 2, False), ("directional MARS RZ", "DirMARSRZDissipationModel", 4, 2, True)]


class MinLoop(Acc):
    def __init__(self, ratio):
        Acc.__init__(self)
        self.ratio, self.ok = ratio, []
        self.on_min = self.minimum

    def minimum(self, x, key, a, old, new, kv, lo, hi, pc):
        r = self.ratio(kv)
        if T.eq(lo, num(0)) is TRUE and x.prover_check(pc, T.eq(new, T.tmin(r, a))):
            self.ok.append((old, hi))
            return T.uf("smallest", (old, hi), "R")
        return None


def run(ck):
    def unit(u, lab, ns, n, dims, directional):
        tu = ck.tu(os.path.join(VERIF, "fvc/tu/visc.cpp"), INCS)
        x = Executor(tu)
        st = State()
        f = tu.find(ns + "::calc_dissipation")
        args, a = mk_args(x, st, f, NAMES)
        e, sm, fz = T.var("elem", "I"), a["small"], a["fuzz"]
        args[NAMES.index("elem")] = e
        conn = MArr("conn", 0, 0)
        fo, no = arr_in(x, st, "f0_", n * dims), arr_in(x, st, "n_", n * dims)
        st.store[args[0].path] = nodeview(x, st, conn, e, n)
        for nm, p, dm in (("force", fo, (n, dims)), ("normal", no, (n, dims))):
            st.store[args[NAMES.index(nm)].path] = ViewV(p, tuple(num(k) for k in dm), 0, 0)
        vF, vN, vG = (st.store[args[NAMES.index(nm)].path] for nm in ("force", "normal", "nodes"))
        s0 = st.copy()
        node = [x.read(s0, x.elem(vG, [num(k)], s0, {}, {}), I) for k in range(n)]
        gr = lambda el, i, j: rd(x, s0, a["velgrad"], (el, i, j))
        div = gr(e, 0, 0) + gr(e, 1, 1) + gr(e, 2, 2)

        def ratio(k):
            nb = rd(x, s0, a["nbrs"], (e, k), I)
            return T.real("0.9") * (gr(nb, 0, 0) + gr(nb, 1, 1) + gr(nb, 2, 2) + sm) / (div + sm)
        ml = MinLoop(ratio)
        x.loops["*"] = ml
        call_fn(x, f, args, st)
        u.shape("the smallest ratio over the element's neighbours is taken", len(ml.ok) == 1, "induction", note="%d" % len(ml.ok))
        nn = rd(x, s0, a["num_nbrs"], (e,), I)
        u.prove("every neighbour is visited and the ratio starts from one", [], T.land(T.eq(ml.ok[0][1], nn), T.eq(ml.ok[0][0], T.real(1))), x)
        rmin = T.uf("smallest", ml.ok[0], "R")
        V = [[rd(x, s0, a["vel"], (node[k], d)) for d in range(dims)] for k in range(n)]
        N = [[vget(x, s0, vN, (k, d)) for d in range(dims)] for k in range(n)]
        q1, q1ex, q2, q2ex, floor, cfloor = (rd(x, s0, a["pars"], (a["mat"], enum(tu, "artificialViscosity::" + q))) for q in ("q1", "q1ex", "q2", "q2ex", "phiFloor", "phiCurlFloor"))
        den, ss = rd(x, s0, a["den"], (a["mat"], a["point"])), rd(x, s0, a["sspd"], (a["mat"], a["point"]))
        rt = lambda q: T.sqrt(T.tsum([c * c for c in q]))
        mean = [T.tsum([T.real(Fraction(1, n)) * V[k][d] for k in range(n)]) for d in range(dims)]
        for comp in (True, False):
            hyp0 = [T.lt(div, T.real(0)) if comp else T.le(T.real(0), div), T.lt(T.real(0), fz), T.ne(div + sm, T.real(0))]
            lab2 = "compression: " if comp else "expansion: "
            A, B = (q1, q2) if comp else (q1ex, q2ex)
            cu = Cuts()
            cu.assume(T.lt(div, T.real(0)), comp)
            rel = [[V[k][d] - mean[d] for d in range(dims)] for k in range(n)]
            curl = [gr(e, 2, 1) - gr(e, 1, 2), gr(e, 0, 2) - gr(e, 2, 0), gr(e, 1, 0) - gr(e, 0, 1)] if dims == 3 else None
            roots = [rt(rel[k]) for k in range(n)] + [rt(N[k]) for k in range(n)] + ([rt(curl)] if dims == 3 else [])
            cv = cu.add(roots, ("sqrt",), "root")
            W, AR = cv[:n], cv[n:2 * n]
            mcurl = cv[2 * n] if dims == 3 else T.fabs(gr(e, 1, 0) - gr(e, 0, 1))
            if directional:
                tab = HEX if dims == 3 else QUAD
                dirs = [T.ite(T.lt(sm, W[k]), rel[k][d] / W[k], N[k][d] / AR[k]) for k in range(n) for d in range(dims)]
                Dv = cu.add(dirs, ("ite",), "direction")
                prj = [T.fabs(T.tsum([Dv[k * dims + d] * (T.real("0.5") * (N[j][d] - N[k][d])) for d in range(dims)])) for k in range(n) for j in tab[k]]
                Pv = cu.add(prj, ("ite",), "projection")
                SA = [T.tsum(Pv[dims * k:dims * (k + 1)]) for k in range(n)]
            else:
                SA = AR
            mu = [den * (A * ss + B * W[k]) * SA[k] for k in range(n)]
            length, C = (T.power(a["vol"], T.real(Fraction(1, 3))), 1) if dims == 3 else (T.sqrt(a["vol"]), 4)
            ad = (T.real(0) - div) if comp else div
            alpha = T.tmin(T.real(1), T.real(20) * length * ad / (ss + fz))
            lim = T.tmax(T.tmin(T.real(1), T.real(C) * ad / (mcurl + fz)), cfloor)
            phi = T.tmax(floor, T.tmin(alpha * (T.real(1) - T.tmax(T.real(0), rmin)), lim))
            compare(u, x, st, s0, lab2, hyp0, n, dims, vF, V, mu, phi, fz, cu)
        u.obligations(x)
    for row in MODELS:
        ck.unit("viscosity " + row[0], lambda u, row=row: unit(u, *row))

    def lemmas(u):
        for n in (4, 8):
            mu, v, phi = [T.var("mu%d" % k) for k in range(n)], [T.var("v%d" % k) for k in range(n)], T.var("phi")
            S = T.tsum(mu)
            vs = T.tsum([m * q for m, q in zip(mu, v)]) / S
            f = [phi * m * (vs - q) for m, q in zip(mu, v)]
            h = [T.lt(T.real(0), S)]
            u.prove("lemma: the forces of %d corners sum to zero" % n, h, T.eq(T.tsum(f), T.real(0)))
            u.prove("lemma: their power is minus the impedance-weighted spread of the velocities (%d corners)" % n, h, T.eq(T.tsum([a * b for a, b in zip(f, v)]), T.real(0) - phi * T.tsum([m * (q - vs) * (q - vs) for m, q in zip(mu, v)])))
            c = T.var("c")
            u.prove("lemma: a common velocity gives no force (%d corners)" % n, h, T.eq(T.subst(f[0], {q: c for q in v}), T.real(0)))
        fl, al, r, lim = (T.var(q) for q in ("floor", "alpha", "r", "limit"))
        phi = T.tmax(fl, T.tmin(al * (T.real(1) - T.tmax(T.real(0), r)), lim))
        b = [T.le(T.real(0), q) for q in (fl, al, lim)] + [T.le(fl, T.real(1)), T.le(al, T.real(1)), T.le(r, T.real(1))]
        u.prove("lemma: the limiter lies between its floor and one", b, T.land(T.le(fl, phi), T.le(phi, T.real(1))))
    ck.unit("conservation lemmas", lemmas)

    def none(u):
        tu = ck.tu(os.path.join(VERIF, "fvc/tu/visc.cpp"), INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("NoDissipationModel::calc_dissipation")
        args, a = mk_args(x, st, f, NAMES)
        fo = arr_in(x, st, "f0_", 24)
        v = ViewV(fo, (num(8), num(3)), 0, 0)
        st.store[args[7].path] = v
        call_fn(x, f, args, st)
        for k in range(24):
            u.prove("no viscosity: corner force %d unchanged" % k, [], T.eq(vget(x, st, v, (k // 3, k % 3)), vget(x, State(), v, (k // 3, k % 3))), x)
        u.obligations(x)
    ck.unit("no viscosity", none)
    hydro_harness(ck, "C16", ["common/src/geometry_new.cpp"], 20000 if ck.tier == "quick" else 2000000, "random elements, velocities, gradients and 0 to 6 neighbours", flags=("-O2", "-g"), harness="visc.cpp")


def compare(u, x, st, s0, lab, hyp0, n, dims, vF, V, mu, phi, fz, cu):
    """cut the impedance total, then the limiter, and compare what is left"""
    S = T.tsum(mu)
    seen = {}
    for act in (True, False):
        c2 = Cuts()
        c2.steps = list(cu.steps)
        c2.n = 1000
        c2.assume(T.lt(fz, S), act)
        PHI = T.var("phi")
        for k in range(n):
            for d in range(dims):
                got = c2.apply(vget(x, st, vF, (k, d)) - vget(x, s0, vF, (k, d)))
                m = {}
                for q in tops(got):
                    if q not in seen:
                        r = u.prove("%sthe limiter (form %d)" % (lab, len(seen)), hyp0, T.eq(q, phi), x)
                        seen[q] = r.status == "proved"
                    if seen[q]:
                        m[q] = PHI
                got = T.subst(got, m)
                vs = T.tsum([mu[c] * V[c][d] for c in range(n)]) / S if act else T.real(0)
                u.prove("%s%s corner %d direction %d" % (lab, "force" if act else "vanishing impedance:", k, d), hyp0 + ([T.ne(S, T.real(0))] if act else []), T.eq(got, PHI * mu[k] * (vs - V[k][d])), x)


def tops(t):
    """maximal conditional subterms"""
    out, seen, stack = [], set(), [t]
    while stack:
        q = stack.pop()
        if q.id in seen:
            continue
        seen.add(q.id)
        if q.op == "ite" and q.sort == "R":
            out.append(q)
        else:
            stack.extend(q.args)
    return out
