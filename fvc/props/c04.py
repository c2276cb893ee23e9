"""C04 incremental crystal reorientation"""
from fvc.check import *
from props.micro import *


def o(i, j):
    return (i - 1) + 3 * (j - 1)


def run(ck):
    for label, app in groups(ck, "orient.cpp"):
        def setup(app):
            tu = ck.tu(d(app) + "/orient.cpp", [d(app)])
            x = Executor(tu)
            st = State()
            a, c = arr_in(x, st, "a", 9), arr_in(x, st, "c", 9)
            call_fn(x, tu.find("orient"), [a, c], st)
            A0 = {(i, j): T.var("a[%d]" % o(i, j)) for i in R3 for j in R3}
            A1 = {(i, j): get(x, st, a, o(i, j)) for i in R3 for j in R3}
            return tu, x, st, A0, A1, c

        def rotation(A1, A0):
            """the (linear) operator applied to a: R(i,k) = d A1(i,1)/d a(k,1)"""
            R = {}
            for i in R3:
                for k in R3:
                    R[i, k] = T.subst(A1[i, 1], {A0[m, 1]: T.real(1 if m == k else 0) for m in R3})
            return R

        def u_orth(u, app=app):
            tu, x, st, A0, A1, c = setup(app)
            R = rotation(A1, A0)
            for i in R3:
                for j in R3:
                    u.prove("new orientation is R * old (%d,%d)" % (i, j), st.pc, T.eq(A1[i, j], T.tsum([R[i, k] * A0[k, j] for k in R3])), x)
            for i in R3:
                for j in R3:
                    u.prove("R R^T = I for every spin (%d,%d)" % (i, j), st.pc, T.eq(T.tsum([R[i, k] * R[j, k] for k in R3]), T.real(1 if i == j else 0)), x)
            for k in range(9):
                u.prove("spin increment unchanged", st.pc, T.eq(get(x, st, c, k), T.var("c[%d]" % k)), x)
            u.obligations(x)
        ck.unit("orthogonality " + label, u_orth)

        def u_det(u, app=app):
            tu, x, st, A0, A1, c = setup(app)
            A = rotation(A1, A0)
            det = A[1, 1] * (A[2, 2] * A[3, 3] - A[2, 3] * A[3, 2]) - A[1, 2] * (A[2, 1] * A[3, 3] - A[2, 3] * A[3, 1]) + A[1, 3] * (A[2, 1] * A[3, 2] - A[2, 2] * A[3, 1])
            u.prove("det R = 1 for every spin", st.pc, T.eq(det, T.real(1)), x)
        ck.unit("determinant " + label, u_det)

        def u_rod(u, app=app):
            tu, x, st, A0, A1, c = setup(app)
            R = rotation(A1, A0)
            v = [T.var("c[%d]" % o(3, 2)), T.var("c[%d]" % o(1, 3)), T.var("c[%d]" % o(2, 1))]
            n = T.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
            hs, hc = T.trig("sin", n / 2), T.trig("cos", n / 2)
            sn, cs = 2 * hs * hc, hc * hc - hs * hs           # sin n, cos n
            K = {(3, 2): v[0], (2, 3): -v[0], (1, 3): v[1], (3, 1): -v[1], (2, 1): v[2], (1, 2): -v[2], (1, 1): T.real(0), (2, 2): T.real(0), (3, 3): T.real(0)}
            hyp = [T.lt(T.real(Fraction(1, 10 ** 6)), n)]
            u.reachable("spin larger than 1e-6", hyp)
            for i in R3:
                for j in R3:
                    K2 = T.tsum([K[i, k] * K[k, j] for k in R3])
                    w = T.real(1 if i == j else 0) + sn / n * K[i, j] + (1 - cs) / (n * n) * K2
                    u.prove("R = exp(spin), Rodrigues (%d,%d)" % (i, j), hyp + st.pc, T.eq(R[i, j], w), x)
            u.assumptions.add("double angle formulas; tan(n/2) finite")
        ck.unit("Rodrigues " + label, u_rod)
        exe = ck.compile("c04_" + app, [HARN + "/micro.cpp", d(app) + "/orient.cpp"], [d(app)], defs=["P04"])
        ck.run_harness("orient " + label, exe, [ck.seed, 20000 if ck.tier == "quick" else 1000000], bound="random rotations, spins from 0 and 1e-9 to 3 rad")
