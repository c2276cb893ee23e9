"""C05 dense linear algebra kernels"""
from fvc.check import *
from props.micro import *
import itertools


def perm_sign(p):
    s = 1
    for i in range(len(p)):
        for j in range(i):
            if p[j] > p[i]:
                s = -s
    return s


def leibniz(A, n):
    r = T.real(0)
    for p in itertools.permutations(range(n)):
        t = T.real(perm_sign(p))
        for i in range(n):
            t = t * A[i][p[i]]
        r = r + t
    return r


def run(ck):
    for label, app in groups(ck, "determinant33.cpp", LARGE):
        def u_det(u, app=app):
            tu = ck.tu(d(app) + "/determinant33.cpp", [d(app)])
            x = Executor(tu)
            st = State()
            m = arr_in(x, st, "m", 9)
            out = x.newobj("det")
            st.store[out.path] = T.var("det0")
            call_fn(x, tu.find("determinant33"), [m, out], st)
            A = [[T.var("m[%d]" % (i + 3 * j)) for j in range(3)] for i in range(3)]
            u.prove("determinant = sum over permutations", st.pc, T.eq(st.store[out.path], leibniz(A, 3)), x)
            for k in range(9):
                u.prove("matrix unchanged", st.pc, T.eq(get(x, st, m, k), T.var("m[%d]" % k)), x)
            u.obligations(x)
        ck.unit("determinant " + label, u_det)
    for label, app in groups(ck, "matrix_exp.cpp", LARGE):
        def u_exp(u, app=app):
            tu = ck.tu(d(app) + "/matrix_exp.cpp", [d(app)])
            x = Executor(tu)
            st = State()
            m, e = arr_in(x, st, "m", 9), arr_in(x, st, "e", 9)
            call_fn(x, tu.find("matrix_exp"), [m, e], st)
            A = [[T.var("m[%d]" % (i + 3 * j)) for j in range(3)] for i in range(3)]
            mm = lambda P, Q: [[T.tsum([P[i][k] * Q[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
            A2 = mm(A, A)
            A3 = mm(A2, A)
            for i in range(3):
                for j in range(3):
                    w = T.real(1 if i == j else 0) + A[i][j] + A2[i][j] / 2 + A3[i][j] / 6
                    u.prove("exponential = I + A + A^2/2 + A^3/6 (%d,%d)" % (i, j), st.pc, T.eq(get(x, st, e, i + 3 * j), w), x)
                    u.prove("argument unchanged", st.pc, T.eq(get(x, st, m, i + 3 * j), A[i][j]), x)
            u.obligations(x)
        ck.unit("matrix exponential " + label, u_exp)
    for label, app in groups(ck, "math_functions.cpp"):
        shim = os.path.join(ck.tmp, "inv_%s.cpp" % app)
        open(shim, "w").write('#include "math_functions.h"\nint fvc_inv1(double*m){return invert_matrix<1>(m);}\nint fvc_inv2(double*m){return invert_matrix<2>(m);}\nint fvc_inv3(double*m){return invert_matrix<3>(m);}\nint fvc_inv6(double*m){return invert_matrix<6>(m);}\ndouble fvc_pow(double b,int e){return PowIntExpo(b,e);}\n#include "math_functions.cpp"\n')

        def paths_of(u, tu, fname, n, rhs):
            def mk():
                x = Executor(tu)
                x.divcheck = True
                st = State()
                m = arr_in(x, st, "m", n * n)
                args = [m]
                if rhs:
                    args += [arr_in(x, st, "b", n), n]
                x.handles = args
                return x, st, (lambda: call_fn(x, tu.find(fname), args, st))
            return run_paths(mk)

        def inv(u, n, app=app, shim=shim):
            tu = ck.tu(shim, [d(app)])
            A = [[T.var("m[%d]" % (i * n + j)) for j in range(n)] for i in range(n)]
            det = leibniz(A, n)
            ok = 0
            for k, (x, s, ret) in enumerate(paths_of(u, tu, "fvc_inv%d" % n, n, False)):
                m = x.handles[0]
                if T.isnum(ret) and ret.val == 0:
                    ok += 1
                    for i in range(n):
                        for j in range(n):
                            g = T.tsum([A[i][q] * get(x, s, m, q * n + j) for q in range(n)])
                            u.prove("n=%d: A * inverse = I on success (path %d, %d,%d)" % (n, k, i, j), s.pc, T.eq(g, T.real(1 if i == j else 0)), x)
                else:
                    z = T.eq(ret, num(0))
                    u.prove("n=%d: this exit reports failure (path %d)" % (n, k), s.pc, T.lnot(z), x)
                    singular(u, s, det, "n=%d: failure is reported only when the determinant is zero (path %d)" % (n, k), x)
                u.obligations(x)
            u.fact("n=%d: some path succeeds" % n, ok > 0)

        def singular(u, s, det, name, x):
            """every candidate pivot is zero: substitute the equalities"""
            u.prove(name, s.pc, T.eq(det, T.real(0)), x, prover=big)

        big = Prover(timeout=20, seed=ck.seed)
        for n in (1, 2, 3):
            ck.unit("inverse n=%d %s" % (n, label), lambda u, n=n, inv=inv: inv(u, n))

        def solve(u, n, app=app, shim=shim):
            tu = ck.tu(shim, [d(app)])
            A = [[T.var("m[%d]" % (i * n + j)) for j in range(n)] for i in range(n)]
            det = leibniz(A, n)
            ok = 0
            for k, (x, s, ret) in enumerate(paths_of(u, tu, "solve_linear_system", n, True)):
                b = x.handles[1]
                if T.isnum(ret) and ret.val == 0:
                    ok += 1
                    for i in range(n):
                        g = T.tsum([A[i][q] * get(x, s, b, q) for q in range(n)])
                        u.prove("n=%d: A * x = b on success (path %d, row %d)" % (n, k, i), s.pc, T.eq(g, T.var("b[%d]" % i)), x)
                else:
                    z = T.eq(ret, num(0))
                    u.prove("n=%d: this exit reports failure (path %d)" % (n, k), s.pc, T.lnot(z), x)
                    singular(u, s, det, "n=%d: failure is reported only when the determinant is zero (path %d)" % (n, k), x)
                u.obligations(x)
            u.fact("n=%d: some path succeeds" % n, ok > 0)
        for n in (1, 2, 3):
            ck.unit("solve n=%d %s" % (n, label), lambda u, n=n, solve=solve: solve(u, n))

        def u_pow(u, app=app, shim=shim):
            """integer power: bounded exponents, every base"""
            tu = ck.tu(shim, [d(app)])
            for e in list(range(-17, 18)) + [31, 32, 33, 64, 100]:
                x = Executor(tu)
                st = State()
                r = call_fn(x, tu.find("fvc_pow"), [T.var("x"), e], st)
                w = T.real(1)
                for _ in range(abs(e)):
                    w = w * T.var("x")
                if e < 0:
                    w = T.real(1) / w
                u.prove("x^%d" % e, st.pc + ([T.ne(T.var("x"), num(0))] if e < 0 else []), T.eq(r, w), x)
        ck.unit("integer power " + label, u_pow)
    apps = {}
    for label, app in groups(ck, "math_functions.cpp", extra=("determinant33.cpp", "matrix_exp.cpp")):
        src = [HARN + "/micro.cpp", d(app) + "/math_functions.cpp"]
        if os.path.exists(os.path.join(REPO, d(app), "determinant33.cpp")):
            src += [d(app) + "/determinant33.cpp", d(app) + "/matrix_exp.cpp"]
        exe = ck.compile("c05_" + app, src, [d(app)], defs=["P05"])
        ck.run_harness("linear algebra " + label, exe, [ck.seed, 2000 if ck.tier == "quick" else 100000], bound="random, permutation, rotation and singular matrices up to 12x12")
