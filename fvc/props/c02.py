"""C02 orthonormal symmetric tensor basis and the change of basis"""
from fvc.check import *
from fvc.algebra import Alg
from props.micro import *

EPS = Fraction(1, 10 ** 13)


def ob(i, j, n):
    return (i - 1) + 3 * (j - 1) + 9 * (n - 1)


def o2(i, j):
    return (i - 1) + 3 * (j - 1)


def o4(i, j, k, l):
    return (i - 1) + 3 * (j - 1) + 9 * (k - 1) + 27 * (l - 1)


def run(ck):
    for label, app in groups(ck, "chg_basis.cpp"):
        def basis(x, app):
            """exact values of the basis tensors built by the real constructor"""
            st = State()
            this = x.newobj("cb")
            f = x.tu.find("ChgBasis::ChgBasis", npar=0)
            x.run_ctor(f, st, this, [], {})
            arr = st.store[this.path + ("B_basis_",)]
            B = {}
            for i in R3:
                for j in R3:
                    for n in range(1, 7):
                        v = x.aread(st, arr, (num(i - 1), num(j - 1), num(n - 1)), (), REAL)
                        if not T.isnum(v):
                            raise Undecided("basis component is not a constant: %r" % v)
                        B[i, j, n] = v.val
            return B, arr

        def u_basis(u, app=app):
            tu = ck.tu(d(app) + "/chg_basis.cpp", [d(app)])
            x = Executor(tu)
            B, arr = basis(x, app)
            u.absorb(x)
            for n in range(1, 7):
                for m in range(1, 7):
                    s = sum(B[i, j, n] * B[i, j, m] for i in R3 for j in R3)
                    u.fact("basis tensors %d and %d are orthonormal to 1e-13" % (n, m), abs(s - (1 if n == m else 0)) <= EPS, note="inner product %.17g" % float(s))
                for i in R3:
                    for j in R3:
                        u.fact("basis tensor %d is symmetric" % n, B[i, j, n] == B[j, i, n])
                if n < 6:
                    u.fact("basis tensor %d is traceless" % n, abs(sum(B[i, i, n] for i in R3)) <= EPS)
            u.fact("basis tensor 6 is the hydrostatic direction", all(abs(B[i, j, 6] - (B[1, 1, 6] if i == j else 0)) == 0 for i in R3 for j in R3) and B[1, 1, 6] > 0)
            # completeness: sum_n B_n (x) B_n = symmetric identity
            for i in R3:
                for j in R3:
                    for k in R3:
                        for l in R3:
                            s = sum(B[i, j, n] * B[k, l, n] for n in range(1, 7))
                            w = Fraction((1 if i == k and j == l else 0) + (1 if i == l and j == k else 0), 2)
                            u.fact("completeness (%d%d,%d%d) to 1e-13" % (i, j, k, l), abs(s - w) <= EPS)
        ck.unit("basis " + label, u_basis)

        def mk(x, st):
            this = x.newobj("cb", True)
            return this, arr_in(x, st, "B", 54)

        def bt(i, j, n):
            return T.var("B[%d]" % ob(i, j, n))

        def u_12(u, app=app):
            tu = ck.tu(d(app) + "/chg_basis.cpp", [d(app)])
            for K in (5, 6):
                x = Executor(tu)
                st = State()
                this, B = mk(x, st)
                ce, c = arr_in(x, st, "ce", K), arr_in(x, st, "c", 9)
                call_fn(x, tu.find("ChgBasis::chg_basis_1"), [ce, c, 1, K, B], st, this)
                for i in R3:
                    for j in R3:
                        w = T.tsum([T.var("ce[%d]" % (n - 1)) * bt(i, j, n) for n in range(1, K + 1)])
                        u.prove("vector -> tensor, %d components: (%d,%d)" % (K, i, j), st.pc, T.eq(get(x, st, c, o2(i, j)), w), x)
                for n in range(K):
                    u.prove("input vector unchanged", st.pc, T.eq(get(x, st, ce, n), T.var("ce[%d]" % n)), x)
                u.obligations(x)
                x = Executor(tu)
                st = State()
                this, B = mk(x, st)
                ce, c = arr_in(x, st, "ce", K), arr_in(x, st, "c", 9)
                call_fn(x, tu.find("ChgBasis::chg_basis_2"), [ce, c, 2, K, B], st, this)
                for n in range(1, K + 1):
                    w = T.tsum([T.var("c[%d]" % o2(i, j)) * bt(i, j, n) for i in R3 for j in R3])
                    u.prove("tensor -> vector, %d components: (%d)" % (K, n), st.pc, T.eq(get(x, st, ce, n - 1), w), x)
                for n in range(9):
                    u.prove("input tensor unchanged", st.pc, T.eq(get(x, st, c, n), T.var("c[%d]" % n)), x)
                u.obligations(x)
        ck.unit("second order " + label, u_12)

        for K in (5, 6):
            def u_3(u, app=app, K=K):
                tu = ck.tu(d(app) + "/chg_basis.cpp", [d(app)])
                x = Executor(tu)
                st = State()
                this, B = mk(x, st)
                ce, c = arr_in(x, st, "ce", K * K), arr_in(x, st, "c", 81)
                call_fn(x, tu.find("ChgBasis::chg_basis_3"), [ce, c, 3, K, B], st, this)
                for i in R3:
                    for j in R3:
                        for k in R3:
                            for l in R3:
                                w = T.tsum([T.var("ce[%d]" % (n + K * m)) * bt(i, j, n + 1) * bt(k, l, m + 1) for n in range(K) for m in range(K)])
                                u.prove("matrix -> tensor, %d components: (%d%d,%d%d)" % (K, i, j, k, l), st.pc, T.eq(get(x, st, c, o4(i, j, k, l)), w), x)
                u.obligations(x)
            ck.unit("fourth order out %d %s" % (K, label), u_3)

            def u_4(u, app=app, K=K):
                tu = ck.tu(d(app) + "/chg_basis.cpp", [d(app)])
                x = Executor(tu)
                st = State()
                this, B = mk(x, st)
                ce, c = arr_in(x, st, "ce", K * K), arr_in(x, st, "c", 81)
                call_fn(x, tu.find("ChgBasis::chg_basis_4"), [ce, c, 4, K, B], st, this)
                for n in range(K):
                    for m in range(K):
                        w = T.tsum([T.var("c[%d]" % o4(i, j, k, l)) * bt(i, j, n + 1) * bt(k, l, m + 1) for i in R3 for j in R3 for k in R3 for l in R3])
                        u.prove("tensor -> matrix, %d components: (%d,%d)" % (K, n + 1, m + 1), st.pc, T.eq(get(x, st, ce, n + K * m), w), x)
                u.obligations(x)
            ck.unit("fourth order in %d %s" % (K, label), u_4)
        exe = ck.compile("c02_" + app, [HARN + "/micro.cpp", d(app) + "/chg_basis.cpp"], [d(app)], defs=["P02"])
        ck.run_harness("basis change " + label, exe, [ck.seed, 5000 if ck.tier == "quick" else 300000], bound="random symmetric tensors, 5 and 6 components")
