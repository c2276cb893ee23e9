"""C01 Voigt <-> fourth-order tensor conversion"""
from fvc.check import *
from props.micro import *

V = {(1, 1): 1, (2, 2): 2, (3, 3): 3, (2, 3): 4, (3, 2): 4, (1, 3): 5, (3, 1): 5, (1, 2): 6, (2, 1): 6}
MAJ = {1: (1, 1), 2: (2, 2), 3: (3, 3), 4: (2, 3), 5: (1, 3), 6: (1, 2)}


def o2(i, j):
    return (i - 1) + 6 * (j - 1)


def o4(i, j, k, l):
    return (i - 1) + 3 * (j - 1) + 9 * (k - 1) + 27 * (l - 1)


def run(ck):
    for label, app in groups(ck, "voigt.cpp"):
        def u_expand(u, app=app):
            tu = ck.tu(d(app) + "/voigt.cpp", [d(app)])
            f = tu.find("voigt")
            for opt in (1, 3):
                x = Executor(tu)
                st = State()
                c2, c4 = arr_in(x, st, "c2", 36), arr_in(x, st, "c4", 81)
                call_fn(x, f, [c2, c4, opt], st)
                for i in R3:
                    for j in R3:
                        for k in R3:
                            for l in R3:
                                a, b = V[i, j], V[k, l]
                                fac = 1 if opt == 1 else Fraction(1, (2 if a > 3 else 1) * (2 if b > 3 else 1))
                                want = T.lift(fac) * T.var("c2[%d]" % o2(a, b))
                                u.prove("mode %d: tensor(%d,%d,%d,%d) = factor * voigt(%d,%d)" % (opt, i, j, k, l, a, b), st.pc, T.eq(get(x, st, c4, o4(i, j, k, l)), want), x)
                for k in range(36):
                    u.prove("mode %d leaves the Voigt matrix unchanged" % opt, st.pc, T.eq(get(x, st, c2, k), T.var("c2[%d]" % k)), x)
                u.obligations(x)
        ck.unit("expand " + label, u_expand)

        def u_contract(u, app=app):
            tu = ck.tu(d(app) + "/voigt.cpp", [d(app)])
            f = tu.find("voigt")
            x = Executor(tu)
            st = State()
            c2, c4 = arr_in(x, st, "c2", 36), arr_in(x, st, "c4", 81)
            call_fn(x, f, [c2, c4, 2], st)
            for i in MAJ:
                for j in MAJ:
                    u.prove("mode 2: voigt(%d,%d) = tensor(%s,%s)" % (i, j, MAJ[i], MAJ[j]), st.pc, T.eq(get(x, st, c2, o2(i, j)), T.var("c4[%d]" % o4(*(MAJ[i] + MAJ[j])))), x)
            for k in range(81):
                u.prove("mode 2 leaves the tensor unchanged", st.pc, T.eq(get(x, st, c4, k), T.var("c4[%d]" % k)), x)
            # lemma: contraction after expansion is the identity
            x = Executor(tu)
            st = State()
            c2, c4, r2 = arr_in(x, st, "c2", 36), arr_in(x, st, "c4", 81), arr_in(x, st, "r2", 36)
            call_fn(x, f, [c2, c4, 1], st)
            call_fn(x, f, [r2, c4, 2], st)
            for k in range(36):
                u.prove("contraction(expansion(c)) = c", st.pc, T.eq(get(x, st, r2, k), T.var("c2[%d]" % k)), x)
            u.obligations(x)
        ck.unit("contract " + label, u_contract)

        exe = ck.compile("c01_" + app, [HARN + "/c01.cpp", d(app) + "/voigt.cpp"], [d(app)])
        ck.run_harness("voigt " + label, exe, [ck.seed, 300 if ck.tier == "quick" else 30000], bound="random 6x6 matrices, modes 1 to 3")
