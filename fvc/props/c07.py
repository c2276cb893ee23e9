"""C07 von Mises equivalents"""
from fvc.check import *
from props.micro import *


def o(i, j):
    return (i - 1) + 3 * (j - 1)


def run(ck):
    for label, app in groups(ck, "vm.cpp"):
        def u_vm(u, app=app):
            tu = ck.tu(d(app) + "/vm.cpp", [d(app)])
            x = Executor(tu)
            st = State()
            a = arr_in(x, st, "a", 9)
            r = call_fn(x, tu.find("vm"), [a], st)
            A = {(i, j): T.var("a[%d]" % o(i, j)) for i in R3 for j in R3}
            tr = A[1, 1] + A[2, 2] + A[3, 3]
            s = T.tsum([((A[i, j] + A[j, i]) / 2 - (tr / 3 if i == j else T.real(0))) ** 2 for i in R3 for j in R3])
            u.prove("strain: result^2 = 2/3 dev(sym):dev(sym)", st.pc, T.eq(r * r, T.real(Fraction(2, 3)) * s), x)
            u.prove("strain: result >= 0", st.pc, T.le(num(0), r), x)
            for k in range(9):
                u.prove("argument unchanged", st.pc, T.eq(get(x, st, a, k), T.var("a[%d]" % k)), x)
            u.obligations(x)
        ck.unit("strain " + label, u_vm)

        def u_s(u, app=app):
            tu = ck.tu(d(app) + "/vm.cpp", [d(app)])
            x = Executor(tu)
            st = State()
            a = arr_in(x, st, "a", 9)
            for (i, j) in ((1, 2), (1, 3), (2, 3)):
                st.store[a.lv.path[:-1] + (o(i, j),)] = T.var("s%d%d" % (i, j))
                st.store[a.lv.path[:-1] + (o(j, i),)] = T.var("s%d%d" % (i, j))
            A = {(i, j): get(x, st, a, o(i, j)) for i in R3 for j in R3}
            r = call_fn(x, tu.find("vm_stress"), [a], st)
            tr = A[1, 1] + A[2, 2] + A[3, 3]
            s = T.tsum([(A[i, j] - (tr / 3 if i == j else T.real(0))) ** 2 for i in R3 for j in R3])
            u.prove("stress: result^2 = 3/2 s:s", st.pc, T.eq(r * r, T.real(Fraction(3, 2)) * s), x)
            u.prove("stress: result >= 0", st.pc, T.le(num(0), r), x)
            for i in R3:
                for j in R3:
                    u.prove("stress unchanged", st.pc, T.eq(get(x, st, a, o(i, j)), A[i, j]), x)
            u.obligations(x)
        ck.unit("stress " + label, u_s)
        exe = ck.compile("c07_" + app, [HARN + "/micro.cpp", d(app) + "/vm.cpp"], [d(app)], defs=["P07"])
        ck.run_harness("von Mises " + label, exe, [ck.seed, 20000 if ck.tier == "quick" else 1000000], bound="random tensors, magnitudes 1e-8 to 1e30")
