"""C03 Euler angles <-> rotation matrix"""
from fvc.check import *
from fvc.algebra import Alg
from props.micro import *


def o(i, j):
    return (i - 1) + 3 * (j - 1)


def spec(ph, th, tm):
    """Bunge convention, sample -> crystal: Rz(tm) Rx(th) Rz(ph) (passive)"""
    s, c = (lambda a: T.trig("sin", a)), (lambda a: T.trig("cos", a))
    Z = lambda a: [[c(a), s(a), T.real(0)], [T.real(0) - s(a), c(a), T.real(0)], [T.real(0), T.real(0), T.real(1)]]
    X = lambda a: [[T.real(1), T.real(0), T.real(0)], [T.real(0), c(a), s(a)], [T.real(0), T.real(0) - s(a), c(a)]]
    mm = lambda A, B: [[T.tsum([A[i][k] * B[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
    return mm(mm(Z(tm), X(th)), Z(ph))


def run(ck):
    for label, app in groups(ck, "euler.cpp"):
        def u_mat(u, app=app):
            tu = ck.tu(d(app) + "/euler.cpp", [d(app)])
            f = tu.find("euler")
            x = Executor(tu)
            st = State()
            a = arr_in(x, st, "a", 9)
            ph, th, tm = T.var("ph"), T.var("th"), T.var("tm")
            call_fn(x, f, [2, ph, th, tm, a], st)
            A = {(i, j): get(x, st, a, o(i, j)) for i in R3 for j in R3}
            S = spec(ph, th, tm)
            for i in R3:
                for j in R3:
                    u.prove("matrix(%d,%d) = (Rz Rx Rz)" % (i, j), st.pc, T.eq(A[i, j], S[i - 1][j - 1]), x)
                    u.prove("A A^T = I (%d,%d)" % (i, j), st.pc, T.eq(T.tsum([A[i, k] * A[j, k] for k in R3]), T.real(1 if i == j else 0)), x)
            det = A[1, 1] * (A[2, 2] * A[3, 3] - A[2, 3] * A[3, 2]) - A[1, 2] * (A[2, 1] * A[3, 3] - A[2, 3] * A[3, 1]) + A[1, 3] * (A[2, 1] * A[3, 2] - A[2, 2] * A[3, 1])
            u.prove("det A = 1", st.pc, T.eq(det, T.real(1)), x)
            u.obligations(x)
        ck.unit("angles to matrix " + label, u_mat)

        def inverse(u, app, case):
            """angles recovered from the matrix of (ph,th,tm), th in [0,pi]"""
            tu = ck.tu(d(app) + "/euler.cpp", [d(app)])
            f = tu.find("euler")
            ph, th, tm = T.var("ph"), T.var("th"), T.var("tm")
            x = Executor(tu)
            st = State()
            a = arr_in(x, st, "a", 9)
            S = spec(ph, th, tm)
            if case == "generic":
                cth = T.trig("cos", th)
                st.assume(T.lt(cth, T.real(Fraction(9999, 10000))))
                st.assume(T.lt(T.real(Fraction(-9999, 10000)), cth))
                st.assume(T.lt(num(0), T.trig("sin", th)))
            else:
                v = 1 if case == "th=0" else -1
                S = [[T.subst(e, {T.trig("sin", th): T.real(0), T.trig("cos", th): T.real(v)}) for e in r] for r in S]
            for i in R3:
                for j in R3:
                    st.store[a.lv.path[:-1] + (o(i, j),)] = S[i - 1][j - 1]
            u.reachable("orientation matrix, " + case, st.pc)
            outs = [x.newobj(n) for n in ("ph", "th", "tm")]
            for q in outs:
                st.store[q.path] = T.real(0)
            call_fn(x, f, [1] + outs + [a], st)
            r = [st.store[q.path] for q in outs]
            # fold the inverse functions:  acos(cos th) = th on [0,pi];
            # atan2(r sin w, r cos w) = w (mod 2 pi) for r > 0
            al = Alg()
            def fold(t, depth=0):
                m = {}
                for s in sorted(T.subterms([t]), key=lambda z: z.id):
                    if s.op == "uf" and s.val in ("acos", "atan2"):
                        s2 = T.uf(s.val, tuple(T.subst(q, m) for q in s.args))
                        if s.val == "acos":
                            e = resolve_ites(s2.args[0])
                            if al.equal(e, T.trig("cos", th)) and case == "generic":
                                m[s] = th
                            elif al.equal(e, T.real(1)):
                                m[s] = T.real(0)
                            elif al.equal(e, T.real(-1)):
                                m[s] = T.var("PI")
                            else:
                                u.undecided("argument of acos is the cosine of the second angle", T.show(e))
                        else:
                            y, xx = [resolve_ites(q) for q in s2.args]
                            cands = [ph, tm, ph + tm, ph - tm]
                            for w in cands:
                                sw = T.trig("sin", w) if w.op == "var" else None
                                if sw is None:
                                    sg = 1 if w is cands[2] else -1
                                    sw = T.trig("sin", ph) * T.trig("cos", tm) + sg * T.trig("cos", ph) * T.trig("sin", tm)
                                    cw = T.trig("cos", ph) * T.trig("cos", tm) - sg * T.trig("sin", ph) * T.trig("sin", tm)
                                else:
                                    cw = T.trig("cos", w)
                                if al.equal(y, sw) and al.equal(xx, cw):
                                    m[s] = w
                                    break
                            else:
                                m[s] = T.uf("unrecognised atan2", (y, xx))
                return T.subst(t, m)
            def resolve_ites(t):
                n = 0
                while True:
                    from fvc.prove import first_split
                    c = first_split([t])
                    if c is None:
                        return t
                    n += 1
                    if n > 60:
                        raise Undecided("too many branches")
                    dec = None
                    for lit, val in ((c, T.TRUE), (T.lnot(c), T.FALSE)):
                        pp = u.prover.prove(st.pc, lit, [T.land(T.le(T.trig("cos", th), num(1)), T.le(num(-1), T.trig("cos", th)))])
                        if pp.status == "proved":
                            dec = val
                            break
                    if dec is None:
                        raise Undecided("branch not decided: %s" % T.show(c))
                    t = T.subst(t, {c: dec, T.lnot(c): T.lnot(dec)})
            r = [fold(resolve_ites(q)) for q in r]
            r = [T.subst(q, {T.uf("atan", (T.real(1),)): T.var("PI") / 4, T.uf("atan", (num(1),)): T.var("PI") / 4}) for q in r]
            deg = T.real(180) / T.var("PI")
            if case == "generic":
                want = [ph * deg, th * deg, tm * deg]
            elif case == "th=0":
                want = [(ph + tm) * deg, T.real(0), T.real(0)]
            else:
                want = [(ph - tm) * deg, T.real(180), T.real(0)]
            for n, q, w in zip(("first", "second", "third"), r, want):
                u.prove("%s angle recovered in degrees (%s)" % (n, case), st.pc + [T.lt(num(0), T.var("PI"))], T.eq(q, w), x)
            for i in R3:
                for j in R3:
                    u.prove("matrix unchanged", st.pc, T.eq(get(x, st, a, o(i, j)), S[i - 1][j - 1]), x)
            u.assumptions.add("acos(cos t) = t on [0,pi]; atan2(sin w, cos w) = w modulo 2 pi; every rotation has Bunge angles")
            u.obligations(x)
        for case in ("generic", "th=0", "th=pi"):
            ck.unit("matrix to angles %s %s" % (case, label), lambda u, app=app, case=case: inverse(u, app, case))
        exe = ck.compile("c03_" + app, [HARN + "/micro.cpp", d(app) + "/euler.cpp"], [d(app)], defs=["P03"])
        ck.run_harness("euler " + label, exe, [ck.seed, 20000 if ck.tier == "quick" else 1000000], bound="random and gimbal-aligned angles and rotations")
