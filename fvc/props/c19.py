"""C19 stress boundary conditions"""
from props.multi import *
from fvc.loops import Any

S3 = D + "Solvers/SGH_solver_3D/src/boundary.cpp"
SA = "mesh enums vars state force normal time rk_stage patch set".split()


def distinct_patch_nodes(x, name="mesh.nodes_in_patch"):
    """mesh invariant: the nodes of a patch have different numbers"""
    prev = x.decide

    def decide(pc, g):
        if prev is not None and prev(pc, g) is not None:
            return prev(pc, g)
        if g.op == "and":
            return False if any(decide(pc, h) is False for h in g.args) else None
        if g.op == "eq" and all(a.op == "uf" and a.val == name for a in g.args):
            (a, b), (c, d) = g.args[0].args, g.args[1].args
            if a is c and T.isnum(b) and T.isnum(d):
                return b.val == d.val
        return None
    x.decide = decide
    x.assumptions.add("mesh invariant: the nodes of a patch have pairwise different numbers (mesh library)")


def run(ck):
    V = [[0, 5, 4], [5, 1, 3], [4, 3, 2]]      # Voigt position of sigma_ij

    def u_model(u, ns, want):
        for dims in (3, 2):
            tu = ck.tu(os.path.join(VERIF, "fvc/tu/bc.cpp"), INCS)
            x = Executor(tu)
            x.binds["mesh.num_dims"] = dims
            st = State()
            f = tu.find(ns + "::stress", npar=10)
            args, a = mk_args(x, st, f, SA)
            fo, no = rawview(x, st, "force", 3), rawview(x, st, "normal", 3)
            args[4], args[5] = fo, no
            F0 = [vget(x, st, fo, (i,)) for i in range(dims)]
            N = [vget(x, st, no, (i,)) for i in range(dims)]
            call_fn(x, f, args, st)
            s0 = State()
            p = lambda k: rd(x, s0, a["vars"], (a["set"], k))
            F1 = [vget(x, st, fo, (i,)) for i in range(dims)]
            for i in range(dims):
                tr = T.tsum([p(V[i][j]) * N[j] for j in range(dims)])
                for name, hyp, add in want(p, a["time"], tr):
                    u.prove("%dD: %s (%d)" % (dims, name, i), st.pc + hyp, T.eq(F1[i], F0[i] + add), x)
                u.prove("%dD: the normal stays (%d)" % (dims, i), st.pc, T.eq(vget(x, st, no, (i,)), N[i]), x)
            u.obligations(x)
    zero = T.real(0)

    def timed(p, t, tr):
        return [("within its times: the stress, decayed, times the area normal", [T.le(p(7), t), T.le(t, p(8))], T.uf("exp", (zero - p(6) * (t - p(7)),), "R") * tr),
                ("before its start: no force", [T.lt(t, p(7))], zero), ("after its end: no force", [T.lt(p(8), t)], zero)]
    ck.unit("ConstantStressBC", lambda u: u_model(u, "ConstantStressBC", lambda p, t, tr: [("the stress times the area normal", [], tr)]))
    ck.unit("TimeVaryingStressBC", lambda u: u_model(u, "TimeVaryingStressBC", timed))
    for ns in ("UserDefinedStressBC",):
        ck.unit(ns, lambda u, ns=ns: u_model(u, ns, lambda p, t, tr: [("no force", [], zero)]))

    def u_drive(u):
        tu = ck.tu(S3, INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"], x.binds["mesh.num_nodes_in_patch"] = 3, 4
        distinct_patch_nodes(x)
        st = State()
        f = tu.find("SGH3D::boundary_stress")
        args, a = mk_args(x, st, f, "mesh BC force coords time".split())
        log = []
        ghost = MArr("times_applied")

        def model(x, st, thislv, cargs, env, e):
            v = [argv(x, st, cargs, env, k) for k in range(len(cargs))]
            iv = [i for i in T.free_vars(list(st.pc)) if str(i.val).startswith("i_")]
            log.append((st.copy(), v, iv, fnidx(x, thislv, "BC.BoundaryConditionFunctions")))
            x.write(st, ElemLV(ghost, (v[9], iv[0])), I, T.add(rd(x, st, ghost, (v[9], iv[0]), I), num(1)))
            for d in range(3):
                x.write(st, x.elem(v[4], [num(d)], st, {}, {}), R, T.add(vget(x, st, v[4], (d,)), T.uf("model_force", (v[9], v[8], num(d)), "R")))
            return Opaque("void")
        x.contracts["->stress"] = model
        loop = Any()
        x.loops["*"] = loop
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        s0 = State()
        u.shape("one loop over the solver's stress boundary sets", len(loop.iters) == 1 and len(log) >= 1, "simplification")
        it = loop.iters[0]
        sid = x.inputs["self.solver_id"]
        u.prove("every stress set of the solver is visited", [], T.land(T.eq(it["lo"], num(0)), T.eq(it["hi"], rd(x, s0, inarr(x, "BC.num_stress_bdy_sets_in_solver"), (sid,), I))), x)
        bset = rd(x, s0, inarr(x, "BC.stress_bdy_sets_in_solver"), (sid, it["iv"]), I)
        cs, v, iv, fi = log[-1]
        u.shape("applied in one loop over patches", len(iv) == 1 and len(it["regions"]) == 1)
        reg = it["regions"][0]
        patch = rd(x, s0, inarr(x, "mesh.bdy_patches_in_set"), (bset, iv[0]), I)
        u.prove("every patch of the set is visited", [], T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], rd(x, s0, inarr(x, "mesh.num_bdy_patches_in_set"), (bset,), I))), x)
        u.prove("set, model, patch and time are right", cs.pc, T.land(T.eq(v[9], bset), T.eq(fi, bset), T.eq(v[8], patch), T.eq(v[6], a["time"])), x)
        u.shape("the model gets the stress parameters", v[2] is inarr(x, "BC.stress_bc_global_vars") and v[3] is inarr(x, "BC.bc_state_vars"))
        node = [rd(x, s0, inarr(x, "mesh.nodes_in_patch"), (patch, k), I) for k in range(4)]
        X = [[rd(x, s0, a["coords"], (n, d)) for d in range(3)] for n in node]
        sub = lambda p, q: [i - j for i, j in zip(p, q)]
        c, d = sub(X[2], X[0]), sub(X[3], X[1])
        cross = [c[1] * d[2] - c[2] * d[1], c[2] * d[0] - c[0] * d[2], c[0] * d[1] - c[1] * d[0]]
        for k in range(3):
            u.prove("the model gets a quarter of the patch's area vector (%d)" % k, cs.pc, T.eq(vget(x, cs, v[5], (k,)), cross[k] / T.real(8)), x)
            u.prove("the model's force starts from zero (%d)" % k, cs.pc, T.eq(vget(x, cs, v[4], (k,)), zero), x)
        b, t = reg["before"], reg["after"]
        for n in range(4):
            for k in range(3):
                u.prove("each node of the patch gets the model's force (node %d, direction %d)" % (n, k), t.pc, T.eq(rd(x, t, a["force"], (node[n], k)), rd(x, b, a["force"], (node[n], k)) + T.uf("model_force", (bset, patch, num(k)), "R")), x)
        q = T.var("q", "I")
        for k in range(3):
            u.prove("no other node gets any (%d)" % k, t.pc + [T.ne(q, n) for n in node], T.eq(rd(x, t, a["force"], (q, k)), rd(x, b, a["force"], (q, k))), x)
        j = T.var("j", "I")
        n = rd(x, s0, inarr(x, "mesh.num_bdy_patches_in_set"), (bset,), I)
        u.prove("the model is applied once to each patch", it["after"].pc + [T.le(num(0), j), T.lt(j, n)], T.eq(rd(x, it["after"], ghost, (bset, j), I), T.add(rd(x, it["before"], ghost, (bset, j), I), num(1))), x)
        u.obligations(x)
    ck.unit("boundary stress", u_drive)
    hydro_harness(ck, "C19", ["Solvers/SGH_solver_3D/src/boundary.cpp", "common/src/geometry_new.cpp"], 20000 if ck.tier == "quick" else 2000000,
                  "1 to 5 boundary sets of up to 12 random warped patches in up to 3 solvers, every stress model, times inside, outside and at the limits", harness="bc.cpp")
