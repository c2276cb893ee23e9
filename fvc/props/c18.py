"""C18 velocity boundary conditions"""
from props.multi import *
from fvc.loops import Any

S3 = D + "Solvers/SGH_solver_3D/src/boundary.cpp"
SR = D + "Solvers/SGH_solver_rz/src/boundary_rz.cpp"
VA = "mesh enums vars state vel time rk_stage node set".split()


def run(ck):
    def setup(ns, dims):
        tu = ck.tu(os.path.join(VERIF, "fvc/tu/bc.cpp"), INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"] = dims
        st = State()
        f = tu.find(ns + "::velocity")
        args, a = mk_args(x, st, f, VA)
        call_fn(x, f, args, st)
        return x, st, a

    def u_model(u, ns, want):
        for dims in (3, 2):
            x, st, a = setup(ns, dims)
            s0 = State()
            par = lambda k: rd(x, s0, a["vars"], (a["set"], k))
            old = [rd(x, s0, a["vel"], (a["node"], d)) for d in range(dims)]
            new = [rd(x, st, a["vel"], (a["node"], d)) for d in range(dims)]
            for name, hyp, goal in want(dims, par, a["time"], old, new):
                u.prove("%dD: %s" % (dims, name), st.pc + hyp, goal, x)
            q, d = T.var("q", "I"), T.var("d", "I")
            u.prove("%dD: other nodes keep their velocity" % dims, st.pc + [T.ne(q, a["node"])], T.eq(rd(x, st, a["vel"], (q, 0)), rd(x, s0, a["vel"], (q, 0))), x)
            u.prove("%dD: the parameters stay" % dims, st.pc, T.eq(rd(x, st, a["vars"], (q, d)), rd(x, s0, a["vars"], (q, d))), x)
            u.obligations(x)

    def const(dims, p, t, old, new):
        return [("velocity component %d is the one asked for" % d, [], T.eq(new[d], p(d))) for d in range(dims)]

    def zero(dims, p, t, old, new):
        return [("velocity component %d is zero" % d, [], T.eq(new[d], T.real(0))) for d in range(dims)]

    def none(dims, p, t, old, new):
        return [("velocity component %d is untouched" % d, [], T.eq(new[d], old[d])) for d in range(dims)]

    def dot(a, b):
        return T.tsum([x * y for x, y in zip(a, b)])

    def project(dims, p, old, new, hyp, speed):
        """v_new = v - (v.n)n/(n.n) + speed n/|n|"""
        n = [p(d) for d in range(dims)]
        nn = dot(n, n)
        pos = [T.lt(T.real(0), nn)]
        out = []
        for d in range(dims):
            keep = old[d] - dot(old, n) * n[d] / nn
            w = keep if speed is None else keep + speed * n[d] / T.sqrt(nn)
            out.append(("the part across the direction stays, the part along it is the one asked for (%d)" % d, hyp + pos, T.eq(new[d], w)))
        return out

    def refl(dims, p, t, old, new):
        return project(dims, p, old, new, [], None)

    def timed(speed, i0, i1):
        def w(dims, p, t, old, new):
            tau = t - p(i0)
            inside = [T.le(p(i0), t), T.le(t, p(i1))]
            out = project(dims, p, old, new, inside, speed(p, tau))
            for d in range(dims):
                out.append(("before its start it does nothing (%d)" % d, [T.lt(t, p(i0))], T.eq(new[d], old[d])))
                out.append(("after its end it does nothing (%d)" % d, [T.lt(p(i1), t)], T.eq(new[d], old[d])))
            return out
        return w
    piston = timed(lambda p, tau: p(3) + p(4) * tau + T.real(Fraction(1, 2)) * p(5) * tau * tau, 6, 7)
    decay = timed(lambda p, tau: p(3) * T.uf("exp", (T.real(0) - p(4) * tau,), "R"), 5, 6)
    for ns, w in (("ConstantVelocityBC", const), ("ZeroVelocityBC", zero), ("NoVelocityBC", none), ("UserDefinedVelocityBC", none), ("ReflectedVelocityBC", refl), ("PistonVelocityBC", piston), ("TimeVaryingVelocityBC", decay)):
        ck.unit(ns, lambda u, ns=ns, w=w: u_model(u, ns, w))

    def u_drive(u, rz):
        tu = ck.tu(SR if rz else S3, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGHRZ::boundary_velocity_rz" if rz else "SGH3D::boundary_velocity")
        args, a = mk_args(x, st, f, "mesh BC vel time".split())
        log = []
        from fvc.execu import Opaque

        def model(x, st, thislv, cargs, env, e):
            v = [argv(x, st, cargs, env, k) for k in range(len(cargs))]
            iv = [i for r in [T.free_vars(list(st.pc))] for i in r if str(i.val).startswith("i_")]
            log.append((st.copy(), v, iv, fnidx(x, thislv, "BC.BoundaryConditionFunctions")))
            G = ghost
            x.write(st, ElemLV(G, (v[8], iv[0])), I, T.add(rd(x, st, G, (v[8], iv[0]), I), num(1)))
            return Opaque("void")
        from fvc.execu import ElemLV, MArr
        ghost = MArr("times_applied")
        x.contracts["->velocity"] = model
        loop = Any()
        x.loops["*"] = loop
        this = obj(x, st, "self")
        call_fn(x, f, args, st, this=this)
        s0 = State()
        u.shape("one loop over the solver's velocity boundary sets", len(loop.iters) == 1 and len(log) >= 1, "simplification")
        it = loop.iters[0]
        sid = x.inputs["self.solver_id"]
        u.prove("every velocity set of the solver is visited", [], T.land(T.eq(it["lo"], num(0)), T.eq(it["hi"], rd(x, s0, inarr(x, "BC.num_vel_bdy_sets_in_solver"), (sid,), I))), x)
        bset = rd(x, s0, inarr(x, "BC.vel_bdy_sets_in_solver"), (sid, it["iv"]), I)
        cs, v, iv, fi = log[-1]
        u.shape("applied in one loop over nodes", len(iv) == 1 and len(it["regions"]) == 1)
        u.prove("the set is the one listed", cs.pc, T.eq(v[8], bset), x)
        u.prove("the model is the set's own", cs.pc, T.eq(fi, bset), x)
        u.prove("the node is the set's node", cs.pc, T.eq(v[7], rd(x, s0, inarr(x, "mesh.bdy_nodes_in_set"), (bset, iv[0]), I)), x)
        u.prove("the model gets the time", cs.pc, T.eq(v[5], a["time"]), x)
        u.shape("the model gets the velocities and the velocity parameters", v[4] is a["vel"] and v[2] is inarr(x, "BC.velocity_bc_global_vars") and v[3] is inarr(x, "BC.bc_state_vars"))
        j = T.var("j", "I")
        n = rd(x, s0, inarr(x, "mesh.num_bdy_nodes_in_set"), (bset,), I)
        b, t = it["before"], it["after"]
        u.prove("the set's model is applied once to each of its nodes", t.pc + [T.le(num(0), j), T.lt(j, n)], T.eq(rd(x, t, ghost, (bset, j), I), T.add(rd(x, b, ghost, (bset, j), I), num(1))), x)
        p, q = T.var("p", "I"), T.var("q", "I")
        u.prove("and to nothing else", t.pc + [T.lnot(T.land(T.eq(p, bset), T.le(num(0), j), T.lt(j, n)))], T.eq(rd(x, t, ghost, (p, j), I), rd(x, b, ghost, (p, j), I)), x)
        u.prove("nothing else changes the velocities", t.pc, T.eq(rd(x, t, a["vel"], (p, q)), rd(x, b, a["vel"], (p, q))), x)
        u.obligations(x)
    ck.unit("boundary velocity 3D", lambda u: u_drive(u, False))
    ck.unit("boundary velocity RZ", lambda u: u_drive(u, True))
    hydro_harness(ck, "C18", ["Solvers/SGH_solver_3D/src/boundary.cpp", "Solvers/SGH_solver_rz/src/boundary_rz.cpp", "common/src/geometry_new.cpp"], 20000 if ck.tier == "quick" else 2000000,
                  "1 to 5 boundary sets of up to 12 nodes in up to 3 solvers, every model, axis and oblique directions, times inside, outside and at the limits", harness="bc.cpp")
