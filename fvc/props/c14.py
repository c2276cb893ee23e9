"""C14 energy, motion and the domain tallies"""
from props.multi import *

S3 = D + "Solvers/SGH_solver_3D/src/"
SR = D + "Solvers/SGH_solver_rz/src/"
ST = D + "Solvers/SGTM_solver_3D/src/"
E3 = "alpha dt mesh vel vel0 sie sie0 mass mcforce corners elem_in_mat num mat".split()
ER = "alpha dt mesh vel vel0 coords coords0 sie sie0 mass mcforce corners elem_in_mat num mat".split()


def rng(lo, v, hi):
    return [T.le(num(lo), v), T.lt(v, hi)]


def run(ck):
    def u_energy(u, rz):
        n, dims = (4, 2) if rz else (8, 3)
        tu = ck.tu((SR + "energy_sgh_rz.cpp") if rz else (S3 + "energy_sgh.cpp"), INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"], x.binds["mesh.num_nodes_in_elem"] = dims, n
        st = State()
        f = tu.find("SGHRZ::update_energy_rz" if rz else "SGH3D::update_energy")
        args, a = mk_args(x, st, f, ER if rz else E3)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        s, s0 = T.var("s", "I"), State()
        mat = a["mat"] if a["mat"] is not None else T.var("mat", "I")
        pc = st.pc + rng(0, s, T.var("num", "I"))
        e = rd(x, s0, a["elem_in_mat"], (mat, s), I)
        P = []
        nc = x.inputs["corners.num_corners_in_elem_"]
        for k in range(n):
            g = rd(x, s0, inarr(x, "mesh.nodes_in_elem"), (e, k), I)
            for d in range(dims):
                F = rd(x, s0, a["mcforce"], (mat, T.add(T.mul(s, nc), num(k)), d))
                t = F * (rd(x, s0, a["vel"], (g, d)) + rd(x, s0, a["vel0"], (g, d))) / 2
                P.append(t * rd(x, s0, a["coords"], (g, 1)) if rz else t)
        P = T.tsum(P)
        m = rd(x, s0, a["mass"], (mat, s))
        v = rd(x, st, a["sie"], (mat, s))
        me = m if rz else m + T.real(Fraction(1, 10 ** 20))
        u.prove("mass x energy change = -(step x power of the material's own corner forces)", pc + [T.lt(num(0), m)], T.eq(v, rd(x, s0, a["sie0"], (mat, s)) - T.var("alpha") * T.var("dt") * P / me), x)
        q = T.var("q", "I")
        u.prove("other materials untouched", st.pc + [T.ne(q, mat)], T.eq(rd(x, st, a["sie"], (q, s)), rd(x, s0, a["sie"], (q, s))), x)
        u.prove("energy at the start of the step untouched", st.pc, T.eq(rd(x, st, a["sie0"], (mat, s)), rd(x, s0, a["sie0"], (mat, s))), x)
        u.obligations(x)
    ck.unit("energy 3D", lambda u: u_energy(u, False))
    ck.unit("energy RZ", lambda u: u_energy(u, True))

    def u_work(u):
        """what the nodes gain is the work of the forces at the same velocity"""
        m, v0, F, al, dt = (T.var(c) for c in ("m", "v0", "F", "alpha", "dt"))
        v = v0 + al * dt * F / m
        u.prove("lemma: m(v^2 - v0^2)/2 = step x F (v + v0)/2 for the proved velocity update (C13)", [T.lt(num(0), m)], T.eq(m * (v * v - v0 * v0) / 2, al * dt * F * (v + v0) / 2))
        f1, f2 = T.var("f1"), T.var("f2")
        vb = T.var("v") + v0
        u.prove("lemma: the work of a corner is the sum over its materials", [], T.eq((f1 + f2) * vb / 2, f1 * vb / 2 + f2 * vb / 2))
    ck.unit("energy balance", u_work)

    def u_pos(u, src, fn, dims, rz=False):
        tu = ck.tu(src, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find(fn)
        args, a = mk_args(x, st, f, "alpha dt dims num coords coords0 vel vel0".split())
        args[2] = num(dims)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        n, s0 = T.var("n", "I"), State()
        pc = st.pc + rng(0, n, T.var("num", "I"))
        for d in range(dims):
            w = rd(x, s0, a["coords0"], (n, d)) + T.var("alpha") * T.var("dt") * (rd(x, s0, a["vel"], (n, d)) + rd(x, s0, a["vel0"], (n, d))) / 2
            if rz and d == 1:
                w = T.tmax(T.real(0), w)
            u.prove("position advances with the mean velocity, direction %d" % d, pc, T.eq(rd(x, st, a["coords"], (n, d)), w), x)
        u.obligations(x)
    ck.unit("position 3D", lambda u: u_pos(u, S3 + "position.cpp", "SGH3D::update_position", 3))
    ck.unit("position RZ", lambda u: u_pos(u, SR + "position_rz.cpp", "SGHRZ::update_position_rz", 2, True))

    def u_init(u, src, fn, dims):
        tu = ck.tu(src, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find(fn)
        args, a = mk_args(x, st, f, "coords coords0 vel vel0 sie sie0 stress stress0 dims nelem nnode npoint mat".split())
        args[8] = num(dims)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        n, s, s0 = T.var("n", "I"), T.var("s", "I"), State()
        mat = T.var("mat", "I")
        pn, ps = st.pc + rng(0, n, T.var("nnode", "I")), st.pc + rng(0, s, T.var("npoint", "I"))
        for d in range(dims):
            for k in ("coords", "vel"):
                u.prove("step start saves %s(%d)" % (k, d), pn, T.eq(rd(x, st, a[k + "0"], (n, d)), rd(x, s0, a[k], (n, d))), x)
                u.prove("step start keeps %s(%d)" % (k, d), pn, T.eq(rd(x, st, a[k], (n, d)), rd(x, s0, a[k], (n, d))), x)
        u.prove("step start saves energy", ps, T.eq(rd(x, st, a["sie0"], (mat, s)), rd(x, s0, a["sie"], (mat, s))), x)
        for i in range(3):
            for j in range(3):
                u.prove("step start saves stress(%d,%d)" % (i, j), ps, T.eq(rd(x, st, a["stress0"], (mat, s, i, j)), rd(x, s0, a["stress"], (mat, s, i, j))), x)
        u.obligations(x)
    ck.unit("step start 3D", lambda u: u_init(u, S3 + "time_integration.cpp", "SGH3D::rk_init", 3))
    ck.unit("step start RZ", lambda u: u_init(u, SR + "time_integration_rz.cpp", "SGHRZ::rk_init_rz", 2))

    def u_tally(u, src, fn, names, summand, top, factor=Fraction(1), dims=3):
        tu = ck.tu(src, INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"] = dims
        st = State()
        f = tu.find(fn)
        args, a = mk_args(x, st, f, names)
        v = call_fn(x, f, args, st)
        u.shape("one reduction over the domain", len(x.regions) == 1 and x.regions[0].get("kind") == "sum", "simplification")
        r = x.regions[0]
        i = r["ivs"][0]
        u.prove("every entry counted once", st.pc, T.land(T.eq(r["rng"][0][0], num(0)), T.eq(r["rng"][0][1], x.inputs[top] if top in x.inputs else T.var(top, "I"))), x)
        u.prove("what an entry adds", r["after"].pc, T.eq(r["acc_out"], r["acc_in"] + summand(x, State(), a, i)), x)
        u.prove("result", st.pc, T.eq(v, r["res"] * T.real(factor)), x)
        u.obligations(x)
    mat = T.var("mat", "I")
    ms = lambda x, s, a, i: rd(x, s, a["mass"], (mat, i)) * rd(x, s, a["sie"], (mat, i))
    mm = lambda x, s, a, i: rd(x, s, a["mass"], (mat, i))
    nm = lambda x, s, a, i: rd(x, s, a["mass"], (i,))
    ke = lambda dims: lambda x, s, a, i: rd(x, s, a["mass"], (i,)) * T.tsum([rd(x, s, a["vel"], (i, d)) * rd(x, s, a["vel"], (i, d)) for d in range(dims)])
    X3, XR = S3 + "sgh_execute.cpp", SR + "sgh_execute_rz.cpp"
    H = Fraction(1, 2)
    ck.unit("internal energy", lambda u: u_tally(u, X3, "sum_domain_internal_energy", ["mass", "sie", "num", "mat"], ms, "num"))
    ck.unit("internal energy RZ", lambda u: u_tally(u, XR, "sum_domain_internal_energy_rz", ["mass", "sie", "num", "mat"], ms, "num"))
    ck.unit("kinetic energy", lambda u: u_tally(u, X3, "sum_domain_kinetic_energy", ["mesh", "vel", "coords", "mass"], ke(3), "mesh.num_nodes", H))
    ck.unit("kinetic energy RZ", lambda u: u_tally(u, XR, "sum_domain_kinetic_energy_rz", ["mesh", "vel", "mass"], ke(2), "mesh.num_nodes", H, 2))
    ck.unit("material mass", lambda u: u_tally(u, X3, "sum_domain_material_mass", ["mass", "num", "mat"], mm, "num"))
    ck.unit("material mass RZ", lambda u: u_tally(u, XR, "sum_domain_material_mass_rz", ["mass", "num", "mat"], mm, "num"))
    ck.unit("nodal mass", lambda u: u_tally(u, X3, "sum_domain_node_mass", ["mesh", "coords", "mass"], nm, "mesh.num_nodes"))
    ck.unit("nodal mass RZ", lambda u: u_tally(u, XR, "sum_domain_node_mass_rz", ["mass", "num"], nm, "num"))
    hydro_harness(ck, "C14", ["common/src/geometry_new.cpp"] + ["Solvers/SGH_solver_3D/src/%s.cpp" % f for f in ("momentum", "force_sgh", "energy_sgh", "position", "time_integration", "sgh_execute")]
                  + ["Solvers/SGH_solver_rz/src/%s_rz.cpp" % f for f in ("momentum", "force_sgh", "energy_sgh", "position", "time_integration", "sgh_execute")],
                  3000 if ck.tier == "quick" else 200000, "a whole step on random meshes of 1 to 8 hexahedra or 1 to 9 quadrilaterals, 1 to 3 materials per element")
