"""C12 velocity gradient, divergence and their split (3D and axisymmetric)"""
from props.multi import *
from props import geom

S3 = D + "Solvers/SGH_solver_3D/src/"
SR = D + "Solvers/SGH_solver_rz/src/"


def mesh_setup(x, st, dims):
    x.binds["mesh.num_dims"] = dims
    mesh = obj(x, st, "mesh")
    return mesh


def run(ck):
    def common(dims, src):
        tu = ck.tu(src, INCS)
        x = Executor(tu)
        geom.install(x)
        x.binds["mesh.num_dims"] = dims
        st = State()
        crd, vel, vol, L = MArr("coords"), MArr("vel"), MArr("vol"), MArr("velgrad")
        return tu, x, st, crd, vel, vol, L

    def nodes_of(x, e, n):
        return [x.aread(State(), inarr(x, "mesh.nodes_in_elem"), (e, num(k)), (), I) for k in range(n)]

    def linear(x, st, e, dims, nn, arr_x, arr_v, goalterm, G, a):
        """substitute a linear velocity field v = a + G x"""
        ids = nodes_of(x, e, nn)
        m = {}
        for i in range(dims):
            for n in range(nn):
                m[rd(x, st, arr_v, (ids[n], i))] = a[i] + T.tsum([G[i, k] * rd(x, st, arr_x, (ids[n], k)) for k in range(dims)])
        return T.subst(goalterm, m)

    def u_3d(u):
        tu, x, st, crd, vel, vol, L = common(3, S3 + "momentum.cpp")
        call_fn(x, tu.find("SGH3D::get_velgrad"), [obj(x, st, "L", L), obj(x, st, "mesh"), obj(x, st, "x", crd), obj(x, st, "v", vel), obj(x, st, "V", vol)], st, this=obj(x, st, "self"))
        e = T.var("e", "I")
        ne = x.inputs["mesh.num_elems"]
        pc = st.pc + [T.le(num(0), e), T.lt(e, ne)]
        ids = nodes_of(x, e, 8)
        s0 = State()
        X = [[rd(x, s0, crd, (g, d)) for d in range(3)] for g in ids]
        V = [[rd(x, s0, vel, (g, d)) for d in range(3)] for g in ids]
        vol_e = rd(x, s0, vol, (e,))
        G = {(i, j): T.var("G%d%d" % (i, j)) for i in range(3) for j in range(3)}
        a = [T.var("a%d" % i) for i in range(3)]
        for i in range(3):
            for j in range(3):
                v = rd(x, st, L, (e, i, j))
                u.prove("L(%d,%d) = sum v dV/dx / V" % (i, j), pc, T.eq(v, T.div(T.tsum([V[n][i] * geom.hexgrad(X, n, j) for n in range(8)]), vol_e)), x)
                w = T.subst(linear(x, s0, e, 3, 8, crd, vel, v, G, a), {vol_e: geom.hexvol(X)})
                hv = [T.subst(h, {vol_e: geom.hexvol(X)}) for h in pc] + [T.ne(geom.hexvol(X), T.real(0))]
                u.prove("a linear field a + G x has gradient G(%d,%d)" % (i, j), hv, T.eq(w, G[i, j]), x)
        f = T.var("f", "I")
        u.prove("only elements of the mesh are written", st.pc + [T.le(ne, f)], T.eq(rd(x, st, L, (f, num(0), num(0))), T.uf("velgrad", (f, num(0), num(0)), "R")), x)
        u.obligations(x)
    ck.unit("3D gradient", u_3d)

    def u_div(u):
        tu, x, st, crd, vel, vol, L = common(3, S3 + "momentum.cpp")
        dv = MArr("div")
        call_fn(x, tu.find("SGH3D::get_divergence"), [obj(x, st, "L", dv), obj(x, st, "mesh"), obj(x, st, "x", crd), obj(x, st, "v", vel), obj(x, st, "V", vol)], st, this=obj(x, st, "self"))
        e = T.var("e", "I")
        pc = st.pc + [T.le(num(0), e), T.lt(e, x.inputs["mesh.num_elems"])]
        ids = nodes_of(x, e, 8)
        s0 = State()
        X = [[rd(x, s0, crd, (g, d)) for d in range(3)] for g in ids]
        V = [[rd(x, s0, vel, (g, d)) for d in range(3)] for g in ids]
        want = T.div(T.tsum([V[n][i] * geom.hexgrad(X, n, i) for n in range(8) for i in range(3)]), rd(x, s0, vol, (e,)))
        u.prove("divergence = rate of change of the volume over the volume", pc, T.eq(rd(x, st, dv, (e,)), want), x)
        u.obligations(x)
    ck.unit("3D divergence", u_div)

    def u_rz(u, part):
        tu, x, st, crd, vel, vol, L = common(2, SR + "momentum_rz.cpp")
        fn = "SGHRZ::get_velgrad_rz" if part == "grad" else "SGHRZ::get_divergence_rz"
        call_fn(x, tu.find(fn), [obj(x, st, "L", L), obj(x, st, "mesh"), obj(x, st, "x", crd), obj(x, st, "v", vel), obj(x, st, "V", vol)], st, this=obj(x, st, "self"))
        e = T.var("e", "I")
        pc = st.pc + [T.le(num(0), e), T.lt(e, x.inputs["mesh.num_elems"])]
        ids = nodes_of(x, e, 4)
        s0 = State()
        X = [[rd(x, s0, crd, (g, d)) for d in range(2)] for g in ids]
        V = [[rd(x, s0, vel, (g, d)) for d in range(2)] for g in ids]
        vol_e = rd(x, s0, vol, (e,))
        A = geom.quadarea(X)
        plane = {(i, j): T.div(T.tsum([V[n][i] * geom.quadgrad(X, n, j) for n in range(4)]), A) for i in range(2) for j in range(2)}
        hoop = T.div(T.tsum([V[n][1] for n in range(4)]) / 4, T.div(vol_e, A))
        nz = [T.ne(A, T.real(0)), T.ne(vol_e, T.real(0))]
        if part == "grad":
            G = {(i, j): T.var("G%d%d" % (i, j)) for i in range(2) for j in range(2)}
            a = [T.var("a%d" % i) for i in range(2)]
            for (i, j), w in plane.items():
                v = rd(x, st, L, (e, i, j))
                u.prove("RZ: L(%d,%d)" % (i, j), pc + nz, T.eq(v, w), x)
                u.prove("RZ: linear field has gradient G(%d,%d)" % (i, j), pc + [T.ne(A, T.real(0))], T.eq(linear(x, s0, e, 2, 4, crd, vel, v, G, a), G[i, j]), x)
            u.prove("RZ: hoop rate = mean radial velocity over mean radius", pc + nz, T.eq(rd(x, st, L, (e, 2, 2)), hoop), x)
        else:
            u.prove("RZ: divergence = trace of the gradient", pc + nz, T.eq(rd(x, st, L, (e,)), plane[0, 0] + plane[1, 1] + hoop), x)
        u.obligations(x)
    ck.unit("RZ gradient", lambda u: u_rz(u, "grad"))
    ck.unit("RZ divergence", lambda u: u_rz(u, "div"))

    def u_dec(u, fn, src, n):
        tu = ck.tu(src, INCS)
        x = Executor(tu)
        st = State()
        d = {k: rawview(x, st, k, n * n, (n, n)) for k in ("Dm", "W", "L")}
        L = {(i, j): vget(x, st, d["L"], (i, j)) for i in range(n) for j in range(n)}
        call_fn(x, tu.find(fn), [obj(x, st, "a", d["Dm"]), obj(x, st, "b", d["W"]), obj(x, st, "c", d["L"])], st, this=obj(x, st, "self"))
        for i in range(n):
            for j in range(n):
                u.prove("rate of deformation (%d,%d)" % (i, j), st.pc, T.eq(vget(x, st, d["Dm"], (i, j)), (L[i, j] + L[j, i]) / 2), x)
                u.prove("spin (%d,%d)" % (i, j), st.pc, T.eq(vget(x, st, d["W"], (i, j)), (L[i, j] - L[j, i]) / 2), x)
                u.prove("gradient unchanged (%d,%d)" % (i, j), st.pc, T.eq(vget(x, st, d["L"], (i, j)), L[i, j]), x)
        u.obligations(x)
    ck.unit("split 3D", lambda u: u_dec(u, "SGH3D::decompose_vel_grad", S3 + "momentum.cpp", 3))
    ck.unit("split RZ", lambda u: u_dec(u, "SGHRZ::decompose_vel_grad_rz", SR + "momentum_rz.cpp", 2))
    hydro_harness(ck, "C12", ["common/src/geometry_new.cpp", "Solvers/SGH_solver_3D/src/momentum.cpp", "Solvers/SGH_solver_rz/src/momentum_rz.cpp"], 3000 if ck.tier == "quick" else 200000,
                  "random distorted meshes of 1 to 8 hexahedra or 1 to 9 quadrilaterals, shuffled numbering, both loop directions")
