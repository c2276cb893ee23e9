"""C13 corner forces and the velocity update"""
from props.multi import *
from props import geom
from fvc.loops import Acc

S3 = D + "Solvers/SGH_solver_3D/src/"
SR = D + "Solvers/SGH_solver_rz/src/"
FARGS = "Materials mesh vol velgrad eroded corner_force coords vel den sie pres stress sspd mcforce volfrac geo corners elem_in_mat num mat fuzz small dt alpha".split()
FARGS_RZ = "Materials mesh vol velgrad eroded corner_force coords vel den sie pres stress sspd mcforce volfrac geo corners elem_in_mat num mat fuzz tiny small dt alpha".split()


def run(ck):
    def u_force(u, rz):
        n, dims = (4, 2) if rz else (8, 3)
        tu = ck.tu((SR + "force_sgh_rz.cpp") if rz else (S3 + "force_sgh.cpp"), INCS)
        x = Executor(tu)
        geom.install(x, opaque=True)
        distinct_corners(x)
        st = State()
        f = tu.find("SGHRZ::get_force_rz" if rz else "SGH3D::get_force")
        args, a = mk_args(x, st, f, FARGS_RZ if rz else FARGS)
        calls, mats = [], []

        def diss(x, st, thislv, cargs, env, e):
            g = lambda k: argv(x, st, cargs, env, k)
            disp, nrm, el = g(7), g(8), g(14)
            calls.append((st.copy(), [g(k) for k in range(17)]))
            mats.append(fnidx(x, thislv, "Materials.MaterialFunctions"))
            for i in range(n):
                for k in range(dims):
                    x.write(st, x.elem(disp, [num(i), num(k)], st, {}, {}), R, T.add(vget(x, st, disp, (i, k)), T.uf("dissipation", (el, num(i), num(k)), "R")))
            from fvc.execu import Opaque
            return Opaque("void")
        x.contracts["->calc_dissipation"] = diss
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        u.shape("one loop over the material's elements", len(x.regions) == 1, "simplification")
        reg = x.regions[0]
        s, b, t = reg["ivs"][0], reg["before"], reg["after"]
        u.prove("every element of the material is visited", [], T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], a["num"])), x)
        mat = a["mat"]
        e = rd(x, b, a["elem_in_mat"], (mat, s), I)
        # the viscosity model's inputs
        cst, c = calls[0]
        for i in range(n):
            for k in range(dims):
                B = T.uf("normal", (e, num(i), num(k)), "R") if i < n - 1 else T.real(0) - T.tsum([T.uf("normal", (e, num(j), num(k)), "R") for j in range(n - 1)])
                u.prove("dissipation gets the inward normals (%d,%d)" % (i, k), t.pc, T.eq(vget(x, cst, c[8], (i, k)), T.real(0) - B), x)
                u.prove("dissipation starts from zero (%d,%d)" % (i, k), t.pc, T.eq(vget(x, cst, c[7], (i, k)), T.real(0)), x)
            u.prove("dissipation gets the element's nodes (%d)" % i, t.pc, T.eq(x.read(cst, x.elem(c[0], [num(i)], cst, {}, {}), I), rd(x, b, inarr(x, "mesh.nodes_in_elem"), (e, i), I)), x)
        u.shape("dissipation gets the state arrays", c[2] is a["velgrad"] and c[3] is a["eroded"] and c[4] is a["vel"] and c[5] is a["den"] and c[6] is a["sspd"], "simplification")
        u.prove("dissipation gets the volume (area) of the element, its number, point and material", t.pc,
                T.land(T.eq(c[11], T.uf("area", (e,), "R") if rz else rd(x, b, a["vol"], (e,))), T.eq(c[14], T.toreal(e) if c[14].sort == "R" else e), T.eq(c[15], s), T.eq(c[16], mat), T.eq(c[12], a["fuzz"]), T.eq(c[13], a["small"])), x)
        u.prove("the dissipation model is the material's own", t.pc, T.eq(mats[0], mat), x)
        el = c[14]
        isdec = T.eq(rd(x, b, inarr(x, "Materials.MaterialEnums"), (mat,), I, ("EOSType",)), num(enum(tu, "model::decoupledEOSType")))
        er = rd(x, b, a["eroded"], (mat, s), {"k": "bool"})
        w = T.mul(rd(x, b, a["volfrac"], (mat, s)), rd(x, b, a["geo"], (mat, s)))
        p = rd(x, b, a["pres"], (mat, s))
        cid = [rd(x, b, inarr(x, "mesh.corners_in_elem"), (e, k), I) for k in range(n)]
        mc = lambda k: T.add(T.mul(s, x.inputs["corners.num_corners_in_elem_"]), num(k))
        for decv in (True, False):
            hyp = t.pc + [T.lnot(er), isdec if decv else T.lnot(isdec)]
            sig = {(i, j): rd(x, b, a["stress"], (mat, s, i, j)) - (p if decv and i == j else T.real(0)) for i in range(3) for j in range(3)}
            for k in range(n):
                for d in range(dims):
                    nn = [T.real(0) - (T.uf("normal", (e, num(k), num(i)), "R") if k < n - 1 else T.real(0) - T.tsum([T.uf("normal", (e, num(j), num(i)), "R") for j in range(n - 1)])) for i in range(dims)]
                    F = T.tsum([nn[i] * sig[i, d] for i in range(dims)]) + T.uf("dissipation", (el, num(k), num(d)), "R")
                    if rz:
                        rad = T.div(rd(x, b, a["vol"], (e,)), T.uf("area", (e,), "R"))
                        ca = T.uf("corner_area", (e, num(k)), "R")
                        F = F + T.div((sig[1, 0] if d == 0 else sig[1, 1] - sig[2, 2]) * ca, rad)
                        hyp2 = hyp + [T.ne(rad, T.real(0)), T.ne(T.uf("area", (e,), "R"), T.real(0)), T.ne(rd(x, b, a["vol"], (e,)), T.real(0))]
                    else:
                        hyp2 = hyp
                    lab = "%s corner %d direction %d" % ("decoupled EOS," if decv else "coupled EOS,", k, d)
                    u.prove("corner force: " + lab, hyp2, T.eq(rd(x, t, a["corner_force"], (cid[k], d)), rd(x, b, a["corner_force"], (cid[k], d)) + F * w), x)
                    u.prove("material corner force: " + lab, hyp2, T.eq(rd(x, t, a["mcforce"], (mat, mc(k), d)), F * w), x)
        for k in range(n):
            for d in range(dims):
                hyp = t.pc + [er]
                u.prove("eroded: corner %d direction %d adds nothing" % (k, d), hyp, T.eq(rd(x, t, a["corner_force"], (cid[k], d)), rd(x, b, a["corner_force"], (cid[k], d))), x)
                u.prove("eroded: material corner force %d,%d is zero" % (k, d), hyp, T.eq(rd(x, t, a["mcforce"], (mat, mc(k), d)), T.real(0)), x)
        q = T.var("q", "I")
        u.prove("no corner of another element is touched", t.pc + [T.ne(q, i) for i in cid], T.eq(rd(x, t, a["corner_force"], (q, 0)), rd(x, b, a["corner_force"], (q, 0))), x)
        # conservation lemma: with normals that sum to zero and dissipation that sums to zero the element's net force vanishes
        if not rz:
            tot = {}
            for d in range(dims):
                tot = T.tsum([rd(x, t, a["corner_force"], (cid[k], d)) - rd(x, b, a["corner_force"], (cid[k], d)) for k in range(n)])
                last = T.uf("dissipation", (el, num(n - 1), num(d)), "R")
                bal = T.eq(last, T.real(0) - T.tsum([T.uf("dissipation", (el, num(k), num(d)), "R") for k in range(n - 1)]))
                tot = T.subst(tot, {last: bal.args[1] if bal.args[0] is last else bal.args[0]})
                u.prove("the corners of an element exert no net force, direction %d" % d, t.pc, T.eq(tot, T.real(0)), x)
        u.obligations(x)
    ck.unit("corner force 3D", lambda u: u_force(u, False))
    ck.unit("corner force RZ", lambda u: u_force(u, True))

    def u_vel(u, rz):
        dims = 2 if rz else 3
        tu = ck.tu((SR + "momentum_rz.cpp") if rz else (S3 + "momentum.cpp"), INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"] = dims
        st = State()
        f = tu.find("SGHRZ::update_velocity_rz" if rz else "SGH3D::update_velocity")
        args, a = mk_args(x, st, f, "alpha dt mesh vel vel0 mass corner_force".split() if rz else "alpha dt mesh vel vel0 mass force corner_force contact doing".split())
        node = T.var("node", "I")
        specs = []

        def summand(d):
            def sm(k):
                n = x.cur_node
                c = T.uf("mesh.corners_in_node", (n, k), "I")
                return T.uf("corner_force", (c, num(d)), "R")
            return sm

        class A(Acc):
            def run(self, x, s, st, env, *r):
                g = [v for v in T.free_vars(list(st.pc)) if str(v.val).startswith("i_")]
                x.cur_node = g[0]
                self.specs = [("sum_corner_force", (g[0], num(d)), summand(d)) for d in range(dims)]
                return Acc.run(self, x, s, st, env, *r)
        acc = A()
        x.loops["*"] = acc
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        nn = x.inputs["mesh.num_nodes"]
        pc = st.pc + [T.le(num(0), node), T.lt(node, nn)]
        s0 = State()
        u.shape("the corners of the node are summed", len(acc.seen) >= dims and not acc.unmatched, "induction", note="unmatched: %s" % acc.unmatched)
        for d in range(dims):
            tot = T.uf("sum_corner_force", (node, num(d), T.uf("mesh.num_corners_in_node", (node,), "I")), "R")
            if not rz:
                tot = tot + rd(x, s0, a["force"], (node, d))
            m = rd(x, s0, a["mass"], (node,))
            v = rd(x, st, a["vel"], (node, d))
            acc_ = lambda F: T.eq(v, rd(x, s0, a["vel0"], (node, d)) + a["alpha"] * a["dt"] * F / m)
            if rz:
                u.prove("RZ: v = v0 + alpha dt (sum of the node's corner forces)/m, direction %d" % d, pc + [T.ne(m, T.real(0))], acc_(tot), x)
            else:
                u.prove("v = v0 + alpha dt (sum of the node's corner forces)/m, direction %d" % d, pc + [T.ne(m, T.real(0)), T.lnot(a["doing"])], acc_(tot), x)
                u.prove("with contact: plus the contact force, direction %d" % d, pc + [T.ne(m, T.real(0)), a["doing"]], acc_(tot + rd(x, s0, a["contact"], (node, d))), x)
        u.obligations(x)
    ck.unit("velocity update 3D", lambda u: u_vel(u, False))
    ck.unit("velocity update RZ", lambda u: u_vel(u, True))

    def u_zero(u, rz):
        dims = 2 if rz else 3
        tu = ck.tu((SR + "sgh_execute_rz.cpp") if rz else (S3 + "sgh_execute.cpp"), INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"] = dims
        st = State()
        f = tu.find("set_corner_force_zero_rz" if rz else "set_corner_force_zero")
        args, a = mk_args(x, st, f, ["mesh", "corner_force"])
        call_fn(x, f, args, st)
        c = T.var("c", "I")
        pc = st.pc + [T.le(num(0), c), T.lt(c, x.inputs["mesh.num_corners"])]
        for d in range(dims):
            u.prove("every corner force starts from zero, direction %d" % d, pc, T.eq(rd(x, st, a["corner_force"], (c, d)), T.real(0)), x)
        u.obligations(x)
    ck.unit("zero forces 3D", lambda u: u_zero(u, False))
    ck.unit("zero forces RZ", lambda u: u_zero(u, True))
    hydro_harness(ck, "C13", ["common/src/geometry_new.cpp"] + ["Solvers/SGH_solver_3D/src/%s.cpp" % f for f in ("momentum", "force_sgh", "sgh_execute")] + ["Solvers/SGH_solver_rz/src/%s_rz.cpp" % f for f in ("momentum", "force_sgh", "sgh_execute")],
                  3000 if ck.tier == "quick" else 200000, "random distorted meshes of 1 to 8 hexahedra or 1 to 9 quadrilaterals, 1 to 3 materials per element, some eroded, both loop directions")
