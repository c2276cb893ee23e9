"""C21 heat conduction"""
from props.multi import *
from props import geom
from props.c19 import distinct_patch_nodes
from fvc.loops import Any, Acc

S = D + "Solvers/SGTM_solver_3D/src/"
HF = "Materials mesh vol coords temp flux cond grad corner_q corners eroded elem_in_mat num mat fuzz small dt alpha".split()
MF = "Materials mesh vol coords corner_q source corners elem_in_mat num power mat fuzz small dt alpha".split()
UT = "mesh corner_q temp temp0 mass node_q cp nmat mats sid alpha dt".split()
UP = "Materials mesh temp den cond cp elem_in_mat num mat".split()
B = {"k": "bool"}


def unite(t, pc):
    return t


def run(ck):
    zero = T.real(0)

    def u_flux(u):
        tu = ck.tu(S + "heat_flux.cpp", INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"], x.binds["mesh.num_nodes_in_elem"] = 3, 8
        geom.install(x, opaque=True)
        distinct_corners(x)
        st = State()
        f = tu.find("SGTM3D::get_heat_flux")
        args, a = mk_args(x, st, f, HF)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        u.shape("one loop over the material's elements", len(x.regions) == 1)
        reg = x.regions[0]
        s, b, t = reg["ivs"][0], reg["before"], reg["after"]
        u.prove("every element of the material is visited", [], T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], a["num"])), x)
        mat, s0 = a["mat"], State()
        e = rd(x, s0, a["elem_in_mat"], (mat, s), I)
        N = [rd(x, s0, inarr(x, "mesh.nodes_in_elem"), (e, k), I) for k in range(8)]
        Tn = [rd(x, s0, a["temp"], (n,)) for n in N]
        Bm = [[T.uf("normal", (e, num(i), num(k)), "R") for k in range(3)] for i in range(7)]
        Bm.append([zero - T.tsum([Bm[i][k] for i in range(7)]) for k in range(3)])
        V = rd(x, s0, a["vol"], (e,))
        g = [T.tsum([Tn[i] * Bm[i][d] for i in range(8)]) / V for d in range(3)]
        k = rd(x, s0, a["cond"], (mat, s))
        pc = t.pc + [T.ne(V, zero)]
        q = [rd(x, t, a["flux"], (mat, s, d)) for d in range(3)]
        for d in range(3):
            u.prove("temperature gradient of the element (%d)" % d, pc, T.eq(rd(x, t, a["grad"], (mat, s, d)), g[d]), x)
            u.prove("heat flux is minus conductivity times the gradient (%d)" % d, pc, T.eq(q[d], zero - k * g[d]), x)
        c = [rd(x, s0, inarr(x, "mesh.corners_in_elem"), (e, i), I) for i in range(8)]
        r = [rd(x, t, a["corner_q"], (c[i],)) for i in range(8)]
        for i in range(8):
            u.prove("heat entering at corner %d is the flux through its normal" % i, pc, T.eq(r[i], T.tsum([zero - k * g[d] * Bm[i][d] for d in range(3)])), x)
        u.prove("an element only moves heat between its corners", pc, T.eq(T.tsum(r), zero), x)
        # the rest of the statement concerns the proved corner rates
        G = [T.var("g%d" % d) for d in range(3)]
        kk, VV = T.var("k"), T.var("V")
        u.prove("lemma: heat flows from hot to cold: sum of T x rate = -k V |grad T|^2 <= 0", [T.le(zero, kk), T.lt(zero, VV)], T.le(zero - kk * VV * T.tsum([i * i for i in G]), zero))
        avg = T.tsum(Tn) / 8
        er0, er1 = rd(x, b, a["eroded"], (mat, s), B), rd(x, t, a["eroded"], (mat, s), B)
        u.prove("points at or above 900 on average are switched off", t.pc + [T.le(T.real(900), avg)], er1, x)
        u.prove("others keep their state", t.pc + [T.lt(avg, T.real(900))], T.eq(er1, er0) if er0.sort == "B" else T.eq(er0, er1), x)
        j = T.var("j", "I")
        u.prove("no other corner gets heat", t.pc + [T.ne(j, i) for i in c], T.eq(rd(x, t, a["corner_q"], (j,)), rd(x, b, a["corner_q"], (j,))), x)
        m2 = T.var("m2", "I")
        for nm in ("flux", "grad"):
            u.prove("other points' %s stay" % nm, t.pc + [T.lor(T.ne(m2, mat), T.ne(j, s))], T.eq(rd(x, t, a[nm], (m2, j, T.var("d", "I"))), rd(x, b, a[nm], (m2, j, T.var("d", "I")))), x)
        u.obligations(x)
    ck.unit("heat flux", u_flux)

    def u_moving(u):
        tu = ck.tu(S + "heat_flux.cpp", INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"], x.binds["mesh.num_nodes_in_elem"] = 3, 8
        distinct_corners(x)
        st = State()
        f = tu.find("SGTM3D::moving_flux")
        args, a = mk_args(x, st, f, MF)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        u.shape("one loop over the material's elements", len(x.regions) == 1)
        reg = x.regions[0]
        s, b, t = reg["ivs"][0], reg["before"], reg["after"]
        u.prove("every element of the material is visited", [], T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], a["num"])), x)
        mat, s0 = a["mat"], State()
        e = rd(x, s0, a["elem_in_mat"], (mat, s), I)
        N = [rd(x, s0, inarr(x, "mesh.nodes_in_elem"), (e, k), I) for k in range(8)]
        d2 = T.tsum([T.sq(rd(x, s0, a["source"], (d,)) - T.tsum([rd(x, s0, a["coords"], (n, d)) for n in N]) / 8) if hasattr(T, "sq") else
                     (rd(x, s0, a["source"], (d,)) - T.tsum([rd(x, s0, a["coords"], (n, d)) for n in N]) / 8) * (rd(x, s0, a["source"], (d,)) - T.tsum([rd(x, s0, a["coords"], (n, d)) for n in N]) / 8) for d in range(3)])
        V = rd(x, s0, a["vol"], (e,))
        c = [rd(x, s0, inarr(x, "mesh.corners_in_elem"), (e, i), I) for i in range(8)]
        sphere = T.real(Fraction(4, 3) * Fraction("3.14159") * 512)
        add = a["power"] / sphere * V / 8
        for i in range(8):
            o, n = rd(x, b, a["corner_q"], (c[i],)), rd(x, t, a["corner_q"], (c[i],))
            u.prove("within the radius corner %d gets an eighth of the element's heating" % i, t.pc + [T.le(d2, T.real(64))], T.eq(n, o + add), x)
            u.prove("outside the radius corner %d gets nothing" % i, t.pc + [T.lt(T.real(64), d2)], T.eq(n, o), x)
        j = T.var("j", "I")
        u.prove("no other corner is heated", t.pc + [T.ne(j, i) for i in c], T.eq(rd(x, t, a["corner_q"], (j,)), rd(x, b, a["corner_q"], (j,))), x)
        u.obligations(x)
    ck.unit("moving source", u_moving)

    def u_temp(u):
        tu = ck.tu(S + "temperature_sgtm.cpp", INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGTM3D::update_temperature")
        args, a = mk_args(x, st, f, UT)

        s0 = State()

        def cp(e, m, n):
            mt, sd = T.uf("mats", (e, m), "I"), T.uf("sid", (e, m), "I")
            return T.uf("cp", (mt, sd), "R") / (T.uf("nmat", (e,), "I") * T.uf("mesh.num_corners_in_node", (n,), "I"))

        class A(Acc):
            def run(self, x, s, st, env, *r):
                n = [v for v in T.free_vars(list(st.pc)) if str(v.val).startswith("i_")][0]
                # the element, while inside the loop over the elements of the node
                ks = [v for v in st.store.values() if isinstance(v, T.Term) and v.op == "uf" and v.val == "mesh.elems_in_node"]
                self.specs = [("node_rate", (n,), lambda k: T.uf("corner_q", (T.uf("mesh.corners_in_node", (n, k), "I"),), "R"))]
                for e in ks:
                    self.specs.append(("cp_of_elem", (e, n), lambda k, e=e: cp(e, k, n)))

                def outer(k):
                    e = T.uf("mesh.elems_in_node", (n, k), "I")
                    return T.uf("cp_of_elem", (e, n, T.uf("nmat", (e,), "I")), "R")
                self.specs.append(("cp_around_node", (n,), outer))
                return Acc.run(self, x, s, st, env, *r)
        acc = A()
        x.loops["*"] = acc
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        u.shape("corner rates and specific heats are summed", {"node_rate", "cp_of_elem", "cp_around_node"} <= set(acc.seen) and not acc.unmatched, "induction", note="seen %s, unmatched %s" % (acc.seen, acc.unmatched))
        n = T.var("node", "I")
        nn = x.inputs["mesh.num_nodes"]
        pc = st.pc + [T.le(num(0), n), T.lt(n, nn)]
        nc = T.uf("mesh.num_corners_in_node", (n,), "I")
        rate = rd(x, s0, a["node_q"], (n,)) + T.uf("node_rate", (n, nc), "R")
        C = T.uf("cp_around_node", (n, nc), "R")
        m = rd(x, s0, a["mass"], (n,))
        hy = pc + [T.lt(zero, m), T.lt(zero, C)]
        u.prove("temperature advances from the step start by step x (boundary + corner rates) / (mass x mean specific heat)", hy, T.eq(rd(x, st, a["temp"], (n,)), rd(x, s0, a["temp0"], (n,)) + a["alpha"] * a["dt"] * rate / (m * C)), x)
        u.prove("the node's rate is the boundary rate plus every corner's", pc, T.eq(rd(x, st, a["node_q"], (n,)), rate), x)
        u.prove("step-start temperatures stay", pc, T.eq(rd(x, st, a["temp0"], (n,)), rd(x, s0, a["temp0"], (n,))), x)
        c1 = T.var("c1")
        u.prove("lemma: equal specific heats give themselves as mean (8 elements of 2 materials)", [], T.eq(T.tsum([c1 / (2 * 8) for _ in range(16)]), c1))
        u.obligations(x)
    ck.unit("temperature update", u_temp)

    def u_props(u):
        tu = ck.tu(S + "properties.cpp", INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGTM3D::update_properties")
        args, a = mk_args(x, st, f, UP)
        log = {}

        def model(nm, arr):
            def c(x, st, thislv, cargs, env, e):
                tv = argv(x, st, cargs, env, 1)
                log[nm] = (fnidx(x, thislv, "Materials.MaterialFunctions"), tv)
                return T.uf(nm, (fnidx(x, thislv, "Materials.MaterialFunctions"), tv), "R")
            return c
        for nm in ("density", "thermal_conductivity", "specific_heat"):
            x.contracts["->get_%s_from_temperature" % nm] = model(nm, None)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        s0 = State()
        s, mat = T.var("s", "I"), a["mat"]
        pc = st.pc + [T.le(num(0), s), T.lt(s, a["num"])]
        e = rd(x, s0, a["elem_in_mat"], (mat, s), I)
        avg = T.tsum([rd(x, s0, a["temp"], (rd(x, s0, inarr(x, "mesh.nodes_in_elem"), (e, k), I),)) for k in range(8)]) / 8
        r = x.regions[-1]
        sr = r["ivs"][0]
        for nm, arr in (("density", "den"), ("thermal_conductivity", "cond"), ("specific_heat", "cp")):
            u.shape("%s comes from its model" % nm, nm in log)
            er = rd(x, s0, a["elem_in_mat"], (mat, sr), I)
            av = T.subst(avg, {s: sr})
            u.prove("%s model is the material's own" % nm, r["after"].pc, T.eq(log[nm][0], mat), x)
            u.prove("%s model gets the mean temperature of the element's nodes" % nm, r["after"].pc, T.eq(log[nm][1], av), x)
            u.prove("%s of every point is what its model returns" % nm, r["after"].pc, T.eq(rd(x, r["after"], a[arr], (mat, sr)), T.uf(nm, log[nm], "R")), x)
        u.prove("every element of the material is visited", [], T.land(T.eq(r["rng"][0][0], num(0)), T.eq(r["rng"][0][1], a["num"])), x)
        u.obligations(x)
    ck.unit("properties", u_props)

    def u_pos(u):
        tu = ck.tu(S + "position.cpp", INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGTM3D::update_position")
        args, a = mk_args(x, st, f, "alpha dt dims num coords coords0 vel vel0".split())
        args[2] = num(3)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        n, s0 = T.var("n", "I"), State()
        pc = st.pc + [T.le(num(0), n), T.lt(n, T.var("num", "I"))]
        for d in range(3):
            u.prove("position advances with the mean velocity, direction %d" % d, pc, T.eq(rd(x, st, a["coords"], (n, d)), rd(x, s0, a["coords0"], (n, d)) + a["alpha"] * a["dt"] * (rd(x, s0, a["vel"], (n, d)) + rd(x, s0, a["vel0"], (n, d))) / 2), x)
        u.obligations(x)
    ck.unit("position", u_pos)

    def u_init(u):
        tu = ck.tu(S + "time_integration.cpp", INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGTM3D::rk_init")
        args, a = mk_args(x, st, f, "coords coords0 vel vel0 temp temp0 node_q stress dims nelem nnode npoint".split())
        args[8] = num(3)
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        n, s0 = T.var("n", "I"), State()
        pc = st.pc + [T.le(num(0), n), T.lt(n, T.var("nnode", "I"))]
        for d in range(3):
            u.prove("step start saves coordinate %d" % d, pc, T.eq(rd(x, st, a["coords0"], (n, d)), rd(x, s0, a["coords"], (n, d))), x)
        u.prove("step start saves the temperature", pc, T.eq(rd(x, st, a["temp0"], (n,)), rd(x, s0, a["temp"], (n,))), x)
        u.prove("step start keeps the temperature", pc, T.eq(rd(x, st, a["temp"], (n,)), rd(x, s0, a["temp"], (n,))), x)
        u.obligations(x)
    ck.unit("step start", u_init)

    def u_const(u):
        tu = ck.tu(os.path.join(VERIF, "fvc/tu/bc.cpp"), INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("ConstantTemperatureBC::temperature")
        args, a = mk_args(x, st, f, "mesh enums vars state temp time rk_stage node set".split())
        call_fn(x, f, args, st)
        s0 = State()
        u.prove("the node takes the temperature of its set", st.pc, T.eq(rd(x, st, a["temp"], (a["node"],)), rd(x, s0, a["vars"], (a["set"], 0))), x)
        j = T.var("j", "I")
        u.prove("no other node changes", st.pc + [T.ne(j, a["node"])], T.eq(rd(x, st, a["temp"], (j,)), rd(x, s0, a["temp"], (j,))), x)
        u.obligations(x)
    ck.unit("ConstantTemperatureBC", u_const)

    def u_fixed(u):
        tu = ck.tu(S + "boundary.cpp", INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGTM3D::boundary_temperature")
        args, a = mk_args(x, st, f, "mesh BC temp time".split())
        log, ghost = [], MArr("times_applied")

        def model(x, st, thislv, cargs, env, e):
            v = [argv(x, st, cargs, env, k) for k in range(len(cargs))]
            iv = [i for i in T.free_vars(list(st.pc)) if str(i.val).startswith("i_")]
            log.append((st.copy(), v, iv, fnidx(x, thislv, "BC.BoundaryConditionFunctions")))
            x.write(st, ElemLV(ghost, (v[8], iv[0])), I, T.add(rd(x, st, ghost, (v[8], iv[0]), I), num(1)))
            return Opaque("void")
        x.contracts["->temperature"] = model
        loop = Any()
        x.loops["*"] = loop
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        s0 = State()
        u.shape("one loop over the boundary sets", len(loop.iters) == 1 and len(log) >= 1)
        it = loop.iters[0]
        bset = it["iv"]
        u.prove("every boundary set is visited", [], T.land(T.eq(it["lo"], num(0)), T.eq(it["hi"], x.inputs["mesh.num_bdy_sets"])), x)
        cs, v, iv, fi = log[-1]
        u.prove("set, model, node and time are right", cs.pc, T.land(T.eq(v[8], bset), T.eq(fi, bset), T.eq(v[5], a["time"]), T.eq(v[7], rd(x, s0, inarr(x, "mesh.bdy_nodes_in_set"), (bset, iv[0]), I))), x)
        u.shape("the model gets the temperatures and the temperature parameters", v[4] is a["temp"] and v[2] is inarr(x, "BC.temperature_bc_global_vars"))
        kind = T.eq(rd(x, s0, inarr(x, "BC.BoundaryConditionEnums"), (bset,), I, ("BCTemperatureModel",)), num(enum(tu, "boundary_conditions::constantTemperatureBC")))
        j = T.var("j", "I")
        n = rd(x, s0, inarr(x, "mesh.num_bdy_nodes_in_set"), (bset,), I)
        b, t = it["before"], it["after"]
        gh = lambda s, p, j: rd(x, s, ghost, (p, j), I)
        u.prove("a fixed-temperature set's model is applied once to each of its nodes", t.pc + [kind, T.le(num(0), j), T.lt(j, n)], T.eq(gh(t, bset, j), T.add(gh(b, bset, j), num(1))), x)
        u.prove("other sets are left alone", t.pc + [T.lnot(kind)], T.eq(gh(t, bset, j), gh(b, bset, j)), x)
        p = T.var("p", "I")
        u.prove("nothing else is touched", t.pc + [T.lnot(T.land(T.eq(p, bset), T.le(num(0), j), T.lt(j, n)))], T.eq(gh(t, p, j), gh(b, p, j)), x)
        u.prove("nothing else changes the temperatures", t.pc, T.eq(rd(x, t, a["temp"], (p,)), rd(x, b, a["temp"], (p,))), x)
        u.obligations(x)
    ck.unit("fixed temperatures", u_fixed)

    def u_surf(u, which):
        conv = which == "convection"
        tu = ck.tu(S + "boundary.cpp", INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"], x.binds["mesh.num_nodes_in_patch"] = 3, 4
        distinct_patch_nodes(x)
        st = State()
        f = tu.find("SGTM3D::boundary_" + which)
        args, a = mk_args(x, st, f, "mesh BC temp node_q coords time".split())
        loop = Any()
        x.loops["*"] = loop
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        s0 = State()
        u.shape("one loop over the boundary sets", len(loop.iters) == 1)
        it = loop.iters[0]
        bset = it["iv"]
        u.prove("every boundary set is visited", [], T.land(T.eq(it["lo"], num(0)), T.eq(it["hi"], x.inputs["mesh.num_bdy_sets"])), x)
        regs = [r for r in it["regions"] if r["ivs"]]
        u.shape("one loop over the set's patches", len(regs) == 1)
        reg = regs[0]
        i, b, t = reg["ivs"][0], reg["before"], reg["after"]
        kind = T.eq(rd(x, s0, inarr(x, "BC.BoundaryConditionEnums"), (bset,), I, ("BCTemperatureModel",)), num(enum(tu, "boundary_conditions::%sTemperatureBC" % which)))
        u.prove("only %s sets exchange heat" % which, t.pc, kind, x)
        q = T.var("q", "I")
        u.prove("other sets exchange none", it["after"].pc + [T.lnot(kind)], T.eq(rd(x, it["after"], a["node_q"], (q,)), rd(x, it["before"], a["node_q"], (q,))), x)
        np_ = x.aread(s0, x.strides[inarr(x, "mesh.bdy_patches_in_set").id], (bset,), (), I)
        u.prove("every patch of the set is visited", b.pc, T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], np_)), x)
        patch = rd(x, s0, inarr(x, "mesh.bdy_patches_in_set"), (bset, i), I)
        node = [rd(x, s0, inarr(x, "mesh.nodes_in_patch"), (patch, k), I) for k in range(4)]
        X = [[rd(x, s0, a["coords"], (n, d)) for d in range(3)] for n in node]

        def tri(p, q, r):
            ab, ac = [X[q][d] - X[p][d] for d in range(3)], [X[r][d] - X[p][d] for d in range(3)]
            c = [ab[1] * ac[2] - ab[2] * ac[1], ab[2] * ac[0] - ab[0] * ac[2], ab[0] * ac[1] - ab[1] * ac[0]]
            return T.sqrt(T.tsum([w * w for w in c]) / 4)
        area = tri(0, 1, 2) + tri(2, 3, 0)
        for k in range(4):
            Tk = rd(x, s0, a["temp"], (node[k],))
            h = zero - T.real(100) * (Tk - T.real(Fraction("293.15"))) if conv else zero - T.real(Fraction(1, 5) * Fraction("5.67037442e-8")) * Tk * Tk * Tk * Tk
            u.prove("node %d of a patch exchanges heat through a quarter of the patch's two triangles" % k, t.pc, T.eq(rd(x, t, a["node_q"], (node[k],)), rd(x, b, a["node_q"], (node[k],)) + h * area / 4), x)
        u.prove("no other node exchanges heat", t.pc + [T.ne(q, n) for n in node], T.eq(rd(x, t, a["node_q"], (q,)), rd(x, b, a["node_q"], (q,))), x)
        u.prove("temperatures stay", t.pc, T.eq(rd(x, t, a["temp"], (q,)), rd(x, s0, a["temp"], (q,))), x)
        u.obligations(x)
    ck.unit("convection", lambda u: u_surf(u, "convection"))
    ck.unit("radiation", lambda u: u_surf(u, "radiation"))
    hydro_harness(ck, "C21", ["common/src/geometry_new.cpp"] + ["Solvers/SGTM_solver_3D/src/%s.cpp" % f for f in ("heat_flux", "temperature_sgtm", "position", "properties", "time_integration", "boundary")],
                  3000 if ck.tier == "quick" else 300000, "random meshes of 1 to 12 hexahedra with 1 to 3 materials, one per element; moving source inside, across and outside the mesh; any mix of boundary conditions", harness="heat.cpp")
