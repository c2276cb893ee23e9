"""C20 corner and nodal masses"""
from props.multi import *
from props import geom
from fvc.loops import Any, Acc

RF = D + "common/src/region_fill.cpp"
SR = D + "Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp"
ER = D + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp"


def run(ck):
    def u_zero(u, rz):
        tu = ck.tu(SR if rz else RF, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGHRZ::init_corner_node_masses_zero_rz" if rz else "init_corner_node_masses_zero")
        args, a = mk_args(x, st, f, "mesh node corner".split())
        call_fn(x, f, args, st, **({"this": obj(x, st, "self")} if rz else {}))
        q = T.var("q", "I")
        for n, c in (("node", "mesh.num_nodes"), ("corner", "mesh.num_corners")):
            u.prove("every %s mass starts from zero" % n, st.pc + [T.le(num(0), q), T.lt(q, x.inputs[c])], T.eq(rd(x, st, a[n], (q,)), T.real(0)), x)
        u.obligations(x)
    ck.unit("zero masses 3D", lambda u: u_zero(u, False))
    ck.unit("zero masses RZ", lambda u: u_zero(u, True))

    def u_corner(u, rz):
        n = 4 if rz else 8
        tu = ck.tu(SR if rz else RF, INCS)
        x = Executor(tu)
        x.binds["mesh.num_nodes_in_elem"] = n
        x.binds["mesh.num_dims"] = 2 if rz else 3
        distinct_corners(x)
        if rz:
            geom.install(x, opaque=True)
        st = State()
        f = tu.find("calc_corner_mass_rz" if rz else "calc_corner_mass")
        args, a = mk_args(x, st, f, ("Materials mesh coords node corner den volfrac geo elem_in_mat num mat" if rz else "Materials mesh coords node corner mass elem_in_mat num mat").split())
        call_fn(x, f, args, st)
        u.shape("one loop over the material's elements", len(x.regions) == 1)
        reg = x.regions[0]
        s, b, t = reg["ivs"][0], reg["before"], reg["after"]
        u.prove("every element of the material is visited", [], T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], a["num"])), x)
        mat = a["mat"]
        e = rd(x, b, a["elem_in_mat"], (mat, s), I)
        c = [rd(x, b, inarr(x, "mesh.corners_in_elem"), (e, k), I) for k in range(n)]
        pt = lambda k: rd(x, b, a[k], (mat, s))
        d = [rd(x, t, a["corner"], (c[k],)) - rd(x, b, a["corner"], (c[k],)) for k in range(n)]
        for k in range(n):
            w = T.uf("corner_area", (e, num(k)), "R") * pt("den") * pt("volfrac") * pt("geo") if rz else pt("mass") / T.real(8)
            u.prove("corner %d gets its share" % k, t.pc, T.eq(d[k], w), x)
        if not rz:
            u.prove("the corners share the whole mass", t.pc, T.eq(T.tsum(d), pt("mass")), x)
        else:
            u.prove("the corners share density times the corner areas times the material's part of the element", t.pc, T.eq(T.tsum(d), T.tsum([T.uf("corner_area", (e, num(k)), "R") for k in range(4)]) * pt("den") * pt("volfrac") * pt("geo")), x)
        q = T.var("q", "I")
        u.prove("no other corner is touched", t.pc + [T.ne(q, k) for k in c], T.eq(rd(x, t, a["corner"], (q,)), rd(x, b, a["corner"], (q,))), x)
        u.prove("node masses are not touched", t.pc, T.eq(rd(x, t, a["node"], (q,)), rd(x, b, a["node"], (q,))), x)
        u.obligations(x)
    ck.unit("corner masses 3D", lambda u: u_corner(u, False))
    ck.unit("corner masses RZ", lambda u: u_corner(u, True))

    def u_node(u, rz):
        tu = ck.tu(SR if rz else RF, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("calc_node_mass_rz" if rz else "calc_node_mass")
        args, a = mk_args(x, st, f, "mesh coords node corner".split())
        loop = Any()
        x.loops["*"] = loop
        call_fn(x, f, args, st)
        u.shape("one loop over nodes, one over the node's corners", len(x.regions) == 1 and len(loop.iters) == 1)
        reg, it = x.regions[0], loop.iters[0]
        n, k = reg["ivs"][0], it["iv"]
        s0 = State()
        u.prove("every node is visited", [], T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], x.inputs["mesh.num_nodes"])), x)
        u.prove("every corner of the node is visited", [], T.land(T.eq(it["lo"], num(0)), T.eq(it["hi"], rd(x, s0, inarr(x, "mesh.num_corners_in_node"), (n,), I))), x)
        b, t = it["before"], it["after"]
        c = rd(x, s0, inarr(x, "mesh.corners_in_node"), (n, k), I)
        q = T.var("q", "I")
        u.prove("the corner's mass is added to the node", t.pc, T.eq(rd(x, t, a["node"], (n,)), rd(x, b, a["node"], (n,)) + rd(x, b, a["corner"], (c,))), x)
        u.prove("no other node changes", t.pc + [T.ne(q, n)], T.eq(rd(x, t, a["node"], (q,)), rd(x, b, a["node"], (q,))), x)
        r = rd(x, s0, a["coords"], (n, 1))
        w = rd(x, b, a["corner"], (c,))
        u.prove("the corner mass becomes true mass (times the node's radius)" if rz else "the corner mass stays", t.pc, T.eq(rd(x, t, a["corner"], (c,)), w * r if rz else w), x)
        u.prove("no other corner changes", t.pc + [T.ne(q, c)], T.eq(rd(x, t, a["corner"], (q,)), rd(x, b, a["corner"], (q,))), x)
        # nothing happens before the loop
        rb = reg["before"]
        u.obligations(x)
    ck.unit("node masses 3D", lambda u: u_node(u, False))
    ck.unit("node masses RZ", lambda u: u_node(u, True))

    def u_ext(u):
        tu = ck.tu(ER, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("calc_node_extensive_mass_rz")
        args, a = mk_args(x, st, f, "ext coords node num".split())
        args[3] = a["num"] = T.var("num_nodes", "I")     # the caller passes the mesh's node count
        st.pc.append(T.le(num(0), a["num"]))
        call_fn(x, f, args, st)
        q = T.var("q", "I")
        s0 = State()
        u.prove("true nodal mass is areal mass times radius", st.pc + [T.le(num(0), q), T.lt(q, x.regions[0]["rng"][0][1])], T.eq(rd(x, st, a["ext"], (q,)), rd(x, s0, a["node"], (q,)) * rd(x, s0, a["coords"], (q, 1))), x)
        hi = x.regions[0]["rng"][0][1]
        u.prove("every node is visited", [], T.land(T.eq(x.regions[0]["rng"][0][0], num(0)), T.eq(hi, a["num"])), x)
        u.prove("areal masses stay", st.pc, T.eq(rd(x, st, a["node"], (q,)), rd(x, s0, a["node"], (q,))), x)
        u.obligations(x)
    ck.unit("extensive nodal mass RZ", u_ext)

    def u_areal(u):
        tu = ck.tu(ER, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("calc_node_areal_mass_rz")
        args, a = mk_args(x, st, f, "mesh coords node ext tiny".split())
        loop = Any()
        x.loops["*"] = loop
        call_fn(x, f, args, st)
        u.shape("a loop over nodes, then one over boundary nodes and their neighbours", len(x.regions) == 2 and len(loop.iters) == 1)
        (r1, r2), it = x.regions, loop.iters[0]
        s0 = State()
        q = T.var("q", "I")
        rad = rd(x, s0, a["coords"], (q, 1))
        mid = r2["before"]
        pc = st.pc + [T.le(num(0), q), T.lt(q, x.inputs["mesh.num_nodes"])]
        pos = [T.lt(T.real(0), a["tiny"])]
        u.prove("off the axis: areal mass is the constant true mass over the radius", pc + pos + [T.lt(a["tiny"], rad)], T.eq(rd(x, mid, a["node"], (q,)), rd(x, s0, a["ext"], (q,)) / rad), x)
        u.prove("on the axis: starts from zero", pc + pos + [T.le(rad, a["tiny"])], T.eq(rd(x, mid, a["node"], (q,)), T.real(0)), x)
        i = r2["ivs"][0]
        u.prove("every boundary node is visited", [], T.land(T.eq(r2["rng"][0][0], num(0)), T.eq(r2["rng"][0][1], x.inputs["mesh.num_bdy_nodes"])), x)
        n = rd(x, s0, inarr(x, "mesh.bdy_nodes"), (i,), I)
        u.prove("every neighbour of a boundary node is visited", [], T.land(T.eq(it["lo"], num(0)), T.eq(it["hi"], rd(x, s0, inarr(x, "mesh.num_nodes_in_node"), (n,), I))), x)
        nb = rd(x, s0, inarr(x, "mesh.nodes_in_node"), (n, it["iv"]), I)
        b, t = it["before"], it["after"]
        rn, rb = rd(x, s0, a["coords"], (n, 1)), rd(x, s0, a["coords"], (nb, 1))
        old = rd(x, b, a["node"], (n,))
        half = rd(x, b, a["node"], (nb,)) / T.real(2)
        u.prove("only axis nodes take part", t.pc, T.lt(rn, a["tiny"]), x)
        u.prove("an axis node takes the largest half areal mass of its off-axis neighbours", t.pc + [T.lt(a["tiny"], rb)], T.eq(rd(x, t, a["node"], (n,)), T.tmax(old, half)), x)
        u.prove("neighbours on the axis do not count", t.pc + [T.le(rb, a["tiny"])], T.eq(rd(x, t, a["node"], (n,)), old), x)
        u.prove("other nodes stay", t.pc + [T.ne(q, n)], T.eq(rd(x, t, a["node"], (q,)), rd(x, b, a["node"], (q,))), x)
        u.prove("true masses stay", st.pc, T.eq(rd(x, st, a["ext"], (q,)), rd(x, s0, a["ext"], (q,))), x)
        u.obligations(x)
    ck.unit("areal nodal mass RZ", u_areal)
    hydro_harness(ck, "C20", ["common/src/geometry_new.cpp", "common/src/region_fill.cpp", SR[len(D):], ER[len(D):]], 3000 if ck.tier == "quick" else 300000,
                  "random meshes with any valence, 1 to 3 materials per element, axisymmetric meshes touching the axis, moved afterwards", harness="mass.cpp")
