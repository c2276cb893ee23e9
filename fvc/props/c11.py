"""C11 element volume and gradient operator"""
from props.multi import *
from props import geom


def setup(u, ck, dims, fname):
    tu = ck.tu(D + "common/src/geometry_new.cpp", INCS)
    x = Executor(tu)
    st = State()
    e = T.var("e", "I")
    vol, crd, nodes = MArr("elem_vol"), MArr("coords"), MArr("nodes")
    nn = 8 if dims == 3 else 4
    X = [[rd(x, st, crd, (rd(x, st, nodes, (e, n), I), d)) for d in range(dims)] for n in range(nn)]
    return tu, x, st, e, vol, crd, nodes, nn, X


def run(ck):
    def u_hex(u):
        tu, x, st, e, vol, crd, nodes, nn, X = setup(u, ck, 3, "")
        call_fn(x, tu.find("geometry::get_vol_hex"), [obj(x, st, "v", vol), e, obj(x, st, "c", crd), obj(x, st, "n", nodeview(x, st, nodes, e, 8))], st)
        V = geom.hexvol(X)
        u.prove("hexahedron volume = integral of the Jacobian, at least 1e-14", st.pc, T.eq(rd(x, st, vol, (e,)), T.tmax(V, T.real(Fraction(1, 10 ** 14)))), x)
        u.prove("positive", st.pc, T.lt(num(0), T.tmax(V, T.real(Fraction(1, 10 ** 14)))), x)
        f = T.var("f", "I")
        u.prove("no other element written", st.pc + [T.ne(f, e)], T.eq(rd(x, st, vol, (f,)), T.uf("elem_vol", (f,), "R")), x)
        u.obligations(x)
    ck.unit("get_vol_hex", u_hex)

    def u_b(u, d):
        tu, x, st, e, vol, crd, nodes, nn, X = setup(u, ck, 3, "")
        B = rawview(x, st, "B", 24, (8, 3))
        call_fn(x, tu.find("geometry::get_bmatrix"), [obj(x, st, "B", B), e, obj(x, st, "c", crd), obj(x, st, "n", nodeview(x, st, nodes, e, 8))], st)
        b = [vget(x, st, B, (n, d)) for n in range(8)]
        for n in range(8):
            u.prove("B(%d,%d) = dV/dx" % (n, d), st.pc, T.eq(b[n], geom.hexgrad(X, n, d)), x)
        u.prove("corner normals sum to zero, direction %d" % d, st.pc, T.eq(T.tsum(b), T.real(0)), x)
        for k in range(3):
            u.prove("sum x_%d B_%d = %s" % (k, d, "V" if k == d else "0"), st.pc, T.eq(T.tsum([X[n][k] * b[n] for n in range(8)]), geom.hexvol(X) if k == d else T.real(0)), x)
        u.obligations(x)
    for d in range(3):
        ck.unit("get_bmatrix direction %d" % d, lambda u, d=d: u_b(u, d))

    def u_2d(u):
        tu, x, st, e, vol, crd, nodes, nn, X = setup(u, ck, 2, "")
        B = rawview(x, st, "B", 8, (4, 2))
        nv = lambda: obj(x, st, "n", nodeview(x, st, nodes, e, 4))
        call_fn(x, tu.find("geometry::get_bmatrix2D"), [obj(x, st, "B", B), e, obj(x, st, "c", crd), nv()], st)
        for d in range(2):
            b = [vget(x, st, B, (n, d)) for n in range(4)]
            for n in range(4):
                u.prove("2D: B(%d,%d) = dA/dx" % (n, d), st.pc, T.eq(b[n], geom.quadgrad(X, n, d)), x)
            u.prove("2D: edge normals sum to zero", st.pc, T.eq(T.tsum(b), T.real(0)), x)
            for k in range(2):
                u.prove("2D: sum x_%d B_%d" % (k, d), st.pc, T.eq(T.tsum([X[n][k] * b[n] for n in range(4)]), geom.quadarea(X) if k == d else T.real(0)), x)
        a = call_fn(x, tu.find("geometry::get_area_quad"), [e, obj(x, st, "c", crd), nv()], st)
        u.prove("2D: area = shoelace", st.pc, T.eq(a, geom.quadarea(X)), x)
        call_fn(x, tu.find("geometry::get_vol_quad"), [obj(x, st, "v", vol), e, obj(x, st, "c", crd), nv()], st)
        u.prove("RZ: volume per radian = integral of the radius, at least 1e-14", st.pc, T.eq(rd(x, st, vol, (e,)), T.tmax(geom.rzvol(X), T.real(Fraction(1, 10 ** 14)))), x)
        u.obligations(x)
    ck.unit("two dimensions", u_2d)

    def u_heron(u):
        tu = ck.tu(D + "common/src/geometry_new.cpp", INCS)
        x = Executor(tu)
        st = State()
        p = [T.var(n) for n in ("x1", "y1", "x2", "y2", "x3", "y3")]
        r = call_fn(x, tu.find("geometry::heron"), list(p), st)
        cr = (p[2] - p[0]) * (p[5] - p[1]) - (p[4] - p[0]) * (p[3] - p[1])
        # the radicand is 1/4 of the squared cross product over 4: shown without the outer root
        rad = r.args[0] if r.op == "uf" and r.val == "sqrt" else None
        if rad is None:
            u.undecided("heron: area^2", "the result is not a square root")
        else:
            u.prove("triangle area^2 = (cross product/2)^2", st.pc, T.eq(rad, cr * cr / 4), x)
            u.prove("triangle area >= 0", st.pc, T.le(num(0), r), x)
        u.obligations(x)
    ck.unit("heron", u_heron)

    def u_w(u):
        tu, x, st, e, vol, crd, nodes, nn, X = setup(u, ck, 2, "")

        def heron(x, st, thislv, args, env, e_):
            a = [x.ev(q, st, env) for q in args]
            # contract: the area of the triangle, invariant under the order of its corners
            pts = sorted([(T.show(a[k], 9), a[k], a[k + 1]) for k in (0, 2, 4)], key=lambda q: q[0])
            return T.uf("triangle", tuple(v for q in pts for v in q[1:]), "R")
        x.contracts["geometry::heron"] = heron
        W = rawview(x, st, "W", 4)
        call_fn(x, tu.find("geometry::get_area_weights2D"), [obj(x, st, "W", W), e, obj(x, st, "c", crd), obj(x, st, "n", nodeview(x, st, nodes, e, 4))], st)
        c = [T.tsum([X[n][d] for n in range(4)]) / 4 for d in range(2)]
        w = [vget(x, st, W, (n,)) for n in range(4)]
        tri = [t for t in {s for q in w for s in T.subterms([q]) if s.op == "uf" and s.val == "triangle"}]
        u.shape("four triangles", len(tri) == 4, "simplification")
        # identify each triangle by its corners
        from fvc.algebra import Alg
        al = Alg()

        def has(t, pt):
            return any(al.equal(t.args[k], pt[0]) and al.equal(t.args[k + 1], pt[1]) for k in (0, 2, 4))
        ti = {}
        for n in range(4):
            m = (n + 1) % 4
            cand = [t for t in tri if has(t, X[n]) and has(t, X[m]) and has(t, c)]
            u.shape("triangle of edge %d and the centre is used" % n, len(cand) == 1, "algebra")
            if len(cand) == 1:
                ti[n] = cand[0]
        if len(ti) == 4:
            for n in range(4):
                a, b = ti[n], ti[(n - 1) % 4]
                others = [ti[k] for k in range(4) if ti[k] is not a and ti[k] is not b]
                u.prove("corner weight %d = 5/12 of its two triangles + 1/12 of the others" % n, st.pc, T.eq(w[n], (5 * a + 5 * b + others[0] + others[1]) / 12), x)
            u.prove("corner weights sum to the area", st.pc, T.eq(T.tsum(w), T.tsum(list(ti.values()))), x)
        u.obligations(x)
    ck.unit("corner weights", u_w)

    def u_all(u, dims):
        """get_vol: every element gets its own volume"""
        tu = ck.tu(D + "common/src/geometry_new.cpp", INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"] = dims
        st = State()
        nm = "geometry::get_vol_hex" if dims == 3 else "geometry::get_vol_quad"
        seen = []

        def vol1(x, st, thislv, args, env, e_):
            v = x.read(st, x.lval(args[0], st, env), x.tu.strip(args[0]["t"]))
            el = x.ev(args[1], st, env)
            cr = x.read(st, x.lval(args[2], st, env), x.tu.strip(args[2]["t"]))
            nv = x.read(st, x.lval(args[3], st, env), x.tu.strip(args[3]["t"]))
            seen.append((v, cr, nv, el))
            ids = tuple(x.read(st, x.elem(nv, [num(k)], st, {}, {}), I) for k in range(8 if dims == 3 else 4))
            x.awrite(st, v, (el,), (), R, T.uf("volume_of", ids, "R"))
            from fvc.execu import Opaque
            return Opaque("void")
        x.contracts[nm] = vol1
        vol, crd = MArr("elem_vol"), MArr("coords")
        mesh = obj(x, st, "mesh")
        call_fn(x, tu.find("geometry::get_vol"), [obj(x, st, "v", vol), obj(x, st, "c", crd), mesh], st)
        u.shape("the kernel is called", len(seen) == 1, "simplification")
        e = T.var("e", "I")
        ne = x.inputs.get("mesh.num_elems")
        if ne is None:
            u.shape("all elements visited", False)
            return
        ids = tuple(x.aread(st, inarr(x, "mesh.nodes_in_elem"), (e, num(k)), (), I) for k in range(8 if dims == 3 else 4))
        u.prove("every element of the mesh gets the volume of its own nodes", st.pc + [T.le(num(0), e), T.lt(e, ne)], T.eq(rd(x, st, vol, (e,)), T.uf("volume_of", ids, "R")), x)
        u.shape("volumes use the coordinates passed in", seen[0][1] is crd and seen[0][0] is vol, "simplification")
        u.obligations(x)
    ck.unit("get_vol 3D", lambda u: u_all(u, 3))
    ck.unit("get_vol 2D", lambda u: u_all(u, 2))
    exe = ck.compile("c11", [HARN + "/geom.cpp", D + "common/src/geometry_new.cpp"], INCS, defs=["P11"])
    ck.run_harness("element geometry", exe, [ck.seed, 20000 if ck.tier == "quick" else 1000000], bound="random hexahedra and quadrilaterals, distorted, scaled 1e-3 to 1e3, inverted")
