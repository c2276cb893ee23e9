"""C22 region fills"""
from props.multi import *
from fvc.loops import Any, Search

S = D + "common/src/region_fill.cpp"
FR = "M mesh x vel temp den sie use ie stress tc cp em sm pr ls vf gv mid num vox ids F FH gs ns nmax".split()
BOOL = {"k": "bool"}
zero, one = T.real(0), T.real(1)


def fld(x, st, a, f, name, ty=R):
    arr = a["F"] if "F" in a else a["fills"]
    if isinstance(name, tuple):     # a component of an array inside the record
        return rd(x, st, arr, (f, name[1]), ty, (name[0],))
    return rd(x, st, arr, (f,), ty, (name,))


def en(tu, n):
    return num(enum(tu, n))


def dist2(x, s0, a, f, org, xc, n):
    return T.tsum([(xc[d] - fld(x, s0, a, f, (org, d))) * (xc[d] - fld(x, s0, a, f, (org, d))) for d in range(n)])


def scalar_kinds(tu, X, v, sl, org, nd, vol=False):
    """[(enumerator, value)]: what a scalar field of this kind is at the point X"""
    k = lambda n: en(tu, "init_conds::" + n)
    d2 = lambda n: T.tsum([(X[d] - org[d]) * (X[d] - org[d]) for d in range(n)])
    out = [("uniform", k("uniform"), v)] + [("%s linear" % "xyz"[d], k("xyz"[d] + "linearScalar"), sl * X[d] + v) for d in range(3)]
    if vol:
        out += [("radial", k("radialScalar"), sl * T.sqrt(d2(2) - v)), ("spherical", k("sphericalScalar"), sl * T.sqrt(d2(3) - v))]
    else:
        out += [("spherical", k("sphericalScalar"), sl * T.sqrt(d2(nd)) - v)]
    return out


def vector_kinds(tu, X, u, nd):
    k = lambda n: en(tu, "init_conds::" + n)
    pi = T.real(Fraction("3.141592653589793"))
    r2, r3 = T.sqrt(X[0] * X[0] + X[1] * X[1]), T.sqrt(X[0] * X[0] + X[1] * X[1] + X[2] * X[2])
    tiny = T.real(Fraction("1e-14"))
    sn, cs = lambda q: T.trig("sin", q), lambda q: T.trig("cos", q)
    s = u[3]
    unit = lambda r, q: T.ite(T.lt(tiny, r), s * (q / r), zero)
    return [("cartesian", k("cartesian"), u[:3]), ("at rest", k("stationary"), [zero] * 3), ("radial", k("radialVec"), [unit(r2, X[0]), unit(r2, X[1]), zero]),
            ("spherical", k("sphericalVec"), [unit(r3, X[d]) for d in range(3)]),
            ("Taylor-Green", k("tgVortexVec"), [sn(pi * X[0]) * cs(pi * X[1]), zero - cs(pi * X[0]) * sn(pi * X[1]), zero])]


def run(ck):
    s0 = State()

    # ---- which elements belong to a region
    def u_volume(u):
        tu = ck.tu(S, INCS)
        f = tu.find("fill_geometric_region")
        names = "mesh vox ids fills xc dx dy dz ox oy oz ni nj nk f e".split()

        def go(kind):
            x, st = Executor(tu), State()
            args, a = mk_args(x, st, f, names)
            k = fld(x, st, a, a["f"], "volume", I)
            if kind is not None:
                st.assume(T.eq(k, en(tu, "region::" + kind)))
            r = call_fn(x, f, args, st)
            return x, st, a, r, [rd(x, s0, a["xc"], (d,)) for d in range(3)]
        x, st, a, r, X = go("global")
        u.prove("a global region holds every element", st.pc, T.eq(r, num(1)), x)
        g = lambda n: fld(x, s0, a, a["f"], n)
        x, st, a, r, X = go("box")
        inb = T.land(*[T.land(T.le(g("xyz"[d] + "1"), X[d]), T.le(X[d], g("xyz"[d] + "2"))) for d in range(3)])
        u.prove("a box holds the elements whose centre lies between its planes", st.pc, T.eq(r, T.ite(inb, num(1), num(0))), x)
        x, st, a, r, X = go("cylinder")
        r2 = dist2(x, s0, a, a["f"], "origin", X, 2)
        ra, rb = g("radius1"), g("radius2")
        h = st.pc + [T.le(zero, ra), T.le(zero, rb)]
        ink = T.land(T.le(ra * ra, r2), T.le(r2, rb * rb), T.le(g("z1"), X[2]), T.le(X[2], g("z2")))
        u.prove("a cylinder holds the elements between its radii about its origin and between its z planes", h, T.eq(r, T.ite(ink, num(1), num(0))), x)
        x, st, a, r, X = go("sphere")
        r3 = dist2(x, s0, a, a["f"], "origin", X, 3)
        ins = T.land(T.le(ra * ra, r3), T.le(r3, rb * rb))
        u.prove("a sphere holds the elements between its radii about its origin", st.pc + [T.le(zero, ra), T.le(zero, rb)], T.eq(r, T.ite(ins, num(1), num(0))), x)
        x, st, a, r, X = go("readVTUFile")
        u.prove("a part holds the elements that carry its number in the file", st.pc, T.eq(r, T.ite(T.eq(rd(x, s0, a["ids"], (a["e"],), I), fld(x, s0, a, a["f"], "part_id", I)), num(1), num(0))), x)
        for nm in ("no_volume", "readPolycrystalFile", "readSTLFile"):
            x, st, a, r, X = go(nm)
            u.prove("a region without volume (%s) holds nothing" % nm, st.pc, T.eq(r, num(0)), x)
        # voxels: the centre is written as the centre of voxel (i,j,k) plus a part of the spacing
        x, st, a, r, X = go("readVoxelFile")
        ix, t, n = [T.var(q, "I") for q in "ijk"], [T.var("t" + q) for q in "xyz"], [a["ni"], a["nj"], a["nk"]]
        m = {}
        for d, q in enumerate("xyz"):
            m[X[d]] = a["o" + q] + g(("origin", d)) + (ix[d] + t[d]) * a["d" + q]
        half = T.real(Fraction(1, 2))
        cells = [T.land(T.le(zero - half, t[d]), T.lt(t[d], half)) for d in range(3)]
        lin = ix[0] + n[0] * ix[1] + n[0] * n[1] * ix[2]
        from fvc.algebra import Alg
        alg = Alg()

        def simp(q):
            """(i+t)*dx/dx is i+t"""
            q = T.subst(q, m)
            sub = {}
            for z in T.subterms([q]):
                if z.op == "div":
                    for d, c in enumerate("xyz"):
                        if z.args[1] is a["d" + c] and alg.equal(z.args[0], (ix[d] + t[d]) * a["d" + c]):
                            sub[z] = ix[d] + t[d]
            return T.subst(q, sub)
        rs = simp(r)
        ax = [simp(q) for q in x.axioms]
        hy = [simp(p) for p in st.pc] + cells + [T.lt(num(0), k) for k in n]
        u.shape("the distance to the first voxel is divided by the spacing", not any(z.op == "div" for z in T.subterms([rs])))
        inside = [T.land(T.le(num(0), ix[d]), T.lt(ix[d], n[d])) for d in range(3)]
        fl = [z for z in T.subterms([rs]) if z.op == "uf" and z.val in ("floor", "trunc", "ceil", "round") and z.sort == "I"]
        x.axioms = []
        u.absorb(x)
        mm = {}
        for z in fl:
            for d in range(3):
                if t[d] in T.free_vars([z]) and not any(t[e] in T.free_vars([z]) for e in range(3) if e != d):
                    r1 = u.prove("the voxel number along %s is that of the voxel holding the centre" % "xyz"[d], hy + ax + [T.le(num(0), ix[d])], T.eq(z, ix[d]))
                    if r1.status == "proved":
                        mm[z] = ix[d]
                    u.prove("a centre before the first voxel along %s has a negative number" % "xyz"[d], hy + ax + [T.lt(ix[d], num(0))], T.lt(z, num(0)))
        u.shape("three voxel numbers", len(mm) == 3, "z3")
        rin = T.subst(rs, mm)
        size = T.uf("vox.size", (), "I") if False else x.inputs.get("vox.size()")
        vox = [z for z in T.subterms([rin]) if z.op == "uf" and z.val == "vox"]
        u.shape("one voxel value is read", len(vox) == 1)
        w = vox[0]
        u.prove("the value read is that of the voxel holding the centre", hy, T.eq(w.args[0], lin))
        wv = T.var("w", "I")
        rin2 = T.subst(rin, {w: wv})
        sz = [z for z in T.subterms([rin2]) if z.op in ("uf", "var") and str(z.val).startswith("vox") and "size" in str(z.val)]
        l = T.var("lin", "I")
        ri3 = rin2
        for z in T.subterms([rin2]):
            if z.sort == "I" and z.op in ("add", "mul") and alg.equal(z, lin):
                ri3 = T.subst(rin2, {z: l})
                break
        bnd = [T.le(num(0), l)] + [T.lt(l, q) for q in sz]
        u.prove("inside the voxel mesh the result is the value of the voxel", hy + inside + bnd, T.eq(ri3, wv))
        for d in range(3):
            out = [T.lor(T.lt(ix[d], num(0)), T.le(n[d], ix[d]))]
            u.prove("outside the voxel mesh along %s nothing is filled" % "xyz"[d], hy + out, T.eq(T.subst(rin2, {}), num(0)))
        u.obligations(x)
    ck.unit("membership of a region", u_volume)

    # ---- volume fractions
    def u_volfrac(u):
        tu = ck.tu(S, INCS)
        f = tu.find("get_region_scalar")
        for nd in (2, 3):
            x, st = Executor(tu), State()
            v, sl, e, kd = T.var("v"), T.var("slope"), T.var("e", "I"), T.var("kind", "I")
            xc = obj(x, st, "xc", MArr("xc", *[q for q in marr_of(tu, f, 0)]))
            x.input_arrays["xc"] = st.store[xc.path]
            org = arr_in(x, st, "org", 3)
            res = call_fn(x, f, [xc, v, sl, org, e, num(nd), kd], st)
            X = [rd(x, s0, x.input_arrays["xc"], (d,)) for d in range(3)]
            og = [x.read(st, org.lv, R) if False else rdp(x, st, org, d) for d in range(3)]
            for nm, kk, val in scalar_kinds(tu, X, v, sl, og, nd, True):
                u.prove("a %s volume fraction (%dD)" % (nm, nd), st.pc + [T.eq(kd, kk)], T.eq(res, val), x)
            u.obligations(x)
    ck.unit("volume fraction of a fill", u_volfrac)

    # ---- adding a material to an element
    def u_append(u):
        tu = ck.tu(S, INCS)
        f = tu.find("append_fills_in_elem")
        x, st = Executor(tu), State()
        args, a = mk_args(x, st, f, "vf gv slot num fills v gv1 e f nmax".split())
        e, fi = a["e"], a["f"]
        n = rd(x, s0, a["num"], (e,), I)
        mat = lambda k: fld(x, s0, a, k, "material_id", I)
        S0 = lambda k: rd(x, s0, a["slot"], (e, k), I)
        j0 = T.var("j", "I")
        keys = {}

        def inv(x, st, k, lo):
            fl = [q for q, w in st.store.items() if isinstance(w, T.Term) and w.sort == "B"]
            lids = [q for q, w in st.store.items() if w is n] if "lid" not in keys else [keys["lid"]]
            if len(fl) != 1 or len(lids) != 1:
                raise Undecided("the search has no flag and slot of the expected kind")
            keys["lid"], keys["flag"] = lids[0], fl[0]
            fnd, lid = st.store[fl[0]], st.store[lids[0]]
            return [("found: the slot holds the material", T.implies(fnd, T.land(T.le(num(0), lid), T.lt(lid, k), T.eq(mat(S0(lid)), mat(fi))))),
                    ("not found: the slot is the first free one", T.implies(T.lnot(fnd), T.eq(lid, n))),
                    ("not found: no slot passed holds the material", T.implies(T.land(T.lnot(fnd), T.le(num(0), j0), T.lt(j0, k)), T.ne(mat(S0(j0)), mat(fi)))),
                    ("the counter runs from zero", T.le(num(0), k)), ("the counter stays in the slots", T.le(k, n))]
        lp = Search(inv)
        x.loops["*"] = lp
        st.assume(T.le(num(0), n))
        st.assume(T.le(num(0), j0))
        call_fn(x, f, args, st)
        u.shape("the slots of the element are searched", lp.ran == 1)
        n1 = rd(x, st, a["num"], (e,), I)
        at = lambda k: rd(x, st, a["slot"], (e, k), I)
        V = lambda k, q, s=st: rd(x, s, a[q], (e, k))
        h = st.pc + [T.lt(j0, n)]
        has = T.eq(mat(S0(j0)), mat(fi))
        # the material sits in slot j0; by the precondition in no other slot
        lid, fnd = st.store[keys["lid"]], st.store[keys["flag"]]
        only = T.implies(T.land(fnd, has), T.eq(lid, j0))
        u.prove("a material that is in the element keeps its slot", h + [has, only], T.land(T.eq(at(j0), fi), T.eq(V(j0, "vf"), a["v"]), T.eq(V(j0, "gv"), a["gv1"])), x)
        u.prove("a material that is in the element adds none", h + [has], T.eq(n1, n), x)
        no = T.lnot(fnd)
        u.prove("a new material takes the first free slot", st.pc + [no], T.land(T.eq(at(n), fi), T.eq(V(n, "vf"), a["v"]), T.eq(V(n, "gv"), a["gv1"]), T.eq(n1, n + num(1))), x)
        u.prove("a material found is in the element", st.pc + [fnd], T.land(T.le(num(0), lid), T.lt(lid, n), T.eq(mat(S0(lid)), mat(fi))), x)
        k = T.var("k", "I")
        u.prove("other slots stay", st.pc + [T.ne(k, lid)], T.land(T.eq(at(k), S0(k)), T.eq(V(k, "vf"), V(k, "vf", s0)), T.eq(V(k, "gv"), V(k, "gv", s0))), x)
        u.prove("the materials stay distinct", h + [T.lt(lid, n1), T.ne(j0, lid), T.implies(T.land(fnd, has), T.eq(lid, j0))], T.ne(mat(at(j0)), mat(at(lid))), x)
        e2 = T.var("e2", "I")
        u.prove("other elements stay", st.pc + [T.ne(e2, e)], T.land(T.eq(rd(x, st, a["num"], (e2,), I), rd(x, s0, a["num"], (e2,), I)), *[T.eq(rd(x, st, a[q], (e2, k), t), rd(x, s0, a[q], (e2, k), t)) for q, t in (("slot", I), ("vf", R), ("gv", R))]), x)
        u.assumptions.add("precondition of the slot search: the materials in an element's slots are distinct (kept, proved as `the materials stay distinct`)")
        u.obligations(x)
    ck.unit("adding a material to an element", u_append)

    # ---- the loops over fills, elements and nodes
    def fill_regions(nd):
        def go(u):
            tu = ck.tu(S, INCS)
            f = tu.find("fill_regions")
            x, st = Executor(tu), State()
            nn = 2 ** nd
            x.binds["mesh.num_dims"], x.binds["mesh.num_nodes_in_elem"], x.binds["mesh.num_gauss_in_elem"] = nd, nn, 1
            args, a = mk_args(x, st, f, FR)
            lp = Any()
            x.loops["*"] = lp
            log = {"member": [], "volfrac": [], "append": [], "voxels": []}

            def con(nm, sort=None):
                def c(x, st, this, ar, env, e):
                    vals = [argv(x, st, ar, env, k) if k not in skip[nm] else None for k in range(len(ar))]
                    log[nm].append((list(st.pc), vals, st.copy()))
                    return T.uf(nm, (), sort) if sort else Opaque("void")
                return c
            skip = {"member": (0,), "volfrac": (3,), "append": (), "voxels": (10, 11, 12, 13)}
            x.contracts["fill_geometric_region"] = con("member", "I")
            x.contracts["get_region_scalar"] = con("volfrac", "R")
            x.contracts["append_fills_in_elem"] = con("append")
            x.contracts["user_voxel_init"] = con("voxels")
            call_fn(x, f, args, st)
            u.shape("loops over fills, elements and nodes", len(x.regions) == 4)
            ne, nN = x.inputs["mesh.num_elems"], x.inputs["mesh.num_nodes"]
            outer = [i for i in lp.iters if i["regions"]]
            u.shape("one loop over the fills, its elements inside", len(outer) >= 1 and all(len(i["regions"]) == 1 for i in outer[-1:]))
            it = outer[-1]
            fill, reg = it["iv"], it["regions"][0]
            for r, n, w in ((reg, ne, "every element is tested"), (x.regions[2], ne, "every element is painted"), (x.regions[3], nN, "every node is painted")):
                u.prove(w, st.pc, T.land(T.eq(r["rng"][0][0], num(0)), T.eq(r["rng"][0][1], n)), x)
            u.prove("every fill of the input is applied in order", [], T.land(T.eq(it["lo"], num(0)), T.eq(it["hi"], x.regions[0]["rng"][0][1])), x)
            # -- one fill, one element
            e, b, t = reg["ivs"][0], reg["before"], reg["after"]
            u.shape("membership and volume fraction are asked once", all(log[q] for q in ("member", "volfrac", "append")))
            mpc, margs, mst = log["member"][-1]
            N = [rd(x, s0, inarr(x, "mesh.nodes_in_elem"), (e, num(k)), I) for k in range(nn)]
            C = [T.tsum([rd(x, s0, a["x"], (k, d)) for k in N]) / nn if d < nd else zero for d in range(3)]
            xc = margs[4]
            for d in range(3):
                u.prove("the centre of the element is the mean of its nodes (%s)" % "xyz"[d], mpc, T.eq(vget(x, mst, xc, (d,)), C[d]), x)
            u.prove("the element and the fill asked about", mpc, T.land(T.eq(margs[14], fill), T.eq(margs[15], e)), x)
            u.shape("the membership test sees the fills", margs[3] is a["F"] and margs[2] is a["ids"] and margs[1] is a["vox"])
            vpc, va, vst = log["volfrac"][-1]
            mem = T.eq(T.uf("member", (), "I"), num(1))
            W = T.uf("volfrac", (), "R")
            clip = T.tmin(one, T.tmax(zero, W))
            full = T.le(T.real(1 - Fraction("1e-8")), clip)
            u.prove("the volume fraction is that of the fill at the centre", vpc, T.land(*[T.eq(vget(x, vst, va[0], (d,)), C[d]) for d in range(3)], T.eq(va[1], fld(x, s0, a, fill, "volfrac")), T.eq(va[2], fld(x, s0, a, fill, "volfrac_slope")), T.eq(va[6], fld(x, s0, a, fill, "volfrac_field", I)), T.eq(va[5], num(nd))), x)
            apc, aa, ast = log["append"][-1]
            extra = [p for p in apc if p not in b.pc]
            part = T.land(mem, T.lnot(full))
            u.prove("a partial fill adds its material", list(b.pc) + [T.le(num(0), e), T.lt(e, ne), part], T.land(*extra), x)
            u.prove("only a partial fill of a member adds a material", list(b.pc) + extra, part, x)
            slot = aa[2]
            u.prove("the material is added with the clipped volume fraction", apc, T.land(T.eq(aa[5], clip), T.eq(aa[6], one), T.eq(aa[7], e), T.eq(aa[8], fill), T.eq(aa[9], a["nmax"])), x)
            u.shape("the material is added to the element's slots", aa[0] is a["vf"] and aa[1] is a["gv"] and aa[3] is a["num"] and aa[4] is a["F"])
            R0 = lambda s, arr, ix, ty=R: rd(x, s, arr, ix, ty)
            tp = list(t.pc)
            u.prove("a full fill replaces what was in the element", tp + [mem, full], T.land(T.eq(R0(t, slot, (e, num(0)), I), fill), T.eq(R0(t, a["num"], (e,), I), num(1)), T.eq(R0(t, a["vf"], (e, num(0))), one), T.eq(R0(t, a["gv"], (e, num(0))), one)), x)
            k = T.var("k", "I")
            for nm, arr, ix, ty in (("fills", slot, (e, k), I), ("number of materials", a["num"], (e,), I), ("volume fractions", a["vf"], (e, k), R), ("geometric volume fractions", a["gv"], (e, k), R)):
                u.prove("an element outside the region keeps its " + nm, tp + [T.lnot(mem)], T.eq(R0(t, arr, ix, ty), R0(b, arr, ix, ty)), x)
            # -- painting an element
            reg2 = x.regions[2]
            its = [i for i in lp.iters if i["before"].pc and any(v is reg2["ivs"][0] for v in T.free_vars([i["hi"]]))]
            u.shape("one loop over the materials of the element", len(its) >= 1)
            i2 = its[-1]
            e, bn, b, t = reg2["ivs"][0], i2["iv"], i2["before"], i2["after"]
            u.prove("every material in the element is painted", b.pc, T.land(T.eq(i2["lo"], num(0)), T.eq(i2["hi"], R0(b, a["num"], (e,), I))), x)
            fid = R0(b, slot, (e, bn), I)
            tp = list(t.pc)
            u.prove("the material of the fill is recorded", tp, T.eq(R0(t, a["mid"], (e, bn), I), fld(x, s0, a, fid, "material_id", I)), x)
            cnew = [vget_arr(x, b, xc, e, d) for d in range(3)]
            for nm, arr, val, sl, org, kd in (("density", "den", "den", None, "den_origin", "den_field"), ("specific internal energy", "sie", "sie", None, "sie_origin", "sie_field"), ("internal energy", "ie", "ie", None, "sie_origin", "ie_field"),
                                              ("conductivity", "tc", "thermal_conductivity", None, "thermal_conductivity_origin", "thermal_conductivity_field"), ("specific heat", "cp", "specific_heat", None, "specific_heat_origin", "specific_heat_field"),
                                              ("level set", "ls", "level_set", "level_set_slope", "level_set_origin", "level_set_field")):
                kind = fld(x, s0, a, fid, kd, I)
                new, old = R0(t, a[arr], (e, bn)), R0(b, a[arr], (e, bn))
                for kn, kk, v in scalar_kinds(tu, cnew, fld(x, s0, a, fid, val), fld(x, s0, a, fid, sl) if sl else zero, [fld(x, s0, a, fid, (org, d)) for d in range(3)], nd):
                    u.prove("%s %s" % (kn, nm), tp + [T.eq(kind, kk)], T.eq(new, v), x)
                u.prove("a fill that sets no %s leaves it" % nm, tp + [T.eq(kind, en(tu, "init_conds::noICsScalar"))], T.eq(new, old), x)
                ee, bb = T.var("e2", "I"), T.var("b2", "I")
                u.prove("no other element's or material's %s is painted" % nm, tp + [T.lor(T.ne(ee, e), T.ne(bb, bn))], T.eq(R0(t, a[arr], (ee, bb)), R0(b, a[arr], (ee, bb))), x)
            sk = fld(x, s0, a, fid, "sie_field", I)
            nosie = T.eq(sk, en(tu, "init_conds::noICsScalar"))
            un, uo = R0(t, a["use"], (e, bn), BOOL), R0(b, a["use"], (e, bn), BOOL)
            u.prove("a fill with specific internal energy says so", tp + [T.lnot(nosie)], un, x)
            u.prove("a fill without it does not", tp + [nosie], T.eq(un, uo), x)
            for nm in ("num", "vf", "gv"):
                j = T.var("j", "I")
                ix = (e,) if nm == "num" else (e, j)
                u.prove("painting leaves the element's materials (%s)" % nm, tp, T.eq(R0(t, a[nm], ix, I if nm == "num" else R), R0(b, a[nm], ix, I if nm == "num" else R)), x)
            # -- painting a node
            reg3 = x.regions[3]
            nd_ = reg3["ivs"][0]
            its = [i for i in lp.iters if any(v is nd_ for v in T.free_vars([i["hi"]]))]
            u.shape("loops over the elements around a node and their materials", len(its) >= 2)
            io, ii = its[-1], its[-2]
            el = rd(x, s0, inarr(x, "mesh.elems_in_node"), (nd_, io["iv"]), I)
            b, t, bn = ii["before"], ii["after"], ii["iv"]
            u.prove("every element around the node is visited", io["before"].pc, T.land(T.eq(io["lo"], num(0)), T.eq(io["hi"], rd(x, s0, inarr(x, "mesh.num_corners_in_node"), (nd_,), I))), x)
            u.prove("every material of the element is visited", b.pc, T.land(T.eq(ii["lo"], num(0)), T.eq(ii["hi"], R0(b, a["num"], (el,), I))), x)
            fid = R0(b, slot, (el, bn), I)
            X = [rd(x, s0, a["x"], (nd_, d)) if d < nd else zero for d in range(3)]
            tp = list(t.pc)
            # arrays the solver holds have a size
            sized = [T.lt(num(0), z) for z in T.subterms(tp + [R0(t, a["vel"], (nd_, num(0))), R0(t, a["temp"], (nd_,))]) if z.op in ("uf", "var") and str(z.val) in ("vel.size()", "temp.size()", "vel.size", "temp.size")]
            kind = fld(x, s0, a, fid, "vel_field", I)
            uu = [fld(x, s0, a, fid, q) for q in ("u", "v", "w", "speed")]
            for kn, kk, v in vector_kinds(tu, X, uu, nd):
                for d in range(nd):
                    u.prove("%s velocity of a node (%s)" % (kn, "xyz"[d]), tp + sized + [T.eq(kind, kk)], T.eq(R0(t, a["vel"], (nd_, num(d))), v[d]), x)
            d = T.var("d", "I")
            u.prove("a fill that sets no velocity leaves it", tp + [T.eq(kind, en(tu, "init_conds::noICsVec"))], T.eq(R0(t, a["vel"], (nd_, d)), R0(b, a["vel"], (nd_, d))), x)
            kind = fld(x, s0, a, fid, "temperature_field", I)
            tv = fld(x, s0, a, fid, "temperature")
            new = R0(t, a["temp"], (nd_,))
            for kn, kk, v in [("uniform", "uniform", tv), ("spherical", "sphericalScalar", tv * T.sqrt(X[0] * X[0] + X[1] * X[1] + X[2] * X[2]))]:
                u.prove("%s temperature of a node" % kn, tp + sized + [T.eq(kind, en(tu, "init_conds::" + kk))], T.eq(new, v), x)
            u.prove("a fill that sets no temperature leaves it", tp + [T.eq(kind, en(tu, "init_conds::noICsScalar"))], T.eq(new, R0(b, a["temp"], (nd_,))), x)
            j = T.var("j", "I")
            u.prove("no other node is painted", tp + [T.ne(j, nd_)], T.land(T.eq(R0(t, a["vel"], (j, d)), R0(b, a["vel"], (j, d))), T.eq(R0(t, a["temp"], (j,)), R0(b, a["temp"], (j,)))), x)
            u.obligations(x)
        return go
    ck.unit("fills of elements and nodes (3D)", fill_regions(3))
    ck.unit("fills of elements and nodes (2D)", fill_regions(2))

    # ---- material points
    def u_points(u):
        tu = ck.tu(S, INCS)
        f = tu.find("material_state_setup")
        x, st = Executor(tu), State()
        x.binds["mesh.num_gauss_in_elem"] = 1
        args = [obj(x, st, n) for n in ("P", "Materials", "mesh", "B", "State", "G", "L")]
        lp = Any()
        x.loops["*"] = lp
        call_fn(x, f, args, st)
        A = lambda n: inarr(x, n)
        num_in = A("State.MeshtoMaterialMaps.num_mats_in_elem")
        ins = [i for i in lp.iters if any(z.op == "uf" and z.val == num_in.id for z in T.subterms([i["hi"]])) or "num_mats_in_elem" in T.show(i["hi"])]
        outs = [i for i in lp.iters if i["hi"] is x.inputs["mesh.num_elems"]]
        u.shape("a loop over the elements and one over their materials", len(ins) >= 1 and len(outs) == 1)
        i, o = ins[-1], outs[-1]
        e, bn, b, t = o["iv"], i["iv"], i["before"], i["after"]
        u.prove("every element is visited", [], T.land(T.eq(o["lo"], num(0))), x)
        u.prove("every material of the element is visited", b.pc, T.land(T.eq(i["lo"], num(0)), T.eq(i["hi"], rd(x, b, num_in, (e,), I))), x)
        mt = rd(x, b, A("State.MeshtoMaterialMaps.mats_in_elem"), (e, bn), I)
        back = A("State.MeshtoMaterialMaps.mat_elems_in_elem")
        s = rd(x, t, back, (e, bn), I)
        MP = lambda n, q=t, ty=R: rd(x, q, A("State.MaterialPoints." + n), (mt, s), ty)
        L = lambda n: rd(x, s0, A("L." + n), (e, bn))
        G = lambda n, ty=R: rd(x, s0, A("G." + n), (e, bn), ty)
        tp = list(t.pc)
        sz = [T.lt(num(0), z) for z in T.subterms(tp + [MP("den"), MP("sie"), MP("conductivity"), MP("specific_heat"), rd(x, t, A("State.GaussPoints.level_set"), (e,))]) if z.op in ("uf", "var") and "size" in str(z.val)]
        u.shape("the state is allocated on demand", len(sz) >= 4)
        u.prove("the point's element is recorded", tp, T.eq(rd(x, t, A("State.MaterialToMeshMaps.elem_in_mat_elem"), (mt, s), I), e), x)
        u.prove("the point takes the volume fractions of the fill", tp, T.land(T.eq(MP("volfrac"), L("volfrac")), T.eq(MP("geo_volfrac"), L("geo_volfrac"))), x)
        vol = rd(x, s0, A("State.GaussPoints.vol"), (e,))
        u.prove("density", tp + sz, T.eq(MP("den"), G("den")), x)
        mass = G("den") * vol * L("volfrac") * L("geo_volfrac")
        u.prove("mass is density times the material's share of the volume", tp + sz, T.eq(MP("mass"), mass), x)
        us = G("use_sie", BOOL)
        u.prove("specific internal energy of the fill", tp + sz + [us], T.eq(MP("sie"), G("sie")), x)
        u.prove("internal energy of the fill is divided by the mass", tp + sz + [T.lnot(us), T.ne(mass, zero)], T.eq(MP("sie") * mass, G("ie")), x)
        u.prove("conductivity", tp + sz, T.eq(MP("conductivity"), G("thermal_conductivity")), x)
        u.prove("specific heat", tp + sz, T.eq(MP("specific_heat"), G("specific_heat")), x)
        u.prove("no point starts eroded", tp + [T.lt(num(0), z) for z in T.subterms([MP("eroded", ty=BOOL)]) if z.op in ("uf", "var") and "size" in str(z.val)] + sz, T.lnot(MP("eroded", ty=BOOL)), x)
        ls = A("State.GaussPoints.level_set")
        u.prove("the level set is the least of the fills in the element", tp + sz, T.eq(rd(x, t, ls, (e,)), T.tmin(rd(x, b, ls, (e,)), G("level_set"))), x)
        j, k = T.var("j", "I"), T.var("k", "I")
        for n in ("den", "mass", "sie", "volfrac", "conductivity", "specific_heat"):
            arr = A("State.MaterialPoints." + n)
            u.prove("no other point's %s is set" % n, tp + [T.lor(T.ne(j, mt), T.ne(k, s))], T.eq(rd(x, t, arr, (j, k)), rd(x, b, arr, (j, k))), x)
        u.obligations(x)
    ck.unit("material points", u_points)

    hydro_harness(ck, "C22", ["common/src/region_fill.cpp", "common/src/geometry_new.cpp"], 600 if ck.tier == "quick" else 12000, "random 2D and 3D meshes of up to 3 layers, up to 6 fills of every kind incl. voxel files, up to 3 materials", harness="fill.cpp", flags=("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined") , timeout=400)


def marr_of(tu, f, k):
    from fvc.execu import marr_class
    ty = tu.strip(f["params"][k]["t"])
    while ty["k"] == "ref":
        ty = tu.types[ty["to"]]
    m = marr_class(ty)
    return m[1], m[2]


def rdp(x, st, p, d):
    lv = p.lv
    return x.read(st, PathLV(lv.path[:-1] + (d,)), R)


def vget_arr(x, st, view, e, d):
    """element d of the row e of the array a view points into"""
    lv = view.ptr.lv
    return rd(x, st, lv.arr, (e, num(d)))
