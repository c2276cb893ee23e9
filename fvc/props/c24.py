"""boundary sets: the boundary patches on the surface asked for, and their nodes, each once"""
from fvc import terms as T
from fvc.terms import num, TRUE
from fvc.execu import Executor, State, Undecided
from fvc.loops import Any, Inv, Search
from .multi import *

S = D + "common/src/geometry_new.cpp"
SURF = ("xPlane", "yPlane", "zPlane", "cylinder", "sphere")
zero = num(0)


class Nest:
    """contracts of the loops of a region: the k-th outermost loop, and the k-th loop inside it, ..."""
    fallback = False

    def __init__(self, specs):
        self.specs, self.path, self.seen, self.used = specs, (), {}, set()

    def run(self, x, s, st, env, cond, inc, body, post):
        sibs = self.seen.setdefault(self.path, [])
        if id(s) not in sibs:
            sibs.append(id(s))
        old, self.path = self.path, self.path + (sibs.index(id(s)),)
        try:
            if self.path not in self.specs:
                raise Undecided("the loop at line %s has no contract" % s["ln"])
            self.used.add(self.path)
            return self.specs[self.path].run(x, s, st, env, cond, inc, body, post)
        finally:
            self.path = old


def ragged(x, st):
    """the ragged array with run-time row lengths that is being filled, and its lengths"""
    sd = getattr(x, "strides", {})
    m = {v.id: v for v in st.store.values() if type(v).__name__ == "MArr" and v.id in sd}
    if len(m) != 1:
        raise Undecided("not gathered in one ragged array")
    (i, v), = m.items()
    return v, sd[i]


def row(st):
    v = {w.val: w for w in T.free_vars(st.pc) if w.val.startswith("i_")}
    if len(v) != 1:
        raise Undecided("not in a parallel loop over the sets")
    return list(v.values())[0]


def run(ck):
    s0 = State()

    # ---- one patch
    def check(kind, nd):
        def go(u):
            tu = ck.tu(S, INCS)
            f = tu.find("check_bdy")
            x, st = Executor(tu), State()
            x.binds["mesh.num_dims"] = nd
            args, a = mk_args(x, st, f, "p tag val tol ox oy oz mesh xn".split())
            st.assume(T.eq(a["tag"], num(enum(tu, "boundary_conditions::" + kind))))
            j0 = T.var("j", "I")
            n = x.default_input("mesh.num_nodes_in_patch", {"k": "int", "w": 64, "sg": False})

            def on(k):
                g = rd(x, s0, inarr(x, "mesh.nodes_in_patch"), (a["p"], k), I)
                c = [rd(x, s0, a["xn"], (g, num(d))) if d < nd else T.real(0) for d in range(3)]
                if "Plane" in kind:
                    d = c["xyz".index(kind[0])] - a["val"]
                else:
                    r = [c[k] - a["o" + "xyz"[k]] for k in range(3 if kind == "sphere" else 2)]
                    d = T.sqrt(T.tsum([q * q for q in r])) - a["val"]
                return T.land(T.le(-a["tol"], d), T.le(d, a["tol"]))
            allon = T.var("allon", "B")
            keys = {}

            def inv(x, st, k, lo):
                if "c" not in keys:
                    c = [q for q, w in st.store.items() if isinstance(w, T.Term) and q != lp.ck and ((w.sort == "I" and T.isnum(w) and w.val == 0) or w is TRUE)]
                    if len(c) != 1:
                        raise Undecided("the loop over the nodes keeps no single count or flag %s" % [(q, w) for q, w in st.store.items() if isinstance(w, T.Term) and w.sort in "IB"])
                    keys["c"] = c[0]
                w = st.store[keys["c"]]
                good = T.eq(w, k) if w.sort == "I" else w
                st.pc.append(T.implies(allon, on(k)))  # `allon`: every node of the patch is on the surface
                return [("one node off the surface keeps the patch off", T.implies(T.land(T.le(zero, j0), T.lt(j0, k), T.lnot(on(j0))), T.lnot(good))),
                        ("nodes on the surface keep the patch on", T.implies(allon, good)),
                        ("the count stays below the number of nodes passed", T.land(T.le(zero, w), T.le(w, k)) if w.sort == "I" else TRUE),
                        ("the nodes are counted from zero", T.le(zero, k)), ("and up to their number", T.implies(T.le(zero, n), T.le(k, n)))]
            lp = Search(inv)
            lp.fallback = True
            x.loops["*"] = lp
            st.assume(T.le(zero, n))
            res = call_fn(x, f, args, st)
            u.shape("one loop over the nodes of the patch", lp.ran == 1)
            u.prove("a patch with a node off the surface is not taken", st.pc + [T.le(zero, j0), T.lt(j0, n), T.lnot(on(j0))], T.eq(res, zero), x)
            u.prove("a patch with all its nodes on the surface is taken", st.pc + [allon], T.eq(res, num(1)), x)
            u.prove("the answer is yes or no", st.pc, T.lor(T.eq(res, zero), T.eq(res, num(1))), x)
            u.obligations(x)
            u.reachable("contract of the loop", st.pc)
        return go
    for kd in SURF:
        for nd in (2, 3):
            ck.unit("%s surface (%dD)" % (kd, nd), check(kd, nd))

    # ---- the patches of every set
    def u_patches(u):
        tu = ck.tu(S, INCS)
        f = tu.find("tag_bdys")
        x, st = Executor(tu), State()
        args, a = mk_args(x, st, f, "bc mesh xn".split())
        calls = []

        def con(x, st, this, ar, env, e):
            v = [argv(x, st, ar, env, k) for k in range(7)]
            calls.append((v, list(st.pc)))
            return T.uf("on", tuple(v), "I")
        x.contracts["check_bdy"] = con
        setup = lambda b: [rd(x, s0, inarr(x, "bc.BoundaryConditionSetup"), (b,), t, (q,)) for q, t in (("surface", I), ("value", R), ("tolerance", R))] + [rd(x, s0, inarr(x, "bc.BoundaryConditionSetup"), (b, num(d)), R, ("origin",)) for d in range(3)]
        patch = lambda l: rd(x, s0, inarr(x, "mesh.bdy_patches"), (l,), I)
        on = lambda b, l: T.eq(T.uf("on", tuple([patch(l)] + setup(b)), "I"), num(1))
        cnt = lambda l: T.uf("cnt", (l,), "I")
        j0 = T.var("j", "I")
        kept = lambda st, b, A, k: T.implies(T.land(T.le(zero, j0), T.lt(j0, k), on(b, j0)), T.eq(rd(x, st, A, (b, cnt(j0)), I), patch(j0)))

        def inv(x, st, k, lo):
            b = row(st)
            A, sd = ragged(x, st)
            if k is lo:
                st.pc.append(T.eq(cnt(zero), zero))
                st.pc.append(T.eq(rd(x, st, sd, (b,), I), zero))  # array library: new rows are empty
            # cnt(k) counts the patches before number k that are on the surface
            st.pc.append(T.eq(cnt(T.add(k, num(1))), T.add(cnt(k), T.ite(on(b, k), num(1), zero))))
            nm = rd(x, st, inarr(x, "mesh.num_bdy_patches_in_set"), (b,), I)
            return [("as many patches are kept as were found on the surface", T.eq(rd(x, st, sd, (b,), I), cnt(k))), ("and counted", T.eq(nm, cnt(k))),
                    ("the count grows with the patches on the surface", T.land(T.le(zero, cnt(k)), T.implies(T.land(T.le(zero, j0), T.lt(j0, k), on(b, j0)), T.lt(cnt(j0), cnt(k))))),
                    ("a patch on the surface is kept at its place", kept(st, b, A, k)),
                    ("from the first patch", T.le(zero, k)), ("to the last", T.le(k, T.ite(T.le(zero, n), n, zero)))]
        n = x.default_input("mesh.num_bdy_patches", {"k": "int", "w": 64, "sg": False})
        lp = Search(inv)
        inner = Nest({(0,): lp})

        class Sel:
            fallback = False

            def run(self, x, s, *r):
                if x.regions or not any(w.val.startswith("i_") for w in T.free_vars(r[0].pc)):
                    return cp.run(x, s, *r)
                return inner.run(x, s, *r)
        cp = Any()
        x.loops["*"] = Sel()
        call_fn(x, f, args, st)
        u.shape("the patches of a set are gathered in one loop, then copied", len(x.regions) >= 2 and lp.ran >= 1 and calls)
        reg = x.regions[0]
        b, t = reg["ivs"][0], reg["after"]
        A, sd = ragged(x, t)
        ns = x.inputs["mesh.num_bdy_sets"]
        u.prove("every set is filled", [], T.land(T.eq(reg["rng"][0][0], zero), T.eq(reg["rng"][0][1], ns)), x)
        h = t.pc + [T.le(zero, n)]
        u.prove("every boundary patch on the surface is kept in the set", h + [T.lt(j0, n), T.le(zero, j0), on(b, j0)], T.land(T.eq(rd(x, t, A, (b, cnt(j0)), I), patch(j0)), T.lt(cnt(j0), rd(x, t, sd, (b,), I))), x)
        u.prove("the set holds as many patches as are on the surface", h, T.eq(rd(x, t, inarr(x, "mesh.num_bdy_patches_in_set"), (b,), I), cnt(n)), x)
        u.reachable("a patch on the surface", h + [T.lt(j0, n), T.le(zero, j0), on(b, j0)])
        # the copy
        it = cp.iters[-1] if cp.iters else None
        u.shape("the gathered patches are copied set by set", it is not None and len(it["regions"]) == 1)
        s2, r2 = it["iv"], it["regions"][0]
        l, b2, t2 = r2["ivs"][0], r2["before"], r2["after"]
        u.prove("every set is copied", [], T.land(T.eq(it["lo"], zero), T.eq(it["hi"], ns)), x)
        u.prove("all its patches", b2.pc, T.land(T.eq(r2["rng"][0][0], zero), T.eq(r2["rng"][0][1], rd(x, b2, inarr(x, "mesh.num_bdy_patches_in_set"), (s2,), I))), x)
        u.prove("in their places", t2.pc, T.eq(rd(x, t2, final(x, t2, "mesh.bdy_patches_in_set"), (s2, l), I), rd(x, b2, A, (s2, l), I)), x)
        u.assumptions.add("array library: a new ragged array with run-time row lengths has empty rows")
        u.assumptions.add("lemma (pigeonhole): cnt numbers the patches on the surface consecutively, so the places 0..cnt(n)-1 hold each of them once and nothing else")
        u.obligations(x)
    ck.unit("patches of a set", u_patches)

    # ---- the nodes of every set
    def u_nodes(u):
        tu = ck.tu(S, INCS)
        f = tu.find("build_boundry_node_sets")
        x, st = Executor(tu), State()
        args, a = mk_args(x, st, f, ["mesh"])
        MN = "mesh.num_bdy_nodes_in_set"
        nodes = lambda b, p, k: rd(x, s0, inarr(x, "mesh.nodes_in_patch"), (rd(x, s0, inarr(x, "mesh.bdy_patches_in_set"), (b, p), I), k), I)
        npatch = lambda b: rd(x, s0, inarr(x, "mesh.num_bdy_patches_in_set"), (b,), I)
        nn = x.default_input("mesh.num_nodes_in_patch", {"k": "int", "w": 64, "sg": False})
        p0, k0, q0, r0 = (T.var(v, "I") for v in "p0 k0 q0 r0".split())
        ink = T.land(T.le(zero, p0), T.le(zero, k0), T.lt(k0, nn))
        pos, sp, sk = ((lambda i, v=v: T.uf(v, (i,), "I")) for v in ("pos", "sp", "sk"))
        free = num(-1)

        def marks(x, st):
            sd = getattr(x, "strides", {})
            m = {v.id: v for v in st.store.values() if type(v).__name__ == "MArr" and v.id not in sd and "Ragged" not in str(v.cls) and v not in x.input_arrays.values() and v not in [final(x, st, MN)]}
            if len(m) != 1:
                raise Undecided("no single array of marks (%s %s %s)" % ([(k, v.name, v.id) for k, v in st.store.items() if type(v).__name__ == "MArr"], sd, final(x, st, MN).id))
            return list(m.values())[0]

        mk = lambda st, b, g: rd(x, st, marks(x, st), (b, g), I)
        cntr = lambda st, b: rd(x, st, final(x, st, MN), (b,), I)
        passed = lambda p, k=None: T.lt(p0, p) if k is None else T.lor(T.lt(p0, p), T.land(T.eq(p0, p), T.lt(k0, k)))

        # first loop: every node of a patch of the set is marked as not yet saved
        def inv1(x, st, k, lo):
            b = row(st)
            return [("a node passed is marked", T.implies(T.land(ink, passed(k)), T.eq(mk(st, b, nodes(b, p0, k0)), free))),
                    ("from the first patch", T.le(zero, k)), ("to the last", T.implies(T.le(zero, npatch(b)), T.le(k, npatch(b))))]

        def inv1i(x, st, k, lo):
            if l1.ck is None:
                return []
            b = row(st)
            p = st.store[l1.ck]
            return [("a node passed is marked", T.implies(T.land(ink, passed(p, k)), T.eq(mk(st, b, nodes(b, p0, k0)), free))), ("from the first node", T.le(zero, k)),
                    ("to the last", T.implies(T.le(zero, nn), T.le(k, nn)))]

        # second loop: a marked node is saved and its mark replaced
        def saved(st, b, done):
            A, sd = ragged(x, st)
            n = cntr(st, b)
            at = lambda i: rd(x, st, A, (b, i), I)
            P = lambda i: T.land(T.le(zero, i), T.lt(i, n))
            g = nodes(b, p0, k0)
            return [("as many nodes are kept as are counted", T.land(T.le(zero, n), T.eq(rd(x, st, sd, (b,), I), n))),
                    ("a node saved has lost its mark", T.implies(P(q0), T.ne(mk(st, b, at(q0)), free))),
                    ("another node saved has lost its mark", T.implies(P(r0), T.ne(mk(st, b, at(r0)), free))),
                    ("no node is saved twice", T.implies(T.land(P(q0), P(r0), T.ne(q0, r0)), T.ne(at(q0), at(r0)))),
                    ("a node saved belongs to a patch of the set", T.implies(P(q0), T.land(T.eq(at(q0), nodes(b, sp(q0), sk(q0))), T.le(zero, sp(q0)), T.lt(sp(q0), npatch(b)), T.le(zero, sk(q0)), T.lt(sk(q0), nn)))),
                    ("a node passed has lost its mark", T.implies(T.land(ink, done), T.ne(mk(st, b, g), free))),
                    ("a node of the set is marked or saved", T.implies(T.land(ink, T.lt(p0, npatch(b))), T.lor(T.eq(mk(st, b, g), free), T.land(P(pos(g)), T.eq(at(pos(g)), g)))))]

        def inv2(x, st, k, lo):
            b = row(st)
            st.pc.append(T.le(zero, nodes(b, p0, k0)))
            if k is lo:
                A, sd = ragged(x, st)
                st.pc.append(T.eq(rd(x, st, sd, (b,), I), zero))  # array library: new rows are empty
            return saved(st, b, passed(k)) + [("from the first patch", T.le(zero, k)), ("to the last", T.implies(T.le(zero, npatch(b)), T.le(k, npatch(b))))]

        def inv2i(x, st, k, lo):
            if l2.ck is None:
                return []
            b = row(st)
            p = st.store[l2.ck]
            g = nodes(b, p, k)
            st.pc.append(T.le(zero, nodes(b, p0, k0)))
            st.pc.append(T.le(zero, g))
            # ghosts, defined when a marked node is met (once per node): its place, and the patch and corner it came from
            n = cntr(st, b)
            st.pc.append(T.implies(T.land(T.eq(mk(st, b, g), free), T.lt(k, nn), T.lt(p, npatch(b))), T.land(T.eq(pos(g), n), T.eq(sp(n), p), T.eq(sk(n), k))))
            return saved(st, b, passed(p, k)) + [("from the first node", T.le(zero, k)), ("to the last", T.implies(T.le(zero, nn), T.le(k, nn)))]
        l1, l1i, l2, l2i, cp = Search(inv1), Search(inv1i), Search(inv2), Search(inv2i), Any()
        nest = Nest({(0,): l1, (0, 0): l1i, (1,): l2, (1, 0): l2i, (2,): cp})
        x.loops["*"] = nest
        st.assume(T.le(zero, nn))
        call_fn(x, f, args, st)
        u.shape("marking, saving and copying loops", len(x.regions) == 2 and len(nest.used) == 5 and cp.iters)
        r1, r2 = x.regions
        ns = x.inputs["mesh.num_bdy_sets"]
        for r, w in ((r1, "the nodes of every set are gathered"), (r2, "the nodes of every set are copied")):
            u.prove(w, [], T.land(T.eq(r["rng"][0][0], zero), T.eq(r["rng"][0][1], ns)), x)
        b, t = r1["ivs"][0], r1["after"]
        A, sd = ragged(x, t)
        n = cntr(t, b)
        at = lambda i: rd(x, t, A, (b, i), I)
        g = nodes(b, p0, k0)
        P = lambda i: T.land(T.le(zero, i), T.lt(i, n))
        h = t.pc + [T.le(zero, npatch(b))]
        hin = h + [ink, T.lt(p0, npatch(b))]
        u.prove("every node of a patch of the set is in the set", hin, T.land(P(pos(g)), T.eq(at(pos(g)), g)), x)
        u.prove("every node in the set is of one of its patches", h + [P(q0)], T.land(T.eq(at(q0), nodes(b, sp(q0), sk(q0))), T.le(zero, sp(q0)), T.lt(sp(q0), npatch(b)), T.le(zero, sk(q0)), T.lt(sk(q0), nn)), x)
        u.prove("no node is in the set twice", h + [P(q0), P(r0), T.ne(q0, r0)], T.ne(at(q0), at(r0)), x)
        u.reachable("a node of the set", hin)
        it = cp.iters[-1]
        b2, l = r2["ivs"][0], it["iv"]
        bf, af = it["before"], it["after"]
        u.prove("all nodes are copied", bf.pc, T.land(T.eq(it["lo"], zero), T.eq(it["hi"], cntr(bf, b2))), x)
        u.prove("to their places", af.pc, T.eq(rd(x, af, final(x, af, "mesh.bdy_nodes_in_set"), (b2, l), I), rd(x, bf, A, (b2, l), I)), x)
        u.assumptions.add("array library: a new ragged array with run-time row lengths has empty rows")
        u.obligations(x)
    ck.unit("nodes of a set", u_nodes)

    hydro_harness(ck, "C24", ["common/src/geometry_new.cpp"], 20000 if ck.tier == "quick" else 600000, "2D and 3D meshes of up to 14 nodes and 12 patches, up to 5 sets on planes, cylinders and spheres, nodes on and just off the surfaces", harness="bset.cpp", flags=("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), timeout=400)


def final(x, st, name):
    """the array a field holds now (it may have been allocated by the function)"""
    for k, v in st.store.items():
        if type(v).__name__ == "MArr" and isinstance(k, tuple) and k[-1] == name.split(".")[-1]:
            return v
    return inarr(x, name)
