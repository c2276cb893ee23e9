"""generated meshes: grid points, numbering, element corners"""
import os
from fractions import Fraction
from fvc import terms as T
from fvc.terms import num, TRUE, FALSE
from fvc.execu import State, Undecided, PathLV, Opaque, MArr, Dead
from fvc.loops import Inv
from fvc.check import HARN
from .multi import *
from .deck import DeckX, Vec

TUF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tu", "meshio.cpp")


class Grid:
    """a nest of loops over the grid.  `bounds`: upper bound -> (kind, axis).
    Invariant of every loop of the nest: what belongs to the ghost grid point is
    stored if the point comes before the point the loops have reached."""
    fallback = False

    def __init__(self, bounds, ghost, stored, lemma):
        self.bounds, self.ghost, self.stored, self.lemma = bounds, ghost, stored, lemma
        self.stack = []
        self.full = {}

    def run(self, x, s, st, env, cond, inc, body, post):
        if post or cond is None or inc is None:
            raise Undecided("loop at line %s is not a counted loop" % s["ln"])
        p = st.copy()
        b0 = dict(p.store)
        x.ev(inc, p, dict(env))
        ctr = [k for k, v in p.store.items() if b0.get(k) is not v]
        if len(ctr) != 1:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        iv = T.fresh("i", "I")
        g = st.copy()
        g.store[ctr[0]] = iv
        c = x.tobool(x.ev(cond, g, dict(env)))
        hi = c.args[1] if c.op == "lt" and c.args[0] is iv else T.add(c.args[1], num(1)) if c.op == "le" and c.args[0] is iv else None
        ax = [v for b, v in self.bounds if hi is not None and T.eq(b, hi) is TRUE]
        if not ax and not post:
            # a loop over the corners of a cell or the dimensions
            x.loops.pop("*")
            try:
                return x.loop(s, st, env, cond, inc, body, post)
            finally:
                x.loops["*"] = self
        if len(ax) != 1:
            raise Undecided("loop at line %s does not run over the grid (%s)" % (s["ln"], T.show(c)))
        kind, axis = ax[0]
        if self.stack and self.stack[0][0] != kind:
            raise Undecided("loop at line %s: nest over different grids" % s["ln"])
        self.stack.append((kind, axis, ctr[0], hi))
        try:
            return Inv(lambda x, st, env: self.inv_(x, st, st.store[ctr[0]])).run(x, s, st, env, cond, inc, body, post)
        finally:
            self.stack.pop()

    def inv_(self, x, st, k):
        kind = self.stack[0][0]
        G = self.ghost[kind]
        cs = [(G[ax], st.store[ck], hi) for _, ax, ck, hi in self.stack]
        done = FALSE
        for g, c, _ in reversed(cs):
            done = T.lor(T.lt(g, c), T.land(T.eq(g, c), done))
        out = []
        hi = cs[-1][2]
        inside = T.land(*[T.land(T.le(num(0), g), T.lt(g, h)) for g, h in self.box(kind)])
        if len(self.stack) == len(G):
            self.full[kind] = self.full.get(kind, 0) + 1
            kap = {ax: c for (_, ax, _, _), (_, c, _) in zip(self.stack, cs)}
            self.lemma(x, st, kind, [kap[a] for a in range(len(G))], inside)
        for n, t in self.stored(x, st, kind):
            out.append((n, T.implies(T.land(inside, done), t)))
        out.append(("the loop starts at the first grid line", T.le(num(0), k)))
        out.append(("and runs to the last", T.implies(T.le(num(0), hi), T.le(k, hi))))
        return out

    def box(self, kind):
        return [(self.ghost[kind][ax], b) for b, (kd, ax) in self.bounds if kd == kind]


class MeshX(DeckX):
    stops = None

    def escape(self, kind, val, st):
        g = self.loops.get("*")
        if self.stops is not None:
            self.stops.append((list(st.pc), {(kd, ax): st.store[c] for kd, ax, c, _ in g.stack} if isinstance(g, Grid) else {}))
        return DeckX.escape(self, kind, val, st)

    def builtin_record(self, e, st, env, ty):
        ini = [a for a in e.get("args", []) if a["k"] == "StdInit"]
        if ty.get("q") == "std::vector" and e["k"] == "Ctor" and ini:
            il = ini[0]
            while il["k"] != "IL":
                il = il["e"]
            m = MArr("vec%d" % (MArr._n + 1))
            for k, v in enumerate(il["v"]):
                vt = self.tu.strip(v["t"])
                self.awrite(st, m, (num(k),), (), vt, self.ev(v, st, env))
            return Vec(m, num(len(il["v"])))
        return DeckX.builtin_record(self, e, st, env, ty)


def lemmas(u):
    n, a, b, p, q = [T.var(z, "I") for z in "n a b p q".split()]
    ina = [T.le(num(0), a), T.lt(a, n), T.le(num(0), b), T.lt(b, n)]
    one = lambda a, b, p, q, n: T.implies(T.land(T.le(num(0), a), T.lt(a, n), T.le(num(0), b), T.lt(b, n), T.eq(T.add(a, T.mul(n, p)), T.add(b, T.mul(n, q)))), T.land(T.eq(a, b), T.eq(p, q)))
    d = T.var("d", "I")
    u.prove("numbering: a multiple of n below n in size is zero", [T.lt(T.mul(n, d), n), T.lt((-n), T.mul(n, d)), T.lt(num(0), n)], T.eq(d, num(0)))
    u.prove("numbering: remainder and quotient are unique", ina + [T.eq(T.add(a, T.mul(n, p)), T.add(b, T.mul(n, q))), T.implies(T.land(T.lt(T.mul(n, T.sub(q, p)), n), T.lt((-n), T.mul(n, T.sub(q, p)))), T.eq(T.sub(q, p), num(0)))], T.land(T.eq(a, b), T.eq(p, q)))
    N = [T.var("n" + z, "I") for z in "ijk"]
    A, B = [T.var("a" + z, "I") for z in "ijk"], [T.var("b" + z, "I") for z in "ijk"]
    for nd in (2, 3):
        inside = [c for v in (A, B) for k in range(nd) for c in (T.le(num(0), v[k]), T.lt(v[k], N[k]))]
        if nd == 2:
            ra, rb = A[1], B[1]
        else:
            ra, rb = T.add(A[1], T.mul(N[1], A[2])), T.add(B[1], T.mul(N[1], B[2]))
        pa, pb = T.add(A[0], T.mul(N[0], ra)), T.add(B[0], T.mul(N[0], rb))
        inst = [one(A[0], B[0], ra, rb, N[0])] + ([one(A[1], B[1], A[2], B[2], N[1])] if nd == 3 else [])
        u.prove("numbering in %d dimensions: two grid points have two numbers" % nd, inside + inst + [T.eq(pa, pb)], T.land(*[T.eq(A[k], B[k]) for k in range(nd)]))
        # below the product
        if nd == 2:
            u.prove("numbering in 2 dimensions: numbers are below the number of points", inside + [T.le(T.mul(N[0], T.add(A[1], num(1))), T.mul(N[0], N[1]))], T.land(T.le(num(0), pa), T.lt(pa, T.mul(N[0], N[1]))))
    u.prove("numbering: products keep the order", [T.le(num(0), n), T.le(p, q)], T.le(T.mul(n, p), T.mul(n, q)))
    g = T.var("g", "I")
    # every number below n*m is that of a point: quotient and remainder
    u.prove("numbering: every number below n*m is the number of a point", [T.lt(num(0), n), T.le(num(0), g), T.lt(g, T.mul(n, q)), T.eq(g, T.add(a, T.mul(n, p))), T.le(num(0), a), T.lt(a, n)], T.land(T.le(num(0), p), T.lt(p, q)))


def run(ck):
    s0 = State()

    def build(fn, nd, polar):
        def go(u):
            tu = ck.tu(TUF, INCS)
            f = tu.find("MeshBuilder::" + fn)
            x, st = MeshX(u, tu, {}, fn), State()
            mesh, node, sim = obj(x, st, "mesh"), obj(x, st, "node"), obj(x, st, "sim")
            mi = sim.path + ("mesh_input",)
            args = [mesh, obj(x, st, "gauss"), node, obj(x, st, "corner"), sim]
            log = []
            coords, nie = MArr("node.coords"), MArr("mesh.nodes_in_elem")
            def call(nm, nargs, after=None):
                def c(x, st, thislv, a, env, e):
                    v = [x.ev(q, st, env) for q in a[:nargs]]
                    log.append((nm, v, st.copy()))
                    if after:
                        after(st, v)
                    return Opaque("void")
                return c

            def elems(st, v):
                st.store[mesh.path + ("num_elems",)] = v[0]
                st.store[mesh.path + ("num_nodes_in_elem",)] = num(2 ** nd)
                st.store[mesh.path + ("num_dims",)] = v[1]
                st.store[mesh.path + ("nodes_in_elem",)] = nie

            def nodes(st, v):
                st.store[mesh.path + ("num_nodes",)] = v[0]
            x.contracts["swage::Mesh::initialize_nodes"] = call("nodes", 1, nodes)
            x.contracts["swage::Mesh::initialize_elems"] = call("elems", 2, elems)
            x.contracts["swage::Mesh::initialize_corners"] = call("corners", 1)
            x.contracts["swage::Mesh::build_connectivity"] = call("connectivity", 0)
            x.contracts["node_t::initialize"] = call("coords", 2, lambda st, v: st.store.__setitem__(node.path + ("coords",), coords))
            names = ["num_radial_elems", "num_angular_elems"] if polar else None
            ne = [x.read(st, PathLV(mi + (names[k],) if polar else mi + ("num_elems", k)), {"k": "int", "w": 32, "sg": True} if polar else {"k": "int", "w": 64, "sg": False}) for k in range(nd)]
            rv = lambda *q: x.read(st, PathLV(mi + q), R)
            org = [rv("origin", k) for k in range(nd)]
            for n in ne:
                st.assume(T.lt(num(0), n))
            np_ = [T.add(n, num(1)) for n in ne]
            bounds = [(np_[k], ("node", k)) for k in range(nd)] + [(ne[k], ("elem", k)) for k in range(nd)]
            ghost = {kd: [T.var(kd + " " + "ijk"[k], "I") for k in range(nd)] for kd in ("node", "elem")}
            gid = {kd: T.var(kd + " number", "I") for kd in ghost}
            tup = lambda kd: np_ if kd == "node" else ne

            def number(kd, p):
                n, m, r = tup(kd), num(1), num(0)
                for k in range(nd):
                    r = T.add(r, T.mul(T.lift(p[k]), m))
                    m = T.mul(m, n[k])
                return r
            real = lambda i: i
            gp = ghost["node"]
            if polar:
                deg = lambda q: T.mul(T.div(T.real(Fraction("3.141592653589793")), T.real(180)), q)
                r = T.add(rv("inner_radius"), T.mul(real(gp[0]), T.div(T.sub(rv("outer_radius"), rv("inner_radius")), real(ne[0]))))
                a0, a1 = deg(rv("starting_angle")), deg(rv("ending_angle"))
                th = T.add(a0, T.mul(real(gp[1]), T.div(T.sub(a1, a0), real(ne[1]))))
                X = [T.add(org[0], T.mul(r, T.trig("cos", th))), T.add(org[1], T.mul(r, T.trig("sin", th)))]
            else:
                X = [T.add(org[k], T.mul(real(gp[k]), T.div(rv("length", k), real(ne[k])))) for k in range(nd)]
            corners = [(0, 0), (1, 0), (1, 1), (0, 1)] if nd == 2 else [(l % 2, l // 2 % 2, l // 4) for l in range(8)]

            def stored(x, st, kd):
                if kd == "node":
                    pos = [("a grid point at a negative radius is refused", T.le(T.real(0), X[0]))] if polar else []
                    return pos + [("coordinate %s of a grid point is stored under its number" % "xyz"[d], T.eq(rd(x, st, coords, (gid["node"], d), R), X[d])) for d in range(nd)]
                return [("corner %d of a cell is stored under its number" % l, T.eq(rd(x, st, nie, (gid["elem"], l), I), number("node", [T.add(ghost["elem"][k], num(c[k])) for k in range(nd)])) ) for l, c in enumerate(corners)]

            def lemma(x, st, kd, kap, inside):
                same = T.land(*[T.eq(a, b) for a, b in zip(kap, ghost[kd])])
                kin = T.land(*[T.land(T.le(num(0), a), T.lt(a, n)) for a, n in zip(kap, tup(kd))])
                e = T.eq(number(kd, kap), gid[kd])
                st.pc.append(T.implies(T.land(inside, kin), T.land(T.implies(e, same), T.implies(same, e))))
            gr = Grid(bounds, ghost, stored, lemma)
            x.loops["*"] = gr
            x.stops = []
            call_fn(x, f, args, st, this=obj(x, st, "self"))
            u.reachable("the mesh is built", st.pc)
            for kd in ghost:
                u.shape("one nest of loops over the %s grid" % kd, gr.full.get(kd, 0) > 0)
            for pc, kap in x.stops:
                if not polar:
                    u.prove("a mesh is not refused", pc, FALSE, x)
                    continue
                if set(kap) != {("node", 0), ("node", 1)}:
                    raise Undecided("a polar mesh is refused outside the loop over its nodes")
                u.prove("a polar mesh is refused only for a node at a negative radius", pc, T.lt(T.subst(X[0], {g: kap[("node", k)] for k, g in enumerate(gp)}), T.real(0)), x)
            if polar:
                u.shape("a polar mesh can be refused", len(x.stops) > 0)
            nm = [l[0] for l in log]
            for q in ("nodes", "coords", "elems", "corners", "connectivity"):
                u.fact("%s are set up once" % q, nm.count(q) == 1, "symbolic execution", note=str(nm))
            if sorted(nm) == ["connectivity", "coords", "corners", "elems", "nodes"]:
                got = {l[0]: l for l in log}
                P = lambda v: T.mul(T.mul(v[0], v[1]), v[2]) if nd == 3 else T.mul(v[0], v[1])
                for q, v in (("nodes", [P(np_)]), ("coords", [P(np_), num(nd)]), ("elems", [P(ne), num(nd)]), ("corners", [T.mul(num(2 ** nd), P(ne))])):
                    for a, b in zip(got[q][1], v):
                        u.prove("the number of %s (or of dimensions) is that of the grid" % q, got[q][2].pc, T.eq(a, b), x)
                u.fact("the connectivity is built last", nm[-1] == "connectivity", "symbolic execution", note=str(nm))
                cst = got["connectivity"][2]
                for kd in ghost:
                    inside = [T.land(T.le(num(0), g), T.lt(g, n)) for g, n in zip(ghost[kd], tup(kd))]
                    for n, t in stored(x, cst, kd):
                        u.prove("before the connectivity is built: " + n, cst.pc + inside, t, x)
                    for n, t in stored(x, st, kd):
                        u.prove("in the end: " + n, st.pc + inside, t, x)
            u.obligations(x)
        return go
    ck.unit("numbering", lemmas)
    ck.unit("box mesh 3D", build("build_3d_box", 3, False))
    ck.unit("box mesh 2D", build("build_2d_box", 2, False))
    ck.unit("polar mesh", build("build_2d_polar", 2, True))

    def select(u):
        tu = ck.tu(TUF, INCS)
        f = tu.find("MeshBuilder::build_mesh")
        for nd in (1, 2, 3, 4):
            for kind in ("Box", "Polar", None):
                x, st = MeshX(u, tu, {}, "build_mesh"), State()
                x.escapes.append([])
                called = []
                for b in ("build_3d_box", "build_2d_box", "build_2d_polar", "build_3d_HexN_box"):
                    x.contracts["MeshBuilder::" + b] = (lambda b: lambda x, st, thislv, a, env, e: (called.append((b, tuple(x.lval(q, st, env).path for q in a))), Opaque("void"))[1])(b)
                a = [obj(x, st, z) for z in ("mesh", "gauss", "node", "corner", "sim")]
                mi = a[4].path + ("mesh_input",)
                st.store[mi + ("num_dims",)] = num(nd)
                st.store[mi + ("type",)] = T.lift(enum(tu, "mesh_input::" + kind)) if kind else num(77)
                try:
                    call_fn(x, f, a, st, this=obj(x, st, "self"))
                    back = True
                except Dead:
                    back = False
                want = "build_3d_box" if nd == 3 else {"Box": "build_2d_box", "Polar": "build_2d_polar"}.get(kind) if nd == 2 else None
                what = "%d dimensions, %s" % (nd, kind or "another type")
                if want:
                    u.fact("%s: %s is built, with the run's own mesh" % (what, want), back and called == [(want, tuple(z.path for z in a))], "symbolic execution", note=str(called))
                else:
                    u.fact("%s: refused" % what, not called and not back, "symbolic execution", note=str(called))
    ck.unit("mesh asked for", select)
    exe = ck.compile("grid", [HARN + "/grid.cpp"], INCS, flags=("-O1", "-g", "-fsanitize=address"), libs=["-Wl,--unresolved-symbols=ignore-all", "-no-pie"])
    ck.run_harness("meshes built by the real builder", exe, [ck.seed, 3000 if ck.tier == "quick" else 60000], bound="random boxes and annuli of up to 9 elements along each axis")
