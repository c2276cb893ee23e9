"""the driver: which parts are put together, in what order, and when each solver runs

The functions of driver.cpp and main.cpp are executed from their source.  What
they call (readers, fills, the functions of the solvers) is a contract that
records the call and what it is given; the record is compared with the one the
property asks for.  The loop over the entries of the solver list is taken for
one arbitrary entry, the solvers made so far being as many as the entries
passed; loops over the solvers for one arbitrary solver."""
from fvc import terms as T
from fvc.terms import num, TRUE, FALSE, Term
from fvc.execu import State, Undecided, PathLV, Opaque, MArr, Dead, Executor, Ptr, ElemLV, RecV
from fvc.check import HARN, call_fn
from fvc.loops import Inv, calls_in
from .multi import *

LOG = ("L", "calls")
SIZE = ("L", "number of solvers")
KINDS = [("SGH3D", "SGH3D"), ("SGHRZ", "SGHRZ"), ("SGTM3D", "SGTM3D"), ("levelSet", "LevelSet"), ("TLQS3D", "TLQS3D")]
DATA = {"I": "SimulationParamaters", "A": "Materials", "m": "mesh", "B": "BoundaryConditions", "S": "State"}
METHODS = ("initialize", "initialize_material_state", "setup", "execute", "finalize")
UNK = T.var("the solver", "S")


def ev(st, name, *what):
    st.store[LOG] = T.uf(name, (st.store[LOG],) + what, "S")


def chain(t, stop):
    """readable"""
    out = []
    while t is not stop and t.op == "uf":
        out.append(t.val if isinstance(t.val, str) else str(t.val[0]))
        t = t.args[0]
    return " <- ".join(out)[:200]


class DrvX(Executor):
    def __init__(self, u, tu, name=""):
        Executor.__init__(self, tu, name)
        self.u = u
        self.init_globals = False
        self.loops = {"*": Entries()}
        self.made = None
        self.thrown = []
        C = self.contracts
        for q in ("parse_yaml", "Yaml::Parse", "tag_bdys", "build_boundry_node_sets", "simulation_setup", "material_state_setup", "MeshReader::read_mesh", "MeshBuilder::build_mesh", "swage::Mesh::init_bdy_sets"):
            C[q] = self.part(q)
        C["MeshReader::set_mesh_file"] = lambda x, st, thislv, args, env, e: (ev(st, "set_mesh_file", SC_(x.nameof(args[0], st, env))), Opaque("void"))[1]
        for k, c in KINDS + [("", "Solver")]:
            for m in METHODS:
                C["%s::%s" % (c, m)] = self.of_solver(m)
        C["Driver::setup_solver_vars"] = self.vars_of

    def nameof(self, a, st, env):
        """the member of the driver that is given"""
        if a["k"] in ("MCall", "OpCall") and a["fn"]["n"] in ("data", "c_str"):
            a = a["o"]
        while a["k"] == "Cast" and a["ck"] != "LValueToRValue":
            a = a["e"]
        t = self.tu.strip(a["t"])
        if self.sort(t):
            v = self.ev(a, st, env)
            return str(v)
        try:
            lv = self.lval(a["e"] if a["k"] == "Cast" else a, st, env)
        except Undecided:
            return "?"
        if isinstance(lv, PathLV):
            n = self.pname(lv.path)
            return n if n else "local " + str(t.get("name") or t.get("q") or t["k"])
        return "?"

    def part(self, q):
        def c(x, st, thislv, args, env, e):
            ev(st, q.split("::")[-1], *[SC_(x.nameof(a, st, env)) for a in args])
            return Opaque("void")
        return c

    def token(self, lv):
        if isinstance(lv, ElemLV) and lv.arr.name == "solver" and len(lv.idx) == 1 and not lv.sub:
            return T.uf("solver", tuple(lv.idx), "S")
        if isinstance(lv, PathLV) and self.made is not None and lv == self.made:
            return T.var("the new solver", "S")
        raise Undecided("a call on something that is not known to be a solver")

    def of_solver(self, m):
        def c(x, st, thislv, args, env, e):
            ev(st, m, x.token(thislv), *[SC_(x.nameof(a, st, env)) for a in args])
            return Opaque("void")
        return c

    def vars_of(self, x, st, thislv, args, env, e):
        p = x.ev(args[0], st, env) if args[0]["k"] == "Cast" else x.read(st, x.lval(args[0], st, env), {"k": "ptr"})
        if not isinstance(p, Ptr):
            raise Undecided("setup_solver_vars of something that is not a solver")
        ev(st, "setup_solver_vars", x.token(p.lv), x.ev(args[1], st, env))
        return Opaque("void")

    def read(self, st, lv, ty):
        if isinstance(lv, ElemLV) and lv.arr.name == "self.solvers" and not lv.sub:
            return Ptr(ElemLV(self.input_arrays.setdefault("solver", MArr("solver")), lv.idx))
        return Executor.read(self, st, lv, ty)

    def e_New(self, e, st, env):
        ty = self.tu.types[e["at"]]
        n = ty.get("q") or ty.get("name")
        if n in [c for k, c in KINDS]:
            lv = self.newobj("new solver")
            st.store[lv.path + ("#type",)] = Opaque(n)
            self.made = lv
            ev(st, "new " + n)
            return Ptr(lv)
        if n == "Driver":
            lv = self.newobj("self", True)
            ev(st, "new Driver")
            return Ptr(lv)
        return Executor.e_New(self, e, st, env)

    def e_Delete(self, e, st, env):
        p = self.ev(e["e"], st, env)
        if isinstance(p, Ptr):
            try:
                ev(st, "delete", self.token(p.lv))
            except Undecided:
                ev(st, "delete driver")
        return Opaque("void")

    def builtin2(self, fn, thislv, args, st, env, e):
        cls = fn.get("clsq") or fn.get("cls") or ""
        if "chrono" in fn["q"] or "chrono" in cls:
            return T.fresh("clock", "R")
        if "vector" in cls:
            n = self.pname(thislv.path) if isinstance(thislv, PathLV) else None
            if n == "self.solvers":
                if fn["n"] in ("push_back", "emplace_back"):
                    p = self.ev(args[0], st, env) if args[0]["k"] == "Cast" else self.read(st, self.lval(args[0], st, env), {"k": "ptr"})
                    if not isinstance(p, Ptr):
                        raise Undecided("what is added to the solvers")
                    ev(st, "add", self.token(p.lv), st.store[SIZE])
                    st.store[SIZE] = T.add(st.store[SIZE], num(1))
                    return Opaque("void")
                if fn["n"] == "size":
                    return st.store[SIZE]
            if n and fn["n"] in ("operator[]", "at"):
                a = self.input_arrays.setdefault(n, MArr(n))
                return ElemLV(a, (self.ev(args[0], st, env),))
            if n and fn["n"] == "size":
                return T.var(n + ".size", "I")
            if n and fn["n"] == "empty":
                return T.eq(T.var(n + ".size", "I"), num(0))
        if fn["n"] == "operator==" and fn["q"] == "std::operator==":
            return T.var("the argument is --help", "B")
        return Executor.builtin2(self, fn, thislv, args, st, env, e)

    def s_Try(self, s, st, env):
        if any("filesystem" in c for c in calls_in(s["b"])):
            # where a relative path starts: a bounded stand-in (the harness) decides
            self.u.assume_path = True
            ev(st, "resolve the path of the mesh")
            return {"next": st}
        return Executor.s_Try(self, s, st, env)

    def s_Range(self, s, st, env):
        d = s["v"]
        rng = s.get("rng")
        lv = self.lval(rng, st, env) if rng is not None else None
        if not isinstance(lv, PathLV) or self.pname(lv.path) != "self.solvers":
            return Executor.s_Range(self, s, st, env)
        k = T.fresh("k", "I")
        h, en = st.copy(), dict(env)
        v = self.newobj(d["n"])
        en[d["id"]] = en[("n", d["n"])] = v
        h.store[v.path] = Ptr(ElemLV(self.input_arrays.setdefault("solver", MArr("solver")), (k,)))
        return self.each(s, st, h, en, k, num(0), st.store[SIZE], None, None)

    def each(self, s, st, h, env, k, lo, hi, inc, ck):
        """one arbitrary solver"""
        l0 = T.var("before", "S")
        h.store[LOG] = l0
        h.assume(T.le(lo, k))
        h.assume(T.lt(k, hi))
        base = dict(h.store)
        r = self.ex(s["b"], h, env)
        if set(r) - {"next", "cont"}:
            raise Undecided("line %s: a loop over solvers is left early" % s["ln"])
        n = self.merge(list(r.values()))
        if inc is not None:
            self.ev(inc, n, env)
            if n.store.get(ck) is not T.add(k, num(1)):
                raise Undecided("line %s: the loop does not count by one" % s["ln"])
        for q, v in n.store.items():
            if q in base and base[q] is not v and q not in (LOG, ck):
                raise Undecided("line %s: the loop over solvers changes a value" % s["ln"])
        if lo is not num(0):
            raise Undecided("line %s: the loop does not start with the first solver" % s["ln"])
        body = T.subst(n.store[LOG], {k: T.var("@k", "I"), l0: T.var("@before", "S")})
        st.store[LOG] = T.uf("each solver", (st.store[LOG], body, hi), "S")
        return {"next": st}


def SC_(s):
    return T.var("'" + s + "'", "S")


class Entries(Inv):
    """the loop over the entries of the solver list, or over the solvers"""

    def __init__(self):
        Inv.__init__(self, lambda x, st, env: [])
        self.log = {}

    def run(self, x, s, st, env, cond, inc, body, post):
        self.ran += 1
        makes = any(n.get("k") == "New" for n in nodes(body))
        h = st.copy()
        ch = None
        c = None
        # the counter: what the condition compares
        for k, v in list(h.store.items()):
            pass
        base = {}
        probe = h.copy()
        if inc is None:
            raise Undecided("line %s: loop" % s["ln"])
        b4 = dict(probe.store)
        x.ev(inc, probe, dict(env))
        cks = [k for k, v in probe.store.items() if k in b4 and b4[k] is not v]
        if len(cks) != 1 or probe.store[cks[0]] is not T.add(b4[cks[0]], num(1)):
            raise Undecided("line %s: the loop does not count by one" % s["ln"])
        ck = cks[0]
        lo = b4[ck]
        m = T.fresh("entry", "I")
        h.store[ck] = m
        c = x.tobool(x.ev(cond, h, dict(env)))
        if c.op == "not" and c.args[0].op == "le":
            c = T.lt(c.args[0].args[1], c.args[0].args[0])
        if c.op != "lt" or c.args[0] is not m:
            raise Undecided("line %s: loop condition" % s["ln"])
        hi = c.args[1]
        if not makes:
            st.store.pop(ck, None)
            return x.each(dict(s, b=body), st, h, dict(env), m, lo, hi, inc, ck)
        u = x.u
        n = T.var("self.SimulationParamaters.solver_inputs.size", "I")
        u.prove("the first entry of the solver list is taken first", st.pc, T.eq(lo, num(0)))
        u.prove("all entries of the solver list are taken", st.pc, T.eq(hi, n))
        u.prove("no solver is there before", st.pc, T.eq(st.store[SIZE], num(0)))
        arr = x.input_arrays.setdefault("self.SimulationParamaters.solver_inputs", MArr("self.SimulationParamaters.solver_inputs"))
        meth = x.aread(h, arr, (m,), ("method",), I)
        l0 = T.var("calls before the entry", "S")
        args = tuple(SC_("self." + DATA[k]) for k in "IAmBS")
        vals = []
        for k, cls in KINDS + [("another", None)]:
            b = h.copy()
            b.store[LOG] = l0
            b.store[SIZE] = m
            b.assume(T.le(num(0), m))
            b.assume(T.lt(m, hi))
            if cls:
                v = enum(x.tu, "solver_input::" + k)
                vals.append(v)
                b.assume(T.eq(meth, num(v)))
            else:
                for v in vals:
                    b.assume(T.lnot(T.eq(meth, num(v))))
            x.made = None
            esc = len(x.escapes[-1]) if x.escapes else 0
            try:
                r = x.ex(body, b, dict(env))
            except Dead:
                r = {}
            outs = [o for o in r.values() if not x.prover_check(o.pc, FALSE, 10)] if not cls else list(r.values())
            if cls is None:
                u.fact("an entry of another method is refused", not outs, "an entry whose method is none of the five is passed over")
                continue
            if set(r) - {"next", "cont"} or not r:
                u.fact("an entry of method %s makes a solver" % k, False, "the entry ends the loop")
                continue
            z = x.merge(list(r.values()))
            p = T.var("the new solver", "S")
            want = lambda order: None
            alts = []
            for seq in (("initialize", "vars", "add"), ("vars", "initialize", "add"), ("vars", "add", "initialize"), ("add", "initialize", "vars"), ("initialize", "add", "vars"), ("add", "vars", "initialize")):
                t = T.uf("new " + cls, (l0,), "S")
                for w in seq:
                    t = T.uf(w, (t, p) + args, "S") if w == "initialize" else T.uf("setup_solver_vars", (t, p, m), "S") if w == "vars" else T.uf("add", (t, p, m), "S")
                alts.append(t)
            got = x.simp(z.store[LOG], z)
            if got in alts:
                u.fact("an entry of method %s makes a %s, prepared and numbered once" % (k, cls), True)
            else:
                u.late.append("what is done for an entry of method %s: %s" % (k, chain(got, l0)))
            u.prove("an entry of method %s adds one solver" % k, z.pc, T.eq(z.store[SIZE], T.add(m, num(1))))
            u.prove("the entries are counted (%s)" % k, z.pc, T.eq(z.store[ck], m))
        st.store[LOG] = T.uf("solvers made", (st.store[LOG],), "S")
        st.store[SIZE] = n
        st.store[ck] = T.fresh("n", "I")
        return {"next": st}


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def simp(x, t, st):
    """resolve the cases the path decides"""
    if t.op == "ite":
        c = t.args[0]
        if x.prover_check(st.pc, c, 10):
            return simp(x, t.args[1], st)
        if x.prover_check(st.pc, T.lnot(c), 10):
            return simp(x, t.args[2], st)
        return T.ite(c, simp(x, t.args[1], st), simp(x, t.args[2], st))
    if t.op == "uf" and t.args and t.sort == "S":
        a = simp(x, t.args[0], st)
        return t if a is t.args[0] else T.uf(t.val, (a,) + tuple(t.args[1:]), "S")
    return t


DrvX.simp = lambda self, t, st: simp(self, t, st)


def start(ck, u, file="driver.cpp"):
    tu = ck.tu(D + file, INCS)
    x, st = DrvX(u, tu, "driver"), State()
    u.late = []
    st.store[LOG] = T.var("start", "S")
    st.store[SIZE] = num(0)
    return tu, x, st


def finish(u, x):
    u.obligations(x)
    for w in u.late:
        u.shape(w, False)


def same(u, x, st, what, got, want):
    got = x.simp(got, st)
    if got is want:
        u.fact(what, True)
    else:
        u.late.append("%s: the calls are %s" % (what, chain(got, None)))


def data(s, extra=()):
    return tuple(SC_("self." + DATA[k]) for k in s) + tuple(SC_("local " + e) for e in extra)


def initialize(ck):
    def go(u):
        tu, x, st = start(ck, u)
        arr = T.var("self.SimulationParamaters.mesh_input.source", "I")
        st0 = T.var("start", "S")
        for src in ("generate", "file"):
            x.made = None
            s = st.copy()
            s.assume(T.eq(arr, num(enum(tu, "mesh_input::" + src))))
            u2 = u
            call_fn(x, tu.find("Driver::initialize"), [], s, this=obj(x, s, "self"))
            t = T.uf("parse_yaml", (T.uf("Parse", (st0, SC_("local Yaml::Node"), SC_("self.yaml_file")), "S"), SC_("local Yaml::Node")) + data("IAB"), "S")
            got = x.simp(s.store[LOG], s)
            names = []
            z = got
            while z.op == "uf":
                names.append(z)
                z = z.args[0]
            names.reverse()
            order = [n.val if isinstance(n.val, str) else n.val[0] for n in names]
            mesh = ["resolve the path of the mesh", "set_mesh_file", "read_mesh"] if src == "file" else ["build_mesh"]
            want = ["Parse", "parse_yaml"] + mesh + ["init_bdy_sets", "tag_bdys", "build_boundry_node_sets", "solvers made", "simulation_setup", "each solver", "material_state_setup"]
            if order != want:
                u.late.append("the order in which the calculation is put together (%s mesh): %s" % (src, " ".join(order)))
            else:
                u.fact("everything is put together in order (%s mesh)" % src, True)
                a = {o: n.args[1:] for o, n in zip(order, names)}
                exp = {"parse_yaml": (SC_("local Yaml::Node"),) + data("IAB"), "init_bdy_sets": (SC_(str(T.var("self.BoundaryConditions.num_bcs", "I"))),), "build_boundry_node_sets": data("m"),
                       "simulation_setup": data("IAmBS", ("fillGaussState_t", "fillElemState_t")), "material_state_setup": data("IAmBS", ("fillGaussState_t", "fillElemState_t"))}
                exp["tag_bdys"] = data("Bm") + (SC_("self.State.node.coords"),)
                k = T.var("@k", "I")
                exp["each solver"] = (T.uf("initialize_material_state", (T.var("@before", "S"), T.uf("solver", (k,), "S")) + data("IAmBS"), "S"), T.var("self.SimulationParamaters.solver_inputs.size", "I"))
                for o, w in exp.items():
                    if a[o] == w:
                        u.fact("%s is given the data of the calculation (%s mesh)" % (o, src), True)
                    else:
                        u.late.append("what %s is given: %s" % (o, ", ".join(map(str, a[o]))[:200]))
        finish(u, x)
    return go


def loops(ck):
    def go(u):
        n = T.var("the number of solvers", "I")
        tok = T.uf("solver", (T.var("@k", "I"),), "S")
        b4, s0 = T.var("@before", "S"), T.var("start", "S")
        for f, w in (("setup", T.uf("setup", (b4, tok) + data("IAmBS"), "S")), ("execute", T.uf("execute", (b4, tok) + data("IABmS"), "S"))):
            tu, x, st = start(ck, u)
            st.store[SIZE] = n
            call_fn(x, tu.find("Driver::" + f), [], st, this=obj(x, st, "self"))
            same(u, x, st, "Driver::%s: every solver once, in order" % f, st.store[LOG], T.uf("each solver", (s0, w, n), "S"))
            finish(u, x)
        tu, x, st = start(ck, u)
        st.store[SIZE] = n
        call_fn(x, tu.find("Driver::finalize"), [], st, this=obj(x, st, "self"))
        flag = x.aread(st, x.input_arrays["solver"], (T.var("@k", "I"),), ("finalize_flag",), {"k": "bool"}) if "solver" in x.input_arrays else None
        w = T.uf("each solver", (s0, T.ite(flag, T.uf("finalize", (b4, tok) + data("IAB"), "S"), b4), n), "S") if flag is not None else s0
        same(u, x, st, "Driver::finalize: the solvers that ask for it, then every solver is deleted once", st.store[LOG], T.uf("each solver", (w, T.uf("delete", (b4, tok), "S"), n), "S"))
        finish(u, x)
    return go


def program(ck):
    def go(u):
        tu, x, st = start(ck, u, "main.cpp")
        for m in METHODS[:1] + METHODS[2:]:
            x.contracts["Driver::" + m] = (lambda m: lambda x, st, thislv, args, env, e: (ev(st, m), Opaque("void"))[1])(m)
        for q in ("Kokkos::initialize", "Kokkos::finalize"):
            x.contracts[q] = lambda x, st, thislv, args, env, e: Opaque("void")
        x.contracts["print_inputs"] = lambda x, st, thislv, args, env, e: Opaque("void")
        st.assume(T.lnot(T.var("the argument is --help", "B")))
        a = MArr("argv")
        call_fn(x, tu.find("main"), [num(2), Ptr(ElemLV(a, (num(0),)))], st)
        t = T.var("start", "S")
        for w in ("new Driver", "initialize", "setup", "execute", "finalize", "delete driver"):
            t = T.uf(w, (t,), "S")
        same(u, x, st, "the program initializes, sets up, executes and finalizes", st.store[LOG], t)
        finish(u, x)
    return go


def solver_vars(ck):
    def go(u):
        tu0 = ck.tu(D + "driver.cpp", INCS)
        fs = [f for f in tu0.funcs.values() if f["q"] == "Driver::setup_solver_vars" and f.get("body")]
        done = set()
        for f in fs:
            tu, x, st = start(ck, u)
            f = tu.funcs[f["id"]]
            t = tu.strip(f["params"][0]["t"])
            while t["k"] == "ref":
                t = tu.types[t["to"]]
            t = tu.strip(t["to"]) if t["k"] == "ptr" else t
            cls = t.get("q") or t.get("name")
            k = T.var("solver_id", "I")
            st.assume(T.le(num(0), k))
            arr = x.input_arrays.setdefault("self.SimulationParamaters.solver_inputs", MArr("self.SimulationParamaters.solver_inputs"))
            meth = x.aread(st, arr, (k,), ("method",), I)
            names = [n for n, c in KINDS if c == cls]
            if not names:
                raise Undecided("setup_solver_vars for " + str(cls))
            done.add(cls)
            st.assume(T.eq(meth, num(enum(tu, "solver_input::" + names[0]))))
            s = obj(x, st, "the solver")
            p = x.newobj("p")
            st.store[p.path] = Ptr(s)
            x.made = s
            old = st.store[s.path + ("use_moving_heat_source",)] = FALSE    # the default of the class (harness)
            del x.contracts["Driver::setup_solver_vars"]
            call_fn(x, f, [p, k], st, this=obj(x, st, "self"))
            g = lambda n, ty: x.read(st, PathLV(s.path + (n,)), ty)
            final = T.var("self.SimulationParamaters.dynamic_options.time_final", "R")
            tend = x.aread(st, arr, (k,), ("time_end",), R)
            prior = x.aread(st, x.input_arrays.setdefault("solver", MArr("solver")), (T.sub(k, num(1)),), ("time_end",), R)
            first = T.eq(k, num(0))
            # no entry leaves 0; times that small are no end times
            unset, given = T.le(tend, T.real(0)), T.le(T.real("1/10000000000"), tend)
            pc = st.pc + [T.le(T.real(0), final)]
            c = cls + ": "
            u.prove(c + "the solver carries its number", pc, T.eq(g("solver_id", I), k))
            u.prove(c + "the first solver starts at time zero", pc, T.implies(first, T.eq(g("time_start", R), T.real(0))))
            u.prove(c + "a later solver starts where the one before it ended", pc, T.implies(T.lnot(first), T.eq(g("time_start", R), prior)))
            u.prove(c + "without an end time of its own a solver ends at the final time", pc, T.implies(unset, T.eq(g("time_end", R), final)))
            u.prove(c + "the first solver ends at the end time of its entry", pc, T.implies(T.land(first, given), T.eq(g("time_end", R), tend)))
            u.prove(c + "a later solver ends at the end time of its entry, or the final time before that", pc, T.implies(T.land(T.lnot(first), given), T.eq(g("time_end", R), T.tmin(tend, final))))
            asks = x.aread(st, arr, (k,), ("use_moving_heat_source",), {"k": "bool"})
            u.prove(c + "a moving heat source is used by a thermal solver whose entry asks for it", pc, T.eq(g("use_moving_heat_source", {"k": "bool"}), asks if cls == "SGTM3D" else old))
            u.obligations(x)
            u.reachable(c + "end", pc)
            for w in u.late:
                u.shape(w, False)
        for n, c in KINDS:
            u.shape("setup_solver_vars is used for " + c, c in done)
    return go


def run(ck):
    ck.unit("putting the calculation together", initialize(ck))
    ck.unit("the times of a solver", solver_vars(ck))
    ck.unit("every solver in its order", loops(ck))
    ck.unit("the program", program(ck))
    n = 20000 if ck.tier == "quick" else 1000000
    hydro_harness(ck, "C32", ["driver.cpp", "main.cpp", "input/Yaml.cpp"], n, "%d decks of up to five solvers through the real driver and program, with stand-ins for the parts they put together" % n, flags=("-O1", "-g", "-Dmain=fierro_main", "-include", HARN + "/mock_drive.h"), harness="drive.cpp", timeout=120 if ck.tier == "quick" else 700)
