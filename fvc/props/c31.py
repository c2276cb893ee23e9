"""the solvers' time integration: what a cycle does, and when"""
import re
from fvc import terms as T
from fvc.terms import num, TRUE, FALSE, Term
from fvc.execu import State, Undecided, PathLV, Opaque, MArr, ArrVal, Dead, Executor, ViewV, Ptr, ElemLV, IteV
from fvc.check import HARN, call_fn
from fvc.loops import Inv, calls_in
from .multi import *
from .deck import DeckX, Vec, SC, has

S3, SRZ, STM, SLS = [D + "Solvers/" + n for n in ("SGH_solver_3D/src/", "SGH_solver_rz/src/", "SGTM_solver_3D/src/", "level_set_solver/src/")]
FILES = ("V", "output files")
SEP = "\x01"


def V(st, name):
    """what an array of the state contains"""
    k = ("V", name)
    v = st.store.get(k)
    if v is None:
        v = st.store[k] = T.var("contents of " + name, "S")
    return v


def level(t, memo):
    r = 0
    for z in T.subterms([t]):
        if z.op == "var" and z.val.startswith("@#"):
            r = max(r, int(z.val[2:].split(".")[0]) + 1)
    return r


def fold(lo, hi, m, parts):
    """parts: {key: (unknown, body, start)}; the value of every key after the
    body has been run for m = lo, ..., hi-1"""
    un = {u: k for k, (u, b, s) in parts.items()}
    # a key whose body gives back its own value is not changed
    same = {u: s for u, b, s in parts.values() if b is u}
    parts = {k: (u, T.subst(b, same) if same else b, s) for k, (u, b, s) in parts.items() if b is not u}
    deps = {}
    for k, (u, b, s) in parts.items():
        fv = set(T.free_vars([b]))
        deps[k] = {j for j in parts if parts[j][0] in fv}
    lv = max([level(b, None) for u, b, s in parts.values()] + [0])
    nm = {}
    sc = sorted(k for k in parts if k[0] != "V")
    for k in parts:
        nm[k] = k[1] if k[0] == "V" else "scalar %d" % sc.index(k)
    sub = {parts[k][0]: T.var("@#%d.%s" % (lv, nm[k]), parts[k][0].sort) for k in parts}
    sub[m] = T.var("@#%d.m" % lv, "I")
    body = {k: T.subst(parts[k][1], sub) for k in parts}
    out = {}
    for k in parts:
        cl, todo = {k}, [k]
        while todo:
            for j in deps[todo.pop()]:
                if j not in cl:
                    cl.add(j)
                    todo.append(j)
        cl = sorted(cl, key=lambda j: nm[j])
        out[k] = T.uf("after the loop: " + nm[k] + SEP + SEP.join(nm[j] for j in cl), (lo, hi) + tuple(z for j in cl for z in (body[j], parts[j][2])), parts[k][0].sort)
    return out


class Fold(Inv):
    """a loop over materials or stages"""

    def __init__(self):
        Inv.__init__(self, lambda x, st, env: [])

    def run(self, x, s, st, env, cond, inc, body, post):
        if has(body, "write_mesh"):
            return x.cycles(s, st, env, cond, inc, body, post, self)
        self.ran += 1
        ch = self.changed(x, st, env, cond, inc, body, post)
        start = {k: st.store.get(k) for k in ch}
        h = st.copy()
        for k in ch:
            v = start[k]
            if v is None:
                v = V(st, k[1]) if k[0] == "V" else None
                start[k] = v
            if isinstance(v, Term):
                h.store[k] = T.fresh("v", v.sort)
            elif isinstance(k, tuple) and k[0] in ("RET", "N"):
                continue
            else:
                raise Undecided("line %s: the loop changes a value of kind %s" % (s["ln"], type(v).__name__))
        base = dict(h.store)
        ck, m, hi = self.counter(x, s, h, env, cond, ch, base)
        b = h.copy()
        b.assume(T.lt(m, hi))
        b.assume(T.le(start[ck], m))
        r = x.ex(body, b, dict(env))
        nxt = [r.pop(k) for k in ("next", "cont") if k in r]
        if r or not nxt:
            raise Undecided("line %s: the loop over materials or stages is left early" % s["ln"])
        n1 = x.merge(nxt)
        if inc is not None:
            x.ev(inc, n1, env)
        if n1.store.get(ck) is not T.add(m, num(1)):
            raise Undecided("line %s: the loop does not count by one" % s["ln"])
        parts = {}
        for k in ch:
            if k == ck or not isinstance(start[k], Term):
                continue
            parts[k] = (base[k], n1.store[k], start[k])
        lo = start[ck]
        for k, v in fold(lo, hi, m, parts).items():
            st.store[k] = v
        st.store[ck] = T.fresh("n", "I")
        return {"next": st}

    def counter(self, x, s, h, env, cond, ch, base):
        c = x.tobool(x.ev(cond, h, env))
        if c.op == "not" and c.args[0].op == "le":
            c = T.lt(c.args[0].args[1], c.args[0].args[0])
        if c.op != "lt":
            raise Undecided("line %s: loop condition" % s["ln"])
        a, b = c.args
        for k in ch:
            if base.get(k) is a:
                return k, a, b
        raise Undecided("line %s: loop counter" % s["ln"])


class ExecX(Executor):
    """the execution of a solver: kernels are their contracts (functions of all
    they are given), files are what was written into them"""

    def __init__(self, u, tu, spec, name=""):
        Executor.__init__(self, tu, name)
        self.u = u
        self.region_hook = self.stores
        self.init_globals = False
        self.decide = None
        self.loops = {"*": Fold()}
        self.spec = spec
        self.seen = {}
        self.names = []
        self.localnames = {}
        void = lambda x, st, thislv, args, env, e: Opaque("void")
        for q in ("Table_t::set_value", "Table_t::update_device", "Table_t::print_table"):
            self.contracts[q] = void
        self.contracts["Table_t::linear_interpolation"] = lambda x, st, thislv, args, env, e: T.uf("tool path", tuple(x.ev(a, st, env) for a in args), "R")
        for q, outs in spec.kernels.items():
            self.contracts[q] = self.kernel(q, outs)
        for q, (r, w) in getattr(spec, "wholes", {}).items():
            self.contracts[q] = self.whole(q, r, w)
        self.contracts["MeshWriter::write_mesh"] = self.savefiles

    def arr(self, q, args, k, st, env):
        """name of the array of argument k, or None"""
        t = self.tu.strip(args[k]["t"])
        while t["k"] == "ref":
            t = self.tu.strip(t["to"])
        if self.sort(t) or t["k"] != "rec":
            return None
        lv = self.lval(args[k], st, env)
        if not isinstance(lv, PathLV):
            raise Undecided("%s is given a part of an array" % q)
        n = self.pname(lv.path)
        if n in ("mesh", "Materials", "BoundaryConditions", "State", "SimulationParamaters"):
            return None
        if n and n.startswith("State."):
            return n
        if n and not n.startswith("local"):
            raise Undecided("%s is given %s" % (q, n))
        v = self.read(st, lv, t)
        return self.localnames.setdefault(v.id if isinstance(v, MArr) else lv.path, "local of %s %d" % (q.split("::")[-1], k))

    def three(self, args, k, st, env):
        """the contents of an array of three numbers"""
        t = self.tu.strip(args[k]["t"])
        lv = self.lval(args[k], st, env)
        v = self.read(st, lv, t)
        if not isinstance(v, MArr):
            raise Undecided("the position of the heat source")
        self.sphere = v
        return T.uf("the three numbers", tuple(self.aread(st, v, (num(i),), (), R) for i in range(3)), "S")

    def kernel(self, q, outs):
        def c(x, st, thislv, args, env, e):
            ins, scal, nn = [], {}, []
            name = q.split("::")[-1]
            for k in range(len(args)):
                t = x.tu.strip(args[k]["t"])
                if x.sort(t):
                    v = x.ev(args[k], st, env)
                    scal[k] = v
                    ins.append(v)
                else:
                    if (name, k) in getattr(x.spec, "threes", ()):
                        ins.append(x.three(args, k, st, env))
                        continue
                    n = x.arr(q, args, k, st, env)
                    if n:
                        ins.append(V(st, n))
                        nn.append(n)
            x.seen.setdefault(q, []).append((st.copy(), scal))
            x.names.append(nn)
            new = {}
            for k, kind in outs.items():
                if kind == "R":
                    new[("lv", k)] = T.uf("%s gives %d" % (name, k), tuple(ins), "R")
                else:
                    n = x.arr(q, args, k, st, env)
                    if n is None:
                        raise Undecided("%s is given something that is not an array of the state (argument %d)" % (q, k))
                    if ("V", n) in new:
                        raise Undecided("%s is given the same array twice" % q)
                    new[("V", n)] = T.uf("%s gives %d" % (name, k), tuple(ins), "S")
            for k, v in new.items():
                if k[0] == "lv":
                    lv = x.lval(args[k[1]], st, env)
                    x.write(st, lv, x.tu.strip(args[k[1]]["t"]), v)
                else:
                    st.store[k] = v
            rs = x.sort(x.tu.strip(e["t"])) if "t" in e else None
            return T.uf(name, tuple(ins), rs) if rs in ("R", "I") else Opaque("void")
        return c

    def whole(self, q, reads, writes):
        """a kernel that is given the state as a whole"""
        def c(x, st, thislv, args, env, e):
            ins = tuple(x.ev(a, st, env) for a in args if x.sort(x.tu.strip(a["t"]))) + tuple(V(st, n) for n in reads)
            name = q.split("::")[-1]
            x.names.append(list(reads) + list(writes))
            for n in writes:
                st.store[("V", n)] = T.uf("%s gives %s" % (name, n), ins, "S")
            return Opaque("void")
        return c

    def savefiles(self, x, st, thislv, args, env, e):
        t = x.ev(args[4], st, env)
        st.store[FILES] = T.uf("written", (st.store.get(FILES, T.var("no files", "S")), t) + tuple(V(st, n) for n in x.spec.saved), "S")
        x.seen.setdefault("write", []).append((st.copy(), t))
        return Opaque("void")

    def marr_call(self, fn, thislv, args, st, env, e):
        if fn["n"] == "set_values":
            n = self.pname(thislv.path) if isinstance(thislv, PathLV) else None
            if n and n.startswith("State."):
                v = self.ev(args[0], st, env)
                st.store[("V", n)] = T.uf("everywhere", (T.mul(v, T.real(1)) if v.sort != "R" else v,), "S")
                return Opaque("void")
        return Executor.marr_call(self, fn, thislv, args, st, env, e)

    def builtin2(self, fn, thislv, args, st, env, e):
        if fn["q"].startswith("std::chrono") or "chrono::" in (fn.get("clsq") or fn.get("cls") or ""):
            return T.fresh("clock", "R")
        if fn["n"] == "operator-" and "chrono" in fn["q"]:
            return T.fresh("clock", "R")
        if fn["n"] in ("operator[]", "at") and "vector" in (fn.get("clsq") or fn.get("cls") or ""):
            n = self.pname(thislv.path) if isinstance(thislv, PathLV) else None
            if n:
                a = self.input_arrays.setdefault(n, MArr(n))
                return ElemLV(a, (self.ev(args[0], st, env),))
        return Executor.builtin2(self, fn, thislv, args, st, env, e)

    def stores(self, x, reg, st):
        """the same number stored for all nodes"""
        ws = self.new_writes(reg)
        mine = [w for w in ws if w[1].base.startswith("State.")]
        if not mine:
            return False
        if len(mine) != len(ws) or any(w[2] is None or w[2][0] == "par" for w in mine):
            raise Undecided("a loop stores into the state")
        for k, v, (g, idx, val) in mine:
            if v.base not in ("State.node.q_transfer", "State.node.force") or len(reg["rng"]) != 1 or not isinstance(val, Term) or val.op != "num" or g is not TRUE and g is not reg["guard"]:
                raise Undecided("a loop stores into " + v.base)
            (lo, hi), iv = reg["rng"][0], reg["ivs"][0]
            if lo is not num(0) or hi is not T.var("mesh.num_nodes", "I") or idx[0] is not iv or len(idx) != 1:
                raise Undecided("a loop stores into a part of " + v.base)
            st.store[("V", v.base)] = T.uf("everywhere", (val,), "S")
        return True

    def construct(self, st, lv, ty, e, env):
        if ty.get("q") in ("ToolPathInfo", "Table_t", "contact_state_t"):
            st.store[lv.path + ("#type",)] = Opaque(ty["name"])
            return
        return Executor.construct(self, st, lv, ty, e, env)

    def s_Decl(self, s, st, env):
        ds = s.get("d") or s.get("ds") or []
        if isinstance(ds, list) and len(ds) == 1 and "chrono" in str(self.tu.strip(ds[0]["t"]).get("q", "")):
            return {"next": st}
        return Executor.s_Decl(self, s, st, env)

    def cycles(self, s, st, env, cond, inc, body, post, spec):
        """the loop over cycles: one arbitrary cycle"""
        if self.cyc is not None:
            raise Undecided("a second loop over cycles")
        if self.script is not None:
            self.script = None
        ch = spec.changed(self, st, env, cond, inc, body, post)
        entry = st.copy()
        h = st.copy()
        for k in sorted(ch, key=repr):
            v = h.store.get(k)
            if v is None and k[0] == "V":
                v = V(st, k[1])
                entry.store[k] = v
            if isinstance(v, Term):
                h.store[k] = T.var("contents of " + k[1], "S") if k[0] == "V" and 0 else T.fresh("v", v.sort)
            elif isinstance(k, tuple) and k[0] in ("RET", "N"):
                continue
            elif isinstance(v, ArrVal):
                spec.havoc(self, h, {k})
            else:
                raise Undecided("the loop over cycles changes a value of kind %s" % type(v).__name__)
        before = h.copy()
        ck, m, hi = spec.counter(self, s, h, env, cond, ch, dict(h.store))
        b = h.copy()
        b.assume(T.le(num(0), m))
        b.assume(T.lt(m, hi))
        self.seen = {}
        start = b.copy()
        r = self.ex(body, b, dict(env))
        nxt = [r.pop(k) for k in ("next", "cont") if k in r]
        brk = r.pop("brk", None)
        if r:
            raise Undecided("the loop over cycles is left in the middle")
        n0 = self.merge(nxt) if nxt else None
        n1 = n0.copy() if n0 else None
        if n1 is not None and inc is not None:
            self.ev(inc, n1, env)
        self.cyc = dict(entry=entry, before=before, start=start, ck=ck, cycle=m, hi=hi, n0=n0, n1=n1, brk=brk, changed=ch, seen=self.seen)
        ex = h
        ex.assume(T.le(hi, m))
        self.seen = {}
        out = self.merge([ex] + ([brk] if brk is not None else []))
        self.cyc["exit"] = out.copy()
        return {"next": out}


MP = "State.MaterialPoints."
EQ_IN = [MP + n for n in "pres den sspd mass sie stress volfrac geo_volfrac".split()] + ["State.GaussPoints.vol"]
EQ = {"TiptonEquilibrationModel::mat_equilibration": (EQ_IN, [MP + n for n in ("volfrac", "delta_volfrac", "sie", "den")]),
      "TiptonEquilibrationModel::geo_equilibration": (EQ_IN, [MP + n for n in ("geo_volfrac", "delta_geo_volfrac", "sie", "den")])}


class SGH:
    """SGH, three dimensions"""
    file = S3 + "sgh_execute.cpp"
    fn = "SGH3D::execute"
    off = ("doing_contact", "doing_fracture", "doing_preload")
    kernels = {"SGH3D::boundary_velocity": {2: "S"}, "SGH3D::boundary_contact": {2: "S"}, "SGH3D::get_timestep": {14: "R"}, "SGH3D::rk_init": {1: "S", 3: "S", 5: "S", 7: "S"},
               "SGH3D::get_velgrad": {0: "S"}, "set_corner_force_zero": {1: "S"}, "SGH3D::get_force": {5: "S", 13: "S"}, "SGH3D::update_stress": {9: "S", 12: "S", 13: "S", 14: "S"},
               "SGH3D::boundary_stress": {2: "S"}, "SGH3D::update_velocity": {3: "S"}, "SGH3D::update_energy": {5: "S"}, "SGH3D::update_position": {4: "S"}, "geometry::get_vol": {0: "S"},
               "SGH3D::update_state": {5: "S", 6: "S", 7: "S", 9: "S", 15: "S", 16: "S", 17: "S", 18: "S"},
               "sum_domain_internal_energy": {}, "sum_domain_kinetic_energy": {}, "sum_domain_material_mass": {}, "sum_domain_node_mass": {}}
    wholes = EQ
    locals = ()
    step, roles, moves = "SGH3D::get_timestep", (8, 9, 14), ("SGH3D::update_position", 1)

    @staticmethod
    def first(r):
        r.call("boundary_velocity", "- - n.vel t")
        r.save()

    @staticmethod
    def cycle(r):
        r.step("get_timestep", "- n.coords n.vel g.vol m.sspd m.eroded elem_in nm t graphics final dt_max dt_min dt_cfl dt fuzz tiny m")
        r.mats(lambda r: r.call("rk_init", "n.coords n.coords_n0 n.vel n.vel_n0 m.sie m.sie_n0 m.stress m.stress_n0 num_dims num_elems num_nodes np m"))

        def forces(r):
            r.call("get_force", "- - g.vol g.vel_grad m.eroded c.force n.coords n.vel m.den m.sie m.pres m.stress m.sspd mc.force m.volfrac m.geo_volfrac cme elem_in nm m fuzz small dt a")
            r.when(T.eq(num(1), T.uf(INCR, (r.sc["m"],), "I")), lambda r: r.call("update_stress", "- - g.vol n.coords n.vel g.vel_grad m.den m.sie m.pres m.stress m.stress_n0 m.sspd m.eos_state_vars m.strength_state_vars m.shear_modulii elem_in nm m fuzz small t dt a cycle"))

        def stage(r):
            r.call("get_velgrad", "g.vel_grad - n.coords n.vel g.vol")
            r.call("set_corner_force_zero", "- c.force")
            r.mats(forces)
            r.everywhere("n.force")
            r.call("boundary_stress", "- - n.force n.coords t")
            r.call("update_velocity", "a dt - n.vel n.vel_n0 n.mass n.force c.force @update_velocity/8 off")
            r.call("boundary_velocity", "- - n.vel t")
            r.call("boundary_contact", "- - n.vel t")
            r.mats(lambda r: r.call("update_energy", "a dt - n.vel n.vel_n0 m.sie m.sie_n0 m.mass mc.force cme elem_in nm m"))
            r.call("update_position", "a dt num_dims num_nodes n.coords n.coords_n0 n.vel n.vel_n0")
            r.call("get_vol", "g.vol n.coords -")
            r.mats(lambda r: r.call("update_state", "- - n.coords n.vel g.vel_grad m.den m.pres m.stress m.stress_n0 m.sspd m.sie m.volfrac m.geo_volfrac g.vol m.mass m.eos_state_vars m.strength_state_vars m.eroded m.shear_modulii elem_in t dt a cycle nm m"))
            for w, f in (("EquilibrationModels", "mat_equilibration"), ("GeoEquilibrationModels", "geo_equilibration")):
                r.when(T.lnot(T.eq(num(0), T.var("Materials." + w, "I"))), lambda r: r.whole(f, "dt a fuzz small"))
        r.sc["off"] = num(0)
        r.stages(stage)

    saved = ["State." + n for n in "node.coords node.vel node.mass GaussPoints.vol GaussPoints.vel_grad MaterialPoints.den MaterialPoints.pres MaterialPoints.stress MaterialPoints.sspd MaterialPoints.sie MaterialPoints.eroded".split()]


def execute(ck, u, S):
    tu = ck.tu(S.file, INCS)
    f = tu.find(S.fn)
    names = set()
    for rnd in range(4):
        x, st = ExecX(u, tu, S, "execute"), State()
        x.cyc = None
        for n in getattr(S, "off", ()):
            x.binds["self." + n] = 0
        args = [obj(x, st, n) for n in ("SimulationParamaters", "Materials", "BoundaryConditions", "mesh", "State")]
        for n in names:
            V(st, n)
        st.store[FILES] = T.var("no files", "S")
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        if x.cyc is None:
            raise Undecided("no loop over cycles that saves files")
        got = {k[1] for k in st.store if k[0] == "V"} | {k[1] for k in x.cyc["n0"].store if k[0] == "V"}
        got |= {n for c in x.names for n in c}
        if got <= names | {FILES[1]}:
            return x, st
        names |= got - {FILES[1]}
    raise Undecided("the arrays of the state")


class RZ:
    """SGH, axisymmetric"""
    file = SRZ + "sgh_execute_rz.cpp"
    fn = "SGHRZ::execute"
    kernels = {"SGHRZ::boundary_velocity_rz": {2: "S"}, "SGHRZ::get_timestep_rz": {14: "R"}, "SGHRZ::rk_init_rz": {1: "S", 3: "S", 5: "S", 7: "S"}, "calc_node_extensive_mass_rz": {0: "S"}, "calc_node_areal_mass_rz": {2: "S"},
               "SGHRZ::get_velgrad_rz": {0: "S"}, "set_corner_force_zero_rz": {1: "S"}, "SGHRZ::get_force_rz": {5: "S", 13: "S"}, "SGHRZ::update_stress": {9: "S", 12: "S", 13: "S", 14: "S"},
               "SGHRZ::update_velocity_rz": {3: "S"}, "SGHRZ::update_energy_rz": {7: "S"}, "SGHRZ::update_position_rz": {4: "S"}, "geometry::get_vol": {0: "S"},
               "SGHRZ::update_state_rz": {5: "S", 6: "S", 7: "S", 9: "S", 15: "S", 16: "S", 17: "S", 18: "S"},
               "sum_domain_internal_energy_rz": {}, "sum_domain_kinetic_energy_rz": {}, "sum_domain_material_mass_rz": {}, "sum_domain_node_mass_rz": {}}
    step, roles, moves = "SGHRZ::get_timestep_rz", (8, 9, 14), ("SGHRZ::update_position_rz", 1)
    saved = SGH.saved

    @staticmethod
    def first(r):
        r.call("calc_node_extensive_mass_rz", "@calc_node_extensive_mass_rz/0 n.coords n.mass num_nodes")
        r.call("boundary_velocity_rz", "- - n.vel t")
        r.save()

    @staticmethod
    def cycle(r):
        r.step("get_timestep_rz", "- n.coords n.vel g.vol m.sspd m.eroded elem_in nm t graphics final dt_max dt_min dt_cfl dt fuzz tiny m")
        r.mats(lambda r: r.call("rk_init_rz", "n.coords n.coords_n0 n.vel n.vel_n0 m.sie m.sie_n0 m.stress m.stress_n0 num_dims num_elems num_nodes np m"))

        def forces(r):
            r.call("get_force_rz", "- - g.vol g.vel_grad m.eroded c.force n.coords n.vel m.den m.sie m.pres m.stress m.sspd mc.force m.volfrac m.geo_volfrac cme elem_in nm m fuzz tiny small dt a")
            r.when(T.eq(num(1), T.uf(INCR, (r.sc["m"],), "I")), lambda r: r.call("update_stress", "- - g.vol n.coords n.vel g.vel_grad m.den m.sie m.pres m.stress m.stress_n0 m.sspd m.eos_state_vars m.strength_state_vars m.shear_modulii elem_in nm m fuzz small t dt a cycle"))

        def stage(r):
            r.call("get_velgrad_rz", "g.vel_grad - n.coords n.vel g.vol")
            r.call("set_corner_force_zero_rz", "- c.force")
            r.mats(forces)
            r.call("update_velocity_rz", "a dt - n.vel n.vel_n0 n.mass c.force")
            r.call("boundary_velocity_rz", "- - n.vel t")
            r.mats(lambda r: r.call("update_energy_rz", "a dt - n.vel n.vel_n0 n.coords n.coords_n0 m.sie m.sie_n0 m.mass mc.force cme elem_in nm m"))
            r.call("update_position_rz", "a dt num_dims num_nodes n.coords n.coords_n0 n.vel n.vel_n0")
            r.call("get_vol", "g.vol n.coords -")
            r.mats(lambda r: r.call("update_state_rz", "- - n.coords n.vel g.vel_grad m.den m.pres m.stress m.stress_n0 m.sspd m.sie m.volfrac m.geo_volfrac g.vol m.mass m.eos_state_vars m.strength_state_vars m.eroded m.shear_modulii elem_in t dt a cycle nm m"))
            r.call("calc_node_areal_mass_rz", "- n.coords n.mass @calc_node_extensive_mass_rz/0 tiny")
        r.stages(stage)


class TM:
    """heat"""
    file = STM + "sgtm_execute.cpp"
    fn = "SGTM3D::execute"
    kernels = {"SGTM3D::boundary_temperature": {2: "S"}, "SGTM3D::get_timestep": {17: "R"}, "SGTM3D::rk_init": {1: "S", 3: "S", 5: "S"}, "SGTM3D::get_heat_flux": {5: "S", 7: "S", 8: "S"}, "SGTM3D::moving_flux": {4: "S"},
               "SGTM3D::boundary_convection": {3: "S"}, "SGTM3D::boundary_radiation": {3: "S"}, "SGTM3D::update_temperature": {2: "S"}, "geometry::get_vol": {0: "S"}, "SGTM3D::update_properties": {3: "S", 4: "S", 5: "S"},
               }
    heat = staticmethod(lambda: T.uf(HEAT, (T.var("self.solver_id", "I"),), "B"))
    threes = (("moving_flux", 5),)
    step, roles, moves = "SGTM3D::get_timestep", (11, 12, 17), ("SGTM3D::update_temperature", 11)
    saved = ["State." + n for n in "node.coords node.temp node.mass node.q_transfer GaussPoints.vol MaterialPoints.den MaterialPoints.conductivity MaterialPoints.specific_heat MaterialPoints.q_flux".split()]

    @staticmethod
    def first(r):
        r.call("boundary_temperature", "- - n.temp t")
        r.save()
        r.everywhere("n.q_transfer")
        r.when(TM.heat(), lambda r: r.mats(lambda r: r.call("update_properties", "- - n.temp m.den m.conductivity m.specific_heat elem_in nm m")))

    @staticmethod
    def cycle(r):
        r.step("get_timestep", "- n.coords n.vel g.vol m.sspd m.conductivity m.den m.specific_heat m.eroded elem_in nm t graphics final dt_max dt_min dt_cfl dt fuzz tiny m")
        def flux(r):
            r.call("get_heat_flux", "- - g.vol n.coords n.temp m.q_flux m.conductivity m.temp_grad c.q_transfer cme m.eroded elem_in nm m fuzz small dt a")
            r.sc["power"] = T.uf("tool path", (r.sc["t"], num(4), num(0)), "R")
            r.when(TM.heat(), lambda r: r.call("moving_flux", "- - g.vol n.coords c.q_transfer sphere cme elem_in nm power m fuzz small dt a"))

        def stage(r):
            r.everywhere("n.q_transfer")
            r.mats(flux)
            r.call("boundary_convection", "- - n.temp n.q_transfer n.coords t")
            r.call("boundary_radiation", "- - n.temp n.q_transfer n.coords t")
            r.call("update_temperature", "- c.q_transfer n.temp n.temp_n0 n.mass n.q_transfer m.specific_heat nmats mats mat_elems a dt")
            r.call("boundary_temperature", "- - n.temp t")
            r.call("get_vol", "g.vol n.coords -")
        r.mats(lambda r: r.call("rk_init", "n.coords n.coords_n0 n.vel n.vel_n0 n.temp n.temp_n0 n.q_transfer m.stress num_dims num_elems num_nodes np"))
        r.stages(stage)


HEAT = "SimulationParamaters.solver_inputs.use_moving_heat_source"
SHORT = {"n": "State.node.", "m": "State.MaterialPoints.", "g": "State.GaussPoints.", "c": "State.corner.", "mc": "State.MaterialCorners."}
NAMED = {"elem_in": "State.MaterialToMeshMaps.elem_in_mat_elem", "cme": "State.corners_in_mat_elem", "nmats": "State.MeshtoMaterialMaps.num_mats_in_elem", "mats": "State.MeshtoMaterialMaps.mats_in_elem",
         "mat_elems": "State.MeshtoMaterialMaps.mat_elems_in_elem"}
DO, OO = "SimulationParamaters.dynamic_options.", "SimulationParamaters.output_options."
NM = T.var("Materials.num_mats", "I")
STAGES, STOP = T.var(DO + "rk_num_stages", "I"), T.var(DO + "cycle_stop", "I")
INCR = "Materials.MaterialEnums.StrengthType"


class Ref:
    """what has to happen, written with the same kernels"""

    def __init__(self, S, V, scal):
        self.S, self.V, self.sc = S, dict(V), dict(scal)
        self.k = {q.split("::")[-1]: o for q, o in S.kernels.items()}
        self.w = {q.split("::")[-1]: o for q, o in getattr(S, "wholes", {}).items()}

    def get(self, n):
        if n not in self.V:
            self.V[n] = T.var("contents of " + n, "S")
        return self.V[n]

    def name(self, a):
        p, _, r = a.partition(".")
        return NAMED.get(a) or (SHORT[p] + r if r and p in SHORT else None)

    def scalar(self, a):
        if a in self.sc:
            return self.sc[a]
        if a in ("fuzz", "tiny", "small", "dt_max", "dt_min", "dt_cfl"):
            return T.var(DO + a, "R")
        if a in ("num_dims", "num_elems", "num_nodes"):
            return T.var("mesh." + a, "I")
        if a in ("nm", "np"):
            return T.uf({"nm": "State.MaterialToMeshMaps.num_mat_elems", "np": "State.MaterialPoints.num_material_points"}[a], (self.sc["m"],), "I")
        raise Undecided(a)

    def call(self, f, args, gives=None):
        ins, nn = [], {}
        for k, a in enumerate(args.split()):
            if a == "-":
                continue
            n = self.name(a) or ("local of %s" % a[1:].replace("/", " ") if a[0] == "@" else None)
            if n:
                nn[k] = n
                ins.append(self.get(n))
            else:
                ins.append(self.scalar(a))
        for k, kind in self.k[f].items():
            v = T.uf("%s gives %d" % (f, k), tuple(ins), kind)
            if kind == "R":
                self.sc[args.split()[k]] = v
            else:
                self.V[nn[k]] = v

    def save(self):
        self.snap = tuple(self.get(n) for n in self.S.saved)

    def whole(self, f, sc):
        r, w = self.w[f]
        ins = tuple(self.scalar(a) for a in sc.split()) + tuple(self.get(n) for n in r)
        for n in w:
            self.V[n] = T.uf("%s gives %s" % (f, n), ins, "S")

    def everywhere(self, n, v=0):
        self.V[self.name(n)] = T.uf("everywhere", (T.real(v),), "S")

    def when(self, c, go, other=None):
        a, b = dict(self.V), self.sc
        go(self)
        for n, v in self.V.items():
            o = a.get(n)
            if o is None:
                o = T.var("contents of " + n, "S")
            self.V[n] = T.ite(c, v, o)

    def each(self, hi, what, go, scal=()):
        r = Ref(self.S, {n: T.fresh("r", "S") for n in self.V}, self.sc)
        m = T.fresh("m", "I")
        r.sc[what] = m
        un = {("V", n): v for n, v in r.V.items()}
        for q in scal:
            un[(q,)] = r.sc[q] = T.fresh("r", "R")
        go(r)
        if set(r.V) != {k[1] for k in un if k[0] == "V"}:
            for n in set(r.V) - set(self.V):
                self.get(n)
            return self.each(hi, what, go, scal)
        parts = {k: (u, r.V[k[1]] if k[0] == "V" else r.sc[k[0]], self.V[k[1]] if k[0] == "V" else self.sc[k[0]]) for k, u in un.items()}
        for k, v in fold(num(0), hi, m, parts).items():
            if k[0] == "V":
                self.V[k[1]] = v
            else:
                self.sc[k[0]] = v

    def mats(self, go, scal=()):
        self.each(NM, "m", go, scal)

    def step(self, f, args):
        """the smallest of the steps of the materials, at most dt_max"""
        self.sc["min"] = T.var(DO + "dt_max", "R")

        def one(r):
            r.sc["dt"] = self.sc["d0"]
            r.call(f, args)
            r.sc["min"] = T.tmin(r.sc["dt"], r.sc["min"])
        self.mats(one, ("min",))
        self.sc["dt"] = self.sc["min"]

    def stages(self, go):
        def one(r):
            r.sc["a"] = T.div(T.real(1), T.sub(STAGES, r.sc["s"]))
            go(r)
        self.each(STAGES, "s", one)


def tend(x):
    return T.var("self.time_end", "R")


def written(t, f0):
    """(condition under which a file has been written, what it then is)"""
    if t is f0:
        return FALSE, []
    if t.op == "ite":
        a, l1 = written(t.args[1], f0)
        b, l2 = written(t.args[2], f0)
        return T.lor(T.land(t.args[0], a), T.land(T.lnot(t.args[0]), b)), l1 + l2
    if t.op == "uf" and t.val == "written":
        if t.args[0] is not f0:
            raise Undecided("more than one file in a cycle")
        return TRUE, [t]
    raise Undecided("the files of a cycle")


def same(u, x, pc, what, a, b):
    if a is b:
        u.fact(what, True, "structural equality")
        return True
    if x.prover_check(list(pc), T.eq(a, b), 20.0):
        u.fact(what, True, "z3")
        return True
    import os
    if os.environ.get("FVC_DIFF"):
        def diff(a, b, path=""):
            if a is b:
                return
            if a.op != b.op or a.val != b.val or len(a.args) != len(b.args):
                print("DIFF", path[-400:], "\n  code", T.show(a, 4)[:500], "\n  spec", T.show(b, 4)[:500])
                return True
            for i, (p, q) in enumerate(zip(a.args, b.args)):
                if diff(p, q, path + "/" + str(a.val or a.op).split(SEP)[0] + ":%d" % i):
                    return True
        print(what)
        diff(a, b)
    u.late.append(what)
    return False


def cycle(ck, S):
    def go(u):
        u.late = []
        x, st = execute(ck, u, S)
        c = x.cyc
        before = c["before"]
        hv = {before.store[k]: k for k in c["changed"] if isinstance(before.store.get(k), Term)}
        if S.step not in c["seen"]:
            raise Undecided("no time step")
        sc = c["seen"][S.step][-1][1]
        t0, g0, d0 = [sc[k] for k in S.roles]
        ends = [z for z in (c["n0"], c["brk"]) if z is not None]
        at = lambda E, z: T.subst(E, {v: z.store[k] for v, k in hv.items() if isinstance(z.store.get(k), Term)})
        # entry
        en = c["entry"]
        r0 = Ref(S, {}, {"t": T.var("self.time_start", "R"), "zero": T.real(0)})
        S.first(r0)
        pc0 = en.pc
        u.prove("the clock starts where the solver starts", pc0, T.eq(at(t0, en), T.var("self.time_start", "R")))
        u.prove("the first output time is one interval after the start", pc0, T.eq(at(g0, en), T.add(T.var("self.time_start", "R"), T.var(OO + "graphics_time_step", "R"))))
        u.prove("the first cycle is cycle 0", pc0, T.eq(en.store[c["ck"]], num(0)))
        u.prove("no more cycles than asked for", c["start"].pc, T.eq(c["hi"], STOP))
        same(u, x, pc0, "the first step grows from the starting step", at(d0, en), T.var(DO + "dt_start", "R"))
        for n in sorted({k[1] for k in en.store if k[0] == "V"} - {FILES[1]}):
            same(u, x, pc0, "before the first cycle: " + n, en.store[("V", n)], r0.get(n))
        f0 = T.var("no files", "S")
        same(u, x, pc0, "the initial state is saved", en.store[FILES], T.uf("written", (f0, T.var("self.time_start", "R")) + r0.snap, "S"))
        # one cycle
        r = Ref(S, {k[1]: v for k, v in before.store.items() if k[0] == "V" and k != FILES}, {"t": t0, "graphics": g0, "d0": d0, "final": tend(x), "cycle": c["cycle"], "zero": T.real(0)})
        if getattr(S, "threes", None):
            r.sc["sphere"] = T.uf("the three numbers", tuple(x.aread(before, x.sphere, (num(i),), (), R) for i in range(3)), "S")
        S.cycle(r)
        z = x.merge([q.copy() for q in ends])
        z.pc = list(c["start"].pc)
        pre = c["start"].pc
        dts = [q[1][S.moves[1]] for q in c["seen"].get(S.moves[0], [])]
        if not dts:
            raise Undecided("no step is used")
        dt = dts[-1]
        same(u, x, pre, "the step is the smallest of the materials' steps", dt, r.sc["dt"])
        u.prove("the clock advances by the step", pre, T.eq(at(t0, z), T.add(t0, dt)))
        for q in (("next cycle", c["n0"], T.lt), ("stop", c["brk"], lambda a, b: T.le(b, a))):
            if q[1] is not None:
                u.prove("the end time decides: " + q[0], q[1].pc, q[2](T.add(t0, dt), tend(x)))
        if c["n1"] is not None:
            u.prove("cycles count by one", c["n1"].pc, T.eq(c["n1"].store[c["ck"]], T.add(c["cycle"], num(1))))
        for n in sorted({k[1] for k in z.store if k[0] == "V"} - {FILES[1]}):
            same(u, x, pre, "after one cycle: " + n, z.store[("V", n)], r.get(n))
        t1 = T.add(t0, dt)
        if getattr(S, "threes", None):
            for d in range(3):
                p = lambda t: T.uf("tool path", (t, num(d + 1), num(0)), "R")
                same(u, x, pc0, "the heat source starts on its path (%d)" % d, x.aread(en, x.sphere, (num(d),), (), R), p(T.var("self.time_start", "R")))
                old = x.aread(before, x.sphere, (num(d),), (), R)
                same(u, x, pre, "the heat source follows its path (%d)" % d, x.aread(z, x.sphere, (num(d),), (), R), T.ite(S.heat(), p(t1), old))
        # files
        w, leaves = written(z.store[FILES], before.store[FILES])
        ival = T.var(OO + "graphics_iteration_step", "I")
        due = T.le(g0, t1)
        pre = list(pre) + [T.lt(num(0), ival), T.lt(num(0), STOP)]
        spec = T.lor(T.land(T.eq(T.imod(T.add(c["cycle"], num(1)), ival), num(0)), T.lt(num(0), c["cycle"])), T.eq(T.add(c["cycle"], num(1)), STOP), T.le(tend(x), t1), due)
        u.prove("files are written when they are due", pre, T.implies(spec, w))
        u.prove("files are written only when they are due", pre, T.implies(w, spec))
        for l in leaves:
            same(u, x, pre, "what is saved", l, T.uf("written", (before.store[FILES], t1) + tuple(r.get(n) for n in S.saved), "S"))
        u.prove("the next output time", pre, T.eq(at(g0, z), T.ite(T.land(w, due), T.add(g0, T.var(OO + "graphics_time_step", "R")), g0)))
        if c["n0"] is not None:
            same(u, x, c["n0"].pc, "the next step grows from this one, or after a file from the one before", at(d0, c["n0"]), T.ite(w, d0, dt))
        # after the loop
        e = c["exit"]
        for n in sorted({k[1] for k in st.store if k[0] == "V"}):
            same(u, x, st.pc, "nothing after the last cycle changes " + n, st.store[("V", n)], e.store.get(("V", n), T.var("contents of " + n, "S")))
        u.obligations(x)
        u.reachable("a cycle ends", ends[0].pc)
        for w in u.late:
            u.shape(w, False)
    return go


def run(ck):
    for S in (SGH, RZ, TM):
        ck.unit("cycle of " + S.fn.split("::")[0], cycle(ck, S))
    n = 6000 if ck.tier == "quick" else 120000
    hydro_harness(ck, "C31", ["Solvers/SGH_solver_3D/src/sgh_execute.cpp", "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp", "Solvers/SGTM_solver_3D/src/sgtm_execute.cpp"], n, "%d runs of the three real time loops with stand-in kernels: 1-3 materials, 1-4 stages, 1-14 cycles" % n,
                  flags=("-O1", "-g", "-include", HARN + "/mock_io.h"), harness="exec.cpp", timeout=120 if ck.tier == "quick" else 700)
