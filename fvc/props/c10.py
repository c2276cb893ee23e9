"""output files: fields, values, files"""
import re
from fvc import terms as T
from fvc.terms import num, TRUE, FALSE, Term
from fvc.execu import State, Undecided, PathLV, Opaque, MArr, ArrVal, Dead, Executor, ViewV, Ptr, ElemLV
from fvc.check import HARN, Unit
from fvc.loops import Inv
from fractions import Fraction
from .multi import *
from .deck import DeckX, Vec, SC
from .c23 import TUF

W = "MeshWriter::"
MAT = {"density": "den", "pressure": "pres", "sound_speed": "sspd", "thermal_conductivity": "conductivity", "specific_heat": "specific_heat"}
PT, NS, GS = "material_pt_state::", "node_state::", "gauss_pt_state::"
ENUMS = {PT: ["density", "pressure", "stress", "sound_speed", "specific_internal_energy", "mass", "volume_fraction", "heat_flux", "eroded_flag", "elastic_modulii", "shear_modulii", "poisson_ratios", "thermal_conductivity", "specific_heat"],
         NS: ["coords", "velocity", "mass", "temp", "heat_transfer", "force", "gradient_level_set"], GS: ["volume", "divergence_velocity", "gradient_velocity", "level_set"]}
# the names of the fields of each output in the files
NAMES = {"elem": {"density": ["den"], "pressure": ["pres"], "specific_internal_energy": ["sie"], "sound_speed": ["sspd"], "mass": ["mass"], "stress": ["stress"], "thermal_conductivity": ["thermal_K"], "specific_heat": ["Cp"]},
         "gauss": {"volume": ["vol"], "divergence_velocity": ["div"], "level_set": ["level_set"], "gradient_velocity": ["vel_grad"]},
         "node": {"mass": ["node_mass"], "temp": ["node_temp"], "coords": ["node_coords"], "velocity": ["node_vel", "node_accel"], "gradient_level_set": ["node_grad_lvlset"]}}
NAMES["mat"] = {k: ["mat_" + v[0]] for k, v in NAMES["elem"].items()}
NAMES["mat"].update({"volume_fraction": ["mat_volfrac", "mat_geo_volfrac"], "eroded_flag": ["mat_eroded"]})
BIG = {"stress", "gradient_velocity", "coords", "velocity", "gradient_level_set"}   # tensors and vectors
LISTS = {"output_elem_state": ("elem", PT), "output_gauss_pt_state": ("gauss", GS), "output_mat_pt_state": ("mat", PT), "output_node_state": ("node", NS)}
FN = {"elem": ("concatenate_elem_fields", PT), "gauss": ("concatenate_elem_fields", GS), "mat": ("concatenate_mat_fields", PT), "node": ("concatenate_nodal_fields", NS)}
INT = {"k": "int", "w": 64, "sg": False}


class Text:
    def __init__(self, t):
        self.t = t


class VizX(DeckX):
    """the writer: strings are texts, a loop over a list of outputs is run once
    for every output there is"""

    def __init__(self, u, tu, spec, name=""):
        DeckX.__init__(self, u, tu, spec, name)
        self.fieldloop = None
        self.loops.pop("*", None)

    def builtin2(self, fn, thislv, args, st, env, e):
        n, cls = fn["n"], fn.get("clsq") or fn.get("cls") or ""
        if "basic_string" in cls and n in ("c_str", "data"):
            return Text(self.read(st, thislv, {"k": "rec", "q": "std::basic_string", "name": "s", "s": ""}))
        if "vector" in cls and n == "clear":
            v = st.store.get(getattr(thislv, "path", None))
            if isinstance(v, Vec):
                st.store[thislv.path] = Vec(v.arr, num(0))
                return Opaque("void")
        if "vector" in cls and n in ("push_back", "emplace_back") and getattr(self, "pushed", None):
            v = st.store.get(getattr(thislv, "path", None))
            if isinstance(v, Vec):
                self.pushed(self, st, v.arr, self.ev(args[0], st, env))
        if n == "to_string" and len(args) == 1:
            return T.uf("text of a number", (self.ev(args[0], st, env),), "S")
        if n == "operator+=" and "basic_string" in cls:
            s = {"k": "rec", "q": "std::basic_string", "name": "s", "s": ""}
            a, b = self.read(st, thislv, s), self.ev(args[0], st, env)
            if isinstance(a, Term) and isinstance(b, Term):
                st.store[thislv.path] = T.uf("text+", (a, b), "S")
                return thislv
        return DeckX.builtin2(self, fn, thislv, args, st, env, e)

    def origin(self, k, v):
        try:
            return DeckX.origin(self, k, v)
        except Undecided:      # an array of one of the paths only: unknown on the other
            self.hv = getattr(self, "hv", 0) + 1
            return ArrVal("%s'%d" % (v.base.split("'")[0], self.hv), v.sort, None)

    def s_Range(self, s, st, env):
        try:
            lv = self.lval(s["rng"], st, env)
            v = self.read(st, lv, self.tu.strip(s["rng"]["t"]))
        except Undecided:
            v = None
        if not isinstance(v, Vec):
            return Executor.s_Range(self, s, st, env)
        if T.isnum(v.n):
            for k in range(int(v.n.val)):
                st = self.one(s, st, env, self.aread(st, v.arr, (num(k),), (), self.tu.strip(s["v"]["t"])))
            return {"next": st}
        if self.fieldloop:
            return {"next": self.fieldloop(self, s, st, env, v)}
        return Executor.s_Range(self, s, st, env)

    def one(self, s, st, env, val):
        d, en = s["v"], dict(env)
        l = self.newobj(d["n"])
        en[d["id"]] = en[("n", d["n"])] = l
        st.store[l.path] = val
        r = self.ex(s["b"], st, en)
        if set(r) - {"next", "cont"}:
            raise Undecided("the loop over the outputs at line %s is left early" % s["ln"])
        return self.merge([r[q] for q in ("next", "cont") if q in r])


def isvec(x, t):
    ty = x.tu.strip(t)
    while ty["k"] == "ref":
        ty = x.tu.strip(ty["to"])
    return ty if ty["k"] == "rec" and ty.get("q") == "std::vector" else None


def params(x, st, f, lists):
    """arguments of a function: unknown numbers, arrays and records; the lists of
    outputs are given.  Returns the arguments and the position of each number or array"""
    from fvc.execu import marr_class
    out, pos = [], {}
    for k, p in enumerate(f["params"]):
        ty = x.tu.strip(p["t"])
        while ty["k"] == "ref":
            ty = x.tu.strip(ty["to"])
        s = x.sort(ty)
        n = p["n"]
        if isvec(x, p["t"]):
            a = MArr("list %s" % n)
            vals = [v for z, v in lists.items() if z[:-2] in str(ty)]
            vals = vals[0] if vals else []
            for i, v in enumerate(vals):
                x.awrite(st, a, (num(i),), (), INT, v)
            out.append(obj(x, st, n, Vec(a, num(len(vals)))))
        elif s:
            v = T.var("parameter %d %s" % (k, n), s)
            if ty["k"] == "int" and not ty["sg"]:
                st.pc.append(T.le(num(0), v))
            out.append(v)
            pos[v] = k
        elif ty["k"] == "rec" and marr_class(ty):
            m = marr_class(ty)
            v = MArr(n, m[1], m[2])
            x.input_arrays[n] = v
            out.append(obj(x, st, n, v))
            pos[v.id] = k
        else:
            out.append(obj(x, st, n))
    return out, pos


def want(kind, f, P, dims2, dt):
    """{name of the field: [(components, value added or stored, added to what is there)]}; P reads inputs"""
    nm = NAMES[kind].get(f)
    if not nm:
        return {}
    if kind == "elem":
        fr = lambda v: T.mul(T.mul(v, P("volfrac")), P("geo_volfrac"))
        if f in MAT:
            return {nm[0]: [((), fr(P(MAT[f])), True)]}
        if f == "specific_internal_energy":
            return {nm[0]: [((), T.mul(P("mass"), P("sie")), True)]}
        if f == "mass":
            return {nm[0]: [((), P("mass"), True)]}
        return {nm[0]: [((i, j), fr(P("stress", i, j)), True) for i in range(3) for j in range(3)]}
    if kind == "gauss":
        one = {"volume": "vol", "divergence_velocity": "div", "level_set": "level_set"}
        if f in one:
            return {nm[0]: [((), P(one[f]), False)]}
        return {nm[0]: [((i, j), P("vel_grad", i, j), False) for i in range(3) for j in range(3)]}
    if kind == "mat":
        one = dict(MAT, specific_internal_energy="sie", mass="mass", eroded_flag="eroded")
        if f in one:
            return {nm[0]: [((), P(one[f]), False)]}
        if f == "volume_fraction":
            return {nm[0]: [((), P("volfrac"), False)], nm[1]: [((), P("geo_volfrac"), False)]}
        return {nm[0]: [((i, j), P("stress", i, j), False) for i in range(3) for j in range(3)]}
    if f in ("mass", "temp"):
        return {nm[0]: [((), P(f), False)]}
    vec = lambda g: [((d,), T.ite(dims2, T.real(0), g(d)) if d == 2 else g(d), False) for d in range(3)]
    if f == "velocity":
        return {nm[0]: vec(lambda d: P("vel", d)), nm[1]: vec(lambda d: T.div(T.sub(P("vel", d), P("vel_n0", d)), dt))}
    return {nm[0]: vec(lambda d: P(f, d))}


RECS = {"elem": "MaterialPoint_t", "mat": "MaterialPoint_t", "gauss": "GaussPoint_t", "node": "node_t"}


def one_output(u, ck, tu, kind, f, table):
    """the effect of one output.  table[name] = (row parameter, array parameter)"""
    fn, scope = FN[kind]
    fd = tu.find(W + fn)
    x, st = VizX(u, tu, {}, fn), State()
    args, pos = params(x, st, fd, {scope: [num(enum(tu, scope + f))]})
    prm = [str(tu.strip(p["t"]) if tu.strip(p["t"])["k"] != "ref" else tu.strip(tu.strip(p["t"])["to"])) for p in fd["params"]]
    rec = [args[k].path for k, s in enumerate(prm) if RECS[kind] in s]
    if len(rec) != 1:
        raise Undecided("%s: the record of the values is not found" % fn)
    rname = x.pname(rec[0])
    ints = [a for a in args if isinstance(a, Term) and a.sort == "I"]
    pn = {fd["params"][k]["n"]: args[k] for k in range(len(args)) if isinstance(args[k], Term)}
    need = {"elem": ["num_mat_elems", "mat_id"], "mat": ["num_mat_elems", "mat_id"], "gauss": ["num_elems"], "node": ["num_nodes", "num_dims", "dt"]}[kind]
    if any(n not in pn for n in need):
        raise Undecided("%s: parameters have changed" % fn)
    dims2 = T.eq(pn["num_dims"], num(2)) if kind == "node" else FALSE
    if kind == "node":
        st.assume(T.lor(dims2, T.eq(pn["num_dims"], num(3))))
        st.assume(T.lnot(T.eq(pn["dt"], T.real(0))))
    label = "%s output %s" % (kind, f)
    groups = {}
    s0 = State()

    def region(x, reg, st):
        if reg["after"] is None:
            raise Undecided("%s: a parallel loop never ends normally" % label)
        iv, rng = reg["ivs"], reg["rng"]
        ws = x.new_writes(reg)
        u.shape("%s: one parallel loop over the %s" % (label, "elements" if kind != "node" else "nodes"), len(iv) == 1)
        if ws:
            u.prove("%s: from the first" % label, reg["before"].pc, T.eq(rng[0][0], num(0)), x)
            u.prove("%s: to the last" % label, reg["before"].pc, T.eq(rng[0][1], pn[need[0]]), x)
        seen = set()
        for k, v, wr in ws:
            if wr is None or wr[0] == "par":
                raise Undecided("%s: a parallel loop changes a whole array" % label)
            idx = wr[1]
            arr = [a for a in x.input_arrays.values() if a.id == k[1]]
            if not arr or k[2] or k[1] not in pos:
                raise Undecided("%s: a store outside the file arrays" % label)
            if not (idx and idx[0] in pos and pos[idx[0]] is not None):
                raise Undecided("%s: a store outside the rows of the file arrays" % label)
            if (k, idx) in seen:
                continue
            seen.add((k, idx))
            now = x.aread(reg["after"], arr[0], idx, (), R)
            was = x.aread(reg["before"], arr[0], idx, (), R)
            groups.setdefault((pos[idx[0]], pos[k[1]]), []).append((idx, now, was, list(reg["after"].pc), iv[0]))
        return True
    x.region_hook = region
    call_fn(x, fd, args, st, this=obj(x, st, "self"))
    eim = {k: a for k, a in x.input_arrays.items() if "elem_in_mat" in k}

    def P_at(iv):
        def P(name, *c):
            full = rname + "." + name
            idx = ((pn["mat_id"],) if kind in ("elem", "mat") else ()) + (iv,) + tuple(num(d) for d in c)
            a = x.input_arrays.get(full)
            if a is None:
                return T.uf("unread " + full, idx, "R")
            if name == "eroded":
                return T.ite(rd(x, s0, a, idx, {"k": "bool"}), T.real(1), T.real(0))
            return rd(x, s0, a, idx, R)
        return P
    exp0 = want(kind, f, P_at(num(0)), dims2, pn.get("dt"))
    u.fact("%s fills %s" % (label, ", ".join(exp0) or "no field"), len(groups) == len(exp0), "symbolic execution", note="%d rows of the file arrays are filled" % len(groups))
    left = list(exp0)
    rowv = {v: k for k, v in pos.items() if isinstance(k, Term)}
    # rows of different fields in one array are different (proved where the writer is called)
    apart = [T.lnot(T.eq(rowv[a[0]], rowv[b[0]])) for a in groups for b in groups if a[0] < b[0] and a[1] == b[1]]
    for (rp, ap), cells in groups.items():
        if not left:
            break

        def goals(nm):
            out = []
            for idx, now, was, pc, iv in cells:
                exp = {c: (v, acc) for c, v, acc in want(kind, f, P_at(iv), dims2, pn.get("dt"))[nm]}
                at = iv
                if kind == "elem":
                    at = rd(x, s0, list(eim.values())[0], (pn["mat_id"], iv), INT) if eim else T.var("no element")
                c = tuple(int(d.val) for d in idx[2:] if T.isnum(d))
                if len(c) != len(idx) - 2:
                    raise Undecided("%s: components" % label)
                v = exp.get(c)
                out.append((c, pc + apart, T.eq(idx[1], at), T.eq(now, T.add(was, v[0]) if v[1] else v[0]) if v else FALSE))
            return out
        best = [nm for nm in left if all(g[3] is TRUE or g[3].op not in ("false",) and T.eq(g[3], TRUE) is TRUE for g in goals(nm))]
        if not best and len(left) > 1:
            best = [nm for nm in left if all(u.prover.prove(g[1], g[3], x.axioms).status == "proved" for g in goals(nm))]
        nm = best[0] if best else left[0]
        left.remove(nm)
        table[(kind, nm)] = (rp, ap)
        gs = goals(nm)
        for c, pc, where, val in gs:
            cn = " component %s" % ",".join(map(str, c)) if c else ""
            u.prove("%s: %s%s is stored under its own element or node" % (label, nm, cn), pc, where, x)
            u.prove("%s: %s%s has the value of the run" % (label, nm, cn), pc, val, x)
        u.fact("%s: every component of %s is stored" % (label, nm), {g[0] for g in gs} == {c for c, _, _ in exp0[nm]}, "symbolic execution")
    return fd


def offset(v, h):
    """c with v = h + c for the unknown h, or None"""
    if not isinstance(v, Term) or set(T.free_vars([v])) != {h}:
        return None
    a, b = T.subst(v, {h: num(0)}), T.subst(v, {h: num(5)})
    return int(a.val) if T.isnum(a) and T.isnum(b) and b.val == a.val + 5 else None


class ListLoop:
    """a loop over a list of outputs: what it does for one output, from unknown
    contents of everything it changes.  The list holds each output at most once;
    `n_f` is 1 if output f is in it.
      counter   grows by c_f for output f: in the end it has grown by the sum of c_f n_f
      row       a variable that output f sets to the counter: the position of f among the
                rows the counter went through; rows of different outputs do not overlap
      name      a text stored at the row"""

    def __init__(self, u, tu):
        self.u, self.tu = u, tu
        self.names = {}         # array id -> {text: (present, row)}
        self.facts = []

    def n(self, kind, f):
        return T.var("%s %s" % (kind, f), "I")

    def pos(self, kind, f, cname):
        return T.var("place of %s %s among %s" % (kind, f, cname), "I")

    def __call__(self, x, s, st, env, vec):
        u = self.u
        kind, scope = x.outkinds.get(vec.arr.id, (None, None))
        if kind is None:
            raise Undecided("a loop over an unknown list (line %s)" % s["ln"])
        runs = {}

        def go(base, f):
            p = base.copy()
            return x.one(s, p, env, num(enum(self.tu, scope + f)))
        ch = set()
        for rnd in range(3):
            b = st.copy()
            for k in ch:
                if isinstance(k[0], str) and k[0] == "A":
                    x.havoc_key(b, k, b.store.get(k) or next(r.store[k] for r in runs.values() if k in r.store))
                else:
                    b.store[k] = T.fresh("h", b.store[k].sort)
            more = set()
            for f in ENUMS[scope]:
                r = runs[f] = go(b, f)
                for k, v in r.store.items():
                    if k in b.store and b.store[k] is not v and not (isinstance(v, Term) and v == b.store[k]) or k not in b.store and isinstance(k, tuple) and k and k[0] == "A":
                        more.add(k)
            if not more - ch:
                break
            ch |= more
        for k in ch:
            if not (k[0] == "A" or isinstance(st.store.get(k), Term)):
                raise Undecided("the loop at line %s changes a %s" % (s["ln"], type(st.store.get(k)).__name__))
        ints = [k for k in ch if k[0] != "A"]
        delta = {k: {} for k in ints}
        for k in ints:
            for f, r in runs.items():
                delta[k][f] = offset(r.store[k], b.store[k])
        counters = [k for k in ints if b.store[k].sort == "I" and all(d is not None for d in delta[k].values())]
        cs = {k: dict(delta[k]) for k in counters}
        for k in counters:
            if any(v < 0 for v in cs[k].values()):
                raise Undecided("a counter goes down")
        out = st.copy()
        entry = {k: st.store[k] for k in counters}
        for k in counters:
            out.store[k] = T.add(entry[k], T.tsum([T.mul(num(c), self.n(kind, f)) for f, c in cs[k].items() if c] or [num(0)]))
        sig = {k: "rows of " + ",".join("%s*%d" % (f, c) for f, c in sorted(cs[k].items()) if c) for k in counters}
        for k in counters:
            lo = out.store[k]
            for f, c in cs[k].items():
                if c:
                    p = self.pos(kind, f, sig[k])
                    tot = T.tsum([T.mul(num(d), self.n(kind, g)) for g, d in cs[k].items() if d])
                    self.facts.append(T.land(T.le(num(0), p), T.implies(T.eq(self.n(kind, f), num(1)), T.le(T.add(p, num(c)), tot))))
                    for g, d in cs[k].items():
                        if d and g < f:
                            q = self.pos(kind, g, sig[k])
                            self.facts.append(T.implies(T.land(T.eq(self.n(kind, f), num(1)), T.eq(self.n(kind, g), num(1))), T.lor(T.le(T.add(p, num(c)), q), T.le(T.add(q, num(d)), p))))
        for f in ENUMS[scope]:
            fct = T.land(T.le(num(0), self.n(kind, f)), T.le(self.n(kind, f), num(1)))
            if fct not in self.facts:
                self.facts.append(fct)

        def row(f, v):
            """value v of the run for f, as counter + offset"""
            for k in counters:
                d = offset(v, b.store[k])
                if d is not None:
                    if not cs[k][f]:
                        raise Undecided("a row of a counter that output %s does not advance (line %s)" % (f, s["ln"]))
                    return T.tsum([entry[k], self.pos(kind, f, sig[k]), num(d)])
            return None
        for k in ints:
            if k in counters:
                continue
            cur = st.store[k]
            setters = 0
            for f, r in runs.items():
                if r.store[k] is b.store[k]:
                    continue
                setters += 1
                v = r.store[k]
                if b.store[k].sort == "I" and not T.isnum(v):
                    v = row(f, v)
                    if v is None:
                        raise Undecided("a variable takes an unexpected value for output %s (line %s) %s %s %s %s" % (f, s["ln"], k, T.show(r.store[k]), T.show(b.store[k]), {g: T.show(q.store[k]) for g, q in runs.items()}))
                elif not (v is TRUE or v is FALSE or T.isnum(v)):
                    raise Undecided("a variable takes an unexpected value for output %s (line %s) %s %s %s %s" % (f, s["ln"], k, T.show(r.store[k]), T.show(b.store[k]), {g: T.show(q.store[k]) for g, q in runs.items()}))
                cur = T.ite(T.eq(self.n(kind, f), num(1)), v, cur)
            if setters > 1:
                # the last of them decides: only known if all agree
                vals = {T.show(r.store[k]) for r in runs.values() if r.store[k] is not b.store[k]}
                if len(vals) > 1:
                    raise Undecided("several outputs set one variable (line %s)" % s["ln"])
            out.store[k] = cur
        for k in ch:
            if k[0] != "A":
                continue
            for f, r in runs.items():
                av, ov = r.store.get(k), b.store.get(k)
                if av is None or av is ov:
                    continue
                nw = av.writes[len(ov.writes) if ov is not None else 0:]
                if ov is not None and av.base != ov.base:
                    raise Undecided("an array is replaced in the loop at line %s" % s["ln"])
                for w in nw:
                    if w[0] == "par" or len(w[1]) != 1 or not isinstance(w[2], Term) or w[2].op != "sconst":
                        raise Undecided("an unexpected store in the loop at line %s" % s["ln"])
                    rw = row(f, w[1][0])
                    if rw is None:
                        raise Undecided("a name is stored at an unexpected place (line %s)" % s["ln"])
                    txt = w[2].val
                    tab = self.names.setdefault(k[1], {})
                    if w[0] is not TRUE:
                        raise Undecided("a name is stored under a condition")
                    u.fact("name %s is given to one field" % txt, txt not in tab, "symbolic execution")
                    tab[txt] = (T.eq(self.n(kind, f), num(1)), rw, kind, f)
            x.havoc_key(out, k, next(r.store[k] for r in runs.values() if k in r.store))
        return out


class Mats(Inv):
    """a counted loop: its body for one arbitrary iteration, from unknown contents of
    everything it changes"""
    fallback = False

    def __init__(self, lo_hi=True):
        Inv.__init__(self, None)
        self.inv = self.range

    def range(self, x, st, env):
        ck, lo, hi = x.lframes[-1]["ck"], x.lframes[-1]["lo"], x.lframes[-1]["hi"]
        k = st.store[ck]
        return [("from the first", T.le(lo, k)), ("to the last", T.implies(T.le(lo, hi), T.le(k, hi)))]

    def changed(self, x, *a):
        x.mute += 1
        try:
            return Inv.changed(self, x, *a)
        finally:
            x.mute -= 1

    def havoc(self, x, st, keys, probe=False):
        vs = [k for k in keys if isinstance(st.store.get(k), Vec)]
        for k in vs:
            n = T.fresh("length", "I")
            st.store[k] = Vec(st.store[k].arr, n)
            st.pc.append(T.le(num(0), n))
        Inv.havoc(self, x, st, [k for k in keys if k not in vs and not isinstance(st.store.get(k), (MArr, ViewV, Opaque, Text))], probe)

    def run(self, x, s, st, env, cond, inc, body, post):
        if post or cond is None or inc is None:
            raise Undecided("loop at line %s is not a counted loop" % s["ln"])
        p = st.copy()
        b0 = dict(p.store)
        x.ev(inc, p, dict(env))
        ctr = [k for k, v in p.store.items() if b0.get(k) is not v]
        if len(ctr) != 1:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        iv = T.fresh("i", "I")
        g = st.copy()
        g.store[ctr[0]] = iv
        c = x.tobool(x.ev(cond, g, dict(env)))
        hi = c.args[1] if c.op == "lt" and c.args[0] is iv else T.add(c.args[1], num(1)) if c.op == "le" and c.args[0] is iv else None
        if hi is None or iv in T.free_vars([hi]) or T.sub(p.store[ctr[0]], st.store[ctr[0]]) is not num(1) and not (T.isnum(T.sub(p.store[ctr[0]], st.store[ctr[0]])) and T.sub(p.store[ctr[0]], st.store[ctr[0]]).val == 1):
            raise Undecided("loop at line %s: no upper bound" % s["ln"])
        fr = dict(ck=ctr[0], lo=st.store[ctr[0]], hi=hi, entry=st.copy(), ln=s["ln"])
        x.lframes.append(fr)
        try:
            r = Inv.run(self, x, s, st, env, cond, inc, body, post)
            if set(r) != {"next"}:
                raise Undecided("the loop at line %s is left early" % s["ln"])
            fr["exit"] = r["next"].copy()
            if not x.mute:
                x.allframes.append(fr)
            return r
        finally:
            x.lframes.pop()


EV = ["concatenate_elem_fields", "concatenate_mat_fields", "concatenate_nodal_fields", "write_vtu", "write_vtm", "write_pvd", "build_material_elem_node_lists", "write_material_point_state", "write_ensight"]


def value(x, st, args, env, k):
    """value and place of an argument"""
    a = args[k]
    t = x.tu.strip(a["t"])
    if x.sort(t):
        return x.ev(a, st, env), None
    try:
        lv = x.lval(a, st, env)
    except (Undecided, KeyError):
        return x.ev(a, st, env), None
    if isinstance(lv, (PathLV, ElemLV)):
        try:
            return x.read(st, lv, t), getattr(lv, "path", None)
        except (Undecided, KeyError):
            return None, getattr(lv, "path", None)
    return lv, None


def rows_of(u, ck, tu):
    """position of the row and array of each field among the parameters (see the units about the values)"""
    t = {}
    for kind in FN:
        for f in ENUMS[FN[kind][1]]:
            one_output(Unit("rows", u.prover), ck, tu, kind, f, t)
    return t


def write_mesh(ck, fmt):
    def go(u):
        tu = ck.tu(TUF, INCS)
        f = tu.find(W + "write_mesh")
        table = rows_of(u, ck, tu)
        x, st = VizX(u, tu, {}, "write_mesh"), State()
        x.lframes, x.allframes, x.mute, x.events, x.outkinds = [], [], 0, [], {}
        ll = ListLoop(u, tu)
        x.fieldloop = ll
        x.loops["*"] = Mats()
        pn = [p["n"] for p in f["params"]]
        self_ = obj(x, st, "self")
        args = []
        for p in f["params"]:
            ty = x.tu.strip(p["t"])
            while ty["k"] == "ref":
                ty = x.tu.strip(ty["to"])
            if isvec(x, p["t"]):
                a = MArr("solver list " + p["n"])
                sc = [z for z in ENUMS if z[:-2] in str(ty)]
                x.outkinds[a.id] = ("solver", sc[0])
                args.append(obj(x, st, p["n"], Vec(a, T.var(p["n"] + ".size", "I"))))
            elif x.sort(ty):
                v = T.var(p["n"], x.sort(ty))
                if ty["k"] == "int" and not ty["sg"]:
                    st.assume(T.le(num(0), v))
                args.append(v)
            elif "CArray" in str(ty):
                a = MArr(p["n"])
                x.input_arrays[p["n"]] = a
                args.append(obj(x, st, p["n"], a))
            else:
                args.append(obj(x, st, p["n"]))
        A = dict(zip(pn, args))
        sim = [a for a, p in zip(args, f["params"]) if "SimulationParameters_t" in str(x.tu.strip(x.tu.strip(p["t"]).get("to", p["t"])))][0]
        mesh = args[0]
        state = args[1]
        oo = sim.path + ("output_options",)
        lists = {}
        for nm, (kind, scope) in LISTS.items():
            a = MArr("list " + nm)
            x.outkinds[a.id] = (kind, scope)
            lists[kind] = a
            st.store[oo + (nm,)] = Vec(a, T.var(nm + ".size", "I"))
        st.store[oo + ("format",)] = num(enum(tu, "output_options::" + fmt))
        gid = T.var("graphics number", "I")
        st.store[self_.path + ("graphics_id",)] = gid
        st.assume(T.le(num(0), gid))

        def con(nm):
            def c(x, st, thislv, a, env, e):
                vals = [value(x, st, a, env, k) for k in range(len(a))]
                if not x.mute:
                    x.events.append(dict(n=nm, v=[v for v, _ in vals], p=[p for _, p in vals], st=st.copy(), fr=list(x.lframes)))
                if nm in ("concatenate_elem_fields", "concatenate_mat_fields", "concatenate_nodal_fields", "build_material_elem_node_lists"):
                    fd = tu.find(W + nm)
                    for (v, p), q in zip(vals, fd["params"]):
                        t = tu.types[q["t"]]
                        if t["k"] == "ref" and not tu.types[t["to"]].get("const"):
                            if isinstance(v, MArr):
                                k = ("A", v.id, ())
                                s = x.sort(INT if "size_t" in str(tu.types[t["to"]]) or "unsigned" in str(tu.types[t["to"]]) else R)
                                x.havoc_key(st, k, st.store.get(k) or ArrVal(v.name, s, None))
                            elif isinstance(v, Term) and p is not None:
                                st.store[p] = T.fresh("number of points", "I")
                                st.pc.append(T.le(num(0), st.store[p]))
                            elif isinstance(v, Term):
                                lv = x.lval(a[[z is q for z in fd["params"]].index(True)], st, env)
                                st.store[lv.path] = T.fresh("number of points", "I")
                                st.pc.append(T.le(num(0), st.store[lv.path]))
                return Opaque("void")
            return c
        for nm in EV:
            x.contracts[W + nm] = con(nm)

        def shell(nm):
            def c(x, st, thislv, a, env, e):
                v = x.strval(a[0], st, env)
                if not x.mute:
                    x.events.append(dict(n=nm, v=[v], st=st.copy(), fr=list(x.lframes)))
                return T.fresh(nm, "I")
            return c
        x.contracts["system"] = shell("system")
        x.contracts["stat"] = shell("stat")

        def pushed(x, st, arr, val):
            if not x.mute:
                x.events.append(dict(n="push", v=[val], arr=arr, st=st.copy(), fr=list(x.lframes)))
        x.pushed = pushed

        def region(x, reg, st):
            if not x.mute:
                x.events.append(dict(n="region", reg=reg, w=None if reg["after"] is None else x.new_writes(reg), st=st.copy(), fr=list(x.lframes)))
            return False
        x.region_hook = region
        call_fn(x, f, args, st, this=self_)
        check_calls(u, x, st, A, f, mesh, state, self_, lists, ll, table, fmt, gid)
    return go


def check_calls(u, x, st, A, f, mesh, state, self_, lists, ll, table, fmt, gid):
    tu = x.tu
    viz = fmt in ("viz", "viz_and_state")
    facts = ll.facts
    sx = State()
    names = [p["n"] for p in f["params"]]
    inp = lambda path, ty=INT: x.read(sx, PathLV(path), ty)
    # unsigned inputs of the mesh
    mi = lambda n: x.read(st, PathLV(mesh.path + (n,)), INT)
    num_elems, num_nodes, num_dims, nie, Pn = mi("num_elems"), mi("num_nodes"), mi("num_dims"), mi("num_nodes_in_elem"), x.read(st, PathLV(mesh.path + ("Pn",)), {"k": "int", "w": 32, "sg": True})
    H = facts + list(x.axioms)
    bypath = lambda p: st.store.get(p)
    sname = x.pname(state.path)
    arr = lambda n: x.input_arrays.get(n)
    mp, mm = sname + ".MaterialPoints", sname + ".MaterialToMeshMaps"
    nmats = T.var(mp + ".num_material_points.size()", "I")
    nm_of = lambda m: rd(x, State(), arr(mm + ".num_mat_elems"), (m,), INT) if arr(mm + ".num_mat_elems") else T.var("no count", "I")
    ev = lambda n: [e for e in x.events if e["n"] == n]
    isnum = lambda a, b: a is b or (isinstance(a, Term) and isinstance(b, Term) and T.eq(a, b) is TRUE)
    pr = lambda name, hyps, goal: u.prove(name, list(hyps) + H, goal, x)
    param = lambda fn: [p["n"] for p in tu.find(W + fn)["params"]]

    def only(n, k=1):
        e = ev(n)
        u.fact("%s is called at %d place%s" % (n, k, "s" if k != 1 else ""), len(e) == k, "symbolic execution", note=str(len(e)))
        if len(e) != k:
            raise Undecided("calls of %s" % n)
        return e

    def texts(v, what, want):
        """the fields of one file array: names, sizes and rows"""
        tab = ll.names.get(v.arr.id, {})
        u.fact("%s: the names are those of the outputs" % what, set(tab) == set(want), "symbolic execution", note=str(sorted(set(tab) ^ set(want))))
        for t, (present, row, kind, fl) in sorted(tab.items()):
            u.fact("%s: %s is the name of that output" % (what, t), t in NAMES.get(kind, {}).get(fl, []), "symbolic execution", note="%s %s" % (kind, fl))
        pr("%s: there is one row for every field" % what, [], T.eq(v.n, T.tsum([ll.n(k, fl) for _, _, k, fl in tab.values()] or [num(0)])))
        its = sorted(tab.items())
        for i, (t, (p, r, k, fl)) in enumerate(its):
            pr("%s: %s has a row" % (what, t), [p], T.land(T.le(num(0), r), T.lt(r, v.n)))
            for t2, (p2, r2, k2, f2) in its[:i]:
                pr("%s: %s and %s have different rows" % (what, t, t2), [p, p2], T.lnot(T.eq(r, r2)))
        return tab

    big = lambda kind, b: {n for fl, ns in NAMES[kind].items() for n in ns if (fl in BIG) == b}

    # ---------------- averages on the elements
    e, = only("concatenate_elem_fields")
    if fmt == "ensight":
        return
    frs = e["fr"]
    u.shape("the element averages are gathered in a loop over the materials", len(frs) == 1)
    fr = frs[0]
    base = fr["entry"].pc
    m = e["st"].store[fr["ck"]]
    pr("element averages: from the first material", base, T.eq(fr["lo"], num(0)))
    pr("element averages: to the last material", base, T.eq(fr["hi"], nmats))
    always(u, x, pr, "element averages", e, fr)

    def rows(e, kind, tabs, arrays):
        for t, tab in tabs:
            for nm, (present, row, k, fl) in sorted(tab.items()):
                if k != kind:
                    continue
                if (kind, nm) not in table:
                    raise Undecided("field %s is not known to be written" % nm)
                rp, ap = table[(kind, nm)]
                pr("the values of %s go to its row" % nm, e["st"].pc + [present], T.eq(e["v"][rp], row))
                u.fact("the values of %s go to the array they are written from" % nm, e["v"][ap] is arrays[t], "symbolic execution")

    def dims(what, a, want, pc=()):
        u.shape("%s has its sizes" % what, isinstance(a, MArr) and a.dims is not None and len(a.dims) == len(want))
        for d, w in zip(a.dims, want):
            pr("%s: sizes" % what, pc, T.eq(T.lift(d), T.lift(w)))

    def lists_of(e, fn, kinds):
        for p, v in zip(tu.find(W + fn)["params"], e["v"]):
            ty = isvec(x, p["t"])
            if ty:
                ks = [k for k in kinds if FN[k][1][:-2] in str(ty)]
                u.fact("%s works on the list of outputs asked for" % fn, len(ks) == 1 and isinstance(v, Vec) and v.arr is lists[ks[0]] and T.eq(v.n, T.var([n for n, z in LISTS.items() if z[0] == ks[0]][0] + ".size", "I")) is TRUE, "symbolic execution")

    def arg(e, fn, pname):
        ps = param(fn)
        if pname not in ps:
            raise Undecided("%s: parameter %s is gone" % (fn, pname))
        return e["v"][ps.index(pname)]

    def place(e, fn, pname):
        return e["p"][param(fn).index(pname)]
    lists_of(e, "concatenate_elem_fields", ("elem", "gauss"))
    fn = "concatenate_elem_fields"
    for p, w in (("num_mat_elems", nm_of(m)), ("mat_id", m), ("num_elems", num_elems)):
        pr("%s: %s" % (fn, p), e["st"].pc, T.eq(arg(e, fn, p), w))
    for p, w in (("MaterialPoints", state.path + ("MaterialPoints",)), ("GaussPoints", state.path + ("GaussPoints",))):
        u.fact("%s reads the state of the run: %s" % (fn, p), place(e, fn, p) == w, "symbolic execution", note=str(place(e, fn, p)))
    u.fact("%s reads the elements of the material" % fn, arg(e, fn, "elem_in_mat_elem") is arr(mm + ".elem_in_mat_elem"), "symbolic execution")
    es, et = [v for v in e["v"] if isinstance(v, MArr) and v is not arr(mm + ".elem_in_mat_elem")][:2]
    r0, e0, i0, j0 = [T.var(z, "I") for z in ("some row", "some element", "some i", "some j")]
    for a, ix in ((es, (r0, e0)), (et, (r0, e0, i0, j0))):
        pr("the averages start at zero", base, T.eq(rd(x, fr["entry"], a, ix, R), T.real(0)))

    # ---------------- nodal values
    n, = only("concatenate_nodal_fields")
    fn = "concatenate_nodal_fields"
    u.shape("the nodal values are gathered once", not n["fr"])
    lists_of(n, fn, ("node",))
    for p, w in (("dt", A["dt"]), ("num_nodes", num_nodes), ("num_dims", num_dims)):
        pr("%s: %s" % (fn, p), n["st"].pc, T.eq(arg(n, fn, p), w))
    u.fact("%s reads the state of the run" % fn, place(n, fn, "Node") == state.path + ("node",), "symbolic execution")
    ns, nv = [v for v in n["v"] if isinstance(v, MArr)][:2]
    if not viz:
        u.fact("no graphics file is written", not ev("write_vtu") and not ev("write_vtm") and not ev("write_pvd") and not ev("system"), "symbolic execution")
    else:
        graphics(u, x, st, A, f, mesh, state, self_, lists, ll, table, gid, locals())
    k = 1 if fmt != "viz" else 0
    w = only("write_material_point_state", k)
    if k:
        w = w[0]
        fn = "write_material_point_state"
        u.shape("the state is written once", not w["fr"])
        pr("the state is written at the time of the run", w["st"].pc, T.eq(arg(w, fn, "time_value"), A["time_value"]))
        u.fact("the state file is about the state of the run", place(w, fn, "State") == state.path and place(w, fn, "mesh") == mesh.path, "symbolic execution")
    u.fact("no other file is written", not ev("write_ensight"), "symbolic execution")
    u.reachable("the writer returns", st.pc)


def always(u, x, pr, what, e, fr, given=()):
    """the event happens in every iteration of its loop in which `given` holds"""
    k = e["st"].store[fr["ck"]]
    b = list(fr["entry"].pc)
    extra = [l for l in e["st"].pc if not any(l is z for z in b)]
    rng = [T.le(fr["lo"], k), T.lt(k, fr["hi"])]
    for l in extra:
        for q in (l.args if l.op == "and" else (l,)):
            if any(v.val.startswith("length") or v.val.startswith("number of points") for v in T.free_vars([q])):
                continue
            pr("%s: for every material" % what, b + rng + list(given), q)


def graphics(u, x, st, A, f, mesh, state, self_, lists, ll, table, gid, L):
    ev, only, pr, texts, big, rows, dims, lists_of, arg, place, param, nm_of, arr = [L[k] for k in "ev only pr texts big rows dims lists_of arg place param nm_of arr".split()]
    tu, H = x.tu, L["H"]
    num_elems, num_nodes, num_dims, nie, Pn, nmats, mp, mm, sname = [L[k] for k in "num_elems num_nodes num_dims nie Pn nmats mp mm sname".split()]
    e, n, fr, es, et, ns, nv = [L[k] for k in "e n fr es et ns nv".split()]
    r0, e0, i0, j0 = [L[k] for k in "r0 e0 i0 j0".split()]
    solver = A["solver_id"]
    v1, v2 = only("write_vtu", 2)
    if v1["fr"]:
        v1, v2 = v2, v1
    u.shape("one file of the mesh, and one in a loop over the materials", not v1["fr"] and len(v2["fr"]) == 1)
    fn = "write_vtu"
    P = param(fn)
    u.shape("parameters of write_vtu", len(P) == 18)
    fields = {"S": v1["v"][2], "T": v1["v"][3], "NS": v1["v"][4], "NV": v1["v"][5]}
    vt = {}
    for q, k, b, kinds in (("S", 6, False, ("elem", "gauss")), ("T", 7, True, ("elem", "gauss")), ("NS", 8, False, ("node",)), ("NV", 9, True, ("node",))):
        v = v1["v"][k]
        u.shape("%s is a list of names" % P[k], isinstance(v, Vec))
        vt[q] = texts(v, "mesh file, " + {"S": "element numbers", "T": "element tensors", "NS": "nodal numbers", "NV": "nodal vectors"}[q], set().union(*[big(z, b) for z in kinds]))
    rows(e, "elem", [(q, vt[q]) for q in "ST"], fields)
    rows(e, "gauss", [(q, vt[q]) for q in "ST"], fields)
    rows(n, "node", [(q, vt[q]) for q in ("NS", "NV")], fields)
    nS = {q: v1["v"][k].n for q, k in (("S", 6), ("T", 7), ("NS", 8), ("NV", 9))}
    dims("element numbers", fields["S"], (nS["S"], num_elems))
    dims("element tensors", fields["T"], (nS["T"], num_elems, 3, 3))
    dims("nodal numbers", fields["NS"], (nS["NS"], num_nodes))
    dims("nodal vectors", fields["NV"], (nS["NV"], num_nodes, 3))

    # ---- the specific energy is the energy over the mass
    acc = [z for z in ev("region") if len(z["fr"]) == 1 and z["w"]]
    u.shape("one loop adds up the masses", len(acc) == 1 and len(acc[0]["reg"]["ivs"]) == 1)
    a = acc[0]
    af = a["fr"][0]
    am = a["st"].store[af["ck"]]
    iv = a["reg"]["ivs"][0]
    ks = {k for k, _, _ in a["w"]}
    u.shape("one array of masses", len(ks) == 1)
    marr = [q for q in list(a["reg"]["after"].store.values()) if isinstance(q, MArr) and q.id == list(ks)[0][1]]
    u.shape("the array of masses is found", bool(marr))
    marr = marr[0]
    nie_n = mm + ".elem_in_mat_elem"
    at = rd(x, State(), arr(nie_n), (am, iv), INT)
    massv = rd(x, State(), arr(mp + ".mass"), (am, iv), R) if arr(mp + ".mass") else T.var("no mass", "R")
    apc = a["reg"]["after"].pc
    pr("masses: of every material", af["entry"].pc, T.land(T.eq(af["lo"], num(0)), T.eq(af["hi"], nmats)))
    pr("masses: of all its elements", a["reg"]["before"].pc, T.land(T.eq(a["reg"]["rng"][0][0], num(0)), T.eq(a["reg"]["rng"][0][1], nm_of(am))))
    pr("masses: the mass of the material in the element is added to it", apc, T.eq(rd(x, a["reg"]["after"], marr, (at,), R), T.add(rd(x, a["reg"]["before"], marr, (at,), R), massv)))
    pr("masses: and to no other element", apc + [T.lnot(T.eq(e0, at))], T.eq(rd(x, a["reg"]["after"], marr, (e0,), R), rd(x, a["reg"]["before"], marr, (e0,), R)))
    pr("masses: they start at zero", af["entry"].pc, T.eq(rd(x, af["entry"], marr, (e0,), R), T.real(0)))
    sie = ll.names.get(v1["v"][6].arr.id, {}).get("sie")
    if sie:
        inside = [T.le(num(0), e0), T.lt(e0, num_elems), T.le(num(0), r0), T.lt(r0, nS["S"])]
        ex = fr["exit"]
        old = rd(x, ex, es, (r0, e0), R)
        new = rd(x, v1["st"], es, (r0, e0), R)
        tot = rd(x, v1["st"], marr, (e0,), R)
        pr("the energy is divided by the mass", v1["st"].pc + inside + [sie[0], T.eq(r0, sie[1])], T.eq(T.mul(new, T.add(tot, T.real(Fraction(1, 10 ** 20)))), old) if False else T.eq(new, T.div(old, T.add(tot, T.real(Fraction(1, 10 ** 20))))))
        pr("no other element value changes on the way to the file", v1["st"].pc + inside + [T.lnot(T.land(sie[0], T.eq(r0, sie[1])))], T.eq(new, old))
        pr("no tensor changes on the way to the file", v1["st"].pc + inside, T.eq(rd(x, v1["st"], et, (r0, e0, i0, j0), R), rd(x, ex, et, (r0, e0, i0, j0), R)))
        # masses have been added up when they are divided by
        pr("the masses are those added up", v1["st"].pc + inside + [sie[0]], T.eq(tot, rd(x, af["exit"], marr, (e0,), R)))

    # ---- what the mesh file is about
    def view(v, a, d, what, pc):
        ok = isinstance(v, ViewV) and isinstance(v.ptr, Ptr) and isinstance(v.ptr.lv, ElemLV) and v.ptr.lv.arr is a and len(v.dims) == 2
        u.fact("%s: the right array is written" % what, ok, "symbolic execution")
        if ok:
            for q in v.ptr.lv.idx:
                pr("%s: from its start" % what, pc, T.eq(q, num(0)))
            for q, w in zip(v.dims, d):
                pr("%s: its sizes" % what, pc, T.eq(q, w))
    view(v1["v"][0], arr(sname + ".node.coords"), (num_nodes, num_dims), "points of the mesh", v1["st"].pc)
    view(v1["v"][1], arr(x.pname(mesh.path) + ".nodes_in_elem"), (num_elems, nie), "cells of the mesh", v1["st"].pc)
    txt = lambda v: v.val if isinstance(v, Term) and v.op == "sconst" else None
    u.fact("the mesh file is called fields", txt(v1["v"][10]) == "fields", "symbolic execution", note=str(v1["v"][10]))
    for k, w in ((11, gid), (12, num_nodes), (13, num_elems), (14, nie), (15, Pn), (16, num_dims), (17, solver)):
        pr("mesh file: %s" % P[k], v1["st"].pc, T.eq(v1["v"][k], w))

    # ---- the files of the materials
    c, = only("concatenate_mat_fields")
    b, = only("build_material_elem_node_lists")
    mf = v2["fr"][0]
    u.shape("everything about a material is done in one loop", all(len(z["fr"]) == 1 and z["fr"][0] is mf for z in (c, b, v2)))
    ix = [x.events.index(z) for z in (c, b, v2)]
    u.fact("the material's values and parts are gathered before its file is written", ix[0] < ix[2] and ix[1] < ix[2], "symbolic execution")
    m = v2["st"].store[mf["ck"]]
    nm = nm_of(m)
    pr("material files: from the first", mf["entry"].pc, T.eq(mf["lo"], num(0)))
    pr("material files: to the last", mf["entry"].pc, T.eq(mf["hi"], nmats))
    ms, mt = v2["v"][2], v2["v"][3]
    mtab = {"S": texts(v2["v"][6], "material file, numbers", big("mat", False)), "T": texts(v2["v"][7], "material file, tensors", big("mat", True))}
    pushes = [p for p in ev("push") if p["fr"] and p["fr"][0] is mf]
    u.shape("the material files are listed", len(pushes) == 1)
    any_ = T.lt(num(0), T.add(v2["v"][6].n, v2["v"][7].n))
    for l in [l for l in mf["entry"].pc if not any(l is z for z in v1["st"].pc)]:
        pr("material files: whenever an output of the materials is asked for", v1["st"].pc + [any_], l)
    for z, w in ((v2, "material files"), (pushes[0], "list of material files")):
        always(u, x, pr, w, z, mf, [T.lt(num(0), nm)])
        pr("%s: only of materials on the mesh" % w, z["st"].pc, T.land(T.lt(num(0), nm), any_))
        pr("%s: the material's number" % w, z["st"].pc, T.eq(z["v"][0], m) if z is not v2 else TRUE)
    rows(c, "mat", [(q, mtab[q]) for q in "ST"], {"S": ms, "T": mt})
    dims("material numbers", ms, (v2["v"][6].n, nm), v2["st"].pc)
    dims("material tensors", mt, (v2["v"][7].n, nm, 3, 3), v2["st"].pc)
    lists_of(c, "concatenate_mat_fields", ("mat",))
    for p, w in (("num_mat_elems", nm), ("mat_id", m)):
        pr("concatenate_mat_fields: %s" % p, c["st"].pc, T.eq(arg(c, "concatenate_mat_fields", p), w))
    u.fact("concatenate_mat_fields reads the state of the run", place(c, "concatenate_mat_fields", "MaterialPoints") == state.path + ("MaterialPoints",), "symbolic execution")
    fb = "build_material_elem_node_lists"
    for p, w in (("mat_id", m), ("num_mat_elems", nm), ("num_nodes_in_elem", nie), ("num_dims", num_dims)):
        pr("%s: %s" % (fb, p), b["st"].pc, T.eq(arg(b, fb, p), w))
    u.fact("%s: the mesh, its points and the material's elements" % fb, place(b, fb, "mesh") == mesh.path and arg(b, fb, "state_node_coords") is arr(sname + ".node.coords") and arg(b, fb, "elem_in_mat_elem") is arr(nie_n), "symbolic execution")
    pts, cells = arg(b, fb, "mat_node_coords"), arg(b, fb, "mat_nodes_in_mat_elem")
    dims("points of a material", pts, (num_nodes, num_dims), b["st"].pc)
    dims("cells of a material", cells, (nm, nie), b["st"].pc)
    nmn = v2["v"][12]
    view(v2["v"][0], pts, (nmn, num_dims), "points of the material", v2["st"].pc)
    view(v2["v"][1], cells, (nm, nie), "cells of the material", v2["st"].pc)
    u.fact("the number of points is that of the material", isinstance(nmn, Term) and str(nmn.val).startswith("number of points"), "symbolic execution", note=T.show(nmn))
    for k, w in ((11, gid), (13, nm), (14, nie), (15, Pn), (16, num_dims), (17, solver)):
        pr("material file: %s" % P[k], v2["st"].pc, T.eq(v2["v"][k], w))
    pr("material file: without nodal values", v2["st"].pc, T.land(T.eq(v2["v"][8].n, num(0)), T.eq(v2["v"][9].n, num(0))))
    nmt = v2["v"][10]
    wantn = T.uf("text+", (SC("mat"), T.uf("text of a number", (m,), "S")), "S")
    u.fact("the material file is called after the number of the material", isinstance(nmt, Term) and nmt == wantn, "symbolic execution", note=T.show(nmt) if isinstance(nmt, Term) else str(nmt))

    # ---- the files that list the files
    t, = only("write_vtm")
    p, = only("write_pvd")
    u.shape("the lists are written once", not t["fr"] and not p["fr"])
    it, ip, i1, i2 = [x.events.index(z) for z in (t, p, v1, v2)]
    u.fact("the lists are written after the files", it > max(i1, i2) and ip > max(i1, i2), "symbolic execution")
    other = T.var("another output", "I")
    for z, fn in ((t, "write_vtm"), (p, "write_pvd")):
        g = arg(z, fn, "graphics_times")
        u.shape("%s is given the times" % fn, g is arr("graphics_times"))
        pr("%s: the time of this output" % fn, z["st"].pc, T.eq(rd(x, z["st"], g, (gid,), R), A["time_value"]))
        pr("%s: the times of the others" % fn, z["st"].pc + [T.lnot(T.eq(other, gid))], T.eq(rd(x, z["st"], g, (other,), R), rd(x, State(), g, (other,), R)))
        pr("%s: number of the output" % fn, z["st"].pc, T.eq(arg(z, fn, "graphics_id"), gid))
        pr("%s: solver" % fn, z["st"].pc, T.eq(arg(z, fn, "solver_id"), solver))
    fn = "write_vtm"
    u.fact("names of the files in the list", txt(arg(t, fn, "elem_part_name")) == "fields" and txt(arg(t, fn, "mat_part_name")) == "mat", "symbolic execution")
    mw = arg(t, fn, "mat_files_written")
    u.fact("the list is about the material files written", isinstance(mw, Vec) and mw.arr is pushes[0]["arr"], "symbolic execution")
    iff = lambda a, b: T.land(T.implies(a, b), T.implies(b, a))
    pr("the mesh file is listed if it has fields", t["st"].pc, iff(arg(t, fn, "write_mesh_state"), T.lt(num(0), T.tsum(list(nS.values())))))
    pr("the material files are listed if there are any outputs of materials", t["st"].pc, iff(arg(t, fn, "write_mat_pt_state"), any_))
    pr("the next output has the next number", st.pc, T.eq(st.store[self_.path + ("graphics_id",)], T.add(gid, num(1))))

    # ---- nothing of earlier outputs is removed
    for z in ev("system"):
        s = txt(z["v"][0]) or (z["v"][0].val if isinstance(z["v"][0], Term) else None)
        if s is None:
            raise Undecided("a command that is not a text")
        if s.split()[:1] == ["mkdir"]:
            u.fact("folder %s is made" % s, s in ("mkdir vtk", "mkdir vtk/data"), "symbolic execution")
            continue
        u.fact("the only files removed are earlier graphics files", s in ("rm vtk/Fierro*", "rm vtk/data/Fierro*"), "symbolic execution", note=s)
        pr("files are only removed before the first output of the first solver", z["st"].pc, T.land(T.eq(gid, num(0)), T.eq(solver, num(0))))
        u.fact("files are removed before any is written", x.events.index(z) < i1, "symbolic execution")


# ------------------------------------------------------------- what is written
EMPTY = SC("\x00")
TRK = ("TR",)


def pieces(fmt):
    """a printf format: texts and conversions"""
    out, i = [], 0
    for m in re.finditer(r"%(%|[-+ 0#]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?([diouxXeEfgGcs]))", fmt):
        out.append(("lit", fmt[i:m.start()]))
        out.append(("lit", "%") if m.group(1) == "%" else ("num", m.group(0)))
        i = m.end()
    return out + [("lit", fmt[i:])]


class Prints(Mats):
    """a counted loop that writes: the text of one arbitrary iteration"""
    fallback = True

    def run(self, x, s, st, env, cond, inc, body, post):
        if post or cond is None or inc is None:
            raise Undecided("loop at line %s is not a counted loop" % s["ln"])
        p = st.copy()
        b0 = dict(p.store)
        x.ev(inc, p, dict(env))
        ctr = [k for k, v in p.store.items() if b0.get(k) is not v]
        if len(ctr) != 1 or offset_const(p.store[ctr[0]], st.store[ctr[0]], x) != 1:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        ck = ctr[0]
        iv = T.fresh("i", "I")
        lo = st.store[ck]

        def start(extra):
            g = st.copy()
            g.store[ck] = iv
            for k in [k for k in g.store if k[0] == "TR"]:
                g.store[k] = EMPTY
            g.store.update(extra)
            c = x.tobool(x.ev(cond, g, dict(env)))
            g.pc.append(T.le(lo, iv))
            g.pc.append(c)
            return g, c
        ch = {}
        for rnd in range(3):
            g, c = start(ch)
            base = dict(g.store)
            r = x.ex(body, g, dict(env))
            if set(r) - {"next", "cont"}:
                raise Undecided("the loop at line %s is left early" % s["ln"])
            n1 = x.merge([r[q] for q in ("next", "cont") if q in r])
            if n1.store[ck] is not iv:
                raise Undecided("the loop at line %s changes its counter" % s["ln"])
            new = [k for k, v in n1.store.items() if k in base and k[0] != "TR" and k != ck and base[k] is not v and not (isinstance(v, Term) and v == base[k])]
            if not new and not ch:
                break
            todo = [k for k in new if k not in ch]
            if not todo:
                # closed form: h -> h + c per iteration
                step = {}
                for k, h in ch.items():
                    d = T.subst(n1.store[k], {h: num(0)})
                    if set(T.free_vars([d])) & (set(ch.values()) | {iv}) or not x.prover_check([], T.eq(n1.store[k], T.add(h, d))):
                        raise Undecided("the loop at line %s changes a variable in an unexpected way" % s["ln"])
                    step[k] = d
                g, c = start({k: T.add(st.store[k], T.mul(step[k], T.sub(iv, lo))) for k in ch})
                r = x.ex(body, g, dict(env))
                n1 = x.merge([r[q] for q in ("next", "cont") if q in r])
                break
            for k in todo:
                if not isinstance(st.store.get(k), Term) or st.store[k].sort != "I":
                    raise Undecided("the loop at line %s changes a %s" % (s["ln"], type(st.store.get(k)).__name__))
                ch[k] = T.fresh("h", "I")
        else:
            raise Undecided("the loop at line %s" % s["ln"])
        hi = c.args[1] if c.op == "lt" and c.args[0] is iv else T.add(c.args[1], num(1)) if c.op == "le" and c.args[0] is iv else None
        if hi is None or iv in T.free_vars([hi]):
            raise Undecided("loop at line %s: no upper bound" % s["ln"])
        end = T.ite(T.le(lo, hi), hi, lo)
        out = st
        out.store[ck] = end
        for k in ch:
            out.store[k] = T.add(st.store[k], T.mul(step[k], T.sub(end, lo)))
        for k in list(out.store):
            if k[0] == "TR":
                b = n1.store.get(k, EMPTY)
                if b is not EMPTY:
                    out.store[k] = T.uf("w:for", (out.store[k], iv, lo, hi, b), "S")
        self.ran += 1
        return {"next": out}


def offset_const(a, b, x):
    for d in (1, -1, 2):
        if x.prover_check([], T.eq(a, T.add(b, num(d)))):
            return d


class PrintX(VizX):
    """files are what is printed into them"""

    def __init__(self, u, tu, name):
        VizX.__init__(self, u, tu, {}, name)
        self.files = {}
        self.loops["*"] = Prints()
        for n in ("fprintf", "snprintf", "fopen", "fclose", "fputs", "stat", "system"):
            self.contracts[n] = getattr(self, "k_" + n)
        self.contracts["std::" + "snprintf"] = self.k_snprintf

    def s_Range(self, s, st, env):
        return Executor.s_Range(self, s, st, env)

    def key(self, st, v):
        if not (isinstance(v, Ptr) and isinstance(v.lv, PathLV) and v.lv.path in self.files):
            raise Undecided("printing to an unknown file")
        return ("TR", self.files[v.lv.path])

    def lit(self, a, st, env):
        v = self.strval(a, st, env)
        if v.op != "sconst":
            raise Undecided("format of unknown origin")
        return v.val

    def textof(self, v, st):
        if isinstance(v, Text):
            return v.t
        if isinstance(v, Ptr) and isinstance(v.lv, PathLV):
            t = st.store.get(v.lv.path[:-1] + ("#text",))
            if t is not None:
                return t
            l = st.store.get(v.lv.path[:-1] + ("#lit",))
            if l is not None:
                return SC(l.what.decode("latin1"))
        if isinstance(v, Term) and v.sort == "S":
            return v
        raise Undecided("text of unknown origin")

    def printed(self, tr, fmt, args, st, env):
        args = list(args)
        for p in pieces(fmt):
            if p[0] == "lit":
                if p[1]:
                    tr = T.uf("w:lit", (tr, SC(p[1])), "S")
                continue
            v = self.ev(args.pop(0), st, env)
            if p[1].endswith("s"):
                tr = T.uf("w:text", (tr, self.textof(v, st)), "S")
            elif isinstance(v, Term):
                tr = T.uf("w:num " + p[1], (tr, v), "S")
            else:
                raise Undecided("printing a %s" % type(v).__name__)
        if args:
            raise Undecided("more values than the format prints")
        return tr

    def k_fprintf(self, x, st, thislv, a, env, e):
        v = self.ev(a[0], st, env)
        k = self.key(st, v)
        st.store[k] = self.printed(st.store[k], self.lit(a[1], st, env), a[2:], st, env)
        return T.fresh("printed", "I")

    def k_snprintf(self, x, st, thislv, a, env, e):
        p = self.ev(a[0], st, env)
        if not (isinstance(p, Ptr) and isinstance(p.lv, PathLV)):
            raise Undecided("snprintf into an unknown buffer")
        st.store[p.lv.path[:-1] + ("#text",)] = self.printed(EMPTY, self.lit(a[2], st, env), a[3:], st, env)
        return T.fresh("length of the name", "I")

    def k_fopen(self, x, st, thislv, a, env, e):
        name = self.textof(self.ev(a[0], st, env), st)
        mode = self.textof(self.ev(a[1], st, env), st)
        lv = self.newobj("file")
        self.files[lv.path] = len(self.files)
        self.__dict__.setdefault("opened", {})[self.files[lv.path]] = (name, mode.val)
        st.store[("TR", self.files[lv.path])] = EMPTY
        st.store.setdefault(TRK, EMPTY)
        return Ptr(PathLV(lv.path))

    def k_fclose(self, x, st, thislv, a, env, e):
        k = self.key(st, self.ev(a[0], st, env))
        name, mode = self.opened[k[1]]
        st.store[TRK] = T.uf("w:file " + str(mode), (st.store[TRK], name, st.store.pop(k)), "S")
        return T.fresh("closed", "I")

    def k_fputs(self, x, st, thislv, a, env, e):
        v = self.ev(a[1], st, env) if len(a) > 1 else None
        if isinstance(v, Ptr) and isinstance(v.lv, PathLV) and v.lv.path in self.files:
            k = self.key(st, v)
            st.store[k] = T.uf("w:lit", (st.store[k], SC(self.lit(a[0], st, env))), "S")
        return T.fresh("put", "I")

    def k_stat(self, x, st, thislv, a, env, e):
        return T.fresh("stat", "I")

    def k_system(self, x, st, thislv, a, env, e):
        s = self.lit(a[0], st, env)
        if s.split()[:1] != ["mkdir"]:
            raise Undecided("the command %s is run" % s)
        return T.fresh("system", "I")


def items(t):
    """a written text: pieces in order"""
    return norm(raw(t))


def raw(t):
    if t is EMPTY or t.op == "sconst" and t.val == "\x00":
        return []
    if t.op == "ite":
        c, a, b = t.args
        A, B = raw(a), raw(b)
        k = 0
        while k < len(A) and k < len(B) and A[k] == B[k]:
            k += 1
        return A[:k] + [("if", c, A[k:], B[k:])]
    if t.op == "uf" and t.val.startswith("w:"):
        p = raw(t.args[0])
        n, a = t.val[2:], t.args[1:]
        if n == "lit":
            return p + [("lit", a[0].val)]
        if n == "text":
            return p + [("text", a[0])] if not isinstance(a[0], Term) or a[0].op != "sconst" else p + [("lit", a[0].val)]
        if n.startswith("num"):
            return p + [("num", n[4:], a[0])]
        if n == "for":
            return p + [("for", a[0], a[1], a[2], raw(a[3]))]
        if n.startswith("file"):
            return p + [("file", n[5:], raw(a[0]), raw(a[1]))]
    raise Undecided("a written text of unknown form: %s" % T.show(t)[:80])


def norm(its):
    out = []
    for i in its:
        if i[0] == "lit":
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + i[1])
            else:
                out.append(i)
        elif i[0] == "for":
            out.append(i[:4] + (norm(i[4]),))
        elif i[0] == "if":
            out.append(("if", i[1], norm(i[2]), norm(i[3])))
        elif i[0] == "file":
            out.append(("file", i[1], norm(i[2]), norm(i[3])))
        else:
            out.append(i)
    fin = []
    for i in out:
        if i[0] == "lit":
            s = re.sub(r"<!--.*?-->", "", i[1], flags=re.S)
            s = re.sub(r"\s+", " ", s)
            s = re.sub(r" ?([<>]) ?", r"\1", s)
            if not s:
                continue
            i = ("lit", s)
        elif i[0] == "for" and not i[4] or i[0] == "if" and not i[2] and not i[3]:
            continue
        fin.append(i)
    # blanks next to an optional block
    return [i for k, i in enumerate(fin) if not (i == ("lit", " ") and any(0 <= q < len(fin) and fin[q][0] == "if" for q in (k - 1, k + 1)))]


def compare(u, x, what, got, exp, pc, sub=None):
    """value by value, under the conditions and for the iterations they are written in"""
    sub = sub or {}
    S = lambda t: T.subst(t, sub) if sub else t
    if len(got) != len(exp):
        raise Undecided("structure not recognised: %s has %d pieces instead of %d: %s / %s" % (what, len(got), len(exp), [g[:2] for g in got][:12], [g[:2] for g in exp][:12]))
    last = what
    for g, e in zip(got, exp):
        if g[0] != e[0]:
            raise Undecided("structure not recognised: %s: %s instead of %s" % (last, str(g)[:200], str(e)[:200]))
        if g[0] == "lit":
            if g[1] != e[1]:
                raise Undecided("structure not recognised: %s: %r instead of %r" % (last, g[1], e[1]))
            nm = re.findall(r'Name="(\w+)"', g[1]) or re.findall(r"<(\w+)[^<]*$", g[1])
            last = what + ((", " + nm[-1]) if nm else "")
        elif g[0] == "text":
            u.prove("%s: the text written" % last, pc, T.eq(S(g[1]), e[1]), x) if S(g[1]) is not e[1] else u.fact("%s: the text written" % last, True, "simplification")
        elif g[0] == "num":
            cg, ce = g[1][-1], e[1][-1]
            if (cg in "eEfgG") != (ce in "eEfgG"):
                raise Undecided("structure not recognised: %s: printed as %s instead of %s" % (last, g[1], e[1]))
            if ce in "eEfgG":
                pg, pe = [int((re.findall(r"\.(\d+)", z) or ["6"])[0]) for z in (g[1], e[1])]
                u.fact("%s: printed with %d digits" % (last, pe), cg in "eE" and pg >= pe or cg not in "eE" and pg > pe + 1, "symbolic execution", note=g[1])
            elif re.sub(r"[hlzjt]", "", g[1]).replace("u", "d").replace("i", "d") != re.sub(r"[hlzjt]", "", e[1]).replace("u", "d"):
                raise Undecided("structure not recognised: %s: printed as %s instead of %s" % (last, g[1], e[1]))
            u.prove("%s: the value written" % last, pc, T.eq(S(g[2]), e[2]), x)
        elif g[0] == "for":
            u.prove("%s: the loop starts with the first" % last, pc, T.eq(S(g[2]), e[2]), x)
            u.prove("%s: the loop goes to the last" % last, pc, T.eq(S(g[3]), e[3]), x)
            compare(u, x, last, g[4], e[4], pc + [T.le(e[2], e[1]), T.lt(e[1], e[3])], dict(sub, **{}) | {g[1]: e[1]})
        elif g[0] == "if":
            c = S(g[1])
            u.prove("%s: written when it should be" % last, pc, T.land(T.implies(c, e[1]), T.implies(e[1], c)), x)
            compare(u, x, last, g[2], e[2], pc + [e[1]], sub)
            compare(u, x, last, g[3], e[3], pc + [T.lnot(e[1])], sub)
        elif g[0] == "file":
            u.fact("%s: the file is written anew" % last, g[1].startswith("w"), "symbolic execution", note=g[1])
            compare(u, x, what + ", name of the file", g[2], e[2], pc, sub)
            compare(u, x, what, g[3], e[3], pc, sub)


lit = lambda s: ("lit", s)
val = lambda f, t: ("num", f, t)
text = lambda t: ("text", t)


def loop(hi, body, lo=None):
    iv = T.fresh("k", "I")
    return ("for", iv, lo if lo is not None else num(0), hi, body(iv))


def when(c, a, b=()):
    return ("if", c, list(a), list(b))


def symargs(x, st, f):
    """unknown arguments: numbers, texts, lists, arrays, records"""
    from fvc.execu import marr_class
    out = {}
    for p in f["params"]:
        ty = x.tu.strip(p["t"])
        while ty["k"] == "ref":
            ty = x.tu.strip(ty["to"])
        n, s = p["n"], x.sort(ty)
        if isvec(x, p["t"]):
            a = MArr("list " + n)
            x.input_arrays["list " + n] = a
            v = Vec(a, T.var(n + ".size", "I"))
            st.assume(T.le(num(0), v.n))
            out[n] = obj(x, st, n, v)
        elif x.is_string(ty):
            out[n] = obj(x, st, n, T.var(n, "S"))
        elif s:
            v = T.var(n, s)
            if ty["k"] == "int" and not ty["sg"]:
                st.assume(T.le(num(0), v))
            out[n] = v
        elif ty["k"] == "rec" and marr_class(ty):
            m = marr_class(ty)
            a = MArr(n, m[1], m[2])
            x.input_arrays[n] = a
            out[n] = obj(x, st, n, a)
        else:
            out[n] = obj(x, st, n)
    return out


def vtu(ck, nd):
    def go(u):
        tu = ck.tu(TUF, INCS)
        f = tu.find(W + "write_vtu")
        x, st = PrintX(u, tu, "write_vtu"), State()
        A = symargs(x, st, f)
        need = "node_coords_host nodes_in_elem_host elem_scalar_fields elem_tensor_fields node_scalar_fields node_vector_fields elem_scalar_var_names elem_tensor_var_names node_scalar_var_names node_vector_var_names partname graphics_id num_nodes num_elems num_nodes_in_elem Pn_order num_dims solver_id".split()
        if list(A) != need:
            raise Undecided("the parameters of write_vtu have changed")
        st.assume(T.eq(A["num_dims"], num(nd)))
        st.assume(T.eq(A["Pn_order"], num(1)))
        st.assume(T.eq(A["num_nodes_in_elem"], num(2 ** nd)))
        A["num_dims"], A["Pn_order"], A["num_nodes_in_elem"] = num(nd), num(1), num(2 ** nd)
        st.assume(T.le(num(0), A["graphics_id"]))
        call_fn(x, f, [A[n] for n in need], st, this=obj(x, st, "self"))
        s0 = State()
        a = lambda n, *i: rd(x, s0, x.input_arrays[n], i, R)
        name = lambda n, k: x.aread(s0, x.input_arrays["list " + n], (k,), (), {"k": "rec", "q": "std::basic_string", "name": "std::basic_string", "s": "std::string"})
        V = lambda n: st.store[A[n].path].n
        nn, ne, G, S = A["num_nodes"], A["num_elems"], A["graphics_id"], A["solver_id"]
        F = "%.15e"
        nv, nsc, es, et = [V(z + "_var_names") for z in ("node_vector", "node_scalar", "elem_scalar", "elem_tensor")]
        row3 = lambda f: [lit(" "), val(F, f(0)), lit(" "), val(F, f(1)), lit(" "), val(F, f(2)), lit("\n")]
        da = '<DataArray type="Float64" Name="'
        exp = [("file", "w", [lit("vtk/data/Fierro.solver"), val("%d", S), lit("."), text(st.store[A["partname"].path]), lit("."), val("%05d", G), lit(".vtu")], [
            lit('<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="1.0" byte_order="LittleEndian"><UnstructuredGrid><Piece NumberOfPoints="'), val("%d", nn), lit('" NumberOfCells="'), val("%d", ne), lit('">'),
            lit('<Points><DataArray type="Float64" NumberOfComponents="3" format="ascii">'),
            loop(nn, lambda k: row3(lambda d: a("node_coords_host", k, d) if d < nd else T.real(0))),
            lit("</DataArray></Points>"),
            lit('<Cells><DataArray type="Int32" Name="connectivity" format="ascii">'),
            loop(ne, lambda k: [lit(" ")] + [z for l in range(2 ** nd) for z in (val("%d", rd(x, s0, x.input_arrays["nodes_in_elem_host"], (k, l), INT)), lit(" "))] + [lit("\n")]),
            lit('</DataArray><DataArray type="Int32" Name="offsets" format="ascii">'),
            loop(ne, lambda k: [lit(" "), val("%d", T.mul(num(2 ** nd), T.add(k, num(1)))), lit("\n")]),
            lit('</DataArray><DataArray type="Int8" Name="types" format="ascii">'),
            loop(ne, lambda k: [lit(" "), val("%d", num(11 if nd == 3 else 9)), lit("\n")]),
            lit("</DataArray></Cells>"),
            when(T.lor(T.lt(num(0), nv), T.lt(num(0), nsc)), [
                lit("<PointData>"),
                loop(nv, lambda q: [lit(da), text(name("node_vector_var_names", q)), lit('" NumberOfComponents="3" format="ascii">'), loop(nn, lambda k: row3(lambda d: a("node_vector_fields", q, k, d))), lit("</DataArray>")]),
                loop(nsc, lambda q: [lit(da), text(name("node_scalar_var_names", q)), lit('" format="ascii">'), loop(nn, lambda k: [lit(" "), val(F, a("node_scalar_fields", q, k)), lit("\n")]), lit("</DataArray>")]),
                lit("</PointData>")]),
            when(T.lor(T.lt(num(0), es), T.lt(num(0), et)), [
                lit("<CellData>"),
                loop(es, lambda q: [lit(da), text(name("elem_scalar_var_names", q)), lit('" format="ascii">'), loop(ne, lambda k: [lit(" "), val(F, a("elem_scalar_fields", q, k)), lit("\n")]), lit("</DataArray>")]),
                loop(et, lambda q: [lit(da), text(name("elem_tensor_var_names", q)), lit('" NumberOfComponents="9" format="ascii">'), loop(ne, lambda k: [z for i in range(3) for j in range(3) for z in (lit(" "), val(F, a("elem_tensor_fields", q, k, i, j)), lit(" "))]), lit("</DataArray>")]),
                lit("</CellData>")]),
            lit("</Piece></UnstructuredGrid></VTKFile>")])]
        compare(u, x, "mesh file", items(st.store[TRK]), norm(exp), st.pc)
        u.fact("every file is closed", not [k for k in st.store if k[0] == "TR" and k != TRK], "symbolic execution")
        u.reachable("the writer returns", st.pc)
    return go



def need(A, names, fn):
    if list(A) != names.split():
        raise Undecided("the parameters of %s have changed" % fn)


def pvd(ck):
    def go(u):
        tu = ck.tu(TUF, INCS)
        f = tu.find(W + "write_pvd")
        x, st = PrintX(u, tu, "write_pvd"), State()
        A = symargs(x, st, f)
        need(A, "graphics_times time_value graphics_id solver_id", "write_pvd")
        st.store[TRK] = EMPTY
        call_fn(x, f, [A[p["n"]] for p in f["params"]], st, this=obj(x, st, "self"))
        t = lambda k: rd(x, State(), x.input_arrays["graphics_times"], (k,), R)
        S = A["solver_id"]
        exp = [("file", "w", [lit("vtk/Fierro.solver"), val("%d", S), lit(".pvd")], [
            lit('<?xml version="1.0"?><VTKFile type="Collection" version="1.0" byte_order="LittleEndian"><Collection>'),
            loop(T.add(A["graphics_id"], num(1)), lambda k: [lit('<DataSet timestep="'), val("%12.5e", t(k)), lit('" file="data/Fierro.solver'), val("%d", S), lit("."), val("%05d", k), lit('.vtm" time= "'), val("%12.5e", t(k)), lit('" />')]),
            lit("</Collection></VTKFile>")])]
        compare(u, x, "collection", items(st.store[TRK]), norm(exp), st.pc)
        u.fact("every file is closed", not [k for k in st.store if k[0] == "TR" and k != TRK], "symbolic execution")
        u.reachable("the writer returns", st.pc)
    return go


def vtm(ck):
    def go(u):
        tu = ck.tu(TUF, INCS)
        f = tu.find(W + "write_vtm")
        x, st = PrintX(u, tu, "write_vtm"), State()
        A = symargs(x, st, f)
        need(A, "graphics_times elem_part_name mat_part_name time_value graphics_id mat_files_written write_mesh_state write_mat_pt_state solver_id", "write_vtm")
        st.store[TRK] = EMPTY
        call_fn(x, f, [A[p["n"]] for p in f["params"]], st, this=obj(x, st, "self"))
        t = lambda k: rd(x, State(), x.input_arrays["graphics_times"], (k,), R)
        mats = st.store[A["mat_files_written"].path]
        mat = lambda k: x.aread(State(), x.input_arrays["list mat_files_written"], (k,), (), INT)
        S, M, P = A["solver_id"], A["write_mesh_state"], A["write_mat_pt_state"]
        name = lambda k: text(st.store[A[k].path])
        exp = [loop(T.add(A["graphics_id"], num(1)), lambda g: [("file", "w", [lit("vtk/data/Fierro.solver"), val("%d", S), lit("."), val("%05d", g), lit(".vtm")], [
            lit('<?xml version="1.0"?><VTKFile type="vtkMultiBlockDataSet" version="1.0" byte_order="LittleEndian" header_type="UInt64"><vtkMultiBlockDataSet>'),
            when(M, [lit('<Block index="'), val("%d", num(0)), lit('" name="Mesh"><Piece index="0" name="Field"><DataSet timestep="'), val("%d", g), lit('" file="Fierro.solver'), val("%d", S), lit("."), name("elem_part_name"), lit("."), val("%05d", g), lit('.vtu" time= "'), val("%12.5e", t(g)), lit('" /></Piece></Block>')]),
            when(P, [lit('<Block index="'), val("%d", T.ite(M, num(1), num(0))), lit('" name="Mat">'),
                     loop(mats.n, lambda k: [lit('<Piece index="'), val("%d", k), lit('" name="Mat'), val("%d", mat(k)), lit('"><DataSet timestep="'), val("%d", g), lit('" file="Fierro.solver'), val("%d", S), lit("."), name("mat_part_name"), val("%d", mat(k)), lit("."), val("%05d", g), lit('.vtu" time= "'), val("%12.5e", t(g)), lit('" /></Piece>')]),
                     lit("</Block>")]),
            lit("</vtkMultiBlockDataSet></VTKFile>")])])]
        compare(u, x, "list of files", items(st.store[TRK]), norm(exp), st.pc)
        u.fact("every file is closed", not [k for k in st.store if k[0] == "TR" and k != TRK], "symbolic execution")
        u.reachable("the writer returns", st.pc)
    return go


def dump(ck, nd):
    def go(u):
        tu = ck.tu(TUF, INCS)
        f = tu.find(W + "write_material_point_state")
        x, st = PrintX(u, tu, "write_material_point_state"), State()
        x.binds["mesh.num_dims"] = nd
        x.binds["mesh.num_nodes_in_elem"] = 2 ** nd
        A = symargs(x, st, f)
        if [p for p in ("mesh", "State", "time_value") if p not in A]:
            raise Undecided("the parameters have changed")
        st.store[TRK] = EMPTY
        call_fn(x, f, [A[p["n"]] for p in f["params"]], st, this=obj(x, st, "self"))
        s0 = State()

        def a(n, *i, ty=R):
            q = x.input_arrays.get(n)
            return rd(x, s0, q, i, ty) if q is not None else T.uf("unread " + n, tuple(T.lift(z) for z in i), x.sort(ty))
        nn = x.read(st, PathLV(A["mesh"].path + ("num_nodes",)), INT)
        nmats = T.var("State.MaterialPoints.num_material_points.size()", "I")
        E = "%4.12e"
        line = lambda vs: [z for k, v in enumerate(vs) for z in (([lit(" ")] if k else []) + [val(E, v)])] + [lit("\n")]
        norm2 = lambda *v: T.sqrt(T.tsum([q * q for q in v]))

        def mat(m, s):
            e = a("State.MaterialToMeshMaps.elem_in_mat_elem", m, s, ty=INT)
            c = [T.div(T.tsum([a("State.node.coords", a("mesh.nodes_in_elem", e, l, ty=INT), d) for l in range(2 ** nd)]), T.real(2 ** nd)) if d < nd else T.real(0) for d in range(3)]
            return line(c + [norm2(*c[:2]), norm2(*c)] + [a("State.MaterialPoints." + q, m, s) for q in ("den", "pres", "sie", "sspd")] + [a("State.GaussPoints.vol", e), a("State.MaterialPoints.mass", m, s)])

        def node(n):
            c, v = [[a("State.node." + q, n, d) if d < nd else T.real(0) for d in range(3)] for q in ("coords", "vel")]
            r2 = norm2(*c[:2])
            w = [T.div(z, r2) for z in c[:2]]
            dot = v[0] * w[0] + v[1] * w[1]
            return line(c + [r2, norm2(*c)] + v + [norm2(*v), norm2(*[v[d] - w[d] * dot for d in range(2)])])
        t = A["time_value"]
        exp = [("file", "w", [lit("state/mat_pt_state_t_"), val("%6.4e", t), lit(".txt")], [lit("# state dump file\n# x  y  z  radius_2D  radius_3D  den  pres  sie  sspd  vol  mass \n"),
                loop(nmats, lambda m: [loop(a("State.MaterialToMeshMaps.num_mat_elems", m, ty=INT), lambda s: mat(m, s))])]),
               ("file", "w", [lit("state/node_state_t_"), val("%6.4e", t), lit(".txt")], [lit("# state node dump file\n# x  y  z  radius_2D  radius_3D  vel_x  vel_y  vel_z  speed  ||err_v_dot_r|| \n"), loop(nn, node)])]
        compare(u, x, "state file", items(st.store[TRK]), norm(exp), st.pc)
        u.fact("every file is closed", not [k for k in st.store if k[0] == "TR" and k != TRK], "symbolic execution")
        u.reachable("the writer returns", st.pc)
    return go


class Gather(Inv):
    """the serial loop over the nodes that collects the nodes of the material"""
    fallback = True

    def __init__(self, owner):
        Inv.__init__(self, None)
        self.o = owner
        self.inv = owner.inv

    def run(self, x, s, st, env, cond, inc, body, post):
        o = self.o
        if post or cond is None or inc is None or o.tags is None:
            raise Undecided("loop at line %s" % s["ln"])
        p = st.copy()
        b0 = dict(p.store)
        x.ev(inc, p, dict(env))
        ctr = [k for k, v in p.store.items() if b0.get(k) is not v]
        if len(ctr) != 1 or offset_const(p.store[ctr[0]], st.store[ctr[0]], x) != 1:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        ch = self.changed(x, st, env, cond, inc, body, post)
        ints = [k for k in ch if k[0] != "A" and k != ctr[0] and isinstance(st.store.get(k), Term) and st.store[k].sort == "I"]
        arrs = [k for k in ch if k[0] == "A" and k != o.tags[1] and (st.store.get(k) or self.templ[k]).sort == "I"]
        if len(ints) != 1 or len(arrs) != 1:
            raise Undecided("the loop at line %s does not number the nodes" % s["ln"])
        o.ctr, o.cnt, o.numbers, o.calls = ctr[0], ints[0], arrs[0], 0
        x.loops.pop("*")
        try:
            return Inv.run(self, x, s, st, env, cond, inc, body, post)
        finally:
            o.done = True


class Parts:
    """build_material_elem_node_lists: the nodes of the material, each once in the order of
    the mesh, and the corners of its elements under their new numbers"""
    tags = None
    done = False

    def __init__(self, ck, nd):
        self.ck, self.nd = ck, nd

    def __call__(self, u):
        self.u = u
        tu = self.ck.tu(TUF, INCS)
        nd, nc = self.nd, 2 ** self.nd
        f = tu.find(W + "build_material_elem_node_lists")
        self.x = x = PartsX(u, tu, {}, "build_material_elem_node_lists")
        st = State()
        self.A = A = symargs(x, st, f)
        need(A, "mesh state_node_coords mat_node_coords mat_nodes_in_mat_elem elem_in_mat_elem mat_id num_mat_nodes num_mat_elems num_nodes_in_elem num_dims", "build_material_elem_node_lists")
        A["num_nodes_in_elem"], A["num_dims"] = num(nc), num(nd)
        A["num_mat_nodes"] = count = obj(x, st, "num_mat_nodes", T.var("points before", "I"))
        self.s0 = s0 = State()
        self.ia = x.input_arrays
        m = A["mat_id"]
        self.nn = nn = x.read(st, PathLV(A["mesh"].path + ("num_nodes",)), INT)
        st.assume(T.le(num(0), nn))
        self.corner = lambda s, l: x.aread(s0, self.meshnodes(), (x.aread(s0, self.ia["elem_in_mat_elem"], (m, s), (), INT), num(l)), (), INT)
        self.on = lambda g: T.uf("on the material", (g,), "B")
        self.num = lambda g: T.uf("nodes of the material before", (g,), "I")
        self.g = g = T.var("a node", "I")
        self.regs = []
        x.loops["*"] = Gather(self)
        x.region_hook = self.region
        call_fn(x, f, [A[p["n"]] for p in f["params"]], st, this=obj(x, st, "self"))
        if len(self.regs) != 2 or not self.done:
            raise Undecided("the function has %d parallel loops" % len(self.regs))
        self.numbered(self.regs[1])
        inside = [T.le(num(0), g), T.lt(g, nn), self.on(g)]
        u.prove("the number of points is the number of nodes of the material", st.pc, T.eq(st.store[count.path], self.num(nn)), x)
        for d in range(nd):
            u.prove("coordinate %d of every node of the material is kept under its number" % d, st.pc + inside, T.eq(x.aread(st, self.ia["mat_node_coords"], (self.num(g), num(d)), (), R), x.aread(s0, self.ia["state_node_coords"], (g, num(d)), (), R)), x)
        u.obligations(x)
        u.reachable("the function returns", st.pc)
        u.reachable("with a node of the material", st.pc + inside)

    def meshnodes(self):
        a = self.ia.get("mesh.nodes_in_elem")
        if a is None:
            raise Undecided("the corners of the elements are not read")
        return a

    def region(self, x, reg, st):
        self.regs.append(reg)
        u, nc, g = self.u, 2 ** self.nd, self.g
        if reg["after"] is None:
            raise Undecided("a parallel loop that does not return")
        if len(self.regs) > 1:
            return False
        w = x.new_writes(reg)
        ks = {k for k, _, _ in w}
        if len(ks) != 1:
            raise Undecided("the first loop does not tag the nodes")
        k = ks.pop()
        arr = [a for a in x.marrs if a.id == k[1]]
        if len(arr) != 1:
            raise Undecided("tags of unknown origin")
        arr = arr[0]
        iv = reg["ivs"][0]
        rd_ = lambda s, i: x.aread(s, arr, (i,), (), INT)
        C = [self.corner(iv, l) for l in range(nc)]
        pc = reg["after"].pc
        now, was = rd_(reg["after"], g), rd_(reg["before"], g)
        u.prove("tagging: every element of the material", reg["before"].pc, T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], self.A["num_mat_elems"])), x)
        for l in range(nc):
            u.prove("tagging: the tag of corner %d goes up" % l, pc + [T.eq(g, C[l])], T.lt(was, now), x)
        u.prove("tagging: other tags stay", pc + [T.lnot(T.eq(g, c)) for c in C], T.eq(now, was), x)
        u.prove("tagging: tags start at zero", reg["before"].pc, T.eq(was, num(0)), x)
        x.havoc_key(st, k, reg["after"].store[k])
        after = st.copy()
        self.tag0 = lambda i: rd_(after, i)
        self.tags = (arr, k)
        return True

    def inv(self, x, st, env):
        self.calls += 1
        g, nn, on, cnt = self.g, self.nn, self.on, self.num
        k, n = st.store[self.ctr], st.store[self.cnt]
        tag = lambda i: x.aread(st, self.tags[0], (i,), (), INT)
        acc = [a for a in x.marrs if a.id == self.numbers[1]][0]
        co = self.ia["mat_node_coords"]
        # what tagging left, for this node and the one that is passed; the count
        for i in (k, g):
            st.pc.append(T.land(T.implies(on(i), T.lt(num(0), self.tag0(i))), T.implies(T.lnot(on(i)), T.eq(self.tag0(i), num(0)))))
        st.pc.append(T.eq(cnt(num(0)), num(0)))
        st.pc.append(T.eq(cnt(T.add(k, num(1))), T.add(cnt(k), T.ite(on(k), num(1), num(0)))))
        ahead = lambda i: T.implies(T.land(T.le(k, i), T.lt(i, nn)), T.eq(tag(i), self.tag0(i)))
        if self.calls == 2:      # the invariant holds for every node: the one that is passed
            st.pc.append(ahead(k))
        passed = T.land(T.le(num(0), g), T.lt(g, k), on(g))
        out = [("nodes are counted from the first", T.le(num(0), k)), ("to the last", T.le(k, nn)),
               ("the number of points is the number of nodes of the material passed", T.land(T.eq(n, cnt(k)), T.le(num(0), n))),
               ("nodes ahead keep their tag", ahead(g)),
               ("nodes of the material have different numbers", T.implies(passed, T.lt(cnt(g), cnt(k)))),
               ("a node of the material has the number of nodes of the material before it", T.implies(passed, T.eq(x.aread(st, acc, (g,), (), INT), cnt(g))))]
        for d in range(self.nd):
            src = x.aread(self.s0, self.ia["state_node_coords"], (g, num(d)), (), R)
            out.append(("coordinate %d of a node is kept under its number" % d, T.implies(passed, T.eq(x.aread(st, co, (cnt(g), num(d)), (), R), src))))
        return out

    def numbered(self, reg):
        u, x, nc, g = self.u, self.x, 2 ** self.nd, self.g
        iv, pc = reg["ivs"][0], reg["after"].pc
        dst = self.ia["mat_nodes_in_mat_elem"]
        u.prove("numbering: every element of the material", reg["before"].pc, T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], self.A["num_mat_elems"])), x)
        u.fact("numbering: nothing else is written", {k[1] for k, _, _ in x.new_writes(reg)} <= {dst.id}, "symbolic execution")
        s, l0 = T.var("another element", "I"), T.var("a corner", "I")
        u.prove("numbering: other elements keep their corners", pc + [T.lnot(T.eq(s, iv))], T.eq(x.aread(reg["after"], dst, (s, l0), (), INT), x.aread(reg["before"], dst, (s, l0), (), INT)), x)
        for l in range(nc):
            u.prove("numbering: corner %d is the number of its node" % l, pc + [T.eq(g, self.corner(iv, l)), T.le(num(0), g), T.lt(g, self.nn), self.on(g)], T.eq(x.aread(reg["after"], dst, (iv, num(l)), (), INT), self.num(g)), x)


class PartsX(VizX):
    def __init__(self, *a):
        VizX.__init__(self, *a)
        self.marrs = []

    def aread(self, st, arr, *a, **k):
        if arr not in self.marrs:
            self.marrs.append(arr)
        return VizX.aread(self, st, arr, *a, **k)

    def awrite(self, st, arr, *a, **k):
        if arr not in self.marrs:
            self.marrs.append(arr)
        return VizX.awrite(self, st, arr, *a, **k)


def run(ck):
    table = {}

    def concat(kind):
        def go(u):
            tu = ck.tu(TUF, INCS)
            for f in ENUMS[FN[kind][1]]:
                one_output(u, ck, tu, kind, f, table)
            rows = {}
            for (k, nm), v in table.items():
                if k == kind:
                    rows.setdefault(v[0], []).append(nm)
            for r, ns in rows.items():
                u.fact("%s: fields %s are told apart" % (kind, ns), len(ns) == 1, "symbolic execution")
            u.reachable("the writer runs", [TRUE])
        return go
    for k in FN:
        ck.unit("values: " + k, concat(k))
    for nd in (2, 3):
        ck.unit("mesh file %dD" % nd, vtu(ck, nd))
    for nd in (2, 3):
        ck.unit("part of a material %dD" % nd, Parts(ck, nd))
    ck.unit("collection", pvd(ck))
    ck.unit("list of files", vtm(ck))
    for nd in (2, 3):
        ck.unit("state file %dD" % nd, dump(ck, nd))
    for fmt in ("viz", "viz_and_state", "state", "ensight"):
        ck.unit("output %s" % fmt, write_mesh(ck, fmt))
    exe = ck.compile("viz", [HARN + "/viz.cpp", D + "common/src/geometry_new.cpp"], INCS, flags=("-O1", "-g", "-fsanitize=address"), libs=["-Wl,--unresolved-symbols=ignore-all", "-no-pie"])
    ck.run_harness("files written by the real writer, read back", exe, [ck.seed, 600 if ck.tier == "quick" else 30000], bound="random small meshes with up to 3 materials, random choices of outputs, up to 3 output times")
