"""C30 iterations of a data-parallel loop do not interfere"""
import re
from props.multi import *
from fvc.foot import *
from fvc.loops import Acc
from fvc.prove import z3_check
from fvc.execu import marr_class

GROUPS = [("common", ["common", "material_models/equilibration"]), ("3D hydrodynamics", ["Solvers/SGH_solver_3D"]), ("RZ hydrodynamics", ["Solvers/SGH_solver_rz"]),
          ("heat conduction", ["Solvers/SGTM_solver_3D"]), ("level set", ["Solvers/level_set_solver"]), ("quasi-static", ["Solvers/TLQS_solver_3D"]), ("input", ["input"])]

# one-to-one maps of the mesh and of the material tables; the columns listed
# determine the rest: (columns that must agree, columns then determined)
ONE2ONE = [
    (r"(^|\.)(elem_in_mat_elem|elem_mat_elem|MaterialToMeshMaps_elem|MaterialToMeshMaps\.elem(_in_mat_elem)?)$", (0,), (1,), "the elements of one material are listed once"),
    (r"(^|\.)corners_in_elem$", (), (0, 1), "the corners of the elements are numbered without repetition"),
    (r"(^|\.)corners_in_node$", (), (0, 1), "a corner belongs to one node"),
    (r"(^|\.)gauss_in_elem$", (), (0, 1), "the quadrature points of the elements are numbered without repetition"),
    (r"(^|\.)bdy_nodes$", (), (0,), "the boundary nodes are listed once"),
    (r"(^|\.)bdy_patches$", (), (0,), "the boundary patches are listed once"),
    (r"(^|\.)bdy_nodes_in_set$", (0,), (1,), "the nodes of one boundary set are listed once"),
    (r"(^|\.)bdy_patches_in_set$", (0,), (1,), "the patches of one boundary set are listed once"),
    (r"(^|\.)active_set$", (), (0,), "the active contact pairs are listed once"),
]

rz = lambda g: {"RZ hydrodynamics": 4, "3D hydrodynamics": 8, "heat conduction": 8, "level set": 8}.get(g)
LAYOUT = [
    (r"corners_in_mat_elem\.num_corners_in_elem_$", rz, "the corner table has one slot per node of the element (8 in 3D, 4 in RZ)"),
    (r"(points|gauss)_in_mat_elem\.num_\w+_in_elem_$", 1, "one material point per element"),
    (r"(^|\.)num_gauss_in_elem$", 1, "one quadrature point per element"),
    (r"(^|\.)num_nodes_in_elem$", rz, "8 nodes per element in 3D, 4 in RZ"),
]

# what a model may touch: parameter -> (mode, parameters giving the leading
# indices); a mode of "r" with no indices is any element
MODELS = {
    "calc_pressure": (9, {0: ("w", (3, 2)), 1: ("r", (3, 2)), 4: ("w", (3, 2)), 5: ("w", (3, 2)), 8: ("r", ())}),
    "calc_sound_speed": (10, {0: ("w", (3, 2)), 1: ("r", (3, 2)), 4: ("w", (3, 2)), 5: ("w", (3, 2)), 8: ("w", (3, 2)), 9: ("r", ())}),
    "calc_stress": (25, {0: ("r", ()), 1: ("r", ()), 2: ("r", ()), 3: ("r", ()), 4: ("w", (22, 21)), 5: ("w", (22, 21)), 6: ("r", ()), 7: ("w", (22, 21)), 8: ("w", (22, 21)), 9: ("w", (22, 21)),
                         12: ("w", (22, 21)), 13: ("r", ()), 14: ("r", ()), 15: ("r", ())}),
    "erode": (10, {0: ("w", (9, 8)), 1: ("w", (9, 8))}),
    "calc_dissipation": (17, {0: ("r", ()), 1: ("r", ()), 2: ("r", ()), 3: ("r", ()), 4: ("r", ()), 5: ("r", ()), 6: ("r", ()), 7: ("w", ()), 8: ("r", ()), 9: ("r", ()), 10: ("r", ())}),
    "velocity": (9, {0: ("r", ()), 1: ("r", ()), 2: ("r", ()), 3: ("w", (8, 7)), 4: ("w", (7,))}),
    "temperature": (9, {0: ("r", ()), 1: ("r", ()), 2: ("r", ()), 3: ("w", (8, 7)), 4: ("w", (7,))}),
    "heat_flux": (9, {0: ("r", ()), 1: ("r", ()), 2: ("r", ()), 3: ("w", (8, 7)), 4: ("w", (7,))}),
    "stress": (10, {0: ("r", ()), 1: ("r", ()), 2: ("r", ()), 3: ("w", (9, 8)), 4: ("w", ()), 5: ("r", ())}),
    "get_density_from_temperature": (2, {0: ("r", ())}),
    "get_thermal_conductivity_from_temperature": (2, {0: ("r", ())}),
    "get_specific_heat_from_temperature": (2, {0: ("r", ())}),
}


def sources(dirs):
    out = []
    for d in dirs:
        root = os.path.join(REPO, D, d)
        cm = os.path.join(root, "CMakeLists.txt")
        names = re.findall(r"([\w/]+\.cpp)", open(cm, errors="replace").read()) if os.path.exists(cm) else []
        for n in names:
            p = os.path.normpath(os.path.join(root, n.lstrip("/")))
            if os.path.exists(p) and p not in out:
                out.append(p)
    return out


def model_contract(name):
    n, spec = MODELS[name]

    def c(x, st, this, args, env, e):
        if len(args) != n:
            raise Undecided("model %s is called with %d arguments, its contract has %d" % (name, len(args), n))
        val = {}

        def v(k):
            if k not in val:
                val[k] = argv(x, st, args, env, k)
            return val[k]
        for k, a in enumerate(args):
            t = x.tu.strip(a["t"])
            if x.sort(t):
                v(k)
                continue
            if k not in spec:
                continue
            mode, lead = spec[k]
            if t["k"] == "rec" and not marr_class(t):
                continue        # the mesh and the other tables are only read by the model
            arr = v(k)
            if isinstance(arr, IteV):
                raise Undecided("conditional array given to a model")
            if isinstance(arr, Opaque):
                raise Undecided("unknown array given to a model")
            ix = tuple(v(q) for q in lead)
            if isinstance(arr, MArr):
                x.note_access(mode, arr, (), ix, st)
                x.rec and setattr(x.rec[-1], "prefix", True)
                if mode == "w":
                    x.note_access("r", arr, (), ix, st)
                    x.rec and setattr(x.rec[-1], "prefix", True)
            elif isinstance(arr, ViewV):
                p = arr.ptr
                lv = p.lv if isinstance(p, Ptr) else None
                if isinstance(lv, ElemLV):
                    x.note_access(mode, lv.arr, lv.sub, lv.idx[:-1], st)
                    x.rec and setattr(x.rec[-1], "prefix", True)
                elif isinstance(lv, PathLV):
                    if mode == "w":
                        x.write(st, PathLV(lv.path[:-1] + (T.fresh("q", "I"),)), R, T.fresh("v", "R"))
                else:
                    raise Undecided("unknown view given to a model")
        ty = x.tu.types[e["t"]]
        return T.fresh("m", "R") if x.sort(ty) else Opaque("void")
    return c


def executor(tu, f):
    x = Foot(tu, f)
    for k in MODELS:
        x.contracts["->" + k] = model_contract(k)
    return x


# tables whose content is known well enough to believe a refutation that uses them
KNOWN = re.compile(r"(^|\.)(nodes_in_elem|nodes_in_patch|elems_in_node|corners_in_node|nodes_in_node|elems_in_elem|corners_in_elem|patches_in_elem|elems_in_patch|bdy_patches|bdy_nodes|bdy_patches_in_set|bdy_nodes_in_set|num_\w+)$")


def uses_unknown(ts, counters=None):
    """does an index depend on a value the footprint does not know"""
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "var" and re.match(r"(u|v|q|m|undef|at|p)!", t.val):
            return True
        if t.op == "uf" and "'" in t.val:
            return True
        if counters is not None:
            if t.op == "var" and t.val.startswith("h!") and t.val.rstrip("~") not in counters:
                return True
            if t.op == "uf" and not KNOWN.search(t.val.rstrip("~")) and not any(re.search(r[0], t.val.rstrip("~")) for r in ONE2ONE):
                return True
        todo.extend(t.args)
    return False


def ufs(ts):
    seen, out, todo = set(), [], list(ts)
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "uf":
            out.append(t)
        todo.extend(t.args)
    return out


def products(ts, ivs):
    out = {}
    for t in ufs(ts) or []:
        pass
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "mul":
            fs = list(t.args)
            for iv in ivs:
                if any(q is iv for q in fs):
                    rest = [q for q in fs if q is not iv]
                    if len(rest) == len(fs) - 1 and not any(z in ivs for z in T.free_vars(rest)):
                        r = T.num(1)
                        for q in rest:
                            r = T.mul(r, q)
                        out.setdefault(r.id, r)
        todo.extend(t.args)
    return list(out.values())


def layout(x, g, terms):
    """facts about the sizes the mesh and the material tables are set up with"""
    out = []
    for v in T.free_vars(terms):
        n = v.val.split("~")[0] if isinstance(v.val, str) else ""
        for rx, val, why in LAYOUT:
            if v.sort == "I" and re.search(rx, n):
                val = val(g) if callable(val) else val
                if val is not None:
                    x.assumptions.add("sizes: " + why)
                    out.append(T.eq(v, num(val)))
    return out


def light(pc):
    """hypotheses without conditions on loop-carried unknown reals"""
    return [c for c in pc if not uses_unknown([c])]


def interference(u, x, g, label, ivs, guard, foot, ln):
    mark = x.mark
    memo = {}
    ren = lambda t: rename(t, mark, memo)
    jv = [ren(v) for v in ivs]
    diff = T.lor(*[T.lnot(T.eq(a, b)) for a, b in zip(ivs, jv)])
    groups = {}
    for a in foot:
        groups.setdefault(a.key(), []).append(a)
    n = 0
    for key, acc in groups.items():
        ws = [a for a in acc if a.rw[0] in "wa"]
        if not ws:
            continue
        n += 1
        name = "%s: %s of two iterations" % (label, acc[0].name())
        # a constant written by everybody and read by nobody does not depend on the order
        if all(a.rw[0] == "w" for a in acc) and len({a.val for a in acc}) == 1 and acc[0].val is not None:
            u.fact(name + " is the same constant", True, "simplification")
            continue
        if len(ws) == len(acc) and len({a.rw for a in acc}) == 1 and acc[0].atomic:
            u.fact(name + " is only added to atomically", True, "simplification")
            continue
        seen = set()
        bad, unk, backend, t0 = None, None, "simplification", time.time()
        for w in ws:
            if bad or unk:
                break
            for a in acc:
                if w.atomic and a.atomic and w.rw == a.rw:
                    continue
                sig = (tuple(t.id for t in w.idx), tuple(t.id for t in a.idx), tuple(sorted(c.id for c in w.pc)), tuple(sorted(c.id for c in a.pc)))
                if sig in seen:
                    continue
                seen.add(sig)
                if len(w.idx) != len(a.idx) and not (w.prefix or a.prefix):
                    unk = "%s is used with different numbers of indices (lines %s and %s)" % (acc[0].name(), w.ln, a.ln)
                    break
                pairs = list(zip(w.idx, a.idx))
                if ivs and all(any(p is v and q is v for p, q in pairs) for v in ivs):
                    continue
                ix = [(p, ren(q)) for p, q in pairs]
                if any(T.eq(p, q) is FALSE for p, q in ix):
                    continue
                hyps = light(list(w.pc)) + [ren(c) for c in light(list(a.pc))] + list(x.axioms) + [ren(c) for c in x.axioms] + [diff]
                goal = T.lnot(T.land(*[T.eq(p, q) for p, q in ix]))
                if goal is TRUE:
                    continue
                terms = hyps + [goal]
                hyps += facts(x, terms) + layout(x, g, terms)
                for rest in products(terms, ivs):
                    i, j = ivs[0], jv[0]
                    for v, z in zip(ivs, jv):
                        hyps.append(T.lor(T.le(z, v), T.lt(rest, num(0)), T.le(T.add(T.mul(v, rest), rest), T.mul(z, rest))))
                        hyps.append(T.lor(T.le(v, z), T.lt(rest, num(0)), T.le(T.add(T.mul(z, rest), rest), T.mul(v, rest))))
                backend = "z3"
                r, m = z3_check(hyps, goal, 8.0)
                if r == "proved":
                    continue
                what = "line %s writes %s(%s), another iteration %s (%s) in line %s" % (w.ln, w.name(), ", ".join(T.show(t, 4) for t in w.idx), "reads" if a.rw == "r" else "writes", ", ".join(T.show(t, 4) for t in a.idx), a.ln)
                if r == "refuted" and not uses_unknown([p for p, q in ix] + [q for p, q in ix], {c.val for c in x.counters}):
                    bad = what
                else:
                    unk = what
                break
        if bad:
            u.obs.append(Ob(u.name, name + " do not overlap", "refuted", "z3", time.time() - t0, ln, None, bad))
        elif unk:
            u.undecided(name + " do not overlap", unk)
        else:
            u.obs.append(Ob(u.name, name + " do not overlap", "proved", backend, time.time() - t0, ln, None, ""))
    if not n:
        u.fact(label + ": nothing shared is written", True, "simplification")


def facts(x, terms):
    """instances of the one-to-one maps"""
    out = []
    us = {}
    for t in ufs(terms):
        us.setdefault(re.sub(r"~$", "", t.val), []).append(t)
    for nm, ts in us.items():
        for rx, same, det, why in ONE2ONE:
            if not re.search(rx, nm.split("'")[0]):
                continue
            if len(ts) > 60:
                break
            x.assumptions.add("one-to-one: " + why)
            for p in range(len(ts)):
                for q in range(p):
                    a, b = ts[p].args, ts[q].args
                    if len(a) != len(b) or len(a) <= max(same + det):
                        continue
                    out.append(T.lor(T.lnot(T.eq(ts[p], ts[q])), T.lor(*[T.lnot(T.eq(a[k], b[k])) for k in same]) if same else FALSE, T.land(*[T.eq(a[k], b[k]) for k in det])))
    for t in ufs(terms):
        if re.search(r"(^|\.)(num_\w+|nodes_in_\w+|corners_in_\w+|elem\w*|bdy_\w+)$", t.val.split("~")[0]) and t.sort == "I":
            out.append(T.le(num(0), t))
    return out


def generalise(t, a0, memo):
    """terms that do not involve a0 become unknowns"""
    r = memo.get(t.id)
    if r is None:
        if a0 not in T.free_vars([t]):
            r = t if T.isnum(t) or t.op in ("var", "true", "false") else T.fresh("g", t.sort)
        elif not t.args:
            r = t
        else:
            r = T.rebuild(t, tuple(generalise(a, a0, memo) for a in t.args))
        memo[t.id] = r
    return r


def reduction(u, x, tu, f, node, label):
    """the reducer is combined in an order-independent way"""
    y = executor(tu, f)
    y.abstract = False
    y.loops = {"*": Acc()}
    y.contracts.update(x.contracts)
    ivs, guard, foot, st = y.run_site(node)
    acc, a0, kind = y.acc
    out = st.store.get(acc.path)
    if out is a0:
        u.fact(label + ": the reducer is not touched", True, "simplification")
        return
    if not isinstance(out, T.Term):
        raise Undecided("the reducer is not a scalar")
    if a0 not in T.free_vars([out]) and any(is_fresh(v, y.mark) and v.val.startswith("h!") and v.sort == a0.sort for v in T.free_vars([out])):
        raise Undecided("the reducer changes inside a serial loop")
    b0 = T.fresh("acc", a0.sort)
    memo = {}
    out = generalise(out, a0, memo)
    ob = T.subst(out, {a0: b0})
    hy = [generalise(h, a0, memo) for h in st.pc if a0 in T.free_vars([h])]
    hb = [T.subst(h, {a0: b0}) for h in hy]
    if kind == "sum":
        u.prove(label + ": a term is added that does not depend on the sum so far", hy + hb, T.eq(T.sub(out, a0), T.sub(ob, b0)), y)
    else:
        le = (lambda p, q: T.le(p, q)) if kind == "min" else (lambda p, q: T.le(q, p))
        u.prove(label + ": the result so far only %s" % ("decreases" if kind == "min" else "increases"), hy, le(out, a0), y)
        u.prove(label + ": the contribution of an iteration does not depend on the result so far", hy + hb + [le(a0, b0)], T.eq(out, T.tmin(a0, ob) if kind == "min" else T.tmax(a0, ob)), y)


def run(ck):
    done = set()
    tus = {}
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for g, dirs in GROUPS:
        fs = sources(dirs)
        geo = os.path.join(REPO, D, "common/src/geometry_new.cpp")
        if geo not in fs:
            fs = [geo] + fs
        w = os.path.join(ck.tmp, "unity_%s.cpp" % re.sub(r"\W", "", g))
        open(w, "w").write("".join('#include "%s"\n' % p for p in fs))
        jobs.append((g, w))

    def load(job):
        try:
            return ck.tu(job[1], INCS)
        except Undecided as ex:
            return ex
    with ThreadPoolExecutor(8) as ex:
        loaded = dict(zip([g for g, w in jobs], ex.map(load, jobs)))
    for g, dirs in GROUPS:
        if isinstance(loaded[g], Undecided):
            ck.unit(g, lambda u, ex=loaded[g]: (_ for _ in ()).throw(ex))
            continue
        tus[g] = loaded[g]
        tu = tus[g]
        mine = {}
        for f, k, n in sites(tu, lambda f: "/apps/multiphysics/" in (f.get("file") or "")):
            key = (f["file"], f["q"], n["ln"], k, f.get("targs") and str(f["targs"]))
            if key in done:
                continue
            done.add(key)
            mine.setdefault(f["q"], []).append((f, k, n))
        for q, lst in mine.items():
            def un(u, lst=lst, tu=tu, q=q, g=g):
                err = []
                for f, k, n in lst:
                    label = "loop %d%s" % (k + 1, "" if len(lst) < 2 else "")
                    try:
                        x = executor(tu, f)
                        ivs, guard, foot, st = x.run_site(n)
                        interference(u, x, g, label, ivs, guard, foot, n["ln"])
                        u.absorb(x)
                        if x.acc:
                            reduction(u, x, tu, f, n, label)
                    except (Undecided, Dead) as ex:
                        err.append("%s (line %s): %s" % (label, n["ln"], ex))
                if err:
                    raise Undecided("; ".join(err))
            ck.unit("%s: %s" % (g, q), un)

    def u_model(u, tu, f):
        n, spec = MODELS[f["n"]]
        if len(f["params"]) != n:
            raise Undecided("%s has %d parameters, the contract %d" % (f["q"], len(f["params"]), n))
        x = executor(tu, f)
        x.outer, x.limit, x.mark = set(), 0, T._fresh[0]
        st = State()
        args, d = mk_args(x, st, f, ["p%d" % k for k in range(n)])
        arrs = {}
        for k, a in enumerate(args):
            t = tu.strip(f["params"][k]["t"])
            m = marr_class(t) if t["k"] == "rec" else None
            if m and m[0] == "view":
                arr = MArr("p%d" % k)
                arrs[arr.id] = k
                dims = 2 if f["n"] == "calc_dissipation" and k in (7, 8) else 1
                args[k] = obj(x, st, "p%d" % k, arr)
            elif m:
                arrs[d["p%d" % k].id] = k
        x.limit = MArr._n
        x.rec = []
        call_fn(x, f, args, st)
        rec, x.rec = x.rec, None
        val = lambda k: d["p%d" % k]
        bad = None
        ok = set()
        for a in rec:
            if not isinstance(a.arr, MArr):
                if a.rw != "r":
                    raise Undecided("%s writes %s" % (f["q"], a.arr))
                continue
            k = arrs.get(a.arr.id)
            if k is None:
                if a.rw == "r":
                    continue
                raise Undecided("%s writes %s" % (f["q"], a.arr.name))
            mode, lead = spec.get(k, ("r", ()))
            if a.rw != "r" and mode != "w":
                bad = bad or "line %s changes parameter %d (%s), which the model may only read" % (a.ln, k, f["params"][k]["n"])
            for p, q in enumerate(lead):
                if p >= len(a.idx):
                    raise Undecided("%s: rank" % f["q"])
                e = T.eq(a.idx[p], T.lift(val(q)))
                if e is TRUE:
                    continue
                r, m = z3_check(light(list(a.pc)), e, 5.0)
                if r != "proved":
                    if r == "refuted" and not uses_unknown([a.idx[p]]):
                        bad = bad or "line %s touches %s(%s) instead of the entry of its own point" % (a.ln, f["params"][k]["n"], ", ".join(T.show(t, 4) for t in a.idx))
                    else:
                        raise Undecided("%s line %s" % (f["q"], a.ln))
        u.absorb(x)
        u.obs.append(Ob(u.name, "the model touches only the entries of the point it is called for", "refuted" if bad else "proved", "z3" if bad else "simplification", 0.0, f.get("ln"), None, bad or ""))

    tu = tus.get("input")
    if tu:
        seen, taken = set(), set()
        for f in tu.funcs.values():
            walk(f.get("body"), lambda n: taken.add(n["fn"]["q"]) if n.get("k") == "Fn" and n.get("fn") else None)
        for f in tu.funcs.values():
            if f["q"] in taken and "/host_" not in (f.get("file") or "") and f.get("body") and f["n"] in MODELS and re.search(r"/(material_models|boundary_conditions)/", f.get("file") or "") and f["q"] not in seen:
                seen.add(f["q"])
                ck.unit("model " + f["q"], lambda u, f=f: u_model(u, tu, f))
    ck.run_units()
    harness(ck)


def harness(ck):
    S3, SR = "Solvers/SGH_solver_3D/src/%s.cpp", "Solvers/SGH_solver_rz/src/%s_rz.cpp"
    geo = ["common/src/geometry_new.cpp"]
    step = [S3 % f for f in ("momentum", "force_sgh", "energy_sgh", "position", "time_integration", "sgh_execute")] + [SR % f for f in ("momentum", "force_sgh", "energy_sgh", "position", "time_integration", "sgh_execute")]
    heat = ["Solvers/SGTM_solver_3D/src/%s.cpp" % f for f in ("heat_flux", "temperature_sgtm", "position", "properties", "time_integration", "boundary")]
    q = ck.tier == "quick"
    jobs = [("order", "order.cpp", [], geo + ["common/src/region_fill.cpp"], 400, 20000),
            ("geometry", "geom.cpp", ["P11"], geo, 8000, 200000),
            ("a hydrodynamics step", "hydro.cpp", ["P14"], geo + step, 4000, 50000),
            ("boundary conditions", "bc.cpp", ["P18"], geo + [S3 % "boundary", SR % "boundary"], 8000, 200000),
            ("boundary stress", "bc.cpp", ["P19"], geo + [S3 % "boundary"], 8000, 200000),
            ("material state", "state.cpp", ["P17"], geo + ["common/src/region_fill.cpp", S3 % "properties", SR % "properties"], 8000, 200000),
            ("nodal mass", "mass.cpp", ["P20"], geo + ["common/src/region_fill.cpp", SR % "sgh_setup", SR % "sgh_execute"], 4000, 50000),
            ("heat conduction", "heat.cpp", ["P21"], geo + heat, 4000, 50000),
            ("time step", "step.cpp", ["P15"], geo + ["Solvers/SGH_solver_3D/src/time_integration.cpp", SR % "time_integration", "Solvers/SGTM_solver_3D/src/time_integration.cpp", "Solvers/level_set_solver/src/time_integration.cpp"], 8000, 200000)]

    def build(j, pre="", mode=["FVC_SNAP"], flags=""):
        name, h, defs, src, a, b = j
        return ck.compile("c30_" + pre + re.sub(r"\W", "", name), [HARN + "/" + h] + [D + p for p in src], INCS, defs=mode + defs, flags=["-O1", "-g"] + flags.split(), libs=["-Wl,--unresolved-symbols=ignore-all", "-no-pie"])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(build, jobs))
    for (name, h, defs, src, a, b), exe in zip(jobs, exes):
        if exe is None:
            continue
        args = [ck.seed, a if q else b]
        if not defs:
            ck.run_harness("loops of the shared code, in order and all at the same time", exe, args, bound="random fills, output fields and boundary sets on meshes of 1 to 12 elements")
            continue
        # what fails in any order is not a matter of the order
        os.environ["FVC_ORDER"] = "0"
        n = len(ck.failures)
        ck.run_harness(name + ", iterations in order", exe, args, bound="random meshes, see the harness")
        inorder = len(ck.failures) > n
        del ck.failures[n:]
        os.environ["FVC_ORDER"] = "1"
        ck.run_harness(name + ", iterations at the same time", exe, args, bound="random meshes, see the harness")
        os.environ.pop("FVC_ORDER")
        if inorder:
            del ck.failures[n:]
    # the same loops on threads, under the race detector
    with ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda j: (j, build(j, "t_", ["FVC_THREADS"], "-fsanitize=thread -pthread")), jobs))
    os.environ["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66 history_size=4"
    os.environ["FVC_ORDER"] = "1"
    for (name, h, defs, src, a, b), exe in exes:
        if exe is None:
            continue
        n = len(ck.failures)
        ck.run_harness(name + ", on four threads", exe, [ck.seed, max(a // 40, 20) if q else max(b // 40, 20)], timeout=100 if q else 600, bound="random meshes, see the harness; races between the iterations of the runs made")
        new = [f for f in ck.failures[n:] if re.search(r"SUMMARY: [^;]*data race (?!/[^ ;]*/(harness|stubs)/)", f[1])]   # wrong values are reported above
        ck.failures[n:] = [(a_, re.sub(r"\s+", " ", t)) for a_, t in new[:1]]
    os.environ.pop("FVC_ORDER")
