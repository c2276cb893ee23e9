"""C15 time-step limits"""
from props.multi import *

S3 = D + "Solvers/SGH_solver_3D/src/time_integration.cpp"
SR = D + "Solvers/SGH_solver_rz/src/time_integration_rz.cpp"
ST = D + "Solvers/SGTM_solver_3D/src/time_integration.cpp"
SL = D + "Solvers/level_set_solver/src/time_integration.cpp"
TAIL = "time graphics final dt_max dt_min dt_cfl dt fuzz tiny".split()
H = "mesh coords vel vol sspd eroded elem_in_mat num".split() + TAIL + ["mat"]
TH = "mesh coords vel vol sspd cond den cp eroded elem_in_mat num".split() + TAIL + ["mat"]
LV = "mesh Materials coords vol elem_in_mat num mat".split() + TAIL
FUNS = [("hydrodynamics 3D", S3, "SGH3D::get_timestep", H, 8, 3, "sgh"),
        ("hydrodynamics RZ", SR, "SGHRZ::get_timestep_rz", H, 4, 2, "sgh"),
        ("heat conduction", ST, "SGTM3D::get_timestep", TH, 8, 3, "heat"),
        ("level set 3D", SL, "LevelSet::get_timestep", LV, 8, 3, "ls"),
        ("level set 2D", SL, "LevelSet::get_timestep_2D", LV, 4, 2, "ls")]


def run(ck):
    def unit(u, lab, src, fn, names, n, dims, kind):
        tu = ck.tu(src, INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"] = dims
        st = State()
        f = tu.find(fn)
        args, a = mk_args(x, st, f, names)
        i = names.index("dt")
        dt0 = T.var("dt")
        lv = x.newobj("dt")
        st.store[lv.path] = dt0
        args[i] = lv
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        u.shape("one reduction to the minimum over the material's elements", len(x.regions) == 1 and x.regions[0].get("kind") == "min", "simplification")
        reg = x.regions[0]
        s, b, t = reg["ivs"][0], reg["before"], reg["after"]
        u.prove("every element of the material is visited", [], T.land(T.eq(reg["rng"][0][0], num(0)), T.eq(reg["rng"][0][1], a["num"])), x)
        mat = a["mat"]
        e = rd(x, b, a["elem_in_mat"], (mat, s), I)
        node = [rd(x, b, inarr(x, "mesh.nodes_in_elem"), (e, k), I) for k in range(n)]
        X = [[rd(x, b, a["coords"], (node[k], d)) for d in range(dims)] for k in range(n)]
        ds = [T.sqrt(T.tsum([(X[p][d] - X[q][d]) * (X[p][d] - X[q][d]) for d in range(dims)])) for p in range(n) for q in range(p)]
        h = ds[0]
        for q in ds[1:]:
            h = T.tmin(h, q)
        # the shortest distance: leave it opaque after proving the code's term equals it
        out, h2 = pull_min(u, x, reg, ds, dims, n, X)
        fz, cfl = a["fuzz"], a["dt_cfl"]
        hyp = list(t.pc) + [T.lt(T.real(0), h2), T.lt(T.real(0), fz)]
        if kind == "sgh":
            c = rd(x, b, a["sspd"], (mat, s))
            hyp.append(T.le(T.real(0), c))
            loc = T.ite(rd(x, b, a["eroded"], (mat, s), {"k": "bool"}), T.real(10 ** 32), cfl * h2 / (c + fz))
        elif kind == "heat":
            k_, r_, c_ = (rd(x, b, a[q], (mat, s)) for q in ("cond", "den", "cp"))
            hyp += [T.lt(T.real(0), q) for q in (k_, r_, c_)]
            loc = T.tmin(T.real(1), T.real("0.3") * h2 * h2 * r_ * c_ / (T.real(6) * k_))
        else:
            mf = inarr(x, "Materials.MaterialFunctions")
            vn, vc = (rd(x, b, mf, (mat,), R, (q,)) for q in ("normal_velocity", "curvature_velocity"))
            hyp += [T.le(T.real(0), q) for q in (vn, vc)]
            loc = cfl * h2 / (T.real("1.5") + vn + vc / (T.real(3) * h2) + fz)
        lim = T.tmax(T.tmin(loc, a["dt_max"]), a["dt_min"])
        want = T.tmin(reg["acc_in"], lim)
        u.prove("the element's limit: stability bound between dt_min and dt_max", hyp, T.eq(out, want), x)
        dt = x.read(st, lv, R)
        m = reg["res"]
        G = T.tmax(fz, a["graphics"] - a["time"]) + a["tiny"]
        F = a["final"] - a["time"] + a["tiny"]
        u.prove("the step is the minimum of the elements' limit, 1.1 times the old step, the output time and the end time", st.pc,
                T.eq(dt, T.tmin(T.tmin(T.tmin(T.real("1.1") * dt0, m), G), F)), x)
        u.obligations(x)
    for row in FUNS:
        ck.unit("time step: " + row[0], lambda u, row=row: unit(u, *row))
    hydro_harness(ck, "C15", ["common/src/geometry_new.cpp"] + [r[1][len(D):] for r in FUNS[:4]], 20000 if ck.tier == "quick" else 2000000,
                  "random distorted meshes, materials over random subsets of the elements, both loop directions", flags=("-O2", "-g"), harness="step.cpp")


def pull_min(u, x, reg, ds, dims, n, X):
    """replace the shortest-distance term of the code by an opaque h after proving it is one"""
    names = {}
    out = reg["acc_out"]
    code = {}
    from fvc.algebra import Alg

    def walk(q, seen):
        if not isinstance(q, T.Term) or q in seen:
            return
        seen.add(q)
        if q.op == "uf" and q.val == "sqrt":
            code[q] = None
            return
        for r in q.args:
            walk(r, seen)
    walk(out, set())
    vs = {}
    for q in code:
        for k, d in enumerate(ds):
            if q is d or Alg().equal(q.args[0], d.args[0]):
                code[q] = vs.setdefault(k, T.var("dist%d" % k))
                break
        else:
            raise Undecided("a distance that is not between two nodes of the element")
    u.shape("all %d node-to-node distances are measured" % len(ds), len(vs) == len(ds), "normalised rational functions", note="measured: %d" % len(vs))
    o2 = T.subst(out, code)
    # the minimal subterms over the distances alone
    dv = set(vs.values())

    def tops(q, seen, acc):
        if q in seen:
            return
        seen.add(q)
        fv = set(T.free_vars([q]))
        if fv and fv <= dv and q.sort == "R" and q.op == "ite" and len(fv) == len(dv):
            acc.append(q)
            return
        for r in q.args:
            tops(r, seen, acc)
    acc = []
    tops(o2, set(), acc)
    if not acc:
        raise Undecided("no shortest-distance term")
    h = T.var("h")
    pos = [T.le(T.real(0), v) for v in vs.values()]
    for k, q in enumerate(acc):
        for v in vs.values():
            u.prove("shortest distance %d is at most %s" % (k, v.val), pos, T.le(q, v), x)
        u.prove("shortest distance %d is one of the distances" % k, pos, T.lor(*[T.eq(q, v) for v in vs.values()]), x)
    return T.subst(o2, {q: h for q in acc}), h
