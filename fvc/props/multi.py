"""common to the multiphysics program"""
import os
from fractions import Fraction
from fvc.check import *
from fvc import terms as T

D = "apps/multiphysics/src/"


def incs():
    out = []
    root = os.path.join(REPO, D)
    for b, dirs, files in os.walk(root):
        dirs.sort()
        r = os.path.relpath(b, root)
        parts = r.split(os.sep)
        if parts[-1] in ("include", "input", "src") or "boundary_conditions" in parts or "material_models" in parts or "common" in parts or r == ".":
            out.append(os.path.normpath(D + r))
    return out


INCS = incs()
R = {"k": "real", "w": 64}
I = {"k": "int", "w": 64, "sg": False}


def obj(x, st, name, val=None):
    """a named input object (array, record); fields are created on demand"""
    lv = x.newobj(name, True)
    if val is not None:
        st.store[lv.path] = val
    return lv


def rd(x, st, arr, idx, ty=R, sub=()):
    return x.aread(st, arr, tuple(T.lift(i) for i in idx), tuple(sub), ty)


def inarr(x, name):
    """the array object created for an input of this name"""
    return x.input_arrays[name]


def nodeview(x, st, nodes, e, n):
    """ViewCArrayKokkos(&nodes(e,0), n)"""
    return ViewV(Ptr(ElemLV(nodes, (T.lift(e), T.num(0)))), (T.num(n),), 0, 0)


def rawview(x, st, name, n, dims=None):
    p = arr_in(x, st, name, n)
    return ViewV(p, tuple(T.num(k) for k in (dims or (n,))), 0, 0)


def vget(x, st, v, idx):
    lv = x.elem(v, [T.lift(i) for i in idx], st, {}, {})
    return x.read(st, lv, R)


def hydro_harness(ck, pid, sources, n, bound, flags=("-O1", "-g"), harness="hydro.cpp", args=(), timeout=120, libs=()):
    """compile the hydro harness with the listed real sources and run it"""
    exe = ck.compile(pid.lower(), [HARN + "/" + harness] + [D + s for s in sources], INCS, defs=["P" + pid[1:]], flags=flags, libs=["-Wl,--unresolved-symbols=ignore-all", "-no-pie"] + list(libs))
    return ck.run_harness("kernels on random meshes", exe, [ck.seed, n] + list(args), bound=bound, timeout=timeout)


def mk_args(x, st, f, names):
    """one input object per parameter; returns (argument list, {name: value})"""
    out, d = [], {}
    from fvc.execu import marr_class
    if len(names) != len(f["params"]):
        raise Undecided("%s has %d parameters, the contract %d" % (f["q"], len(f["params"]), len(names)))
    for p, n in zip(f["params"], names):
        ty = x.tu.strip(p["t"])
        while ty["k"] == "ref":
            ty = x.tu.types[ty["to"]]
        s = x.sort(ty)
        if s:
            v = T.var(n, s)
            if ty["k"] == "int" and not ty["sg"]:
                st.pc.append(T.le(num(0), v))
            out.append(v)
        elif ty["k"] == "rec" and marr_class(ty):
            m = marr_class(ty)
            v = MArr(n, m[1], m[2])
            x.input_arrays[n] = v
            out.append(obj(x, st, n, v))
        else:
            v = None
            out.append(obj(x, st, n))
        d[n] = v
    return out, d


def distinct_corners(x):
    """mesh invariant: the corners of an element have different numbers"""
    def decide(pc, g):
        if g.op == "and":
            return False if any(decide(pc, h) is False for h in g.args) else None
        if g.op == "eq" and all(a.op == "uf" and a.val == "mesh.corners_in_elem" for a in g.args):
            (a, b), (c, d) = g.args[0].args, g.args[1].args
            if a is c and T.isnum(b) and T.isnum(d):
                return b.val == d.val
        return None
    x.decide = decide
    x.assumptions.add("mesh invariant: the corners of an element have pairwise different numbers (mesh library)")


def argv(x, st, args, env, k):
    """value of argument k of a call seen by a contract"""
    a = args[k]
    t = x.tu.strip(a["t"])
    if x.sort(t):
        return x.ev(a, st, env)
    return x.read(st, x.lval(a, st, env), t)


def enum(tu, q):
    """value of an enumerator named with its scope"""
    n = q.split("::")[-1]
    for e, vs in tu.enums.items():
        if n in vs and (e.rsplit("::", 1)[0] == q.rsplit("::", 1)[0] or e == q.rsplit("::", 1)[0]):
            return vs[n]
    raise Undecided("no enumerator " + q)


def fnidx(x, thislv, name):
    """index of the record in array `name` whose function pointer is called"""
    if not isinstance(thislv, ElemLV) or thislv.sub or len(thislv.idx) != 1 or x.input_arrays.get(name) is not thislv.arr:
        raise Undecided("the called function pointer is not an element of " + name)
    return thislv.idx[0]
