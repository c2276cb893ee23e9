"""Symbolic executor over the extracted form: turns a function body plus its
contract into verification conditions.

Branches are merged with ite, loops with a bound that the precondition fixes
are unrolled completely, every other loop needs an invariant from the contract,
callees are either inlined (no contract) or replaced by their contract.
Parallel loops (FOR_ALL and friends) are verified for one generic iteration and
then summarised (see parfor).
"""
import json
from fractions import Fraction
from . import terms as T
from .terms import Term, TRUE, FALSE, num, real


class Undecided(Exception):
    """the verifier cannot handle this construct; never a violation"""


class Dead(Exception):
    pass


# ------------------------------------------------------------------ loading
class TU:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.funcs = {f["id"]: f for f in d["funcs"]}
        self.byname = {}
        for f in d["funcs"]:
            self.byname.setdefault(f["q"], []).append(f)
        self.records = {r["name"]: r for r in d["records"]}
        self.globals = {g["id"]: g for g in d["globals"]}
        self.enums = {e["q"]: {v["n"]: v["v"] for v in e["v"]} for e in d["enums"]}

    def find(self, q, npar=None, targs=None, pred=None):
        c = [f for f in self.byname.get(q, []) if f.get("body")]
        if npar is not None:
            c = [f for f in c if len(f["params"]) == npar]
        if pred:
            c = [f for f in c if pred(f)]
        if targs is not None:
            c = [f for f in c if f.get("targs") == targs]
        if not c:
            raise Undecided("function %s not found in the current source" % q)
        return c[0]

    def strip(self, t):
        """type record with references removed"""
        r = self.types[t]
        while r["k"] == "ref":
            r = self.types[r["to"]]
        return r


# ------------------------------------------------------------------ values
class PathLV:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, PathLV) and self.path == o.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "&" + ".".join(map(str, self.path))


class ElemLV:
    __slots__ = ("arr", "idx", "sub")

    def __init__(self, arr, idx, sub=()):
        self.arr, self.idx, self.sub = arr, tuple(idx), sub

    def __eq__(self, o):
        return isinstance(o, ElemLV) and self.arr is o.arr and self.idx == o.idx and self.sub == o.sub

    def __hash__(self):
        return hash((id(self.arr), self.idx, self.sub))

    def __repr__(self):
        return "&%s%s%s" % (self.arr.name, self.idx, self.sub)


class Ptr:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return "Ptr(%r)" % (self.lv,)


NULL = Ptr(None)


class MArr:
    """handle of an array object (MATAR array, or memory behind a pointer)"""
    _n = 0

    def __init__(self, name, order=0, base=0, dims=None, init=None):
        MArr._n += 1
        self.id = MArr._n
        self.name = name
        self.order, self.base = order, base
        self.dims = dims
        self.init = init   # None: uninterpreted initial content, else a Term
        self.cls = ""

    def __repr__(self):
        return "<%s>" % self.name


class ViewV:
    __slots__ = ("ptr", "dims", "order", "base")

    def __init__(self, ptr, dims, order, base):
        self.ptr, self.dims, self.order, self.base = ptr, tuple(dims), order, base

    def __eq__(self, o):
        return isinstance(o, ViewV) and (self.ptr, self.dims, self.order, self.base) == (o.ptr, o.dims, o.order, o.base)

    def __hash__(self):
        return hash((self.ptr, self.dims))


class IteV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Closure:
    __slots__ = ("fn", "env", "this")

    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this


class FnRef:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class RecV:
    """record rvalue living at a (temporary) location"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Opaque:
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.what == self.what

    def __hash__(self):
        return hash(self.what)


class ArrVal:
    """content of an array object: uninterpreted base plus guarded writes.
    write = (guard, idx tuple, value)  or
    ('par', ivars, guard, idx pattern, value): for every ivars with guard."""
    __slots__ = ("base", "sort", "init", "writes")

    def __init__(self, base, sort, init, writes=()):
        self.base, self.sort, self.init, self.writes = base, sort, init, writes


class Alt:
    """initial content of an array after two paths met: a's under g, else b's"""
    __slots__ = ("g", "a", "b")

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b


class State:
    __slots__ = ("store", "pc", "reads")

    def __init__(self, store=None, pc=None):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else []

    def copy(self):
        return State(dict(self.store), list(self.pc))

    def assume(self, c):
        if c is FALSE:
            raise Dead()
        if c is not TRUE:
            if c.op == "and":
                self.pc.extend(c.args)
            else:
                self.pc.append(c)

    def cond(self):
        return T.land(*self.pc)


VIEWS = {"ViewCArray": (0, 0), "ViewCArrayKokkos": (0, 0), "DViewCArrayKokkos": (0, 0), "ViewCMatrix": (0, 1), "ViewCMatrixKokkos": (0, 1), "DViewCMatrixKokkos": (0, 1),
         "ViewFArray": (1, 0), "ViewFArrayKokkos": (1, 0), "DViewFArrayKokkos": (1, 0), "ViewFMatrix": (1, 1), "ViewFMatrixKokkos": (1, 1), "DViewFMatrixKokkos": (1, 1)}
OWNS = {"CArray": (0, 0), "CArrayKokkos": (0, 0), "DCArrayKokkos": (0, 0), "CMatrix": (0, 1), "CMatrixKokkos": (0, 1), "DCMatrixKokkos": (0, 1),
        "FArray": (1, 0), "FArrayKokkos": (1, 0), "DFArrayKokkos": (1, 0), "FMatrix": (1, 1), "FMatrixKokkos": (1, 1), "DFMatrixKokkos": (1, 1),
        "RaggedRightArray": (0, 0), "RaggedRightArrayKokkos": (0, 0), "DRaggedRightArrayKokkos": (0, 0), "DynamicRaggedRightArrayKokkos": (0, 0),
        "DDynamicRaggedRightArrayKokkos": (0, 0), "CornersInElem": (0, 0)}


def marr_class(rec):
    q = rec.get("q", "")
    n = q.split("::")[-1]
    if q.startswith("mtr::") or q.startswith("swage::CornersInElem"):
        if n in VIEWS:
            return ("view",) + VIEWS[n]
        if n in OWNS:
            return ("own",) + OWNS[n]
    return None


class Executor:
    def __init__(self, tu, name="", max_unroll=4096):
        self.tu = tu
        self.name = name
        self.contracts = {}      # qname -> python callable(exec, st, thislv, argvals(list of (kind,val)), node)
        self.loops = {}          # (qname, ordinal) -> LoopSpec
        self.binds = {}          # dotted path -> Term/number : values fixed by the precondition
        self.obls = []           # (name, hyps, goal, where)
        self.assumptions = set()
        self.functions = {}      # qname -> (file, line) executed
        self.escapes = []
        self.objn = 0
        self.objname = {}        # objid -> name for inputs
        self.lazy = {}           # objid -> path  (copied from)
        self.inputs = {}         # var name -> Term created lazily
        self.input_arrays = {}   # name -> MArr
        self.max_unroll = max_unroll
        self.regions = []        # parallel regions met
        self.region_hook = None
        self.cur = []            # call stack of qnames
        self.bounds = True
        self.loop_seen = {}
        self.axioms = []
        self.output = []         # ghost output trace (fprintf, ...), see builtins
        self.steps = 0
        self.track_reads = None
        self.script = None       # path mode: decisions taken, see run_paths
        self.script_pos = 0
        self.divcheck = False    # obligation 'divisor is not zero' at every real division
        self.decide = None       # optional callable(pc, cond) -> True/False/None

    # ---------------------------------------------------------------- objects
    def newobj(self, name, inp=False):
        self.objn += 1
        o = self.objn
        if inp:
            self.objname[o] = name
        return PathLV((o,))

    def oblige(self, name, st, goal, ln=None):
        if goal is TRUE:
            self.obls.append((name, (), TRUE, ln))
            return
        self.obls.append((name, tuple(st.pc), goal, ln))

    # ---------------------------------------------------------------- types
    def sort(self, ty):
        k = ty["k"]
        if k in ("int", "enum"):
            return "I"
        if k == "real":
            return "R"
        if k == "bool":
            return "B"
        return None

    def is_string(self, ty):
        return ty["k"] == "rec" and ty.get("q", "") in ("std::basic_string", "std::__cxx11::basic_string")

    def default_input(self, name, ty):
        if name in self.binds:
            b = self.binds[name]
            return b if not isinstance(b, (int, float, Fraction, bool)) else T.lift(b)
        s = self.sort(ty)
        if s:
            v = T.var(name, s)
            if name not in self.inputs:
                self.inputs[name] = v
                if ty["k"] == "int" and not ty["sg"]:
                    self.axioms.append(T.le(num(0), v))
            return v
        if ty["k"] == "rec":
            m = marr_class(ty)
            if m and m[0] == "own":
                if name not in self.input_arrays:
                    self.input_arrays[name] = MArr(name, m[1], m[2])
                return self.input_arrays[name]
            if m and m[0] == "view":
                if name not in self.input_arrays:
                    self.input_arrays[name] = MArr(name, m[1], m[2])
                return self.input_arrays[name]
            if self.is_string(ty):
                v = T.var(name, "S")
                self.inputs[name] = v
                return v
            return Opaque(name)
        if ty["k"] == "ptr":
            to = self.tu.types[ty["to"]]
            if self.sort(to):
                if name not in self.input_arrays:
                    self.input_arrays[name] = MArr(name)
                return Ptr(ElemLV(self.input_arrays[name], (num(0),)))
            lv = self.newobj(name + "->", True)
            return Ptr(lv)
        if ty["k"] == "fptr":
            return Opaque(name)
        return Opaque(name)

    # ---------------------------------------------------------------- memory
    def pname(self, path):
        o = path[0]
        if o in self.objname:
            s = self.objname[o]
            for c in path[1:]:
                s += ("[%d]" % c) if isinstance(c, int) else ("." + c if not s.endswith("->") else c)
            return s
        if o in self.lazy:
            return self.pname(self.lazy[o] + tuple(path[1:]))
        # longest lazy prefix
        for n in range(len(path) - 1, 0, -1):
            if path[:n] in self.lazy:
                return self.pname(self.lazy[path[:n]] + tuple(path[n:]))
        return None

    def aread(self, st, arr, idx, sub, ty):
        idx = tuple(T.lift(i) for i in idx)
        key = ("A", arr.id, sub)
        av = st.store.get(key)
        s = self.sort(ty)
        if self.track_reads is not None:
            self.track_reads.append((arr, idx, sub, tuple(st.pc)))
        if av is None:
            if s is None:
                return self.elem_nonscalar(arr, idx, sub, ty)
            av = self.original(key, arr, sub, s)
        return self.aval_read(av, idx, s, st)

    def elem_nonscalar(self, arr, idx, sub, ty):
        nm = "%s(%s)%s" % (arr.name, ",".join(T.show(i) for i in idx), "".join("." + str(x) for x in sub))
        return self.default_input(nm, ty)

    def aval_read(self, av, idx, s, st=None):
        r = None
        stack = []
        for w in reversed(av.writes):
            if w[0] == "par":
                _, ivars, guard, pat, val = w
                m = {}
                conds = []
                ok = True
                rest = []
                for p, i in zip(pat, idx):
                    if p in ivars and p not in m:
                        m[p] = i
                    elif not T.free_vars([p]) or not any(v in ivars for v in T.free_vars([p])):
                        conds.append(T.eq(p, i))
                    else:
                        rest.append((p, i))
                for p, i in rest:
                    # p = iv + c
                    mm, c = T.linform(p)
                    fv = [v for v in T.free_vars([p]) if v in ivars and v not in m]
                    if len(fv) == 1 and mm.get(fv[0].id) == 1:
                        others = T.sub(p, fv[0])
                        m[fv[0]] = T.sub(i, T.subst(others, m))
                    elif not fv:
                        conds.append(T.eq(T.subst(p, m), i))
                    else:
                        ok = False
                if not ok or any(v not in m for v in ivars):
                    raise Undecided("parallel write pattern not invertible: %s" % (pat,))
                g = T.land(*(conds + [T.subst(guard, m)]))
                if g is FALSE:
                    continue
                v = T.subst(val, m)
            else:
                guard, widx, v = w
                g = guard
                if len(widx) != len(idx):
                    raise Undecided("array %s used with different ranks" % av.base)
                for a, b in zip(widx, idx):
                    g = T.land(g, T.eq(a, b))
                    if g is FALSE:
                        break
                if g is FALSE:
                    continue
                if g is not TRUE and st is not None and self.decide:
                    d = self.decide(st.pc, g)
                    if d is True:
                        g = TRUE
                    elif d is False:
                        continue
            if g is TRUE:
                r = v
                break
            stack.append((g, v))
        if r is None:
            if isinstance(av.init, Alt):
                g, a, b = av.init.g, av.init.a, av.init.b
                r = T.ite(g, self.aval_read(a, idx, s, st), self.aval_read(b, idx, s, st))
            else:
                r = av.init if av.init is not None else T.uf(av.base, idx, s)
        for g, v in reversed(stack):
            r = T.ite(g, v, r)
        return r

    def original(self, key, arr, sub, s):
        """content of an array nobody has written yet"""
        d = self.__dict__.setdefault("originals", {})
        if key not in d:
            d[key] = ArrVal(arr.name + ("." + ".".join(map(str, sub)) if sub else ""), s, arr.init)
        return d[key]

    def origin(self, k, v):
        """content of an array that only one of two meeting paths has touched"""
        e = self.__dict__.get("originals", {}).get(k)
        if e is None:
            raise Undecided("array of unknown origin where paths meet")
        return e

    def awrite(self, st, arr, idx, sub, ty, val, guard=TRUE):
        idx = tuple(T.lift(i) for i in idx)
        key = ("A", arr.id, sub)
        s = self.sort(ty)
        if s is None:
            raise Undecided("write of a non-scalar array element of " + arr.name)
        av = st.store.get(key)
        if av is None:
            av = self.original(key, arr, sub, s)
        ws = av.writes
        if guard is TRUE and ws:
            # overwrite an identical latest write (accumulation loops)
            for k in range(len(ws) - 1, -1, -1):
                w = ws[k]
                if w[0] == "par":
                    break
                if w[1] == idx:
                    ws = ws[:k] + ws[k + 1:]
                    break
                if not any(T.eq(a, b) is FALSE for a, b in zip(w[1], idx)):
                    break
        st.store[key] = ArrVal(av.base, av.sort, av.init, ws + ((guard, idx, val),))

    def coerce(self, v, ty):
        """convert a term to the sort of a type (used at stores)"""
        if not isinstance(v, Term):
            return v
        k = ty["k"]
        if k == "real" and v.sort == "I" and v.op == "num":
            return real(v.val)
        if k in ("int", "enum") and v.sort == "B":
            return T.b2i(v)
        if k == "bool" and v.sort in "IR":
            return T.ne(v, num(0))
        return v

    def read(self, st, lv, ty):
        if isinstance(lv, IteV):
            a, b = self.read(st, lv.a, ty), self.read(st, lv.b, ty)
            return self.vite(lv.c, a, b)
        if isinstance(lv, ElemLV):
            return self.aread(st, lv.arr, lv.idx, lv.sub, ty)
        if lv is None:
            raise Undecided("null dereference")
        path = lv.path
        # symbolic index inside a local array?
        for n, c in enumerate(path):
            if isinstance(c, Term):
                return self.read_sym(st, path, n, ty)
        if path in st.store:
            return st.store[path]
        m = ty["k"] == "rec" and not marr_class(ty) and not self.is_string(ty)
        if m:
            return RecV(lv)
        nm = self.pname(path)
        if nm is not None:
            v = self.default_input(nm, ty)
            if not (ty["k"] == "rec" and isinstance(v, Opaque)):
                st.store[path] = v
            return v
        s = self.sort(ty)
        if s:
            v = T.fresh("undef", s)
            st.store[path] = v
            return v
        if ty["k"] == "rec" and marr_class(ty):
            # default constructed array object
            mc = marr_class(ty)
            v = MArr("arr%d" % MArr._n, mc[1], mc[2])
            st.store[path] = v
            return v
        if ty["k"] == "ptr":
            raise Undecided("read of an unset pointer")
        return Opaque("unset")

    def read_sym(self, st, path, n, ty):
        c = path[n]
        size = st.store.get(("N",) + path[:n])
        if size is None:
            raise Undecided("symbolic index into an array of unknown size")
        r = None
        for k in range(size - 1, -1, -1):
            v = self.read(st, PathLV(path[:n] + (k,) + path[n + 1:]), ty)
            r = v if r is None else self.vite(T.eq(c, num(k)), v, r)
        return r

    def write(self, st, lv, ty, val, guard=TRUE):
        if isinstance(lv, IteV):
            self.write(st, lv.a, ty, val, T.land(guard, lv.c))
            self.write(st, lv.b, ty, val, T.land(guard, T.lnot(lv.c)))
            return
        val = self.coerce(val, ty)
        if isinstance(lv, ElemLV):
            if isinstance(val, RecV):
                raise Undecided("record write to array element")
            self.awrite(st, lv.arr, lv.idx, lv.sub, ty, val, guard)
            return
        if lv is None:
            raise Undecided("write through null")
        path = lv.path
        for n, c in enumerate(path):
            if isinstance(c, Term):
                size = st.store.get(("N",) + path[:n])
                if size is None:
                    raise Undecided("symbolic store into an array of unknown size")
                for k in range(size):
                    self.write(st, PathLV(path[:n] + (k,) + path[n + 1:]), ty, val, T.land(guard, T.eq(c, num(k))))
                return
        if isinstance(val, RecV):
            if guard is not TRUE:
                raise Undecided("guarded record copy")
            self.copyrec(st, val.lv, lv)
            return
        if guard is TRUE:
            st.store[path] = val
        elif guard is not FALSE:
            old = self.read(st, lv, ty)
            st.store[path] = self.vite(guard, val, old)

    def copyrec(self, st, src, dst):
        if src == dst:
            return
        if isinstance(src, ElemLV) or isinstance(dst, ElemLV):
            if isinstance(src, ElemLV) and isinstance(dst, PathLV):
                nm = "%s(%s)%s" % (src.arr.name, ",".join(T.show(i) for i in src.idx), "".join("." + str(x) for x in src.sub))
                o = self.newobj(nm, True)
                self.lazy[dst.path] = o.path
                return
            raise Undecided("record copy through an array element")
        sp, dp = src.path, dst.path
        n = len(sp)
        # drop the old content
        for k in [k for k in st.store if isinstance(k[0], int) and k[:len(dp)] == dp]:
            del st.store[k]
        for k, v in list(st.store.items()):
            if isinstance(k[0], int) and k[:n] == sp:
                st.store[dp + k[n:]] = v
            elif k[0] == "N" and k[1:n + 1] == sp:
                st.store[("N",) + dp + k[n + 1:]] = v
        self.lazy[dp] = sp
        if len(dp) == 1:
            self.lazy[dp[0]] = sp

    def vite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return T.ite(c, a, b)
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return Ptr(IteV(c, a.lv, b.lv))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("merged")
        return IteV(c, a, b)

    # ---------------------------------------------------------------- merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        cur = states[0]
        for s in states[1:]:
            cur = self.merge2(cur, s)
        return cur

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ga, gb = T.land(*a.pc[n:]), T.land(*b.pc[n:])
        pc = a.pc[:n]
        rest = T.lor(ga, gb)
        if rest is not TRUE:
            pc = pc + [rest]
        # the guard choosing a: use a single literal when it separates the two
        g = ga
        alits = ga.args if ga.op == "and" else (ga,)
        blits = set((gb.args if gb.op == "and" else (gb,)))
        for l in alits:
            if T.lnot(l) in blits:
                g = l
                break
        st = State({}, pc)
        for k in a.store.keys() | b.store.keys():
            if k in a.store and k in b.store:
                va, vb = a.store[k], b.store[k]
                if va is vb:
                    st.store[k] = va
                elif isinstance(va, ArrVal) and isinstance(vb, ArrVal):
                    st.store[k] = self.merge_arr(g, va, vb)
                else:
                    st.store[k] = self.vite(g, va, vb)
            else:
                v = a.store[k] if k in a.store else b.store[k]
                if isinstance(v, ArrVal):
                    e = self.origin(k, v)
                    st.store[k] = self.merge_arr(g, v, e) if k in a.store else self.merge_arr(g, e, v)
                else:
                    st.store[k] = v     # lazily created input, or local to one branch
        return st

    def merge_arr(self, g, a, b):
        n = 0
        while n < len(a.writes) and n < len(b.writes) and a.writes[n] is b.writes[n]:
            n += 1
        if a.base != b.base:
            self.hv = getattr(self, "hv", 0) + 1
            return ArrVal("%s'%d" % (a.base.split("'")[0], self.hv), a.sort, Alt(g, a, b))

        def gd(w, c):
            if w[0] == "par":
                return ("par", w[1], T.land(w[2], c), w[3], w[4])
            return (T.land(w[0], c), w[1], w[2])
        ra, rb = a.writes[n:], b.writes[n:]
        # same target on both sides -> one ite write
        if len(ra) == len(rb) and all(x[0] != "par" and y[0] != "par" and x[1] == y[1] and x[0] is y[0] for x, y in zip(ra, rb)):
            ws = tuple((x[0], x[1], T.ite(g, x[2], y[2])) for x, y in zip(ra, rb))
        else:
            ws = tuple(gd(w, g) for w in ra) + tuple(gd(w, T.lnot(g)) for w in rb)
        return ArrVal(a.base, a.sort, a.init, a.writes[:n] + ws)

    # ---------------------------------------------------------------- statements
    # exec returns a dict: outcome -> State ; outcomes 'next','brk','cont','ret',('goto',L)
    def ex(self, s, st, env):
        if s is None:
            return {"next": st}
        self.steps += 1
        try:
            return getattr(self, "s_" + s["k"])(s, st, env)
        except Dead:
            return {}
        except AttributeError as e:
            if "s_" + s["k"] in str(e):
                raise Undecided("statement %s" % s["k"])
            raise

    def s_Unsup(self, s, st, env):
        raise Undecided("statement %s at line %s" % (s.get("what"), s.get("ln")))

    def s_Nop(self, s, st, env):
        return {"next": st}

    def s_Ex(self, s, st, env):
        self.ev(s["e"], st, env)
        return {"next": st}

    def s_Blk(self, s, st, env):
        return self.block(s["b"], st, env)

    def block(self, stmts, st, env):
        out = {}
        pending = {0: [st]}
        i = 0
        n = len(stmts)
        labels = {}
        for k, x in enumerate(stmts):
            y = x
            while y and y["k"] == "Label":
                labels[y["l"]] = k
                y = y["s"]
        while i < n:
            sts = pending.pop(i, None)
            if sts:
                cur = self.merge(sts)
                r = self.ex(stmts[i], cur, env)
                for o, so in r.items():
                    if o == "next":
                        pending.setdefault(i + 1, []).append(so)
                    elif isinstance(o, tuple) and o[0] == "goto" and o[1] in labels:
                        j = labels[o[1]]
                        if j <= i:
                            raise Undecided("backward goto")
                        pending.setdefault(j, []).append(so)
                    else:
                        out.setdefault(o, []).append(so)
            i += 1
        if n in pending:
            out.setdefault("next", []).extend(pending[n])
        return {o: self.merge(v) for o, v in out.items()}

    def s_Label(self, s, st, env):
        return self.ex(s["s"], st, env)

    def s_Goto(self, s, st, env):
        return {("goto", s["l"]): st}

    def s_Decl(self, s, st, env):
        for d in s["d"]:
            self.declare(d, st, env)
        return {"next": st}

    def declare(self, d, st, env):
        ty = self.tu.types[d["t"]]
        if d.get("static"):
            env[d["id"]] = self.globlv(d["id"], d["n"], d["t"], st, env)
            return
        if ty["k"] in ("ref", "rec") and d.get("init") is not None:
            if self.is_lambda(d["t"]):
                cl = self.closure_of(d["init"], st, env)
                if cl is None:
                    raise Undecided("lambda of unknown origin")
                lv = self.newobj(d["n"])
                st.store[lv.path] = cl
                env[d["id"]] = env[("n", d["n"])] = lv
                return
        if ty["k"] == "ref":
            v = self.lval(d["init"], st, env)
            env[d["id"]] = v
            return
        lv = self.newobj(d["n"])
        env[d["id"]] = lv
        env[("n", d["n"])] = lv
        if "vla" in d:
            nv = self.ev(d["vla"], st, env)
            if T.isnum(nv):
                st.store[("N",) + lv.path] = int(nv.val)
            return
        self.setsize(st, lv.path, ty)
        if d.get("init") is not None:
            self.init(st, lv, ty, d["init"], env)
        if d.get("bind"):
            raise Undecided("structured binding")

    def setsize(self, st, path, ty):
        if ty["k"] == "arr":
            st.store[("N",) + path] = ty["n"]
            el = self.tu.types[ty["el"]]
            if el["k"] == "arr":
                for k in range(ty["n"]):
                    self.setsize(st, path + (k,), el)

    def init(self, st, lv, ty, e, env):
        """initialise storage lv of type ty from expression e"""
        k = e["k"]
        if ty["k"] == "arr":
            el = self.tu.types[ty["el"]]
            if k == "IL":
                vs = e["v"]
                if ty["n"] < 0:
                    st.store[("N",) + lv.path] = len(vs)
                n = ty["n"] if ty["n"] >= 0 else len(vs)
                for i in range(n):
                    if i < len(vs):
                        self.init(st, PathLV(lv.path + (i,)), el, vs[i], env)
                    else:
                        self.zero(st, PathLV(lv.path + (i,)), el)
                return
            if k == "Zero" or (k == "Ctor" and e.get("zero")):
                self.zero(st, lv, ty)
                return
            if k == "Str":
                v = e["v"] + [0]
                for i in range(ty["n"]):
                    st.store[lv.path + (i,)] = num(v[i] if i < len(v) else 0)
                return
            if k == "Ctor":
                return
            if k == "ArrCopy":
                src = self.lval(e["e"], st, env)
                self.copyrec(st, src, lv)
                return
            raise Undecided("array initialiser %s" % k)
        if k == "IL":
            if ty["k"] == "rec":
                rec = self.tu.records.get(ty["name"])
                if rec and not rec["sys"]:
                    fs = list(rec["fields"])
                    nb = len(rec["bases"])
                    vs = e["v"]
                    for f, x in zip(fs, vs[nb:]):
                        if x is not None:
                            ft = self.tu.types[f["t"]]
                            if ft["k"] == "ref":
                                raise Undecided("reference field")
                            self.setsize(st, lv.path + (f["n"],), ft)
                            self.init(st, PathLV(lv.path + (f["n"],)), ft, x, env)
                    return
                v = self.builtin_record(e, st, env, ty)
                self.write(st, lv, ty, v)
                return
            if len(e["v"]) == 1:
                self.init(st, lv, ty, e["v"][0], env)
                return
            if len(e["v"]) == 0:
                self.zero(st, lv, ty)
                return
        if k == "Zero":
            self.zero(st, lv, ty)
            return
        if k == "Ctor" and ty["k"] == "rec" and not marr_class(ty) and not self.sysrec(ty):
            self.construct(st, lv, ty, e, env)
            return
        v = self.ev(e, st, env)
        self.write(st, lv, ty, v)

    def sysrec(self, ty):
        r = self.tu.records.get(ty["name"])
        return (r is None) or r["sys"]

    def zero(self, st, lv, ty):
        k = ty["k"]
        if k in ("int", "enum"):
            self.write(st, lv, ty, num(0))
        elif k == "real":
            self.write(st, lv, ty, real(0))
        elif k == "bool":
            self.write(st, lv, ty, FALSE)
        elif k == "arr":
            el = self.tu.types[ty["el"]]
            st.store[("N",) + lv.path] = ty["n"]
            for i in range(ty["n"]):
                self.zero(st, PathLV(lv.path + (i,)), el)
        elif k == "rec":
            rec = self.tu.records.get(ty["name"])
            if rec and not rec["sys"]:
                for f in rec["fields"]:
                    self.zero(st, PathLV(lv.path + (f["n"],)), self.tu.types[f["t"]])
        elif k == "ptr":
            self.write(st, lv, ty, NULL)

    def construct(self, st, lv, ty, e, env):
        fn = e["fn"]
        args = e["args"]
        if e.get("copy") or e.get("move"):
            f = self.tu.funcs.get(fn["id"])
            if fn.get("dflt") or f is None:
                src = self.lval(args[0], st, env) if args[0].get("lv") else self.ev(args[0], st, env)
                if isinstance(src, RecV):
                    src = src.lv
                if isinstance(src, (PathLV, ElemLV)):
                    self.copyrec(st, src, lv)
                    return
                raise Undecided("copy construction")
        f = self.tu.funcs.get(fn["id"])
        if f is None:
            rec = self.tu.records.get(ty["name"])
            if rec is not None and not args:
                self.default_fields(st, lv, rec, env)
                return
            raise Undecided("constructor of %s" % ty.get("q"))
        av = [self.arg(a, t, st, env) for a, t in zip(args, f["params"])]
        self.run_ctor(f, st, lv, av, env)

    def default_fields(self, st, lv, rec, env):
        for b in rec["bases"]:
            bt = self.tu.types[b]
            br = self.tu.records.get(bt["name"])
            if br and not br["sys"]:
                self.default_fields(st, lv, br, env)
        for f in rec["fields"]:
            ft = self.tu.types[f["t"]]
            p = PathLV(lv.path + (f["n"],))
            self.setsize(st, p.path, ft)
            if f.get("init") is not None:
                self.init(st, p, ft, f["init"], {"this": lv})
            elif ft["k"] == "rec" and not marr_class(ft) and not self.is_string(ft) and not self.sysrec(ft):
                self.default_fields(st, p, self.tu.records[ft["name"]], env)
            elif self.is_string(ft):
                st.store[p.path] = T.mk("sconst", (), "", "S")
        st.store[lv.path + ("#type",)] = Opaque(rec["name"])

    def run_ctor(self, f, st, lv, av, env):
        fenv = {"this": lv}
        for p, v in zip(f["params"], av):
            fenv[p["id"]] = v
        self.note(f)
        rec = self.tu.records.get(f["cls"])
        done = set()
        for i in f["inits"]:
            if "base" in i:
                bt = self.tu.types[i["base"]]
                e = i["e"]
                if e and e["k"] == "Ctor" and not self.sysrec(bt):
                    self.construct(st, lv, bt, e, fenv)
            elif "f" in i:
                ft = None
                if rec:
                    for fl in rec["fields"]:
                        if fl["n"] == i["f"]:
                            ft = self.tu.types[fl["t"]]
                if ft is None:
                    raise Undecided("ctor init of unknown field")
                done.add(i["f"])
                p = PathLV(lv.path + (i["f"],))
                self.setsize(st, p.path, ft)
                if i["e"] is not None:
                    self.init(st, p, ft, i["e"], fenv)
            elif "deleg" in i:
                self.construct(st, lv, {"k": "rec", "name": f["cls"], "q": f["clsq"]}, i["e"], fenv)
        st.store[lv.path + ("#type",)] = Opaque(f["cls"])
        self.run_body(f, st, fenv)

    def s_If(self, s, st, env):
        if s.get("init"):
            r = self.ex(s["init"], st, env)
            st = r["next"]
        if s.get("cv"):
            self.declare(s["cv"], st, env)
        c = self.tobool(self.ev(s["c"], st, env))
        c = self.known(st, c)
        if c is TRUE:
            return self.ex(s["a"], st, env)
        if c is FALSE:
            return self.ex(s.get("b"), st, env)
        s1, s2 = st.copy(), st
        outs = {}
        s1.pc.append(c) if c.op != "and" else s1.pc.extend(c.args)
        nc = T.lnot(c)
        s2.pc.append(nc) if nc.op != "and" else s2.pc.extend(nc.args)
        for o, x in self.ex(s["a"], s1, env).items():
            outs.setdefault(o, []).append(x)
        for o, x in self.ex(s.get("b"), s2, env).items():
            outs.setdefault(o, []).append(x)
        return {o: self.merge(v) for o, v in outs.items()}

    def known(self, st, c):
        if c is TRUE or c is FALSE:
            return c
        pcs = set(st.pc)
        if c in pcs:
            return TRUE
        if T.lnot(c) in pcs:
            return FALSE
        if c.op == "and":
            return T.land(*[TRUE if x in pcs else (FALSE if T.lnot(x) in pcs else x) for x in c.args])
        if c.op == "or":
            return T.lor(*[TRUE if x in pcs else (FALSE if T.lnot(x) in pcs else x) for x in c.args])
        if self.decide:
            d = self.decide(st.pc, c)
            if d is True:
                return TRUE
            if d is False:
                return FALSE
        if self.script is not None:
            return self.follow(st, c)
        return c

    def follow(self, st, c):
        """path mode (run_paths): take one side of an open condition"""
        k = self.script_pos
        self.script_pos += 1
        if k == len(self.script):
            n = T.lnot(c)
            for side, other in ((c, n), (n, c)):
                if self.feasible(st.pc + [side]):
                    self.script.append((side is c, self.feasible(st.pc + [other]) if side is c else False))
                    break
            else:
                raise Dead()
        d = self.script[k][0]
        st.assume(c if d else T.lnot(c))
        return TRUE if d else FALSE

    def prover_check(self, pc, goal, timeout=4.0):
        from .prove import Prover
        try:
            return Prover(timeout=timeout).prove(list(pc), goal, list(self.axioms)).status == "proved"
        except Exception:
            return False

    def feasible(self, pc):
        from .prove import z3_check
        r, _ = z3_check(pc, FALSE, 1.0, self.axioms)
        return r != "proved"

    def loop(self, s, st, env, cond, inc, body, post=False):
        """generic loop: unroll while the condition is decided, else invariant"""
        q = self.cur[-1] if self.cur else ""
        key = (q, s["ln"])
        spec = None
        if self.loops:
            order = self.loop_seen.setdefault(q, {})
            if s["ln"] not in order:
                order[s["ln"]] = len(order)
            spec = self.loops.get((q, order[s["ln"]])) or self.loops.get((q, "*")) or self.loops.get("*")
            if spec is not None and getattr(spec, "applies", None) and not spec.applies(s):
                spec = None
        exits = []
        outs = {}
        cnt = 0
        first = True
        if spec is not None and not getattr(spec, "fallback", False):
            return spec.run(self, s, st, env, cond, inc, body, post)
        while True:
            if not (post and first):
                c = TRUE if cond is None else self.known(st, self.tobool(self.ev(cond, st, env)))
                if c is FALSE:
                    exits.append(st)
                    break
                if c is not TRUE:
                    if spec is not None:
                        return spec.run(self, s, st, env, cond, inc, body, post)
                    if cnt >= getattr(self, "sym_unroll", 0):
                        raise Undecided("loop at line %s of %s needs an invariant" % (s["ln"], q))
                    e = st.copy()
                    nc = T.lnot(c)
                    e.pc.append(nc)
                    exits.append(e)
                    st.pc.append(c)
            first = False
            cnt += 1
            if cnt > self.max_unroll:
                raise Undecided("loop at line %s unrolled more than %d times" % (s["ln"], self.max_unroll))
            r = self.ex(body, st, env)
            nxt = [r.pop(k) for k in ("next", "cont") if k in r]
            if "brk" in r:
                exits.append(r.pop("brk"))
            for o, x in r.items():
                outs.setdefault(o, []).append(x)
            if not nxt:
                break
            st = self.merge(nxt)
            if inc is not None:
                self.ev(inc, st, env)
        res = {o: self.merge(v) for o, v in outs.items()}
        if exits:
            res["next"] = self.merge(exits)
        return res

    def s_For(self, s, st, env):
        if s["init"]:
            r = self.ex(s["init"], st, env)
            if "next" not in r:
                return r
            st = r["next"]
        return self.loop(s, st, env, s["c"], s["inc"], s["b"])

    def s_While(self, s, st, env):
        if s.get("cv"):
            raise Undecided("while with declaration")
        return self.loop(s, st, env, s["c"], None, s["b"])

    def s_Do(self, s, st, env):
        return self.loop(s, st, env, s["c"], None, s["b"], post=True)

    def s_Range(self, s, st, env):
        # a loop over a standard container: its body must not change any value
        # the executor follows (e.g. copies between host and device memory)
        d = s["v"]
        ty = self.tu.types[d["t"]]
        so = self.sort(ty)
        if not so:
            raise Undecided("range-for at line %s" % s["ln"])
        t, en = st.copy(), dict(env)
        lv = self.newobj(d["n"])
        en[d["id"]] = en[("n", d["n"])] = lv
        t.store[lv.path] = T.fresh("r", so)
        base = dict(t.store)
        n = len(self.regions)
        try:
            r = self.ex(s["b"], t, en)
        except Dead:
            r = {}
        if len(self.regions) != n or set(r) - {"next", "cont", "brk"}:
            raise Undecided("range-for at line %s" % s["ln"])
        for o in r.values():
            for k, v in o.store.items():
                if k in base and base[k] is not v or k not in base and isinstance(k, tuple) and k and k[0] == "A":
                    raise Undecided("range-for at line %s changes a value" % s["ln"])
        return {"next": st}

    def s_Ret(self, s, st, env):
        if s.get("e") is not None:
            rt = env.get("#rt")
            if rt is not None and rt["k"] == "ref":
                st.store[("RET", env["#frame"])] = self.lval(s["e"], st, env)
            else:
                v = self.ev(s["e"], st, env)
                if rt is not None:
                    v = self.coerce(v, rt)
                st.store[("RET", env["#frame"])] = v
        return {"ret": st}

    def s_Break(self, s, st, env):
        return {"brk": st}

    def s_Cont(self, s, st, env):
        return {"cont": st}

    def s_Case(self, s, st, env):
        return self.ex(s["s"], st, env)

    def s_Default(self, s, st, env):
        return self.ex(s["s"], st, env)

    def s_Switch(self, s, st, env):
        if s.get("init"):
            st = self.ex(s["init"], st, env)["next"]
        x = self.ev(s["c"], st, env)
        body = s["b"]
        stmts = body["b"] if body["k"] == "Blk" else [body]
        labs = []   # (value or None, position)
        for i, y in enumerate(stmts):
            while y and y["k"] in ("Case", "Default"):
                labs.append((y.get("v") if y["k"] == "Case" else None, i))
                y = y["s"]
        outs = {}
        taken = []
        starts = []
        for v, i in labs:
            if v is not None:
                c = T.eq(x, num(int(v)))
                starts.append((T.land(*([c] + [])), i))
                taken.append(c)
        none = T.land(*[T.lnot(c) for c in taken])
        dpos = [i for v, i in labs if v is None]
        starts.append((none, dpos[0] if dpos else None))
        for c, i in starts:
            c = self.known(st, c)
            if c is FALSE:
                continue
            s1 = st.copy()
            if c is not TRUE:
                s1.pc.append(c) if c.op != "and" else s1.pc.extend(c.args)
            if i is None:
                outs.setdefault("next", []).append(s1)
                continue
            r = self.block(stmts[i:], s1, env)
            for o, y in r.items():
                outs.setdefault("next" if o == "brk" else o, []).append(y)
        return {o: self.merge(v) for o, v in outs.items()}

    def s_Try(self, s, st, env):
        self.escapes.append([])
        r = self.ex(s["b"], st, env)
        esc = self.escapes.pop()
        outs = {o: [x] for o, x in r.items()}
        for kind, val, es in esc:
            if kind != "throw":
                self.escapes[-1].append((kind, val, es))
                continue
            h = s["h"][0]
            if "v" in h:
                vlv = self.newobj(h["v"]["n"])
                env[h["v"]["id"]] = vlv
            for o, x in self.ex(h["b"], es, env).items():
                outs.setdefault(o, []).append(x)
        return {o: self.merge(v) for o, v in outs.items()}

    # ---------------------------------------------------------------- expressions
    def tobool(self, v):
        if isinstance(v, Term):
            if v.sort == "B":
                return v
            return T.ne(v, num(0))
        if isinstance(v, Ptr):
            return FALSE if v.lv is None else TRUE
        raise Undecided("condition of unknown kind")

    def ev(self, e, st, env):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided("expression %s at line %s" % (k, e.get("ln")))
        return m(e, st, env)

    def lval(self, e, st, env):
        """location denoted by a glvalue; prvalues are put in a temporary"""
        k = e["k"]
        if k == "Var":
            if e.get("g"):
                return self.globlv(e["id"], e["q"], e["t"], st, env)
            lv = env.get(e["id"])
            if lv is None:
                raise Undecided("variable %s not bound" % e["n"])
            return lv
        if k == "Mem":
            if e["arrow"]:
                p = self.ev(e["b"], st, env)
                if isinstance(p, RecV):
                    base = p.lv
                elif isinstance(p, Ptr):
                    base = p.lv
                elif isinstance(p, (PathLV, ElemLV)):
                    base = p
                else:
                    raise Undecided("-> on unknown value")
            else:
                base = self.lval(e["b"], st, env)
            return self.sub(base, e["f"])
        if k == "Idx":
            p = self.ev(e["b"], st, env)
            i = self.ev(e["i"], st, env)
            if isinstance(p, Ptr):
                return self.check_idx(self.padd(p, i), st, e["ln"]).lv
            raise Undecided("subscript of unknown value")
        if k == "Un" and e["op"] == "*":
            p = self.ev(e["e"], st, env)
            if isinstance(p, Ptr):
                return self.check_idx(p, st, e["ln"]).lv
            if isinstance(p, RecV):
                return p.lv
            raise Undecided("dereference of unknown value")
        if k == "Un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e, st, env)
            return self.lval(e["e"], st, env)
        if k in ("Asg", "CAsg"):
            self.ev(e, st, env)
            return self.lval(e["l"], st, env)
        if k == "This":
            return env["this"]
        if k == "Mat":
            ty = self.tu.types[e["t"]]
            lv = self.newobj("tmp")
            self.setsize(st, lv.path, ty)
            self.init(st, lv, ty, e["e"], env)
            return lv
        if k == "Cond":
            c = self.known(st, self.tobool(self.ev(e["c"], st, env)))
            if c is TRUE:
                return self.lval(e["a"], st, env)
            if c is FALSE:
                return self.lval(e["b"], st, env)
            return IteV(c, self.lval(e["a"], st, env), self.lval(e["b"], st, env))
        if k in ("Call", "MCall", "OpCall"):
            r = self.ev_call(e, st, env, want_lv=True)
            if isinstance(r, (PathLV, ElemLV, IteV)):
                return r
            if isinstance(r, RecV):
                return r.lv
            lv = self.newobj("tmp")
            st.store[lv.path] = r
            return lv
        if k == "Cast":
            if e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "NoOp", "Dynamic"):
                return self.lval(e["e"], st, env)
            if e["ck"] == "LValueToRValue":
                v = self.ev(e, st, env)
                if isinstance(v, RecV):
                    return v.lv
                lv = self.newobj("tmp")
                st.store[lv.path] = v
                return lv
        if k == "Bin" and e["op"] == ",":
            self.ev(e["l"], st, env)
            return self.lval(e["r"], st, env)
        if k == "Str":
            lv = self.newobj("str")
            v = e["v"] + [0]
            st.store[("N",) + lv.path] = len(v)
            st.store[lv.path + ("#lit",)] = Opaque(bytes(e["v"]))
            for i, c in enumerate(v):
                st.store[lv.path + (i,)] = num(c if c < 128 else c - 256)
            return lv
        if k == "Binding" and "e" in e:
            return self.lval(e["e"], st, env)
        # prvalue used as an object (temporary)
        ty = self.tu.types[e["t"]]
        lv = self.newobj("tmp")
        self.setsize(st, lv.path, ty)
        if ty["k"] == "rec" and not marr_class(ty):
            self.init(st, lv, ty, e, env)
        else:
            st.store[lv.path] = self.ev(e, st, env)
        return lv

    def sub(self, base, f):
        if isinstance(base, IteV):
            return IteV(base.c, self.sub(base.a, f), self.sub(base.b, f))
        if isinstance(base, ElemLV):
            return ElemLV(base.arr, base.idx, base.sub + (f,))
        if base is None:
            raise Undecided("member of null")
        return PathLV(base.path + (f,))

    def globlv(self, gid, q, t, st, env):
        key = ("G", gid)
        lv = self.__dict__.setdefault("globs", {}).get(key)
        if lv is None:
            lv = self.newobj(q, True)
            self.globs[key] = lv
        if ("GI", gid) not in st.store:
            g = self.tu.globals.get(gid)
            ty = self.tu.types[t if g is None else g["t"]]
            st.store[("GI", gid)] = Opaque("init")
            const = ty.get("const") or (ty["k"] == "arr" and self.tu.types[ty["el"]].get("const")) or "const" in ty["s"]
            if g is not None and g.get("init") is not None and (const or getattr(self, "init_globals", False)):
                self.setsize(st, lv.path, ty)
                try:
                    self.init(st, lv, ty, g["init"], {})
                except Undecided:
                    pass
            elif ty["k"] == "arr":
                self.setsize(st, lv.path, ty)
        if t is not None and self.tu.types[t]["k"] == "ref":
            v = st.store.get(lv.path)
            if isinstance(v, (PathLV, ElemLV)):
                return v
        return lv

    def padd(self, p, i):
        i = T.lift(i)
        if isinstance(p.lv, IteV):
            return Ptr(IteV(p.lv.c, self.padd(Ptr(p.lv.a), i).lv, self.padd(Ptr(p.lv.b), i).lv))
        if isinstance(p.lv, ElemLV):
            idx = p.lv.idx
            return Ptr(ElemLV(p.lv.arr, idx[:-1] + (T.add(idx[-1], i),), p.lv.sub))
        if p.lv is None:
            raise Undecided("arithmetic on null pointer")
        path = p.lv.path
        last = path[-1]
        if isinstance(last, (int, Term)) and len(path) > 1:
            n = T.add(T.lift(last), i)
            if T.isnum(n):
                n = int(n.val)
            return Ptr(PathLV(path[:-1] + (n,)))
        if T.isnum(i) and i.val == 0:
            return p
        raise Undecided("pointer arithmetic on a scalar object")

    def check_idx(self, p, st, ln):
        if not self.bounds:
            return p
        lv = p.lv
        if isinstance(lv, PathLV) and len(lv.path) > 1 and isinstance(lv.path[-1], (int, Term)):
            n = st.store.get(("N",) + lv.path[:-1])
            if n is not None and n >= 0:
                i = lv.path[-1]
                if isinstance(i, int):
                    if not (0 <= i < n):
                        self.oblige("index within array bounds", st, FALSE, ln)
                        raise Dead()
                else:
                    self.oblige("index within array bounds", st, T.land(T.le(num(0), i), T.lt(i, num(n))), ln)
        return p

    def e_Int(self, e, st, env):
        return num(int(e["v"]))

    def e_Bool(self, e, st, env):
        return TRUE if e["v"] else FALSE

    def e_Real(self, e, st, env):
        s = e["src"].rstrip("fFlL") if not e["src"].lower().startswith("0x") else None
        try:
            return real(Fraction(s))
        except Exception:
            return real(Fraction(float.fromhex(e["v"])))

    def e_Str(self, e, st, env):
        return Ptr(PathLV(self.lval(e, st, env).path + (0,)))

    def e_Null(self, e, st, env):
        return NULL

    def e_Zero(self, e, st, env):
        ty = self.tu.types[e["t"]]
        s = self.sort(ty)
        if s == "I":
            return num(0)
        if s == "R":
            return real(0)
        if s == "B":
            return FALSE
        if ty["k"] == "ptr":
            return NULL
        lv = self.newobj("tmp")
        self.zero(st, lv, ty)
        return RecV(lv)

    def e_Var(self, e, st, env):
        ty = self.tu.types[e["t"]]
        lv = self.lval(e, st, env)
        if ty["k"] == "func":
            return Opaque(e["n"])
        return self.read(st, lv, self.tu.strip(e["t"]))

    def e_Binding(self, e, st, env):
        return self.ev(e["e"], st, env)

    def e_Mem(self, e, st, env):
        return self.read(st, self.lval(e, st, env), self.tu.strip(e["t"]))

    def e_Idx(self, e, st, env):
        return self.read(st, self.lval(e, st, env), self.tu.strip(e["t"]))

    def e_This(self, e, st, env):
        return Ptr(env["this"])

    def e_Fn(self, e, st, env):
        return FnRef(e["fn"])

    def e_Mat(self, e, st, env):
        return self.ev(e["e"], st, env)

    def e_StdInit(self, e, st, env):
        return Opaque("initializer_list")

    def e_Lambda(self, e, st, env):
        cenv = None
        for c in e.get("caps") or []:
            lv = env.get(c.get("id"))
            if c.get("ref") or not isinstance(lv, PathLV):
                continue
            v = st.store.get(lv.path)
            if isinstance(v, Term):     # a copy of the scalar as it is now
                if cenv is None:
                    cenv = dict(env)
                cp = self.newobj(c.get("n") or "cap")
                st.store[cp.path] = v
                cenv[c["id"]] = cp
        return Closure(e["fn"], env if cenv is None else cenv, env.get("this"))

    def is_lambda(self, t):
        r = self.tu.strip(t)
        return r["k"] == "rec" and bool((self.tu.records.get(r.get("name")) or {}).get("lambda"))

    def closure_of(self, e, st, env):
        """the lambda an expression stands for, or None"""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "Lambda":
                return self.e_Lambda(e, st, env)
            if k == "Var":
                lv = env.get(e["id"])
                v = st.store.get(lv.path) if isinstance(lv, PathLV) else lv
                return v if isinstance(v, Closure) else None
            if k == "Ctor" and len(e.get("args") or []) == 1:
                e = e["args"][0]
            elif isinstance(e.get("e"), dict):
                e = e["e"]
            else:
                return None
        return None

    def e_IL(self, e, st, env):
        ty = self.tu.types[e["t"]]
        if ty["k"] in ("rec", "arr"):
            lv = self.newobj("tmp")
            self.setsize(st, lv.path, ty)
            self.init(st, lv, ty, e, env)
            return RecV(lv)
        if len(e["v"]) == 1:
            return self.ev(e["v"][0], st, env)
        if not e["v"]:
            return self.e_Zero(e, st, env)
        raise Undecided("initialiser list")

    def e_Throw(self, e, st, env):
        self.escape("throw", None, st)

    def escape(self, kind, val, st):
        if not self.escapes:
            self.escapes.append([])
        self.escapes[-1].append((kind, val, st.copy()))
        raise Dead()

    def e_Delete(self, e, st, env):
        self.ev(e["e"], st, env)
        return Opaque("void")

    def e_New(self, e, st, env):
        ty = self.tu.types[e["at"]]
        if e.get("n") is not None:
            n = self.ev(e["n"], st, env)
            lv = self.newobj("new[]")
            if T.isnum(n):
                st.store[("N",) + lv.path] = int(n.val)
                return Ptr(PathLV(lv.path + (0,)))
            a = MArr("new%d" % MArr._n)
            return Ptr(ElemLV(a, (num(0),)))
        lv = self.newobj("new")
        if e.get("init") is not None:
            self.init(st, lv, ty, e["init"], env)
        return Ptr(lv)

    def e_Cast(self, e, st, env):
        ck = e["ck"]
        ty = self.tu.types[e["t"]]
        if ck == "LValueToRValue":
            lv = self.lval(e["e"], st, env)
            return self.read(st, lv, self.tu.strip(e["e"]["t"]))
        if ck == "ArrayToPointerDecay":
            if e["e"]["k"] == "Str":
                return self.e_Str(e["e"], st, env)
            lv = self.lval(e["e"], st, env)
            if isinstance(lv, ElemLV):
                return Ptr(ElemLV(lv.arr, lv.idx + (num(0),), lv.sub))
            return Ptr(PathLV(lv.path + (0,)))
        if ck == "NullToPointer":
            return NULL
        v = self.ev(e["e"], st, env)
        if ck in ("IntegralCast", "FloatingCast"):
            if isinstance(v, Term) and v.sort == "B":
                return T.b2i(v)
            src = self.tu.strip(e["e"]["t"])
            if ck == "IntegralCast" and isinstance(v, Term) and T.isnum(v) and ty["k"] == "int":
                w = int(v.val)
                m = 1 << ty["w"]
                w %= m
                if ty["sg"] and w >= m >> 1:
                    w -= m
                return num(w)
            if ck == "FloatingCast" and ty.get("w", 64) < src.get("w", 64):
                self.assumptions.add("narrowing conversion double->float read as exact")
            return v
        if ck == "IntegralToFloating":
            if isinstance(v, Term):
                v = T.b2i(v)
                if T.isnum(v):
                    return real(v.val)
                return T.mk("toreal", (v,), None, "R") if False else v
            return v
        if ck == "FloatingToIntegral":
            if T.isnum(v):
                f = v.val
                return num(int(f) if f >= 0 else -int(-f))
            if v.sort == "I":
                return v
            t = T.uf("trunc", (v,), "I")
            self.axioms.append(T.land(T.implies(T.le(num(0), v), T.land(T.le(t, v), T.lt(v, T.add(t, num(1))), T.le(num(0), t))),
                                      T.implies(T.lt(v, num(0)), T.land(T.le(v, t), T.lt(T.sub(t, num(1)), v), T.le(t, num(0))))))
            return t
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tobool(v)
        if ck in ("ToVoid",):
            return Opaque("void")
        return v

    def e_Cond(self, e, st, env):
        c = self.known(st, self.tobool(self.ev(e["c"], st, env)))
        if c is TRUE:
            return self.ev(e["a"], st, env)
        if c is FALSE:
            return self.ev(e["b"], st, env)
        return self.branch(st, c, lambda s: self.ev(e["a"], s, env), lambda s: self.ev(e["b"], s, env))

    def branch(self, st, c, fa, fb):
        s1 = st.copy()
        s2 = st.copy()
        s1.pc.append(c)
        s2.pc.append(T.lnot(c))
        va = vb = None
        try:
            va = fa(s1)
        except Dead:
            s1 = None
        try:
            vb = fb(s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        m = self.merge([s for s in (s1, s2) if s is not None])
        st.store, st.pc = m.store, m.pc
        if s1 is None:
            return vb
        if s2 is None:
            return va
        return self.vite(c, va, vb)

    def e_Un(self, e, st, env):
        op = e["op"]
        if op == "&":
            if e["e"]["k"] == "Fn":
                return FnRef(e["e"]["fn"])
            return Ptr(self.lval(e["e"], st, env))
        if op == "*":
            return self.read(st, self.lval(e, st, env), self.tu.strip(e["t"]))
        if op in ("++", "--"):
            lv = self.lval(e["e"], st, env)
            ty = self.tu.strip(e["e"]["t"])
            old = self.read(st, lv, ty)
            d = num(1 if op == "++" else -1)
            new = self.padd(old, d) if isinstance(old, Ptr) else T.add(old, d)
            self.write(st, lv, ty, new)
            return old if e.get("post") else new
        v = self.ev(e["e"], st, env)
        if op == "-":
            return T.mul(num(-1), v)
        if op == "+":
            return v
        if op == "!":
            return T.lnot(self.tobool(v))
        if op == "~" and T.isnum(v):
            return num(~int(v.val))
        raise Undecided("unary " + op)

    def binop(self, op, l, r, e, st, ty=None):
        if op in ("+", "-") and (isinstance(l, Ptr) or isinstance(r, Ptr)):
            if isinstance(l, Ptr) and isinstance(r, Ptr):
                raise Undecided("pointer difference")
            if isinstance(r, Ptr):
                l, r = r, l
            return self.padd(l, r if op == "+" else T.mul(num(-1), r))
        if op in ("==", "!=") and (isinstance(l, Ptr) or isinstance(r, Ptr)):
            same = self.ptr_eq(l, r)
            return same if op == "==" else T.lnot(same)
        if not isinstance(l, Term) or not isinstance(r, Term):
            raise Undecided("operator %s on %s,%s line %s" % (op, type(l).__name__, type(r).__name__, e.get("ln")))
        if op == "+":
            return T.add(l, r)
        if op == "-":
            v = T.sub(l, r)
            if ty is not None and ty["k"] == "int" and not ty["sg"] and getattr(self, "check_unsigned", False):
                self.oblige("unsigned subtraction does not wrap", st, T.le(r, l), e.get("ln"))
            return v
        if op == "*":
            return T.mul(l, r)
        if op == "/":
            if ty is not None and ty["k"] in ("int", "enum"):
                return T.idiv(l, r)
            if self.divcheck and not T.isnum(r):
                self.oblige("divisor is not zero", st, T.ne(r, num(0)), e.get("ln"))
            return T.div(l, r)
        if op == "%":
            return T.imod(l, r)
        if op == "<":
            return T.lt(l, r)
        if op == "<=":
            return T.le(l, r)
        if op == ">":
            return T.lt(r, l)
        if op == ">=":
            return T.le(r, l)
        if op == "==":
            return T.eq(l, r)
        if op == "!=":
            return T.ne(l, r)
        if op in ("&", "|", "^", "<<", ">>") :
            if T.isnum(l) and T.isnum(r):
                a, b = int(l.val), int(r.val)
                return num({"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if b >= 0 else 0, ">>": a >> b if b >= 0 else 0}[op])
            if l.sort == "B" and r.sort == "B":
                return {"&": T.land(l, r), "|": T.lor(l, r), "^": T.lnot(T.eq(l, r))}[op] if op in "&|^" else None
            if op == "&" and T.isnum(r) and r.val == 1:
                return T.imod(l, num(2))
            if op == ">>" and T.isnum(r):
                return T.idiv(l, num(1 << int(r.val)))
            if op == "<<" and T.isnum(r):
                return T.mul(l, num(1 << int(r.val)))
        raise Undecided("operator " + op)

    def ptr_eq(self, l, r):
        if isinstance(l, Ptr) and isinstance(r, Ptr):
            if l.lv is None or r.lv is None:
                return TRUE if l.lv is r.lv else FALSE
            if l.lv == r.lv:
                return TRUE
            if isinstance(l.lv, PathLV) and isinstance(r.lv, PathLV):
                return FALSE
        raise Undecided("pointer comparison")

    def e_Bin(self, e, st, env):
        op = e["op"]
        if op == "&&" or op == "||":
            l = self.known(st, self.tobool(self.ev(e["l"], st, env)))
            if op == "&&":
                if l is FALSE:
                    return FALSE
                if l is TRUE:
                    return self.tobool(self.ev(e["r"], st, env))
                return self.branch(st, l, lambda s: self.tobool(self.ev(e["r"], s, env)), lambda s: FALSE)
            if l is TRUE:
                return TRUE
            if l is FALSE:
                return self.tobool(self.ev(e["r"], st, env))
            return self.branch(st, l, lambda s: TRUE, lambda s: self.tobool(self.ev(e["r"], s, env)))
        if op == ",":
            self.ev(e["l"], st, env)
            return self.ev(e["r"], st, env)
        l = self.ev(e["l"], st, env)
        r = self.ev(e["r"], st, env)
        return self.binop(op, l, r, e, st, self.tu.types[e["t"]])

    def e_Asg(self, e, st, env):
        # C++17: right operand first
        ty = self.tu.strip(e["l"]["t"])
        v = self.ev(e["r"], st, env)
        lv = self.lval(e["l"], st, env)
        self.write(st, lv, ty, v)
        return v

    def e_CAsg(self, e, st, env):
        ty = self.tu.strip(e["l"]["t"])
        r = self.ev(e["r"], st, env)
        lv = self.lval(e["l"], st, env)
        l = self.read(st, lv, ty)
        v = self.binop(e["op"], l, r, e, st, self.tu.types[e["ct"]])
        if ty["k"] == "int" and isinstance(v, Term) and v.sort == "R":
            raise Undecided("real to int compound assignment")
        self.write(st, lv, ty, v)
        return self.coerce(v, ty)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, env):
        return self.rv(e, self.ev_call(e, st, env), st)

    def e_MCall(self, e, st, env):
        return self.rv(e, self.ev_call(e, st, env), st)

    def e_OpCall(self, e, st, env):
        return self.rv(e, self.ev_call(e, st, env), st)

    def rv(self, e, r, st):
        if isinstance(r, (PathLV, ElemLV, IteV)):
            return self.read(st, r, self.tu.strip(e["t"]))
        return r

    def arg(self, a, p, st, env):
        """bind one argument: an LV for the parameter's storage"""
        ty = self.tu.types[p["t"]]
        if self.is_lambda(p["t"]):
            cl = self.closure_of(a, st, env)
            if cl is None:
                raise Undecided("lambda of unknown origin")
            lv = self.newobj(p["n"])
            st.store[lv.path] = cl
            return lv
        if ty["k"] == "ref":
            return self.lval(a, st, env)
        lv = self.newobj(p["n"])
        self.setsize(st, lv.path, ty)
        self.init(st, lv, ty, a, env)
        return lv

    def note(self, f):
        self.functions[f["q"]] = (f.get("file", "?"), f.get("ln"), f.get("end"))

    def run_body(self, f, st, fenv):
        """execute a function body; returns value (LV for references)"""
        fr = object()
        fenv["#frame"] = id(fr)
        self.__dict__.setdefault("frames", []).append(fr)
        fenv["#rt"] = self.tu.types[f["rt"]]
        self.cur.append(f["q"])
        if len(self.cur) > 60:
            raise Undecided("recursion in " + f["q"])
        try:
            r = self.ex(f["body"], st, fenv)
        finally:
            self.cur.pop()
        sts = [r[k] for k in ("next", "ret") if k in r]
        if any(k not in ("next", "ret") for k in r):
            raise Undecided("stray control flow out of " + f["q"])
        if not sts:
            raise Dead()
        m = self.merge(sts)
        st.store, st.pc = m.store, m.pc
        return st.store.pop(("RET", fenv["#frame"]), Opaque("void"))

    def dyn(self, f, thislv, st):
        """virtual dispatch on a known dynamic type"""
        if thislv is None or not isinstance(thislv, PathLV):
            return None
        t = st.store.get(thislv.path + ("#type",))
        if not isinstance(t, Opaque):
            return None
        seen = set()
        work = [t.what]
        while work:
            c = work.pop(0)
            if c in seen:
                continue
            seen.add(c)
            rec = self.tu.records.get(c)
            if not rec:
                continue
            for m in rec["methods"]:
                if m["id"] == f["id"] and m["id"] in self.tu.funcs:
                    return self.tu.funcs[m["id"]]
                g = self.tu.funcs.get(m["id"])
                if g and g["n"] == f["n"] and g.get("pt") == f.get("pt"):
                    return g
            for b in rec["bases"]:
                work.append(self.tu.types[b]["name"])
        return None

    def call(self, fn, thislv, args, st, env, e):
        """call with unevaluated args (list of expr)"""
        q = fn["q"]
        c = self.contracts.get(q)
        if c is not None:
            return c(self, st, thislv, args, env, e)
        f = self.tu.funcs.get(fn["id"])
        if fn.get("virt") and not e.get("qual"):
            g = self.dyn(fn, thislv, st)
            if g is not None:
                f = g
        if f is None:
            return self.builtin(fn, thislv, args, st, env, e)
        b = self.intrinsic(fn, thislv, args, st, env, e)
        if b is not NotImplemented:
            return b
        fenv = {"this": thislv}
        for a, p in zip(args, f["params"]):
            fenv[p["id"]] = self.arg(a, p, st, env)
            fenv[("n", p["n"])] = fenv[p["id"]]
        self.note(f)
        return self.run_body(f, st, fenv)

    def call_closure(self, cl, argvals, st):
        f = self.tu.funcs.get(cl.fn["id"])
        if f is None:
            raise Undecided("lambda body missing")
        fenv = dict(cl.env)
        fenv["this"] = cl.this
        for p, v in zip(f["params"], argvals):
            if isinstance(v, (PathLV, ElemLV)):
                fenv[p["id"]] = v
            else:
                lv = self.newobj(p["n"])
                st.store[lv.path] = v
                fenv[p["id"]] = lv
            fenv[("n", p["n"])] = fenv[p["id"]]
        return self.run_body(f, st, fenv)

    def ev_call(self, e, st, env, want_lv=False):
        k = e["k"]
        if k == "Call":
            fn = e.get("fn")
            if fn is None:
                m = e["callee"]
                while isinstance(m, dict) and m.get("k") in ("Cast", "Paren", "Un") and "e" in m:
                    m = m["e"]
                if isinstance(m, dict) and m.get("k") == "Mem":
                    c = self.contracts.get("->" + m["f"])
                    if c is not None:
                        return c(self, st, self.lval(m["b"], st, env) if m.get("b") and not m.get("arrow") else None, e["args"], env, e)
                f = self.ev(e["callee"], st, env)
                if isinstance(f, Ptr) and isinstance(f.lv, PathLV):
                    f = st.store.get(f.lv.path)
                if isinstance(f, FnRef):
                    return self.call(f.fn, None, e["args"], st, env, e)
                return self.indirect(f, e, st, env)
            return self.call(fn, None, e["args"], st, env, e)
        if k == "MCall":
            fn = e.get("fn")
            if fn is None:
                raise Undecided("member pointer call")
            if e["arrow"]:
                p = self.ev(e["o"], st, env)
                if isinstance(p, Ptr):
                    this = p.lv
                elif isinstance(p, (PathLV, ElemLV)):
                    this = p
                else:
                    this = p
            else:
                this = self.lval(e["o"], st, env)
            return self.call(fn, this, e["args"], st, env, e)
        if k == "OpCall":
            fn = e.get("fn")
            if fn is None:
                raise Undecided("unresolved operator call")
            f = self.tu.funcs.get(fn["id"]) if fn["n"] == "operator()" and e.get("mem") else None
            if f is not None and f.get("lambda"):
                cl = self.closure_of(e["args"][0], st, env)
                if cl is None:
                    raise Undecided("call of an unknown lambda")
                fenv = dict(cl.env)
                fenv["this"] = cl.this
                for a, p in zip(e["args"][1:], f["params"]):
                    fenv[p["id"]] = fenv[("n", p["n"])] = self.arg(a, p, st, env)
                return self.run_body(f, st, fenv)
            if e.get("mem"):
                this = self.lval(e["args"][0], st, env)
                return self.call(fn, this, e["args"][1:], st, env, e)
            return self.call(fn, None, e["args"], st, env, e)

    def indirect(self, f, e, st, env):
        raise Undecided("indirect call at line %s" % e.get("ln"))

    def e_Ctor(self, e, st, env):
        ty = self.tu.types[e["t"]]
        mc = marr_class(ty) if ty["k"] == "rec" else None
        if mc:
            return self.ctor_marr(mc, ty, e, st, env)
        if ty["k"] == "rec" and self.sysrec(ty):
            return self.builtin_record(e, st, env, ty)
        lv = self.newobj("tmp")
        self.construct(st, lv, ty, e, env)
        return RecV(lv)

    def ctor_marr(self, mc, ty, e, st, env):
        args = e["args"]
        if e.get("copy") or e.get("move"):
            a = args[0]
            v = self.ev(a, st, env) if not a.get("lv") else self.read(st, self.lval(a, st, env), ty)
            return v
        kind, order, base = mc
        if kind == "view":
            if not args:
                return Opaque("view")
            p = self.ev(args[0], st, env)
            dims = [self.ev(a, st, env) for a in args[1:]]
            return ViewV(p, dims, order, base)
        dims = []
        for a in args:
            t = self.tu.strip(a["t"])
            if t["k"] in ("int", "enum"):
                dims.append(self.ev(a, st, env))
        a = MArr("arr%d" % (MArr._n + 1), order, base, tuple(dims) if dims else None)
        a.cls = ty.get("q", "")
        return a

    def intrinsic(self, fn, thislv, args, st, env, e):
        """functions that have a body in the stand-in headers but are given an
        assumed contract instead"""
        q = fn["q"]
        cls = fn.get("clsq", "")
        if cls.startswith("mtr::") or q.startswith("mtr::") or cls.startswith("swage::CornersInElem"):
            return self.marr_call(fn, thislv, args, st, env, e)
        if q.startswith("fvc_par::"):
            return self.par_call(fn, args, st, env, e)
        if q.startswith("Kokkos::"):
            n = fn["n"]
            if n in ("fence", "finalize", "initialize"):
                return Opaque("void")
            if n in ("parallel_for", "parallel_reduce"):
                return self.kokkos_par(fn, args, st, env, e)
            if n == "abort":
                self.escape("exit", None, st)
            if n in ("min", "max"):
                a, b = [self.ev(x, st, env) for x in args]
                return T.tmin(a, b) if n == "min" else T.tmax(a, b)
            if n == "isfinite":
                return TRUE
            if n == "atomic_add":
                p = self.ev(args[0], st, env)
                v = self.ev(args[1], st, env)
                ty = self.tu.types[self.tu.types[args[0]["t"]]["to"]]
                self.write(st, p.lv, ty, T.add(self.read(st, p.lv, ty), v))
                return Opaque("void")
        if q.startswith("MPI_"):
            return self.mpi(fn, args, st, env, e)
        return NotImplemented

    def mpi(self, fn, args, st, env, e):
        return NotImplemented

    def marr_of(self, thislv, st, ty):
        if isinstance(thislv, MArr) or isinstance(thislv, ViewV):
            return thislv
        return self.read(st, thislv, ty)

    def marr_call(self, fn, thislv, args, st, env, e):
        n = fn["n"]
        cls = fn.get("cls", "")
        # X.host(...) : HostRef member; same memory
        if "HostRef" in cls:
            if isinstance(thislv, PathLV) and thislv.path[-1] == "host":
                thislv = PathLV(thislv.path[:-1])
            elif isinstance(thislv, ElemLV):
                thislv = ElemLV(thislv.arr, thislv.idx, thislv.sub[:-1])
        if fn["q"] == "mtr::oob":
            raise Undecided("oob")
        # find the object's own array type: any record type of the mtr family reads the same
        aty = {"k": "rec", "name": cls, "q": "mtr::CArray"}
        tname = cls
        mc = None
        for t in self.tu.types:
            if t.get("k") == "rec" and t.get("name") == tname:
                mc = marr_class(t)
                if mc:
                    aty = t
        v = self.marr_of(thislv, st, aty)
        if isinstance(v, IteV):
            if n == "operator()":
                idx = [self.ev(a, st, env) for a in args]
                return IteV(v.c, self.elem(v.a, idx, st, e, env), self.elem(v.b, idx, st, e, env))
            raise Undecided("conditional array handle")
        if n == "operator()" or n == "host":
            idx = [self.ev(a, st, env) for a in args]
            return self.elem(v, idx, st, e, env)
        if n in ("update_host", "update_device", "lock_update", "unlock_update", "update_strides_host", "update_strides_device"):
            return Opaque("void")
        if n in ("pointer", "device_pointer", "host_pointer"):
            if isinstance(v, ViewV):
                return v.ptr
            return Ptr(ElemLV(v, (num(0),)))
        if n in ("size", "extent"):
            if isinstance(v, ViewV):
                r = num(1)
                for d in v.dims:
                    r = T.mul(r, d)
                return r
            if v.dims:
                r = num(1)
                for d in v.dims:
                    r = T.mul(r, d)
                return r
            return self.default_input(v.name + ".size()", {"k": "int", "w": 64, "sg": False})
        if n in ("dims", "order", "stride", "stride_host"):
            a = [self.ev(x, st, env) for x in args]
            if n == "dims" and isinstance(v, ViewV) and T.isnum(a[0]):
                return v.dims[int(a[0].val) - v.base]
            if n == "dims" and isinstance(v, MArr) and v.dims and T.isnum(a[0]):
                return v.dims[int(a[0].val) - v.base]
            if n == "dims" and T.isnum(a[0]):
                return self.default_input("%s.dims(%d)" % (v.name, int(a[0].val)), {"k": "int", "w": 64, "sg": False})
            if n in ("stride", "stride_host"):
                arr = self.__dict__.setdefault("strides", {}).setdefault(v.id, MArr(v.name + ".stride"))
                return ElemLV(arr, tuple(a))
            raise Undecided("array query " + n)
        if n == "set_values":
            x = self.ev(args[0], st, env)
            if isinstance(v, ViewV):
                raise Undecided("set_values on view")
            self.havoc_arr(st, v, (), init=x, ty=self.tu.strip(fn["pt"][0]))
            return Opaque("void")
        if n == "operator=":
            src = self.ev(args[0], st, env)
            lv = thislv
            if isinstance(lv, PathLV):
                st.store[lv.path] = src
                return lv
            raise Undecided("array handle assignment")
        raise Undecided("array operation " + n)

    def havoc_arr(self, st, arr, sub, init=None, ty=None, base=None):
        s = self.sort(ty)
        if init is not None:
            init = self.coerce(init, ty)
        self.hv = getattr(self, "hv", 0) + 1
        self.original(("A", arr.id, sub), arr, sub, s)
        st.store[("A", arr.id, sub)] = ArrVal(base or "%s'%d" % (arr.name, self.hv), s, init)

    def elem(self, v, idx, st, e, env):
        if isinstance(v, MArr):
            idx = [T.sub(i, num(v.base)) if v.base else i for i in idx]
            return ElemLV(v, tuple(idx))
        if isinstance(v, ViewV):
            idx = [T.sub(i, num(v.base)) if v.base else i for i in idx]
            if len(idx) != len(v.dims):
                raise Undecided("view used with wrong rank")
            if self.bounds:
                for i, d in zip(idx, v.dims):
                    g = T.land(T.le(num(0), i), T.lt(i, d))
                    if g is FALSE:
                        self.oblige("view index within bounds", st, FALSE, e.get("ln"))
                        raise Dead()
                    if g is not TRUE:
                        self.oblige("view index within bounds", st, g, e.get("ln"))
            p = v.ptr
            if not isinstance(p, Ptr):
                raise Undecided("view over unknown pointer")
            lv = p.lv
            if isinstance(lv, ElemLV) and len(lv.idx) > 1:
                k = len(idx)
                zeros = all(T.isnum(x) and x.val == 0 for x in lv.idx[-k:])
                if v.order == 0 and k <= len(lv.idx) and zeros:
                    return ElemLV(lv.arr, lv.idx[:-k] + tuple(idx), lv.sub)
                if k == 1:
                    # flat view over several trailing zero dimensions of known extent is not needed here
                    if not any(T.isnum(x) and x.val == 0 for x in lv.idx[:-1][-1:]) or True:
                        return ElemLV(lv.arr, lv.idx[:-1] + (T.add(lv.idx[-1], idx[0]),), lv.sub)
                raise Undecided("view shape over array")
            # flat memory
            off = num(0)
            if v.order == 0:
                for i, d in zip(idx, v.dims):
                    off = T.add(T.mul(off, d), i)
            else:
                for i, d in reversed(list(zip(idx, v.dims))):
                    off = T.add(T.mul(off, d), i)
            return self.check_idx(self.padd(p, off), st, e.get("ln")).lv
        raise Undecided("call on unknown array value at line %s" % e.get("ln"))

    # ------------------------------------------------------------- parallel loops
    def par_call(self, fn, args, st, env, e):
        n = fn["n"]
        if n == "run_once":
            cl = self.closure_of(args[0], st, env) or self.ev(args[0], st, env)
            self.call_closure(cl, [], st)
            return Opaque("void")
        if n.startswith("par_for"):
            d = int(n[-1])
            rng = [(self.ev(args[2 * i], st, env), self.ev(args[2 * i + 1], st, env)) for i in range(d)]
            cl = self.closure_of(args[2 * d], st, env) or self.ev(args[2 * d], st, env)
            return self.parfor(rng, cl, st, e)
        if n.startswith("red_"):
            kind, d = n[4:7], int(n[-1])
            rng = [(self.ev(args[2 * i], st, env), self.ev(args[2 * i + 1], st, env)) for i in range(d)]
            rlv = self.lval(args[2 * d], st, env)
            cl = self.closure_of(args[2 * d + 1], st, env) or self.ev(args[2 * d + 1], st, env)
            rty = self.tu.strip(args[2 * d]["t"])
            return self.reduce(kind, rng, cl, rlv, rty, st, e)
        raise Undecided("parallel construct " + n)

    def kokkos_par(self, fn, args, st, env, e):
        raise Undecided("Kokkos::" + fn["n"])

    def parfor(self, rng, cl, st, e):
        """FOR_ALL: verify a generic iteration, then summarise the loop."""
        ivs = []
        guard = TRUE
        f = self.tu.funcs.get(cl.fn["id"])
        for (lo, hi), p in zip(rng, f["params"]):
            iv = T.fresh("i_" + p["n"], "I")
            ivs.append(iv)
            guard = T.land(guard, T.le(lo, iv), T.lt(iv, hi))
        # all ranges concretely empty / small: still treated symbolically
        before = st
        body = st.copy()
        if guard is FALSE:
            return Opaque("void")
        body.pc.append(guard) if guard.op != "and" else body.pc.extend(guard.args)
        npc = len(body.pc)
        old_reads = self.track_reads
        self.track_reads = reads = []
        dead = False
        try:
            self.call_closure(cl, list(ivs), body)
        except Dead:
            dead = True
        self.track_reads = old_reads
        reg = dict(ivs=ivs, guard=guard, before=before.copy(), after=None if dead else body, reads=reads, ln=e.get("ln"), rng=rng,
                   fn=self.cur[-1] if self.cur else "", npc=npc)
        self.regions.append(reg)
        if dead:
            return Opaque("void")
        if self.region_hook and self.region_hook(self, reg, st):
            return Opaque("void")
        self.summarise(reg, st)
        return Opaque("void")

    def new_writes(self, reg):
        """(key, write) list added by the generic iteration"""
        out = []
        b, a = reg["before"].store, reg["after"].store
        for k, v in a.items():
            if k[0] == "A" and isinstance(v, ArrVal):
                o = b.get(k)
                ow = o.writes if o is not None else ()
                if (o is not None and o.base != v.base) or (o is None and "'" in v.base):
                    out.append((k, v, None))
                    continue
                n = 0
                while n < len(ow) and n < len(v.writes) and ow[n] is v.writes[n]:
                    n += 1
                if n < len(ow):
                    raise Undecided("parallel loop rewrites an earlier element write")
                for w in v.writes[n:]:
                    out.append((k, v, w))
        return out

    def summarise(self, reg, st):
        ivs, guard = reg["ivs"], reg["guard"]
        after = reg["after"]
        extra = T.land(*after.pc[reg["npc"]:])
        for k, v, w in self.new_writes(reg):
            if w is None:
                self.havoc_key(st, k, v)
                continue
            if w[0] == "par":
                raise Undecided("nested parallel loop")
            g, idx, val = w
            fv = set(T.free_vars(list(idx)))
            direct = [iv for iv in ivs if any(p is iv for p in idx)]
            if len(direct) != len(ivs):
                # not owned by index: contents become unknown
                self.havoc_key(st, k, v)
                continue
            wr = ("par", tuple(ivs), T.land(guard, g), idx, val)
            cur = st.store.get(k)
            if cur is None:
                cur = ArrVal(v.base, v.sort, v.init)
            st.store[k] = ArrVal(cur.base, cur.sort, cur.init, cur.writes + (wr,))

    def havoc_key(self, st, k, v):
        self.hv = getattr(self, "hv", 0) + 1
        st.store[k] = ArrVal("%s'%d" % (v.base.split("'")[0], self.hv), v.sort, None)

    def reduce(self, kind, rng, cl, rlv, rty, st, e):
        ivs = []
        guard = TRUE
        f = self.tu.funcs.get(cl.fn["id"])
        for (lo, hi), p in zip(rng, f["params"]):
            iv = T.fresh("i_" + p["n"], "I")
            ivs.append(iv)
            guard = T.land(guard, T.le(lo, iv), T.lt(iv, hi))
        body = st.copy()
        body.pc.append(guard) if guard.op != "and" else body.pc.extend(guard.args)
        npc = len(body.pc)
        acc = self.newobj("acc")
        s = self.sort(rty)
        a0 = T.fresh("acc", s)
        body.store[acc.path] = a0
        old = self.track_reads
        self.track_reads = reads = []
        self.call_closure(cl, list(ivs) + [acc], body)
        self.track_reads = old
        a1 = body.store[acc.path]
        r = T.fresh("red_" + kind, s)
        reg = dict(kind=kind, ivs=ivs, guard=guard, before=st.copy(), after=body, acc_in=a0, acc_out=a1, res=r, ln=e.get("ln"), rng=rng,
                   fn=self.cur[-1] if self.cur else "", npc=npc, reads=reads)
        self.regions.append(reg)
        self.write(st, rlv, rty, r)
        if self.region_hook:
            self.region_hook(self, reg, st)
        return Opaque("void")

    # ------------------------------------------------------------- builtins
    MATH1 = {"sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "tanh", "sinh", "cosh", "log10", "cbrt", "floor", "ceil", "round"}

    def builtin(self, fn, thislv, args, st, env, e):
        r = self.intrinsic(fn, thislv, args, st, env, e)
        if r is not NotImplemented:
            return r
        n = fn["n"]
        q = fn["q"]
        base = n[:-1] if n.endswith("f") and n[:-1] in ("sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "fabs", "exp", "log", "pow", "atan2", "fmax", "fmin") else n
        if not fn.get("cls") and (q == n or q.startswith("std::")):
            if base in ("sqrt", "fabs", "abs", "fmin", "fmax", "min", "max", "pow", "atan2", "isnan", "isinf", "isfinite", "copysign", "swap", "fmod", "hypot", "labs", "llabs") or base in self.MATH1:
                if base == "swap":
                    la, lb = self.lval(args[0], st, env), self.lval(args[1], st, env)
                    ty = self.tu.strip(args[0]["t"])
                    va, vb = self.read(st, la, ty), self.read(st, lb, ty)
                    self.write(st, la, ty, vb)
                    self.write(st, lb, ty, va)
                    return Opaque("void")
                a = [self.ev(x, st, env) for x in args]
                if not all(isinstance(x, Term) for x in a):
                    raise Undecided("math call on non-scalars")
                if base == "sqrt":
                    return T.sqrt(a[0])
                if base in ("fabs", "abs", "labs", "llabs"):
                    return T.fabs(a[0])
                if base in ("min", "fmin"):
                    return T.tmin(a[0], a[1])
                if base in ("max", "fmax"):
                    return T.tmax(a[0], a[1])
                if base == "pow":
                    return T.power(a[0], a[1])
                if base in ("isnan", "isinf"):
                    self.assumptions.add("doubles read as reals: isnan/isinf are false")
                    return FALSE
                if base == "isfinite":
                    return TRUE
                if base in ("sin", "cos", "tan"):
                    return T.trig(base, a[0])
                if base == "copysign":
                    m = T.fabs(a[0])
                    return T.ite(T.lt(a[1], num(0)), T.mul(num(-1), m), m)
                if base == "hypot":
                    return T.sqrt(a[0] * a[0] + a[1] * a[1])
                if base in ("floor", "ceil"):
                    if a[0].sort == "I":
                        return a[0]
                    t = T.uf(base, tuple(a), "I")
                    lo, hi = (t, a[0]) if base == "floor" else (a[0], t)
                    self.axioms.append(T.land(T.le(lo, hi), T.lt(hi, T.add(lo, num(1)))))
                    return t
                return T.uf(base, tuple(a))
            if n in ("printf", "fprintf", "puts", "fflush", "putchar", "perror"):
                return self.out(fn, args, st, env, e)
            if n in ("exit", "abort", "_Exit", "quick_exit", "terminate", "__assert_fail"):
                self.escape("exit", n, st)
            if n in ("move", "forward", "addressof", "as_const"):
                lv = self.lval(args[0], st, env)
                return Ptr(lv) if n == "addressof" else lv
            if n in ("free",):
                return Opaque("void")
        if n in ("operator<<", "flush", "endl", "setprecision", "precision", "width", "setf") or "basic_ostream" in fn.get("cls", "") or "ostream" in q or "setprecision" in q:
            for a in args:
                try:
                    if a["k"] not in ("Fn",):
                        t = self.tu.strip(a["t"])
                        if self.sort(t) or t["k"] == "ptr":
                            self.ev(a, st, env)
                except Undecided:
                    pass
            return Opaque("ostream")
        return self.builtin2(fn, thislv, args, st, env, e)

    def out(self, fn, args, st, env, e):
        return Opaque("void")

    def builtin2(self, fn, thislv, args, st, env, e):
        raise Undecided("call to %s (line %s): no body and no assumed contract" % (fn["q"], e.get("ln")))

    def builtin_record(self, e, st, env, ty):
        if self.is_string(ty):
            if e["k"] == "Ctor":
                if not e["args"]:
                    return T.mk("sconst", (), "", "S")
                v = self.ev(e["args"][0], st, env)
                if isinstance(v, Term):
                    return v
                if isinstance(v, Ptr) and isinstance(v.lv, PathLV):
                    lit = st.store.get(v.lv.path[:-1] + ("#lit",))
                    if lit is not None:
                        return T.mk("sconst", (), lit.what.decode("latin1"), "S")
                return Opaque("string")
        return Opaque("record " + ty.get("q", "?"))
