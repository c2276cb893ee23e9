"""memory footprints of data-parallel loops.

Every parallel construct of a translation unit is a program point.  Its ranges
and its body are executed from an arbitrary state (each variable of the
enclosing function has an arbitrary value of its type), for one arbitrary
iteration; every access to memory that outlives the iteration is recorded with
the condition under which it happens.  Two different iterations are two
renamings of that footprint."""
from .execu import *
from .execu import marr_class
from .loops import Inv, calls_in
from . import terms as T


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


PAR = ("par_for", "red_sum", "red_min", "red_max", "red_pro")


def is_par(n):
    q = (n.get("fn") or {}).get("q", "") if n.get("k") == "Call" else ""
    if q.startswith("fvc_par::") and q[9:].startswith(PAR):
        return True
    return q in ("Kokkos::parallel_for", "Kokkos::parallel_reduce")


def sites(tu, keep):
    """[(function, ordinal, call node)] of the functions accepted by keep(f)"""
    out = []
    for f in tu.funcs.values():
        if not f.get("body") or not keep(f):
            continue
        found = []
        walk(f["body"], lambda n: found.append(n) if is_par(n) else None)
        found.sort(key=lambda n: n.get("ln") or 0)
        for k, n in enumerate(found):
            out.append((f, k, n))
    return out


class Access:
    def __init__(self, rw, arr, sub, idx, pc, ln, atomic=False, val=None):
        self.rw, self.arr, self.sub, self.idx, self.pc, self.ln, self.atomic, self.val = rw, arr, sub, idx, pc, ln, atomic, val
        self.prefix = False

    def key(self):
        return (self.arr.id if isinstance(self.arr, MArr) else self.arr, self.sub)

    def name(self):
        n = self.arr.name if isinstance(self.arr, MArr) else str(self.arr)
        return n + "".join("." + str(s) for s in self.sub)


class FootLoop(Inv):
    """a serial loop: an arbitrary iteration, the only invariant is that a
    counter that only goes up stays above its start"""

    fallback = True

    def __init__(self):
        Inv.__init__(self, lambda x, st, env: [])

    def changed(self, x, *a):
        rec, x.rec = x.rec, None
        try:
            return Inv.changed(self, x, *a)
        finally:
            x.rec = rec

    def run(self, x, s, st, env, cond, inc, body, post):
        inv0 = self.inv
        self.inv = lambda x, st, env: []
        if inc is not None and not post:
            p = st.copy()
            b0 = dict(p.store)
            rec, x.rec = x.rec, None
            try:
                x.ev(inc, p, dict(env))
                ctr = [k for k, v in p.store.items() if k in b0 and b0[k] is not v]
                if len(ctr) == 1 and isinstance(b0[ctr[0]], T.Term) and b0[ctr[0]].sort == "I" and T.eq(p.store[ctr[0]], T.add(b0[ctr[0]], num(1))) is T.TRUE:
                    ck, lo = ctr[0], b0[ctr[0]]

                    def inv(x, st, env):
                        v = st.store.get(ck)
                        if not isinstance(v, T.Term):
                            return []
                        x.counters.add(v)
                        return [("counter", T.le(lo, v))]
                    self.inv = inv
            except (Undecided, Dead):
                pass
            x.rec = rec
        try:
            return Inv.run(self, x, s, st, env, cond, inc, body, post)
        finally:
            self.inv = inv0


class Foot(Executor):
    def __init__(self, tu, fn, models=None):
        Executor.__init__(self, tu, fn["q"], max_unroll=64)
        self.fn = fn
        self.rec = None
        self.cap = {}
        self.models = models or {}
        self.loops = {"*": FootLoop()}
        self.bounds = False
        self.abstract = True
        self.limit = None
        self.decls = {}
        self.ln = None
        self.acc = None
        walk(fn["body"], self.collect)
        for p in fn["params"]:
            self.decls[p["id"]] = p
        self.counters = set()

    def collect(self, n):
        if n.get("k") == "Decl":
            for d in n["d"]:
                self.decls[d["id"]] = d

    # ---- variables of the enclosing function, on demand
    def lval(self, e, st, env):
        if e.get("ln"):
            self.ln = e["ln"]
        if e["k"] == "Var" and not e.get("g") and env.get(e["id"]) is None:
            return self.capture(e, st)
        if e["k"] == "This" and env.get("this") is None:
            return self.this(st)
        return Executor.lval(self, e, st, env)

    def this(self, st):
        if "this" not in self.cap:
            self.cap["this"] = self.newobj("this", True)
            self.outer.add(self.cap["this"].path[0])
        return self.cap["this"]

    def e_This(self, e, st, env):
        return Ptr(env.get("this") or self.this(st))

    def capture(self, e, st):
        i = e["id"]
        if i in self.cap:
            return self.cap[i]
        d = self.decls.get(i)
        ty = self.tu.types[d["t"]] if d else self.tu.types[e["t"]]
        init = d.get("init") if d else None
        rec, self.rec = self.rec, None
        try:
            if ty["k"] == "ref" and init is not None:
                lv = self.lval(init, st, {})
                self.cap[i] = lv
                return lv
            base = self.tu.strip(d["t"] if d else e["t"])
            lv = self.newobj(e["n"], True)
            self.outer.add(lv.path[0])
            self.cap[i] = lv
            if init is not None and ty["k"] != "ref":
                s = self.sort(base)
                if s in ("I", "B") and "const" in ty["s"]:
                    try:
                        v = self.ev(init, State(dict(st.store), []), {})
                        if isinstance(v, T.Term) and T.isnum(v):
                            st.store[lv.path] = v
                    except (Undecided, Dead):
                        pass
                elif not s and base["k"] in ("rec", "ptr"):
                    m = marr_class(base) if base["k"] == "rec" else None
                    fresh = m and m[0] == "own" and init.get("k") == "Ctor" and not init.get("copy") and not init.get("move")
                    if not fresh and not self.is_string(base) and not (base["k"] == "rec" and self.sysrec(base) and not m):
                        self.setsize(st, lv.path, base)
                        self.init(st, lv, base, init, {})
            elif ty["k"] == "arr":
                self.setsize(st, lv.path, ty)
            return lv
        finally:
            self.rec = rec

    # ---- recording
    def note_access(self, rw, arr, sub, idx, st, atomic=False, val=None):
        if self.rec is not None:
            if not (isinstance(val, T.Term) and (T.isnum(val) or val.op in ("bool", "true", "false"))):
                val = None
            self.rec.append(Access(rw, arr, sub, tuple(T.lift(i) for i in idx), tuple(st.pc), self.ln, atomic, val))

    def aread(self, st, arr, idx, sub, ty):
        idx = tuple(T.lift(i) for i in idx)
        if arr.id <= self.limit or arr in self.input_arrays.values():
            self.note_access("r", arr, sub, idx, st)
        return Executor.aread(self, st, arr, idx, sub, ty)

    def awrite(self, st, arr, idx, sub, ty, val, guard=TRUE):
        idx = tuple(T.lift(i) for i in idx)
        st0 = st
        if guard is not TRUE:
            st = st.copy()
            st.pc.append(guard)
        self.note_access("w", arr, sub, idx, st, val=val)
        if self.sort(ty) is None:       # a record or a pointer: its content is not followed
            return
        if self.abstract and self.sort(ty) == "R":
            st0.store[("A", arr.id, sub)] = ArrVal("%s'%d" % (arr.name, T._fresh[0]), "R", None)
            T.fresh("w", "R")
            return
        Executor.awrite(self, st0, arr, idx, sub, ty, val, guard)

    def origin(self, k, v):
        T._fresh[0] += 1
        return ArrVal("%s'%d" % (v.base.split("'")[0], T._fresh[0]), v.sort, None)

    def ptr_eq(self, l, r):
        try:
            return Executor.ptr_eq(self, l, r)
        except Undecided:
            return T.fresh("v", "B")

    def shared(self, lv):
        return isinstance(lv, PathLV) and lv.path[0] in self.outer

    def read(self, st, lv, ty):
        if self.shared(lv) and self.sort(ty):
            p = tuple(c for c in lv.path if not isinstance(c, T.Term))
            ix = tuple(c for c in lv.path if isinstance(c, T.Term))
            self.note_access("r", "." .join(map(str, (self.pname(p[:1]),) + p[1:])), (), ix, st)
        return Executor.read(self, st, lv, ty)

    def write(self, st, lv, ty, val, guard=TRUE):
        if self.shared(lv):
            p = tuple(c for c in lv.path if not isinstance(c, T.Term))
            ix = tuple(c for c in lv.path if isinstance(c, T.Term))
            self.note_access("w", ".".join(map(str, (self.pname(p[:1]),) + p[1:])), (), ix, st)
        if self.abstract and isinstance(val, T.Term) and val.sort == "R" and not T.isnum(val) and val.op not in ("var", "uf"):
            val = T.fresh("v", "R")
        if isinstance(lv, PathLV) and any(isinstance(c, T.Term) for c in lv.path):
            # store into a local array at an unknown place: the array becomes unknown
            n = next(k for k, c in enumerate(lv.path) if isinstance(c, T.Term))
            for k in [k for k in st.store if isinstance(k, tuple) and k[:n] == lv.path[:n]]:
                v = st.store[k]
                if isinstance(v, T.Term):
                    st.store[k] = T.fresh("u", v.sort)
            return
        return Executor.write(self, st, lv, ty, val, guard)

    def read_sym(self, st, path, n, ty):
        s = self.sort(ty)
        if s == "R" or st.store.get(("N",) + path[:n]) is None:
            if s:
                return T.fresh("u", s)
        return Executor.read_sym(self, st, path, n, ty)

    def intrinsic(self, fn, thislv, args, st, env, e):
        if fn["n"] == "league_rank":
            return self.league
        if fn["q"] == "Kokkos::atomic_add" or fn["q"].startswith("Kokkos::atomic_"):
            p = self.ev(args[0], st, env)
            for a in args[1:]:
                self.ev(a, st, env)
            if not isinstance(p, Ptr):
                raise Undecided("atomic on unknown pointer")
            self.atomic(p.lv, st, fn["n"])
            return T.fresh("at", "R")
        return Executor.intrinsic(self, fn, thislv, args, st, env, e)

    def builtin(self, fn, thislv, args, st, env, e):
        if fn["n"] == "league_rank":
            return self.league
        return Executor.builtin(self, fn, thislv, args, st, env, e)

    def kokkos_par(self, fn, args, st, env, e):
        """work shared inside a team: an arbitrary iteration of it"""
        if fn["n"] == "parallel_reduce" and any(c.startswith("Kokkos::TeamThreadRange") for c in calls_in(args)):
            k = next(k for k, a in enumerate(args) if self.lam(a) is not None)
            cl = self.closure_of(args[k], st, env)
            f = self.tu.funcs.get(cl.fn["id"])
            b = st.copy()
            acc = self.newobj("acc")
            ty = self.tu.strip(f["params"][1]["t"])
            b.store[acc.path] = T.fresh("acc", self.sort(ty) or "R")
            try:
                self.call_closure(cl, [T.fresh("k", "I"), acc], b)
            except Dead:
                pass
            lv = self.lval(args[k + 1], st, env)
            self.write(st, lv, self.tu.strip(args[k + 1]["t"]), T.fresh("v", "R"))
            return Opaque("void")
        if fn["n"] == "parallel_for":
            k = next(k for k, a in enumerate(args) if self.lam(a) is not None)
            cl = self.closure_of(args[k], st, env)
            old = self.__dict__.get("league")
            self.league = T.fresh("k", "I")
            try:
                self.call_closure(cl, [self.league], st)
            except Dead:
                pass
            self.league = old
            return Opaque("void")
        return Executor.kokkos_par(self, fn, args, st, env, e)

    def atomic(self, lv, st, kind):
        if isinstance(lv, ElemLV):
            self.note_access("a:" + kind, lv.arr, lv.sub, lv.idx, st, True)
        elif self.shared(lv):
            self.note_access("a:" + kind, self.pname(lv.path) or str(lv.path), (), (), st, True)
        elif isinstance(lv, IteV):
            self.atomic(lv.a, st, kind)
            self.atomic(lv.b, st, kind)

    def marr_call(self, fn, thislv, args, st, env, e):
        if fn["n"] == "set_values":
            raise Undecided("whole-array operation inside a loop")
        return Executor.marr_call(self, fn, thislv, args, st, env, e)

    # ---- one site
    def run_site(self, node):
        self.outer = set()
        self.limit = MArr._n
        st = State()
        env = {}
        args = node["args"]
        lam = next((k for k, a in enumerate(args) if self.lam(a) is not None), None)
        if lam is None:
            raise Undecided("the loop body is not a lambda expression")
        n = node["fn"]["n"]
        kk = node["fn"]["q"].startswith("Kokkos::")
        red = n.startswith("red_") or n == "parallel_reduce"
        if kk:
            rng, d = [(T.num(0), T.fresh("u", "I"))], 1
            if n == "parallel_reduce" and not any(c.startswith("Kokkos::TeamThreadRange") for c in calls_in(args)):
                raise Undecided("parallel_reduce over another kind of range")
        else:
            d = int(n[-1])
            rng = [(self.ev(args[2 * i], st, env), self.ev(args[2 * i + 1], st, env)) for i in range(d)]
        lexp = self.lam(args[lam])
        f = self.tu.funcs.get(lexp["fn"]["id"])
        if f is None:
            raise Undecided("lambda body missing")
        walk(f["body"], self.collect)
        ivs, guard = [], []
        st.pc = []
        self.mark = T._fresh[0]
        for (lo, hi), p in zip(rng, f["params"]):
            iv = T.fresh("i_" + p["n"], "I")
            ivs.append(iv)
            guard += [T.le(lo, iv), T.lt(iv, hi)]
        st.pc = [g for g in guard if g is not TRUE]
        self.rec = []
        fenv = {"this": None}
        for p, iv in zip(f["params"], ivs):
            lv = self.newobj(p["n"])
            st.store[lv.path] = iv
            fenv[p["id"]] = lv
            if kk and not self.sort(self.tu.strip(p["t"])):
                self.league = iv
        acc = None
        if red:
            p = f["params"][d]
            acc = self.newobj("acc")
            ty = self.tu.strip(p["t"])
            a0 = T.fresh("acc", self.sort(ty) or "R")
            st.store[acc.path] = a0
            fenv[p["id"]] = acc
            self.acc = (acc, a0, "sum" if kk else n[4:7])
        self.cur.append(f["q"])
        self.frame0 = fenv
        try:
            self.run_body(f, st, fenv)
        except Dead:
            pass
        self.note(self.fn)
        foot, self.rec = self.rec, None
        return ivs, guard, foot, st

    def lam(self, a):
        while isinstance(a, dict):
            if a.get("k") == "Lambda":
                return a
            if a.get("k") in ("Cast", "Mat", "Paren") and isinstance(a.get("e"), dict):
                a = a["e"]
                continue
            if a.get("k") == "Ctor" and len(a.get("args") or []) == 1:
                a = a["args"][0]
                continue
            if a.get("k") == "Var" and a.get("id") in self.decls and self.decls[a["id"]].get("init"):
                a = self.decls[a["id"]]["init"]
                continue
            return None
        return None


def is_fresh(v, mark):
    n = v.val if isinstance(v.val, str) else str(v)
    if "!" not in n:
        return False
    try:
        return int(n.rsplit("!", 1)[1]) > mark
    except ValueError:
        return False


def rename(t, mark, memo):
    """the same term in another iteration"""
    if t.id in memo:
        return memo[t.id]
    if t.op == "var":
        r = T.var(t.val + "~", t.sort) if is_fresh(t, mark) else t
    elif not t.args:
        r = t
    else:
        na = tuple(rename(a, mark, memo) for a in t.args)
        if t.op == "uf" and "'" in t.val:
            r = T.uf(t.val + "~", na, t.sort)
        elif all(p is q for p, q in zip(na, t.args)):
            r = t
        else:
            r = T.rebuild(t, na)
    memo[t.id] = r
    return r
