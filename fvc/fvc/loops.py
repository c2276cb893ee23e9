"""Loop contracts.

Generic: `inv` is established on entry, kept by one arbitrary iteration of the
body from a state in which everything the body may change is unknown, and
assumed (with the negated loop condition) afterwards.  What the body may change
is found by executing it once and comparing the stores, so it needs no
annotation and cannot be understated."""
from . import terms as T
from .terms import TRUE, FALSE, num
from .execu import State, Alt, PathLV, ElemLV, ArrVal, Undecided, Dead, Ptr


class Inv:
    def __init__(self, inv, fresh=None, on_iter=None, on_exit=None, on_entry=None, on_ret=None):
        """inv(x, st, env) -> [(name, term)]; on_iter(x, before, after, env) may
        prove facts about one iteration; fresh(path) may name the unknowns"""
        self.inv, self.fresh, self.on_iter, self.on_exit, self.on_entry = inv, fresh, on_iter, on_exit, on_entry
        self.on_ret = on_ret
        self.ran = 0

    def changed(self, x, st, env, cond, inc, body, post):
        b = st.copy()
        nobl, nreg = len(x.obls), len(x.regions)
        ch = set()
        for rnd in range(4):
            t = b.copy()
            base = dict(t.store)
            if cond is not None and not post:
                c = x.tobool(x.ev(cond, t, dict(env)))
                if c is FALSE and rnd == 0:
                    pass
            try:
                r = x.ex(body, t, dict(env))
            except Dead:
                r = {}
            outs = [r[k] for k in ("next", "cont") if k in r]
            more = set()
            for o in list(r.values()):
                if inc is not None and o in outs:
                    x.ev(inc, o, dict(env))
                for k, v in o.store.items():
                    if k in base and base[k] is not v and not (isinstance(v, (int, T.Term)) and v == base[k]):
                        more.add(k)
                    elif k not in base and isinstance(k, tuple) and k and k[0] == "A":
                        more.add(k)
                        self.__dict__.setdefault("templ", {})[k] = v
            new = more - ch
            ch |= more
            if not new:
                break
            self.havoc(x, b, new, probe=True)
        del x.obls[nobl:]
        del x.regions[nreg:]
        return ch

    def havoc(self, x, st, keys, probe=False):
        for k in sorted(keys, key=repr):
            v = st.store.get(k)
            if isinstance(k, tuple) and k and k[0] == "A":
                if v is None:
                    v = self.__dict__.get("templ", {}).get(k)
                if v is None:
                    continue
                x.hv = getattr(x, "hv", 0) + 1
                st.store[k] = ArrVal("%s'%d" % (v.base.split("'")[0], x.hv), v.sort, None)
            elif isinstance(v, T.Term):
                n = None if probe or self.fresh is None else self.fresh(x, k)
                st.store[k] = n if n is not None else T.fresh("h", v.sort)
            elif isinstance(v, Ptr) and isinstance(v.lv, ElemLV) and len(v.lv.idx) == 1:
                st.store[k] = Ptr(ElemLV(v.lv.arr, (T.fresh("p", "I"),), v.lv.sub))
            elif isinstance(k, tuple) and k and k[0] in ("RET", "N"):
                continue
            else:
                raise Undecided("loop changes a value of kind %s" % type(v).__name__)

    def run(self, x, s, st, env, cond, inc, body, post):
        self.ran += 1
        ln = s["ln"]
        script, x.script = x.script, None
        if self.on_entry:
            self.on_entry(x, st, env)
        for n, g in self.inv(x, st, env):
            x.oblige("loop invariant holds on entry: " + n, st, g, ln)
        ch = self.changed(x, st, env, cond, inc, body, post)
        h = st
        self.havoc(x, h, ch)
        for n, g in self.inv(x, h, env):
            h.assume(g)
        ex = None
        b = h.copy()
        try:
            if cond is not None and not post:
                c = x.tobool(x.ev(cond, h, env))
                ex = h.copy()
                try:
                    ex.assume(T.lnot(c))
                except Dead:
                    ex = None
                b = h.copy()
                b.assume(c)
            before = b.copy()
            r = x.ex(body, b, dict(env))
        except Dead:
            r = {}
            before = b
        nxt = [r.pop(k) for k in ("next", "cont") if k in r]
        exits = [ex] if ex is not None else []
        if nxt:
            n1 = x.merge(nxt)
            if inc is not None:
                x.ev(inc, n1, env)
            if post and cond is not None:
                c = x.tobool(x.ev(cond, n1, env))
                e2 = n1.copy()
                try:
                    e2.assume(T.lnot(c))
                    exits.append(e2)
                except Dead:
                    pass
                try:
                    n1.assume(c)
                except Dead:
                    n1 = None
            if n1 is not None:
                for n, g in self.inv(x, n1, env):
                    x.oblige("loop invariant is kept: " + n, n1, g, ln)
                if self.on_iter:
                    self.on_iter(x, before, n1, env)
        if "brk" in r:
            bs = r.pop("brk")
            if self.on_exit:
                self.on_exit(x, before, bs, env)
            exits.append(bs)
        if "ret" in r and self.on_ret:
            self.on_ret(x, before, r["ret"], env)
        self.outs = [z.copy() for z in exits]
        x.script = script
        res = dict(r)
        if len(exits) == 2 and x.script is not None and not res:
            k = x.script_pos
            x.script_pos += 1
            if k == len(x.script):
                x.script.append((True, True))
            res["next"] = exits[0] if x.script[k][0] else exits[1]
        elif exits:
            res["next"] = x.merge(exits)
        return res


def calls_in(n, out=None):
    """names of the functions called inside a statement"""
    out = set() if out is None else out
    if isinstance(n, dict):
        fn = n.get("fn")
        if isinstance(fn, dict) and "q" in fn:
            out.add(fn["q"])
        for v in n.values():
            calls_in(v, out)
    elif isinstance(n, list):
        for v in n:
            calls_in(v, out)
    return out


def loops_in(n):
    if isinstance(n, dict):
        r = 1 if n.get("k") in ("For", "While", "Do", "Range") else 0
        return r + sum(loops_in(v) for v in n.values())
    if isinstance(n, list):
        return sum(loops_in(v) for v in n)
    return 0


class Acc:
    """contract of a counted loop that only accumulates.

    One arbitrary iteration is executed with every location the body changes set
    to an unknown; each of them must come out as  unknown + d(k)  (or, for
    minima, min(unknown, d(k))) with d free of the unknowns.  The location is
    then entry + sum of d over the iterations: by induction on k.  `specs` names
    sums: [(name, args, summand(k))]; a location whose d(k) is proved equal to a
    named summand gets  entry + name(args, hi),  otherwise  entry + an unknown."""

    fallback = True

    def __init__(self, specs=(), on_min=None, axioms=()):
        self.specs, self.on_min, self.axioms = list(specs), on_min, axioms
        self.seen = []
        self.unmatched = []

    def one(self, x, st, env, cond, inc, body):
        c = x.tobool(x.ev(cond, st, dict(env))) if cond is not None else TRUE
        st.pc.append(c)
        before = st.copy()
        r = x.ex(body, st, dict(env))
        if set(r) - {"next", "cont"}:
            raise Undecided("accumulation loop with another exit")
        o = x.merge([r[k] for k in ("next", "cont") if k in r])
        if inc is not None:
            x.ev(inc, o, env)
        return before, o, c

    def diff(self, a, b):
        """locations whose value differs between stores a (before) and b"""
        sc, el = [], []
        for k, v in b.store.items():
            o = a.store.get(k)
            if o is v:
                continue
            if isinstance(k, tuple) and k and k[0] == "A":
                ow = o.writes if o is not None else ()
                n = 0
                while n < len(ow) and n < len(v.writes) and ow[n] is v.writes[n]:
                    n += 1
                for w in v.writes[n:]:
                    if w[0] == "par" or w[0] is not TRUE:
                        raise Undecided("conditional element write in an accumulation loop")
                    if (k, w[1]) not in el:
                        el.append((k, w[1]))
            elif isinstance(v, T.Term):
                if o is None:
                    continue        # a local of the body
                sc.append(k)
            elif isinstance(k, tuple) and k and k[0] in ("RET", "N"):
                continue
            elif o is not None:
                raise Undecided("accumulation loop changes a value of kind %s" % type(v).__name__)
        return sc, el

    def get(self, st, k, idx):
        v = st.store[k]
        return v

    def run(self, x, s, st, env, cond, inc, body, post):
        if post:
            raise Undecided("do loop under an accumulation contract")
        script, x.script = x.script, None
        nobl, nreg = len(x.obls), len(x.regions)
        entry = st.copy()
        try:
            b0, a0, _ = self.one(x, st.copy(), env, cond, inc, body)
        except Dead:
            x.script = script
            return {"next": entry}
        sc, el = self.diff(b0, a0)
        del x.obls[nobl:]
        del x.regions[nreg:]
        # the counter: starts at entry value, grows by one
        def step(unk):
            g = entry.copy()
            for k, v in unk.items():
                if len(k) == 2 and isinstance(k[0], tuple) and k[0] and k[0][0] == "A":
                    key, idx = k
                    av = g.store.get(key)
                    if av is None:
                        av = type(a0.store[key])(a0.store[key].base, a0.store[key].sort, a0.store[key].init)
                    g.store[key] = type(av)(av.base, av.sort, av.init, av.writes + ((TRUE, idx, v),))
                else:
                    g.store[k] = v
            return self.one(x, g, env, cond, inc, body)
        ctr = [k for k in sc if isinstance(entry.store.get(k), T.Term) and T.eq(a0.store[k], T.add(entry.store[k], num(1))) is TRUE and entry.store[k].sort == "I"]
        unk = {k: T.fresh("acc", entry.store[k].sort) for k in sc}
        for kk in el:
            unk[kk] = T.fresh("acc", a0.store[kk[0]].sort)
        lo = {}
        for k in ctr:
            lo[k] = entry.store[k]
        extra = [T.le(lo[k], unk[k]) for k in ctr]
        sv = list(entry.pc)
        entry.pc.extend(extra)
        b1, a1, c = step(unk)
        entry.pc[:] = sv
        ctr = [k for k in ctr if T.eq(a1.store[k], T.add(unk[k], num(1))) is TRUE]
        fv = set(T.free_vars([c]))
        ctr = [k for k in ctr if unk[k] in fv]
        if len(ctr) != 1:
            x.script = script
            raise Undecided("accumulation loop at line %s: no counter" % s["ln"])
        ck = ctr[0]
        kv = unk[ck]
        # hi from c: k < hi
        if c.op != "lt" or c.args[0] is not kv or kv in T.free_vars([c.args[1]]):
            x.script = script
            raise Undecided("accumulation loop at line %s: bound not of the form k < n" % s["ln"])
        hi = c.args[1]
        if set(unk.values()) & set(T.free_vars([hi])):
            x.script = script
            raise Undecided("accumulation loop at line %s: bound changes" % s["ln"])
        sc1, el1 = self.diff(b1, a1)
        for kk in el1:
            if kk not in unk:
                x.script = script
                raise Undecided("accumulation loop at line %s: writes depend on the counter" % s["ln"])
        for k in sc1:
            if k not in unk:
                x.script = script
                raise Undecided("accumulation loop at line %s: changes more than its first iteration" % s["ln"])
        others = {v for k, v in unk.items() if k is not ck}
        from .algebra import Alg
        res = {}
        for k, v in unk.items():
            if k is ck:
                continue
            isel = len(k) == 2 and isinstance(k[0], tuple) and k[0] and k[0][0] == "A"
            if isel:
                new = x.aval_read(a1.store[k[0]], k[1], a1.store[k[0]].sort)
                old = entry.store.get(k[0])
                if old is None and isinstance(a1.store[k[0]].init, Alt):
                    raise Undecided("array with two origins in an accumulation loop")
                old = x.aval_read(old, k[1], old.sort) if old is not None else (a1.store[k[0]].init if a1.store[k[0]].init is not None else T.uf(a1.store[k[0]].base, k[1], a1.store[k[0]].sort))
            else:
                new, old = a1.store[k], entry.store[k]
            res[k] = self.location(x, k, v, old, new, kv, lo[ck], hi, others, b1.pc)
        out = entry
        for k, v in res.items():
            if len(k) == 2 and isinstance(k[0], tuple) and k[0] and k[0][0] == "A":
                av = out.store.get(k[0])
                if av is None:
                    av = type(a0.store[k[0]])(a0.store[k[0]].base, a0.store[k[0]].sort, a0.store[k[0]].init)
                ws = tuple(w for w in av.writes if not (w[0] is TRUE and w[1] == k[1]))
                out.store[k[0]] = type(av)(av.base, av.sort, av.init, ws + ((TRUE, k[1], v),)) if len(ws) == len(av.writes) - 1 or len(ws) == len(av.writes) else av
            else:
                out.store[k] = v
        out.store[ck] = T.ite(T.lt(lo[ck], hi), hi, lo[ck])
        x.script = script
        return {"next": out}

    def location(self, x, key, a, old, new, kv, lo, hi, others, pc):
        if a not in T.free_vars([new]) and not (others & set(T.free_vars([new]))):
            # overwritten every time: last value
            last = T.subst(new, {kv: T.sub(hi, num(1))})
            return T.ite(T.lt(lo, hi), last, old)
        d = T.sub(new, a)
        if self.on_min is not None:
            r = self.on_min(x, key, a, old, new, kv, lo, hi, pc)
            if r is not None:
                return r
        from .algebra import Alg

        def delta(t):
            if t.op == "ite" and a in T.free_vars([t]):
                return T.ite(t.args[0], delta(t.args[1]), delta(t.args[2]))
            q = T.sub(t, a)
            if t.sort == "I":
                m, c = T.linform(q)
                return q if m else num(int(c))
            if a not in T.free_vars([q]):
                return q
            try:
                al = Alg()
                n, dd = al.rf(q)
                return T.div(al.poly_to_term(n), al.poly_to_term(dd))
            except Exception:
                return q
        dt = delta(new)
        if (others | {a}) & set(T.free_vars([dt])):
            raise Undecided("accumulation loop: a location is not an accumulator: %s" % T.show(dt, 6))
        if T.eq(dt, T.real(0)) is TRUE:
            return old
        for name, args, summand in self.specs:
            if T.eq(lo, num(0)) is not TRUE:
                continue
            sterm = summand(kv)
            if Alg().equal(dt, sterm) or x.prover_check(pc, T.eq(dt, sterm)):
                self.seen.append(name)
                return T.add(old, T.uf(name, tuple(args) + (hi,), "R"))
        self.unmatched.append(T.show(dt, 6))
        return T.add(old, T.fresh("sum", a.sort))


class Search(Inv):
    """generic invariant of a serial loop with a counter that may also leave
    early: inv(x, st, k, lo) is about the counter's current value k, ret(x,
    before, k, after) proves what holds where the loop returns"""

    def __init__(self, inv, ret=None, brk=None):
        super().__init__(lambda x, st, env: [] if self.ck is None else inv(x, st, st.store[self.ck], self.lo))
        if ret:
            self.on_ret = lambda x, b, a, env: ret(x, b, b.store[self.ck], a)
        if brk:
            self.on_exit = lambda x, b, a, env: brk(x, b, b.store[self.ck], a)
        self.ck = None

    def run(self, x, s, st, env, cond, inc, body, post):
        nobl, nreg = len(x.obls), len(x.regions)
        script, x.script = x.script, None
        p = st.copy()
        b0 = dict(p.store)
        try:
            if cond is not None and not post:
                c = x.tobool(x.ev(cond, p, dict(env)))
                p.assume(c)
            r = x.ex(body, p, dict(env))
            o = x.merge([r[k] for k in ("next", "cont") if k in r])
            if inc is not None:
                x.ev(inc, o, dict(env))
        except (Dead, KeyError, ValueError, IndexError):
            raise Undecided("loop at line %s: first iteration does not go on" % s["ln"])
        finally:
            x.script = script
            del x.obls[nobl:]
            del x.regions[nreg:]
        ctr = [k for k, v in o.store.items() if isinstance(b0.get(k), T.Term) and b0[k].sort == "I" and b0[k] is not v and T.eq(v, T.add(b0[k], num(1))) is TRUE]
        if len(ctr) != 1:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        self.ck, self.lo = ctr[0], st.store[ctr[0]]
        return super().run(x, s, st, env, cond, inc, body, post)


class Each:
    """contract of a serial counted loop whose iterations are independent: one
    arbitrary iteration is executed, its element writes (indexed by the counter)
    hold for every iteration.  The iteration may not change anything else; that
    no iteration reads what another writes is an obligation (`independent`)."""

    fallback = True

    def __init__(self):
        self.ran = 0

    def run(self, x, s, st, env, cond, inc, body, post):
        if post or cond is None or inc is None:
            raise Undecided("loop is not a counted loop")
        script, x.script = x.script, None
        # find the counter by stepping once
        p = st.copy()
        b0 = dict(p.store)
        x.ev(inc, p, dict(env))
        ctr = [k for k, v in p.store.items() if b0.get(k) is not v]
        if len(ctr) != 1 or T.eq(p.store[ctr[0]], T.add(b0[ctr[0]], num(1))) is not TRUE:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        ck = ctr[0]
        lo = st.store[ck]
        iv = T.fresh("i", "I")
        g = st.copy()
        g.store[ck] = iv
        c = x.tobool(x.ev(cond, g, dict(env)))
        if c.op != "lt" or c.args[0] is not iv or iv in T.free_vars([c.args[1]]):
            raise Undecided("loop at line %s: bound not of the form k < n" % s["ln"])
        hi = c.args[1]
        before = g.copy()
        g.pc += [T.le(lo, iv), c]
        npc = len(g.pc)
        old = x.track_reads
        x.track_reads = reads = []
        r = x.ex(body, g, dict(env))
        x.track_reads = old
        if set(r) - {"next", "cont"}:
            raise Undecided("loop at line %s has another exit" % s["ln"])
        after = x.merge([r[k] for k in ("next", "cont") if k in r])
        for k, v in after.store.items():
            o = before.store.get(k)
            if o is v or o is None or (isinstance(k, tuple) and k and k[0] in ("A", "RET", "N")):
                continue
            raise Undecided("loop at line %s changes a variable" % s["ln"])
        reg = dict(ivs=[iv], guard=T.land(T.le(lo, iv), c), before=before, after=after, reads=reads, ln=s["ln"], rng=[(lo, hi)], fn=x.cur[-1] if x.cur else "", npc=npc, serial=True)
        x.regions.append(reg)
        x.summarise(reg, st)
        st.store[ck] = T.ite(T.lt(lo, hi), hi, lo)
        x.script = script
        self.ran += 1
        return {"next": st}


class Any(Inv):
    """contract of a serial counted loop: its body is executed for one arbitrary
    iteration from a state in which everything the loop changes is unknown;
    what that iteration does is recorded in `iters` for the property to judge."""

    fallback = True

    def __init__(self):
        Inv.__init__(self, lambda x, st, env: [])
        self.iters = []

    def run(self, x, s, st, env, cond, inc, body, post):
        if post or cond is None or inc is None:
            raise Undecided("loop is not a counted loop")
        p = st.copy()
        b0 = dict(p.store)
        x.ev(inc, p, dict(env))
        ctr = [k for k, v in p.store.items() if b0.get(k) is not v]
        if len(ctr) != 1 or T.eq(p.store[ctr[0]], T.add(b0[ctr[0]], num(1))) is not TRUE:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        ck, lo = ctr[0], st.store[ctr[0]]

        def it(x, before, after, env):
            iv = before.store[ck]
            hi = [c.args[1] for c in before.pc if c.op == "lt" and c.args[0] is iv]
            if len(hi) != 1 or iv in T.free_vars([hi[0]]):
                raise Undecided("loop at line %s: bound not of the form k < n" % s["ln"])
            if T.eq(after.store[ck], T.add(iv, num(1))) is not TRUE:
                raise Undecided("loop at line %s: the body changes the counter" % s["ln"])
            self.iters.append(dict(iv=iv, lo=lo, hi=hi[0], before=before, after=after.copy(), regions=x.regions[n0:], ln=s["ln"]))
        n0 = len(x.regions)
        inv0, it0 = self.inv, self.on_iter
        self.inv = lambda x, st, env: [("counter", T.le(lo, st.store[ck]))]
        self.on_iter = it
        try:
            return Inv.run(self, x, s, st, env, cond, inc, body, post)
        finally:
            self.inv, self.on_iter = inv0, it0
