"""C25 tables are interpolated linearly"""
from props.multi import *
from fvc.loops import Search


def run(ck):
    TUF = os.path.join(VERIF, "fvc/tu/table.cpp")

    def table(x, st):
        t = x.newobj("table", True)
        m = MArr("data")
        x.input_arrays["data"] = m
        st.store[t.path + ("data",)] = m
        return t, m

    def u_lookup(u, fn):
        tu = ck.tu(TUF, INCS)
        f = tu.find("Table_t::" + fn)
        x = Executor(tu)
        st = State()
        t, m = table(x, st)
        n = T.var("rows", "I")
        st.store[t.path + ("num_rows",)] = n
        st.store[t.path + ("num_columns",)] = T.var("columns", "I")
        st.pc.append(T.le(num(0), n))
        X, dep, ind = T.var("X", "R"), T.var("dep", "I"), T.var("ind", "I")
        A = lambda r, c: rd(x, State(), m, (r, c))
        rets = []

        def inv(x, st, k, lo):
            return [("the value lies above every row passed", T.lt(A(k, ind), X)), ("the counter stays in the table", T.land(T.le(num(0), k), T.le(k, n - num(1))))]

        def ret(x, b, k, a):
            v = [w for q, w in a.store.items() if q[0] == "RET"][-1]
            y0, y1, x0, x1 = A(k, dep), A(k + num(1), dep), A(k, ind), A(k + num(1), ind)
            h = a.pc + [T.lt(num(1), n)]
            rets.append(1)
            u.prove("a value between two rows lies on the straight line through them", h, T.eq((v - y0) * (x1 - x0), (y1 - y0) * (X - x0)), x)
            u.prove("the rows bracket the value (the step of a repeated value goes to the row before)", h, T.land(T.lt(x0, X), T.le(X, x1)), x)
            u.prove("both rows are in the table", h, T.land(T.le(num(0), k), T.lt(k + num(1), n)), x)
        lp = Search(inv, ret)
        x.loops["*"] = lp
        v = call_fn(x, f, [X, dep, ind], st, this=t)
        u.shape("the rows are searched in order", lp.ran == 1 and rets)
        lo, hi = A(num(0), ind), A(n - num(1), ind)
        one = T.lt(num(0), n)
        u.prove("at or below the first row the first value is returned", st.pc + [one, T.le(X, lo)], T.eq(v, A(num(0), dep)), x)
        u.prove("at or above the last row the last value is returned", st.pc + [one, T.lt(lo, X), T.le(hi, X)], T.eq(v, A(n - num(1), dep)), x)
        u.prove("an empty table gives zero", st.pc + [T.eq(n, num(0))], T.eq(v, T.real(0)), x)
        for o in lp.outs:
            u.prove("a value between the first and the last row is always bracketed", o.pc, FALSE, x)
        u.obligations(x)
        i, j = T.var("i", "I"), T.var("j", "I")
        u.prove("the table is not changed", st.pc, T.eq(rd(x, st, m, (i, j)), A(i, j)), x)
    ck.unit("lookup device", lambda u: u_lookup(u, "linear_interpolation"))
    ck.unit("lookup host", lambda u: u_lookup(u, "linear_interpolation_host"))

    def lookup(x, log=None):
        def run(x, st, thislv, cargs, env, e):
            p = ".".join(str(q) for q in thislv.path)
            v = [argv(x, st, cargs, env, k) for k in range(len(cargs))]
            if len(v) == 2:
                v.append(num(0))
            return T.uf("lookup " + p, tuple(v), "R")
        x.contracts["Table_t::linear_interpolation"] = run
        return lambda p, *a: T.uf("lookup " + ".".join(str(q) for q in p), tuple(T.lift(q) for q in a), "R")

    def u_path(u):
        tu = ck.tu(TUF, INCS)
        for fn, outs in (("get_position", (1, 2, 3)), ("get_power", (4,))):
            x = Executor(tu)
            L = lookup(x)
            st = State()
            this = obj(x, st, "self")
            t = T.var("t", "R")
            if fn == "get_power":
                v = call_fn(x, tu.find("ToolPathInfo::get_power"), [t], st, this=this)
                u.prove("the power is the power column at the time", st.pc, T.eq(v, L(this.path + ("tool_path_table",), t, 4, 0)), x)
            else:
                o = [x.newobj(c) for c in "xyz"]
                call_fn(x, tu.find("ToolPathInfo::get_position"), [t] + o, st, this=this)
                for k, lv in enumerate(o):
                    u.prove("coordinate %s is its own column at the time" % "xyz"[k], st.pc, T.eq(x.read(st, lv, R), L(this.path + ("tool_path_table",), t, k + 1, 0)), x)
            u.obligations(x)
        x = Executor(tu)
        st = State()
        this = obj(x, st, "self")
        m = MArr("data")
        st.store[this.path + ("tool_path_table", "data")] = m
        v = [T.var(q, "R") for q in "time x y z power".split()]
        i, j = T.var("i", "I"), T.var("j", "I")
        call_fn(x, tu.find("ToolPathInfo::set_data_point"), [i] + v, st, this=this)
        for k in range(5):
            u.prove("a path point stores column %d" % k, st.pc, T.eq(rd(x, st, m, (i, k)), v[k]), x)
        p = T.var("p", "I")
        u.prove("other path points are kept", st.pc + [T.ne(i, p)], T.eq(rd(x, st, m, (p, j)), rd(x, State(), m, (p, j))), x)
        u.obligations(x)
    ck.unit("tool path", u_path)

    def u_props(u):
        tu = ck.tu(TUF, INCS)
        for fn in ("density", "thermal_conductivity", "specific_heat"):
            x = Executor(tu)
            L = lookup(x)
            st = State()
            t = T.var("t", "R")
            tab = obj(x, st, "table")
            v = call_fn(x, tu.find("TabularMaterialModel::get_%s_from_temperature" % fn), [tab, t], st)
            u.prove("the %s is its table's value at the temperature" % fn, st.pc, T.eq(v, L(tab.path, t, 1, 0)), x)
            u.obligations(x)
    ck.unit("material tables", u_props)
    n = 20000 if ck.tier == "quick" else 1000000
    exe = ck.compile("table", [HARN + "/table.cpp", D + "input/read_abaqus_files.cpp"], INCS)
    ck.run_harness("lookups and material files", exe, [ck.seed, n], bound="%d tables of 1 to 12 rows with repeated values, tool paths and material files of random layout" % n)
