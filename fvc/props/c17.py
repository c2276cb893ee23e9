"""C17 equations of state, state update, erosion"""
from props.multi import *
from fvc.loops import Each

S3 = D + "Solvers/SGH_solver_3D/src/properties.cpp"
SR = D + "Solvers/SGH_solver_rz/src/properties_rz.cpp"
US = "Materials mesh coords vel velgrad den pres stress stress_n0 sspd sie volfrac geo vol mass eos_state strength_state eroded shear elem_in_mat time dt alpha cycle num mat".split()
ST = "Materials mesh vol coords vel velgrad den sie pres stress stress_n0 sspd eos_state strength_state shear elem_in_mat num mat fuzz small time dt alpha cycle".split()
PA = "pres stress point mat eos_state sspd den sie globals".split()
CA = "pres stress point mat eos_state sspd den sie shear globals".split()
ER = "eroded stress pres den sie sspd tension density point mat".split()
B = {"k": "bool"}


def run(ck):
    def call(u, fn, names):
        tu = ck.tu(os.path.join(VERIF, "fvc/tu/mat.cpp"), INCS)
        x = Executor(tu)
        st = State()
        f = tu.find(fn)
        args, a = mk_args(x, st, f, names)
        call_fn(x, f, args, st)
        return x, st, a

    def u_eos(u, ns, pres, sspd, hyp):
        for fn, names, out, want in (("calc_pressure", PA, "pres", pres), ("calc_sound_speed", CA, "sspd", sspd)):
            x, st, a = call(u, ns + "::" + fn, names)
            s0 = State()
            g = lambda k: rd(x, s0, a["globals"], (a["mat"], k))
            w = want(g, a["den"], a["sie"])
            u.prove(fn, st.pc + [h(g, a["den"], a["sie"]) for h in hyp], T.eq(rd(x, st, a[out], (a["mat"], a["point"])), w), x)
            p, q = T.var("p", "I"), T.var("q", "I")
            u.prove(fn + " changes this material point only", st.pc + [T.lnot(T.land(T.eq(q, a["mat"]), T.eq(p, a["point"])))], T.eq(rd(x, st, a[out], (q, p)), rd(x, s0, a[out], (q, p))), x)
            for o in ("pres", "sspd", "eos_state"):
                if o != out:
                    u.prove(fn + " leaves %s alone" % o, st.pc, T.eq(rd(x, st, a[o], (q, p)), rd(x, s0, a[o], (q, p))), x)
            u.prove(fn + " leaves stress alone", st.pc, T.eq(rd(x, st, a["stress"], (q, p, 0, 1)), rd(x, s0, a["stress"], (q, p, 0, 1))), x)
            u.obligations(x)
    dpos = lambda g, d, e: T.lt(T.real(0), d)
    ck.unit("EOS linear elastic", lambda u: u_eos(u, "LinearElasticEOS", lambda g, d, e: g(0) * (d / g(2) - T.real(1)), lambda g, d, e: T.tmax(g(3), T.sqrt((g(0) + T.real(Fraction(4, 3)) * g(1)) / d)), [dpos, lambda g, d, e: T.lt(T.real(0), g(2))]))
    ck.unit("EOS gamma law", lambda u: u_eos(u, "GammaLawGasEOSModel", lambda g, d, e: (g(0) - T.real(1)) * e * d, lambda g, d, e: T.tmax(g(1), T.sqrt(g(0) * (g(0) - T.real(1)) * e)), []))
    ck.unit("EOS void", lambda u: u_eos(u, "VoidEOSModel", lambda g, d, e: T.real(0), lambda g, d, e: T.real(Fraction(1, 10 ** 32)), []))

    def u_none(u, ns):
        for fn, names in (("calc_pressure", PA), ("calc_sound_speed", CA)):
            x, st, a = call(u, ns + "::" + fn, names)
            p, q = T.var("p", "I"), T.var("q", "I")
            for o in ("pres", "sspd", "eos_state"):
                u.prove(fn + " leaves %s alone" % o, st.pc, T.eq(rd(x, st, a[o], (q, p)), rd(x, State(), a[o], (q, p))), x)
            u.obligations(x)
    for ns in ("NoEOSModel",):
        ck.unit("EOS " + ns, lambda u, ns=ns: u_none(u, ns))

    def u_erode(u, ns):
        x, st, a = call(u, ns + "::erode", ER)
        p, q = T.var("p", "I"), T.var("q", "I")
        s0 = State()
        old, new = (rd(x, z, a["eroded"], (q, p), B) for z in (s0, st))
        here = T.land(T.eq(q, a["mat"]), T.eq(p, a["point"]))
        fail = T.lor(T.le(a["pres"], a["tension"]), T.le(a["den"], a["density"])) if ns == "BasicErosionModel" else FALSE
        u.prove("a point fails when its pressure or density is at most the threshold, and stays failed", st.pc + [here, T.lor(fail, old)], new, x)
        u.prove("a point within both thresholds is not eroded", st.pc + [here, T.lnot(fail), T.lnot(old)], T.lnot(new), x)
        u.prove("other points keep their state", st.pc + [T.lnot(here), old], new, x)
        u.prove("other points keep their state (2)", st.pc + [T.lnot(here), T.lnot(old)], T.lnot(new), x)
        u.prove("the stress is not touched", st.pc, T.eq(rd(x, st, a["stress"], (q, p, 0, 1)), rd(x, s0, a["stress"], (q, p, 0, 1))), x)
        u.obligations(x)
    ck.unit("erosion basic", lambda u: u_erode(u, "BasicErosionModel"))
    ck.unit("erosion none", lambda u: u_erode(u, "NoErosionModel"))

    def u_state(u, rz):
        tu = ck.tu(SR if rz else S3, INCS)
        x = Executor(tu)
        x.binds["mesh.num_dims"], x.binds["mesh.num_nodes_in_elem"] = (2, 4) if rz else (3, 8)
        st = State()
        f = tu.find("SGHRZ::update_state_rz" if rz else "SGH3D::update_state")
        args, a = mk_args(x, st, f, US)
        mat, s0 = a["mat"], State()
        log, mats = [], []
        from fvc.execu import Opaque

        def model(name, out, fun):
            def run(x, st, thislv, cargs, env, e):
                v = [argv(x, st, cargs, env, k) for k in range(len(cargs))]
                log.append((name, v))
                mats.append(fnidx(x, thislv, "Materials.MaterialFunctions"))
                fun(x, st, v)
                return Opaque("void")
            return run

        def w(x, st, arr, idx, v, ty=R):
            from fvc.execu import ElemLV
            x.write(st, ElemLV(arr, tuple(T.lift(i) for i in idx)), ty, v)
        x.contracts["->calc_pressure"] = model("pressure", "pres", lambda x, st, v: w(x, st, v[0], (v[3], v[2]), T.uf("P", (v[6], v[7]), "R")))
        x.contracts["->calc_sound_speed"] = model("sound speed", "sspd", lambda x, st, v: w(x, st, v[5], (v[3], v[2]), T.uf("C", (v[6], v[7]), "R")))

        def stress(x, st, v):
            for i in range(3):
                for j in range(3):
                    w(x, st, v[5], (v[22], v[21], i, j), T.uf("S", (num(i), num(j), v[10], v[11], rd(x, st, v[4], (v[22], v[21])), rd(x, st, v[7], (v[22], v[21]))), "R"))
        x.contracts["->calc_stress"] = model("stress", "stress", stress)
        x.contracts["->erode"] = model("erosion", "eroded", lambda x, st, v: w(x, st, v[0], (v[9], v[8]), T.lor(rd(x, st, v[0], (v[9], v[8]), B), T.uf("E", tuple(v[2:8]), "B")), B))
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        s = T.var("s", "I")
        pc = st.pc + [T.le(num(0), s), T.lt(s, a["num"])]
        for r in x.regions:
            u.prove("every element of the material is visited", [], T.land(T.eq(r["rng"][0][0], num(0)), T.eq(r["rng"][0][1], a["num"])), x)
        en = lambda q: rd(x, s0, inarr(x, "Materials.MaterialEnums"), (mat,), I, (q,))
        dec = T.eq(en("EOSType"), num(enum(tu, "model::decoupledEOSType")))
        sb = T.eq(en("StrengthType"), num(enum(tu, "model::stateBased")))
        er = T.ne(en("ErosionModels"), num(enum(tu, "model::noErosion")))
        e = rd(x, s0, a["elem_in_mat"], (mat, s), I)
        pt = lambda n: rd(x, s0, a[n], (mat, s))
        den = pt("mass") / (rd(x, s0, a["vol"], (e,)) * pt("volfrac") * pt("geo") + T.real(Fraction(1, 10 ** 20)))
        pos = [T.lt(T.real(0), q) for q in (pt("mass"), rd(x, s0, a["vol"], (e,)), pt("volfrac"), pt("geo"))]
        fin = lambda n, *ix: rd(x, st, a[n], (mat, s) + ix)
        old_er = rd(x, s0, a["eroded"], (mat, s), B)
        new_er = rd(x, st, a["eroded"], (mat, s), B)
        for dv in (True, False):
            for sv in (True, False):
                h0 = pc + pos + [dec if dv else T.lnot(dec), sb if sv else T.lnot(sb)]
                lab = "%s EOS, %s strength: " % ("decoupled" if dv else "coupled", "state-based" if sv else "other")
                P = T.uf("P", (den, pt("sie")), "R") if dv else pt("pres")
                C = T.uf("C", (den, pt("sie")), "R") if dv else pt("sspd")
                S = lambda i, j: T.uf("S", (num(i), num(j), den, pt("sie"), P, C), "R") if sv else rd(x, s0, a["stress"], (mat, s, i, j))
                E = T.uf("E", (P, den, pt("sie"), C, rd(x, s0, inarr(x, "Materials.MaterialFunctions"), (mat,), R, ("erode_tension_val",)), rd(x, s0, inarr(x, "Materials.MaterialFunctions"), (mat,), R, ("erode_density_val",))), "B")
                dead = T.land(er, T.lor(old_er, E))
                for d2, h in ((False, h0 + [T.lnot(dead)]), (True, h0 + [dead])):
                    l2 = lab + ("eroded: " if d2 else "")
                    u.prove(l2 + "density is mass over the volume the material occupies" if not d2 else l2 + "density", h, T.eq(fin("den"), T.real(Fraction(1, 10 ** 32)) if d2 else den), x)
                    u.prove(l2 + "pressure", h, T.eq(fin("pres"), T.real(0) if d2 else P), x)
                    u.prove(l2 + "sound speed", h, T.eq(fin("sspd"), T.real(Fraction(1, 10 ** 32)) if d2 else C), x)
                    for i in range(3):
                        for j in range(3):
                            u.prove(l2 + "stress(%d,%d)" % (i, j), h, T.eq(fin("stress", i, j), T.real(0) if d2 else S(i, j)), x)
                u.prove(lab + "the point is eroded exactly when the model says so (or was before)", h0, T.lor(T.land(new_er, T.lor(old_er, dead)), T.land(T.lnot(new_er), T.lnot(T.lor(old_er, dead)))), x)
        for k in mats:
            u.prove("the models are the material's own", pc, T.eq(k, mat), x)
        q = T.var("q", "I")
        for n in ("den", "pres", "sspd"):
            u.prove("other materials keep their %s" % n, pc + [T.ne(q, mat)], T.eq(rd(x, st, a[n], (q, s)), rd(x, s0, a[n], (q, s))), x)
        for n, v in log:
            if n == "stress":
                u.shape("the strength model gets the state arrays", v[0] is a["velgrad"] and v[1] is a["coords"] and v[2] is a["vel"] and v[4] is a["pres"] and v[5] is a["stress"] and v[6] is a["stress_n0"] and v[7] is a["sspd"] and v[8] is a["eos_state"] and v[9] is a["strength_state"] and v[12] is a["shear"] and v[13] is a["elem_in_mat"])
                iv = v[21]
                ee = rd(x, s0, a["elem_in_mat"], (mat, iv), I)
                u.prove("the strength model gets the element's volume, the step, stage, time and its numbers", pc, T.land(T.eq(v[16], rd(x, s0, a["vol"], (ee,))), T.eq(v[17], a["dt"]), T.eq(v[18], a["alpha"]), T.eq(v[19], a["time"]), T.eq(v[20], a["cycle"]), T.eq(v[22], mat), T.eq(v[23], ee), T.eq(v[24], ee)), x)
            elif n == "pressure":
                u.shape("the pressure model gets the state arrays", v[0] is a["pres"] and v[1] is a["stress"] and v[4] is a["eos_state"] and v[5] is a["sspd"])
            elif n == "sound speed":
                u.shape("the sound speed model gets the state arrays", v[0] is a["pres"] and v[1] is a["stress"] and v[4] is a["eos_state"] and v[5] is a["sspd"] and v[8] is a["shear"])
        u.obligations(x)
    ck.unit("state update 3D", lambda u: u_state(u, False))
    ck.unit("state update RZ", lambda u: u_state(u, True))

    def u_stress(u, rz):
        tu = ck.tu(SR if rz else S3, INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("SGHRZ::update_stress" if rz else "SGH3D::update_stress")
        args, a = mk_args(x, st, f, ST)
        mat, s0 = a["mat"], State()
        log, mats = [], []
        from fvc.execu import Opaque, ElemLV

        def stress(x, st, thislv, cargs, env, e):
            v = [argv(x, st, cargs, env, k) for k in range(len(cargs))]
            log.append(v)
            mats.append(fnidx(x, thislv, "Materials.MaterialFunctions"))
            for i in range(3):
                for j in range(3):
                    x.write(st, ElemLV(v[5], (v[22], v[21], num(i), num(j))), R, T.uf("S", (num(i), num(j), v[21], v[24], v[10], v[11]), "R"))
            return Opaque("void")
        x.contracts["->calc_stress"] = stress
        x.loops["*"] = Each()
        en = lambda q: rd(x, s0, inarr(x, "Materials.MaterialEnums"), (mat,), I, (q,))
        # a model runs in one loop over the elements, on the device or (3D) on the host
        call_fn(x, f, args, st, this=obj(x, st, "self"))
        u.shape("models run in one loop per place", 1 <= len(x.regions) <= 2)
        for r in x.regions:
            u.prove("every element of the material is visited", [], T.land(T.eq(r["rng"][0][0], num(0)), T.eq(r["rng"][0][1], a["num"])), x)
        dev = [T.ne(en("StrengthRunLocation"), num(enum(tu, "model::" + q))) for q in ("host", "dual")] if rz else []
        s = T.var("s", "I")
        pc = st.pc + dev + [T.le(num(0), s), T.lt(s, a["num"])]
        e = rd(x, s0, a["elem_in_mat"], (mat, s), I)
        for i in range(3):
            for j in range(3):
                u.prove("the strength model sets the point's stress(%d,%d)" % (i, j), pc, T.eq(rd(x, st, a["stress"], (mat, s, i, j)), T.uf("S", (num(i), num(j), s, e, rd(x, s0, a["den"], (mat, s)), rd(x, s0, a["sie"], (mat, s))), "R")), x)
        for k in mats:
            u.prove("the strength model is the material's own", pc, T.eq(k, mat), x)
        for v in log:
            ee = rd(x, s0, a["elem_in_mat"], (mat, v[21]), I)
            u.shape("the strength model gets the state arrays", v[0] is a["velgrad"] and v[1] is a["coords"] and v[2] is a["vel"] and v[4] is a["pres"] and v[5] is a["stress"] and v[6] is a["stress_n0"] and v[7] is a["sspd"] and v[8] is a["eos_state"] and v[9] is a["strength_state"] and v[12] is a["shear"] and v[13] is a["elem_in_mat"])
            u.prove("the strength model gets the element's volume, the step, stage, time and its numbers", pc, T.land(T.eq(v[16], rd(x, s0, a["vol"], (ee,))), T.eq(v[17], a["dt"]), T.eq(v[18], a["alpha"]), T.eq(v[19], a["time"]), T.eq(v[20], a["cycle"]), T.eq(v[22], mat), T.eq(v[23], ee), T.eq(v[24], ee)), x)
        u.obligations(x)
    ck.unit("stress update 3D", lambda u: u_stress(u, False))
    ck.unit("stress update RZ", lambda u: u_stress(u, True))

    def u_init(u):
        from fvc.execu import Opaque, ElemLV
        tu = ck.tu(D + "common/src/region_fill.cpp", INCS)
        x = Executor(tu)
        st = State()
        f = tu.find("init_press_sspd_stress")
        args, a = mk_args(x, st, f, "Materials mesh den pres stress sspd sie eos_state strength_state shear num mat".split())
        mat, s0, mats = a["mat"], State(), []

        def model(out, pos, name):
            def go(x, st, thislv, cargs, env, e):
                v = [argv(x, st, cargs, env, k) for k in range(len(cargs))]
                mats.append((fnidx(x, thislv, "Materials.MaterialFunctions"), v))
                x.write(st, ElemLV(v[pos], (v[3], v[2])), R, T.uf(name, (v[6], v[7]) + ((rd(x, st, v[0], (v[3], v[2])),) if name == "C" else ()), "R"))
                return Opaque("void")
            return go
        x.contracts["->calc_pressure"] = model("pres", 0, "P")
        x.contracts["->calc_sound_speed"] = model("sspd", 5, "C")
        call_fn(x, f, args, st)
        s = T.var("s", "I")
        pc = st.pc + [T.le(num(0), s), T.lt(s, a["num"])]
        P = T.uf("P", (rd(x, s0, a["den"], (mat, s)), rd(x, s0, a["sie"], (mat, s))), "R")
        u.prove("initial pressure is the model's for the point's density and energy", pc, T.eq(rd(x, st, a["pres"], (mat, s)), P), x)
        u.prove("initial sound speed is the model's, after the pressure", pc, T.eq(rd(x, st, a["sspd"], (mat, s)), T.uf("C", (rd(x, s0, a["den"], (mat, s)), rd(x, s0, a["sie"], (mat, s)), P), "R")), x)
        for i in range(3):
            for j in range(3):
                u.prove("stress starts from zero (%d,%d)" % (i, j), pc, T.eq(rd(x, st, a["stress"], (mat, s, i, j)), T.real(0)), x)
        for k, v in mats:
            u.prove("the models are the material's own", pc, T.land(T.eq(k, mat), T.eq(v[3], mat)), x)
        q = T.var("q", "I")
        for n in ("pres", "sspd"):
            u.prove("other materials keep their %s" % n, pc + [T.ne(q, mat)], T.eq(rd(x, st, a[n], (q, s)), rd(x, s0, a[n], (q, s))), x)
        u.obligations(x)
    ck.unit("initial state", u_init)
    hydro_harness(ck, "C17", ["common/src/geometry_new.cpp", "common/src/region_fill.cpp", S3[len(D):], SR[len(D):]], 20000 if ck.tier == "quick" else 1000000,
                  "random meshes, 1 to 3 materials per element, every model pairing, points at and around the erosion thresholds", flags=("-O1", "-g"), harness="state.cpp")
