"""the input deck: every block stores what its words name"""
from fvc import terms as T
from fvc.terms import num, TRUE, FALSE
from fvc.execu import State, Undecided, PathLV, Opaque, MArr
from fvc.check import HARN
from .multi import *
from .deck import DeckX, W, SC, OTHER, Vec

P = D + "input/"


def one(field, s):
    """the word's value is stored in this field"""
    return W(lambda c: [(field, (), (), c.val(s))])


def finish(u, x, keys):
    for k in keys:
        u.fact("%s: the words of the block are read and unknown ones refused" % k.replace("/#", "[]"), x.finals.get(k, 0) == 1, "symbolic execution")


def go(u, x, st, f, args, spec, exp=(), skip=()):
    """run the reader from unknown contents of everything"""
    x.in0 = st.copy()
    objn = x.objn
    call_fn(x, f, args, st)
    x.frame_block(x.name, x.in0, st, objn, exp, skip)
    u.reachable("%s: the reader comes to its end" % x.name, st.pc)
    finish(u, x, spec)


def copied(x, u, lists, count):
    """the parallel loop after the blocks copies every list, entry by entry"""
    x.want = [z[0] for z in lists]
    x.copies = []

    def hook(x, reg, st):
        objn = x.objn
        a = reg["after"]
        eff = x.effects(reg["before"], a, objn)
        names = {z[0] for z in eff if not z[0].startswith("local:")}
        if not names & set(x.want):
            return False
        iv = reg["ivs"][0]
        q = T.var("k", "I")
        for dst, cnt, tmp in lists:
            if dst not in names:
                continue
            x.copies.append(dst)
            if tmp not in x.temps:
                raise Undecided("the local list of %s was not found" % dst)
            n = x.at(reg["before"], cnt, (iv,), ())
            got = x.at(a, dst, (iv, q), ())
            want = x.at(reg["before"], "local#%d" % x.temps[tmp], (iv, q), ())
            u.prove("%s: the list of a block is copied whole" % dst, a.pc + [T.le(num(0), q), T.lt(q, n)], T.eq(got, want), x)
        lo, hi = reg["rng"][0][:2]
        b = T.var("b", "I")
        u.prove("%s: every block is copied" % ", ".join(sorted(names)), st.pc, T.land(T.le(T.lift(lo), num(0)), T.eq(T.lift(hi), count)), x)
        u.fact("the copy stores nothing else (%s)" % ", ".join(sorted(names)), names <= set(x.want), "symbolic execution")
        return True
    x.region_hook = hook


def defaults(u, tu, rec, want):
    """documented defaults are the initial values of the fields"""
    def const(n):
        while isinstance(n, dict):
            if n.get("k") in ("Int", "Bool"):
                return int(n["v"])
            if n.get("k") == "Real":
                return float.fromhex(n["v"])
            if n.get("k") in ("Fn", "Enum") and "v" in n:
                return int(n["v"])
            if n.get("k") == "Un" and n["op"] == "-":
                v = const(n["e"])
                return None if v is None else -v
            if n.get("k") in ("IL",) and len(n["v"]) == 1:
                n = n["v"][0]
                continue
            n = n.get("e")
        return None
    r = tu.records[rec]
    for n, v in want.items():
        f = [f for f in r["fields"] if f["n"] == n]
        if not f:
            u.undecided("%s defaults to %s" % (n, v), "no such field")
            continue
        got = const(f[0].get("init"))
        if got is None and f[0].get("init") is not None:
            u.undecided("%s defaults to %s" % (n, v), "initialiser not recognised")
        else:
            u.fact("%s defaults to %s" % (n, v), got is not None and got == v, "field initialiser", note="the initial value is %s" % got)


SOLVER = {"dynx_FE": "SGH3D", "dynx_FE_rz": "SGHRZ", "thrmex_FE": "SGTM3D", "level_set": "levelSet", "qstatx_FE": "TLQS3D"}


def run(ck):
    def solver(u):
        tu = ck.tu(P + "parse_solver_inputs.cpp", INCS)
        f = tu.find("parse_solver_input")
        at = lambda c: c.deck("I", "id")
        spec = {"solver_options/#/solver": {
            "id": W(stop=lambda c: TRUE),
            "method": W(lambda c: [("solver_inputs", (at(c),), ("method",), c.enum("solver_input::" + SOLVER[c.opt()]))], list(SOLVER)),
            "time_end": W(lambda c: [("solver_inputs", (at(c),), ("time_end",), c.val("R"))], stop=lambda c: T.lt(c.val("R"), T.real(0)), exact=True),
            "use_moving_heat_source": W(lambda c: [("solver_inputs", (at(c),), ("use_moving_heat_source",), c.val("B"))]),
        }}
        x, st = DeckX(u, tu, spec, "solver blocks"), State()
        go(u, x, st, f, [PathLV(("Y",)), obj(x, st, "solver_inputs")], spec, [("solver_inputs.size()", (), (), x.dsize("solver_options", ()))])
        defaults(u, tu, "solver_input_t", dict(method=enum(tu, "solver_input::NONE"), time_end=0, use_moving_heat_source=False))
    ck.unit("solver blocks", solver)

    def mesh(u):
        tu = ck.tu(P + "parse_mesh_inputs.cpp", INCS)
        f = tu.find("parse_mesh_inputs")
        m = "mesh_input."
        three = lambda n: W(lambda c: [(m + n + "[%d]" % k, (), (), c.item(k) if k < 2 else T.ite(T.eq(c.nitems(), num(3)), c.item(2), T.real(0))) for k in range(3)])
        stop = lambda c: T.land(T.eq(c.new(m + "source"), c.enum("mesh_input::generate")), T.lt(num(0), c.x.textlen(c.new(m + "file_path"))))
        words = {
            "source": W(lambda c: [(m + "source", (), (), c.enum("mesh_input::" + c.opt()))], ["generate", "file"]),
            "num_dims": one(m + "num_dims", "I"),
            "type": W(lambda c: [(m + "type", (), (), c.enum("mesh_input::" + {"box": "Box", "polar": "Polar"}[c.opt()]))], ["box", "polar"]),
            "file_path": one(m + "file_path", "S"),
            "origin": three("origin"), "length": three("length"),
            "num_elems": W(lambda c: [(m + "num_elems[%d]" % k, (), (), c.x.trunc(c.item(k)) if k < 2 else T.ite(T.eq(c.nitems(), num(3)), c.x.trunc(c.item(2)), num(0))) for k in range(3)]),
            "polynomial_order": one(m + "p_order", "I"),
        }
        for n in "inner_radius outer_radius starting_angle ending_angle scale_x scale_y scale_z".split():
            words[n] = one(m + n, "R")
        for n in "num_radial_elems num_angular_elems".split():
            words[n] = one(m + n, "I")
        for w in words.values():
            w.stop = stop
        spec = {"mesh_options": words}
        x, st = DeckX(u, tu, spec, "mesh block"), State()
        go(u, x, st, f, [PathLV(("Y",)), obj(x, st, "mesh_input")], spec)
        defaults(u, tu, "mesh_input_t", dict(num_dims=3, source=enum(tu, "mesh_input::none"), p_order=1, inner_radius=0, outer_radius=1, starting_angle=0, ending_angle=90,
                                             num_radial_elems=10, num_angular_elems=10, scale_x=1, scale_y=1, scale_z=1))
    ck.unit("mesh block", mesh)

    def dynamic(u):
        tu = ck.tu(P + "parse_dynamic_inputs.cpp", INCS)
        f = tu.find("parse_dynamic_options")
        words = {n: one("dynamic_options." + n, "I" if n in ("cycle_stop", "rk_num_stages") else "R")
                 for n in "time_initial time_final dt_min dt_max dt_start dt_cfl cycle_stop fuzz tiny small rk_num_stages".split()}
        spec = {"dynamic_options": words}
        x, st = DeckX(u, tu, spec, "time block"), State()
        go(u, x, st, f, [PathLV(("Y",)), obj(x, st, "dynamic_options")], spec)
        defaults(u, tu, "dynamic_options_t", dict(cycle_stop=2000000, time_initial=1e-10, time_final=1, dt_min=1e-8, dt_max=1e-2, dt_start=1e-5, dt_cfl=0.4,
                                                  fuzz=1e-16, tiny=1e-12, small=1e-8, rk_num_stages=2))
    ck.unit("time block", dynamic)

    def output(u):
        tu = ck.tu(P + "parse_output_options.cpp", INCS)
        f = tu.find("parse_output_options")
        o = "output_options."
        spec_lists = {
            "elem": dict(den="density", pres="pressure", stress="stress", sie="specific_internal_energy", sspd="sound_speed", mass="mass"),
            "node": dict(coords="coords", vel="velocity", temp="temp", mass="mass", force="force", grad_level_set="gradient_level_set"),
            "gauss_pt": dict(volume="volume", level_set="level_set", vel_grad="gradient_velocity"),
            "mat_pt": dict(den="density", pres="pressure", stress="stress", sie="specific_internal_energy", sspd="sound_speed", mass="mass", volfrac="volume_fraction", eroded="eroded_flag"),
        }
        scope = {"elem": "material_pt_state", "mat_pt": "material_pt_state", "node": "node_state", "gauss_pt": "gauss_pt_state"}

        def fields(kind):
            v = o + "output_%s_state" % ("elem" if kind == "elem" else kind)
            def eff(c):
                n, k = c.vecn(v), T.var("k", "I")
                cnt = c.size()
                out = [(v, (k,), (), c.x.listed_val("output_options/%s_field_outputs/#" % kind, T.sub(k, n)), T.land(T.le(n, k), T.lt(k, T.add(n, cnt))), (k, n, T.add(n, cnt)))]
                if kind == "elem":
                    e = lambda q: T.lift(enum(c.x.tu, "material_pt_state::" + q))
                    full = T.add(n, cnt)
                    add = T.land(c.member(v, e("specific_internal_energy"), full), T.lnot(c.member(v, e("mass"), full)))
                    out.append((v + ".size()", (), (), T.add(full, T.ite(add, num(1), num(0)))))
                    out.append((v, (full,), (), e("mass"), add))
                else:
                    out.append((v + ".size()", (), (), T.add(n, cnt)))
                return out
            return W(eff)
        words = {
            "output_file_format": W(lambda c: [(o + "format", (), (), c.enum("output_options::" + c.opt()))], ["viz", "ensight", "state", "viz_and_state"]),
            "timer_output_level": W(lambda c: [(o + "timer_level", (), (), c.enum("output_options::thorough"))], ["thorough"]),
            "graphics_time_step": one(o + "graphics_time_step", "R"),
            "graphics_iteration_step": one(o + "graphics_iteration_step", "I"),
        }
        for kind in spec_lists:
            words[kind + "_field_outputs"] = fields(kind)
        spec = {"output_options": words}
        x, st = DeckX(u, tu, spec, "output block"), State()
        for kind, names in spec_lists.items():
            x.lists["output_options/%s_field_outputs/#" % kind] = (o + "output_%s_state" % kind, {w: scope[kind] + "::" + q for w, q in names.items()})
        go(u, x, st, f, [PathLV(("Y",)), obj(x, st, "output_options")], spec)
        for kind, names in spec_lists.items():
            for w in names:
                u.fact("output field %s of %s can be named" % (w, kind), ("output_options/%s_field_outputs/#" % kind, w) in x.cover, "symbolic execution")
        defaults(u, tu, "output_options_t", dict(graphics_time_step=1, graphics_iteration_step=2000000))
    ck.unit("output block", output)

    def bcs(u):
        tu = ck.tu(P + "parse_bdy_conds_inputs.cpp", INCS)
        f = tu.find("parse_bcs")
        B = "BoundaryConditions."
        N = "boundary_conditions::"
        sid = lambda c: c.deck("I", "solver_id")
        vel = dict(none=("noVelocityBC", "NoVelocityBC"), constant=("constantVelocityBC", "ConstantVelocityBC"), time_varying=("timeVaryingVelocityBC", "TimeVaryingVelocityBC"),
                   reflected=("reflectedVelocityBC", "ReflectedVelocityBC"), fixed=("zeroVelocityBC", "ZeroVelocityBC"), user_defined=("userDefinedVelocityBC", "UserDefinedVelocityBC"),
                   piston=("pistonVelocityBC", "PistonVelocityBC"))
        temp = dict(none=("noTemperatureBC", None), constant=("constantTemperatureBC", "ConstantTemperatureBC"), convection=("convectionTemperatureBC", None), radiation=("radiationTemperatureBC", None))
        stress = dict(none=("noStressBC", "NoStressBC"), constant=("constantStressBC", "ConstantStressBC"), time_varying=("timeVaryingStressBC", "TimeVaryingStressBC"),
                      user_defined=("userDefinedStressBC", "UserDefinedStressBC"), fracture=("fractureStressBC", "fractureStressBC"), global_contact=None, preload_contact=None)

        def model(kind, tab, en, member):
            def eff(c):
                s, n = sid(c), B + "num_%s_bdy_sets_in_solver" % kind
                old = c.old(n, (s,))
                out = [(n, (s,), (), T.add(old, num(1))), (B + "%s_bdy_sets_in_solver" % kind, (s, old), (), c.i)]
                m = tab[c.opt()]
                if m:
                    out.append((B + "BoundaryConditionEnums", (c.i,), (en,), c.enum(N + m[0])))
                    if m[1]:
                        out.append((B + "BoundaryConditionFunctions", (c.i,), (member,), c.fn(m[1] + "::" + member)))
                if c.opt() == "fracture":
                    out += [(B + "allow_fracture", (), (), TRUE), (B + "fracture_bc_id", (), (), c.i)]
                if c.opt() in ("global_contact", "preload_contact"):
                    out.append((B + "allow_contact", (), (), TRUE))
                if c.opt() == "preload_contact":
                    out.append((B + "allow_preload", (), (), TRUE))
                return out
            return W(eff, list(tab))

        def gvars(kind):
            def eff(c):
                n, k = c.size(), T.var("k", "I")
                return [(B + "num_%s_bc_global_vars" % kind, (c.i,), (), n),
                        ("temp:" + kind, (c.i, k), (), c.deck("R", kind + "_bc_global_vars", k), T.land(T.le(num(0), k), T.lt(k, n)), (k, num(0), n))]
            return W(eff, stop=lambda c: T.lt(num(100), c.size()), exact=True)
        su = lambda fld, s="R": W(lambda c: [(B + "BoundaryConditionSetup", (c.i,), (fld,), c.val(s))])
        surf = {"x_plane": "xPlane", "y_plane": "yPlane", "z_plane": "zPlane", "cylinder": "cylinder", "sphere": "sphere", "global": "global"}
        key = "boundary_conditions/#/boundary_condition"
        spec = {key: {
            "solver_id": W(stop=lambda c: T.lor(T.lt(c.val("I"), num(0)), T.le(x.nsol, c.val("I"))), exact=True),
            "velocity_model": model("vel", vel, "BCVelocityModel", "velocity"),
            "temperature_model": model("temperature", temp, "BCTemperatureModel", "temperature"),
            "stress_model": model("stress", stress, "BCStressModel", "stress"),
            "location": W(lambda c: [(B + "BoundaryConditionEnums", (c.i,), ("Location",), c.enum(N + c.opt()))], ["host", "device"]),
            "surface": W(),
            "velocity_bc_global_vars": gvars("velocity"), "temperature_bc_global_vars": gvars("temperature"), "stress_bc_global_vars": gvars("stress"),
            "contact_bc_vars": W(lambda c: [(B + "contact_max_local_iter", (), (), c.deck("I", c.word, num(0))), (B + "contact_max_global_iter", (), (), c.deck("I", c.word, num(1)))],
                                 stop=lambda c: T.ne(c.size(), num(2)), exact=True),
        }, key + "/surface": {
            "type": W(lambda c: [(B + "BoundaryConditionSetup", (c.i,), ("surface",), c.enum(N + surf[c.opt()]))], list(surf)),
            "plane_position": su("value"), "radius": su("value"), "tolerance": su("tolerance"),
            "origin": W(lambda c: [(B + "BoundaryConditionSetup", (c.i, num(k)), ("origin",), c.item(k) if k < 2 else T.ite(T.eq(c.nitems(), num(3)), c.item(2), T.real(0))) for k in range(3)]),
        }}
        x, st = DeckX(u, tu, spec, "boundary condition blocks"), State()
        x.nsol = T.var("num_solvers", "I")
        st.assume(T.le(num(0), x.nsol))

        def head(x, st, i, c):
            q = T.fresh("q", "I")
            for kind in ("vel", "temperature", "stress"):
                v = x.at(st, B + "num_%s_bdy_sets_in_solver" % kind, (q,), ())
                u.prove("no %s condition is registered before the blocks are read" % kind, st.pc + [T.le(num(0), q), T.lt(q, x.nsol)], T.eq(v, num(0)), x)
            for kind in ("velocity", "temperature", "stress"):
                v = x.at(st, B + "num_%s_bc_global_vars" % kind, (q,), ())
                u.prove("no %s list before the blocks are read" % kind, st.pc + [T.le(num(0), q), T.lt(q, x.dsize("boundary_conditions", ()))], T.eq(v, num(0)), x)
            u.fact("the blocks of the list are counted", c is T.lt(i, x.dsize("boundary_conditions", ())) , "symbolic execution", note=T.show(c))
        x.head = head
        copied(x, u, [(B + "%s_bc_global_vars" % k, B + "num_%s_bc_global_vars" % k, "temp:" + k) for k in ("velocity", "temperature", "stress")], x.dsize("boundary_conditions", ()))
        al = [B + n + " (allocated)" for n in ("BoundaryConditionSetup", "BoundaryConditionFunctions", "BoundaryConditionEnums", "vel_bdy_sets_in_solver", "temperature_bdy_sets_in_solver",
              "stress_bdy_sets_in_solver", "num_vel_bdy_sets_in_solver", "num_temperature_bdy_sets_in_solver", "num_stress_bdy_sets_in_solver", "num_velocity_bc_global_vars",
              "num_temperature_bc_global_vars", "num_stress_bc_global_vars", "velocity_bc_global_vars", "temperature_bc_global_vars", "stress_bc_global_vars", "bc_state_vars")]
        go(u, x, st, f, [PathLV(("Y",)), obj(x, st, "BoundaryConditions"), x.nsol], spec, [(B + "num_bcs", (), (), x.dsize("boundary_conditions", ()))], skip=al)
        u.fact("the lists are copied once each", sorted(x.copies) == sorted(x.want), "symbolic execution")
        defaults(u, tu, "BoundaryConditionEnums_t", dict(BCVelocityModel=enum(tu, N + "noVelocityBC"), BCTemperatureModel=enum(tu, N + "noTemperatureBC"),
                                                         BCStressModel=enum(tu, N + "noStressBC"), Location=enum(tu, N + "device")))
        defaults(u, tu, "BoundaryConditionSetup_t", dict(value=0, tolerance=1e-7))
        defaults(u, tu, "BoundaryCondition_t", dict(allow_fracture=False, allow_contact=False, allow_preload=False, contact_max_local_iter=500, contact_max_global_iter=100))
    ck.unit("boundary condition blocks", bcs)

    def materials(u):
        tu = ck.tu(P + "parse_material_inputs.cpp", INCS)
        f = tu.find("parse_materials")
        M, E, F = "Materials.", "Materials.MaterialEnums", "Materials.MaterialFunctions"
        mid = lambda c: c.deck("I", "id")
        nd = T.var("num_dims", "I")
        names = {g["q"] for g in tu.globals.values()} | {q["q"] for q in tu.funcs.values()} if isinstance(tu.funcs, dict) else {q["q"] for q in tu.funcs}

        def model(tab, dims={}):
            def eff(c):
                m = tab[c.opt()]
                if m is None:
                    return None
                out = []
                for k, v in m.items():
                    if k[0].islower() and "::" in v and not v.startswith("model::"):
                        out.append((F, (mid(c),), (k,), c.fn(v)))
                    else:
                        out.append((E, (mid(c),), (k,), c.enum(v)))
                return out
            return W(eff, list(tab), stop=(lambda c: T.eq(nd, num(dims[c.opt()])) if c.opt() in dims else FALSE), exact=bool(dims))
        eos = lambda cls, en: dict(calc_pressure=cls + "::calc_pressure", calc_sound_speed=cls + "::calc_sound_speed", EOSModels="model::" + en)
        strn = lambda cls, **k: dict(calc_stress=cls + "::calc_stress", init_strength_state_vars=cls + "::init_strength_state_vars", **k)
        diss = lambda cls, en: dict(calc_dissipation=cls + "::calc_dissipation", DissipationModels="model::" + en)
        optional = lambda cls: any(cls + "::" in q for q in names)
        val = lambda n: W(lambda c: [(F, (mid(c),), (n,), c.val("R"))])

        def gvars(kind, lo, hi):
            def eff(c):
                n, k = c.size(), T.var("k", "I")
                return [(M + "num_%s_global_vars" % kind, (mid(c),), (), n),
                        ("temp:" + kind, (mid(c), k), (), c.deck("R", kind + "_global_vars", k), T.land(T.le(num(0), k), T.lt(k, n)), (k, num(0), n))]
            return W(eff, stop=lambda c: T.lor(T.lt(num(hi), c.size()), T.lt(c.size(), num(lo))), exact=True)
        key = "materials/#/material"
        spec = {key: {
            "id": W(stop=lambda c: TRUE),
            "eos_model_type": model(dict(coupled=dict(EOSType="model::coupledEOSType"), decoupled=dict(EOSType="model::decoupledEOSType"), no_eos=None)),
            "eos_model": model({"no_eos": eos("NoEOSModel", "noEOS"), "gamma_law_gas": eos("GammaLawGasEOSModel", "gammaLawGasEOS"), "void": eos("VoidEOSModel", "voidEOS"),
                                "linear_elastic_eos": eos("LinearElasticEOS", "linearElasticEOS"), "user_defined_eos": eos("UserDefinedEOSModel", "userDefinedEOS"),
                                "host_user_defined_eos": dict(EOSRunLocation="model::host", **eos("HostUserDefinedEOSModel", "hostUserDefinedEOS")),
                                "mie_gruneisen_eos": eos("MieGruneisenEOSModel", "mieGruneisenEOS") if optional("MieGruneisenEOSModel") else None}),
            "strength_model_type": model(dict(no_strength=dict(StrengthType="model::noStrengthType"), increment_based=dict(StrengthType="model::incrementBased"), state_based=None)),
            "strength_model": model({"no_strength": strn("NoStrengthModel", StrengthSetupLocation="model::host"), "user_defined_strength": strn("UserDefinedStrengthModel"),
                                     "host_ann_strength": strn("HostANNStrengthModel", StrengthRunLocation="model::host"),
                                     "hypo_plasticity_strength": strn("HypoPlasticityModel"), "hypo_plasticity_strength_rz": strn("HypoPlasticityRZModel"),
                                     "hypo_elastic_plastic_strength": strn("HypoElasticPlasticModel") if optional("HypoElasticPlasticModel") else None,
                                     "hypo_elastic_plastic_strength_rz": strn("HypoElasticPlasticRZModel") if optional("HypoElasticPlasticRZModel") else None},
                                    {"hypo_plasticity_strength": 2, "hypo_plasticity_strength_rz": 3, "hypo_elastic_plastic_strength": 2, "hypo_elastic_plastic_strength_rz": 3}),
            "erosion_model": model(dict(no_erosion=dict(erode="NoErosionModel::erode", ErosionModels="model::noErosion"), basic=dict(erode="BasicErosionModel::erode", ErosionModels="model::basicErosion"))),
            "dissipation_model": model({"no_dissipation": diss("NoDissipationModel", "noDissipation"), "MARS": diss("MARSDissipationModel", "MARS"), "MARS_rz": diss("MARSRZDissipationModel", "MARSRZ"),
                                        "directional_MARS": diss("DirMARSDissipationModel", "directionalMARS"), "directional_MARS_rz": diss("DirMARSRZDissipationModel", "directionalMARSRZ")},
                                       {"MARS": 2, "MARS_rz": 3, "directional_MARS": 2, "directional_MARS_rz": 3}),
            "level_set_type": model(dict(no_level_set=dict(levelSetType="model::noLevelSet"), evolve_front=dict(levelSetType="model::evolveFront"))),
            "erode_tension_val": val("erode_tension_val"), "erode_density_val": val("erode_density_val"),
            "normal_velocity": val("normal_velocity"), "curvature_velocity": val("curvature_velocity"),
            "eos_global_vars": gvars("eos", 0, 100), "strength_global_vars": gvars("strength", 0, 100), "dissipation_global_vars": gvars("dissipation", 6, 10),
            "tabular_model": W(values={"type": ["no_tabular_model", "temperature_dependent"], "file_format": ["Abaqus_jmatpro"]}, stop=lambda c: T.eq(c.size(c.word, "fields"), num(0)), exact=True),
        }}
        x, st = DeckX(u, tu, spec, "material blocks"), State()
        st.assume(T.lor(T.eq(nd, num(2)), T.eq(nd, num(3))))

        def table(fld):
            def eff(x, ts):
                i = ts[0]
                t = M + fld + "_table."
                return [(t + "#file", (), (), x.dtext(key + "/tabular_model/tabular_data", (i,))), (t + "#field", (), (), SC(fld)),
                        (F, (x.deck("I", key + "/id", (i,)),), ("get_%s_from_temperature" % fld,), x.fnnum("TabularMaterialModel::get_%s_from_temperature" % fld))]
            return eff
        x.lists[key + "/tabular_model/fields/#"] = (None, {n: table(n) for n in ("density", "thermal_conductivity", "specific_heat")})
        nm = x.dsize("materials", ())

        def head(x, st, i, c):
            q = T.fresh("q", "I")
            for kind in ("eos", "strength", "dissipation"):
                v = x.at(st, M + "num_%s_global_vars" % kind, (q,), ())
                u.prove("no %s list before the blocks are read" % kind, st.pc + [T.le(num(0), q), T.lt(q, nm)], T.eq(v, num(0)), x)
            u.fact("the blocks of the list are counted", c is T.lt(i, nm), "symbolic execution", note=T.show(c))
        x.head = head
        copied(x, u, [(M + "%s_global_vars" % k, M + "num_%s_global_vars" % k, "temp:" + k) for k in ("eos", "strength", "dissipation")], nm)
        copy = x.region_hook
        x.tails = 0

        def hook(x, reg, st):
            if copy(x, reg, st):
                return True
            if not x.aborts:
                return False
            x.tails += 1
            a, b, iv = reg["after"], reg["before"], reg["ivs"][0]
            en = lambda n: x.at(b, E, (iv,), (n,))
            model0 = lambda q: T.lift(enum(tu, "model::" + q))
            ne, nq = x.at(b, M + "num_eos_global_vars", (iv,), ()), x.at(b, M + "num_dissipation_global_vars", (iv,), ())
            pf = x.at(b, F, (iv,), ("calc_pressure",))
            df = T.ite(T.eq(en("DissipationModels"), model0("noDissipation")), x.fnnum("NoDissipationModel::calc_dissipation"), x.at(b, F, (iv,), ("calc_dissipation",)))
            mism = T.lor(T.land(T.lt(num(0), ne), T.lor(T.eq(pf, num(0)), T.eq(en("EOSModels"), model0("noEOS")))),
                         T.land(T.eq(ne, num(0)), T.ne(pf, num(0)), T.ne(en("EOSModels"), model0("noEOS"))),
                         T.land(T.lt(num(0), nq), T.lor(T.eq(df, num(0)), T.eq(en("DissipationModels"), model0("noDissipation")))),
                         T.land(T.eq(nq, num(0)), T.ne(df, num(0)), T.ne(en("DissipationModels"), model0("noDissipation"))))
            for pc, s in x.aborts:
                u.prove("a material whose lists agree with its models is accepted", pc, mism, x)
            x.aborts = []
            u.prove("a material whose lists disagree with its models is refused", a.pc, T.lnot(mism), x)
            u.prove("a material without dissipation gets the model that adds none", a.pc, T.eq(x.at(a, F, (iv,), ("calc_dissipation",)), df), x)
            eff = x.effects(b, a, x.objn)
            ok = [T.land(T.eq(z[1][0], iv), T.TRUE) if z[0] == F and z[2] == ("calc_dissipation",) else FALSE for z in eff if not z[0].startswith("local:")]
            u.prove("the check of the models stores nothing else", a.pc, T.land(*ok), x)
            lo, hi = reg["rng"][0][:2]
            u.prove("every material is checked", st.pc, T.land(T.le(T.lift(lo), num(0)), T.eq(T.lift(hi), nm)), x)
            return True
        x.region_hook = hook
        al = [M + n + " (allocated)" for n in ("MaterialSetup", "MaterialFunctions", "MaterialEnums", "num_eos_global_vars", "num_strength_global_vars", "num_dissipation_global_vars",
              "eos_global_vars", "strength_global_vars", "dissipation_global_vars")]
        go(u, x, st, f, [PathLV(("Y",)), obj(x, st, "Materials"), nd], spec, [(M + "num_mats", (), (), nm)], skip=al)
        u.fact("the lists are copied once each", sorted(x.copies) == sorted(x.want), "symbolic execution")
        u.fact("the models and lists of every material are compared", x.tails == 1, "symbolic execution")
        for n in ("density", "thermal_conductivity", "specific_heat"):
            u.fact("the tabular field %s can be named" % n, (key + "/tabular_model/fields/#", n) in x.cover, "symbolic execution")
        defaults(u, tu, "MaterialEnums_t", dict(EOSType=enum(tu, "model::noEOSType"), EOSModels=enum(tu, "model::noEOS"), EOSRunLocation=enum(tu, "model::device"),
                 StrengthType=enum(tu, "model::noStrengthType"), StrengthRunLocation=enum(tu, "model::device"), ErosionModels=enum(tu, "model::noErosion"),
                 DissipationModels=enum(tu, "model::noDissipation"), levelSetType=enum(tu, "model::noLevelSet")))
        defaults(u, tu, "MaterialFunctions_t", dict(normal_velocity=0, curvature_velocity=0))
    ck.unit("material blocks", materials)

    def multimat(u):
        tu = ck.tu(P + "parse_material_inputs.cpp", INCS)
        f = tu.find("parse_multimaterial_options")
        M = "Materials."
        eq = dict(no_equilibration="noEquilibration", tipton="tiptonEquilibration", user_defined="userDefinedEquilibration")

        def gvars(num_, arr):
            def eff(c):
                n, k = c.size(), T.var("k", "I")
                return [(M + num_, (), (), n), (M + arr + " (allocated)", (), (), n),
                        (M + arr, (k,), (), c.deck("R", c.word, k), T.land(T.le(num(0), k), T.lt(k, n)), (k, num(0), n))]
            return W(eff, stop=lambda c: T.lt(c.size(), num(2)), exact=True)
        spec = {"multimaterial_options": {
            "max_num_mats_per_element": one(M + "max_num_mats_per_element", "I"),
            "mat_equilibration_model": W(lambda c: [(M + "EquilibrationModels", (), (), c.enum("model::" + eq[c.opt()]))], list(eq)),
            "geo_equilibration_model": W(lambda c: [(M + "GeoEquilibrationModels", (), (), c.enum("model::" + eq[c.opt()]))], list(eq)),
            "mat_equilibration_global_vars": gvars("num_equilibration_global_vars", "equilibration_global_vars"),
            "geo_equilibration_global_vars": gvars("num_geo_equilibration_global_vars", "geo_equilibration_global_vars"),
        }}
        x, st = DeckX(u, tu, spec, "multi-material block"), State()
        go(u, x, st, f, [PathLV(("Y",)), obj(x, st, "Materials")], spec)
        defaults(u, tu, "Material_t", dict(EquilibrationModels=enum(tu, "model::noEquilibration"), GeoEquilibrationModels=enum(tu, "model::noEquilibration"), max_num_mats_per_element=3))
    ck.unit("multi-material block", multimat)

    def regions(u):
        tu = ck.tu(P + "parse_regions.cpp", INCS)
        f = tu.find("parse_regions")
        RF, RH = "region_fills", "region_fills_host"
        nsol = T.var("num_solvers", "I")
        sid = lambda c: c.val("I")
        fld = lambda n, s="R", arr=RF: W(lambda c: [(arr, (c.i,), (n,), c.val(s))])
        three = lambda n: W(lambda c: [(RF, (c.i, num(k)), (n,), c.item(k) if k < 2 else T.ite(T.eq(c.nitems(), num(3)), c.item(2), T.real(0))) for k in range(3)])
        kind = lambda n, tab, ns="init_conds::": W(lambda c: None if tab[c.opt()] is None else [(RF, (c.i,), (n,), c.enum(ns + tab[c.opt()]))], list(tab))

        def filled(vec, q):
            """the field is added to the list of fields to fill, once"""
            def eff(c):
                n, e = c.vecn(vec), c.enum(q)
                there = c.member(vec, e)
                return [(vec + ".size()", (), (), T.add(n, T.ite(there, num(0), num(1)))), (vec, (n,), (), e, T.lnot(there))]
            return W(eff)
        scal = dict(uniform="uniform", radial="radialScalar", spherical="sphericalScalar", x_linear="xlinearScalar", y_linear="ylinearScalar", z_linear="zlinearScalar", tg_vortex="tgVortexScalar")
        plain = {k: v if k in ("uniform", "tg_vortex") else None for k, v in scal.items()}
        key = "regions/#/region"
        g, n = "fill_gauss_states", "fill_node_states"
        top = {
            "solver_id": W(lambda c: [("num_reg_fills_in_solver", (sid(c),), (), T.add(c.old("num_reg_fills_in_solver", (sid(c),)), num(1))),
                                      ("reg_fills_in_solver", (sid(c), c.old("num_reg_fills_in_solver", (sid(c),))), (), c.i), (RF, (c.i,), ("solver_id",), sid(c))],
                           stop=lambda c: T.lor(T.lt(c.val("I"), num(0)), T.le(nsol, c.val("I"))), exact=True),
            "material_id": fld("material_id", "I"),
            "volume_fraction": W(), "volume": W(),
            "temperature": filled(n, "fill_node_state::temperature"), "velocity": filled(n, "fill_node_state::velocity"),
        }
        spec = {key: top}
        for w, v in dict(density="den", specific_internal_energy="sie", internal_energy="ie", specific_heat="specific_heat", thermal_conductivity="thermal_conductivity").items():
            top[w] = filled(g, "fill_gauss_state::" + w)
            spec[key + "/" + w] = {"value": fld(v), "type": kind(v + "_field", plain)}
        top["level_set"] = filled(g, "fill_gauss_state::level_set")
        spec[key + "/temperature"] = {"value": fld("temperature"), "type": kind("temperature_field", plain)}
        for w, v in dict(level_set="level_set", volume_fraction="volfrac").items():
            spec[key + "/" + w] = {"value": fld(v), "slope": fld(v + "_slope"), "origin": three(v + "_origin"), "type": kind(v + "_field", scal)}
        vec = dict(static="stationary", cartesian="cartesian", radial="radialVec", spherical="sphericalVec", radial_linear="radialLinearVec", spherical_linear="sphericalLinearVec", tg_vortex="tgVortexVec")
        spec[key + "/velocity"] = dict({q: fld(q) for q in ("u", "v", "w", "speed")}, type=kind("vel_field", vec))
        vol = {"global": "global", "box": "box", "sphere": "sphere", "cylinder": "cylinder", "voxel_file": "readVoxelFile", "vtu_file": "readVTUFile"}
        spec[key + "/volume"] = dict({q: fld(q) for q in "radius1 radius2 x1 x2 y1 y2 z1 z2".split()}, part_id=fld("part_id", "I"), type=kind("volume", vol, "region::"),
                                     file_path=W(lambda c: [(RH, (c.i,), ("file_path",), c.text())]), origin=three("origin"),
                                     **{q: fld(q, arr=RH) for q in ("scale_x", "scale_y", "scale_z")})
        x, st = DeckX(u, tu, spec, "region blocks"), State()
        st.assume(T.le(num(0), nsol))
        nr = x.dsize("regions", ())

        def head(x, st, i, c):
            q = T.fresh("q", "I")
            v = x.at(st, "num_reg_fills_in_solver", (q,), ())
            u.prove("no fill is registered before the blocks are read", st.pc + [T.le(num(0), q), T.lt(q, nsol)], T.eq(v, num(0)), x)
            for w in (g, n):
                u.prove("%s is empty before the blocks are read" % w, st.pc, T.eq(x.vec(st, w).n, num(0)), x)
            u.fact("the blocks of the list are counted", c is T.lt(i, nr), "symbolic execution", note=T.show(c))
        x.head = head
        al = [z + " (allocated)" for z in ("num_reg_fills_in_solver", "reg_fills_in_solver", RF, RH)]
        args = [PathLV(("Y",))] + [obj(x, st, z) for z in ("reg_fills_in_solver", "num_reg_fills_in_solver", RF, RH, g, n)] + [nsol]
        go(u, x, st, f, args, spec, skip=al + [g + ".size()", n + ".size()"])
        defaults(u, tu, "RegionFill_t", dict({q: 0 for q in "x1 x2 y1 y2 z1 z2 radius1 radius2 u v w speed temperature ie sie den level_set level_set_slope volfrac_slope".split()}, volfrac=1,
                 vel_field=enum(tu, "init_conds::noICsVec"), den_field=enum(tu, "init_conds::noICsScalar"), sie_field=enum(tu, "init_conds::noICsScalar"),
                 ie_field=enum(tu, "init_conds::noICsScalar"), level_set_field=enum(tu, "init_conds::noICsScalar"), temperature_field=enum(tu, "init_conds::noICsScalar"),
                 thermal_conductivity_field=enum(tu, "init_conds::noICsScalar"), specific_heat_field=enum(tu, "init_conds::noICsScalar"), volfrac_field=enum(tu, "init_conds::uniform")))
    ck.unit("region blocks", regions)

    def together(u):
        tu = ck.tu(P + "parse_yaml.cpp", INCS)
        x, st = DeckX(u, tu, {}, "whole deck"), State()
        S, M, B = obj(x, st, "sim"), obj(x, st, "materials"), obj(x, st, "boundary")
        calls = []
        nd, ns = T.var("dimensions read", "I"), T.var("solvers read", "I")

        def place(x, a, st, env):
            t = x.tu.strip(a["t"])
            if x.sort(t):
                return x.ev(a, st, env)
            return x.lval(a, st, env).path

        def reader(name, after=None):
            def fn(x, st, thislv, args, env, e):
                calls.append((name, tuple(place(x, a, st, env) for a in args)))
                if after:
                    after(x, st, args, env)
                return Opaque("void")
            return fn

        def mesh_read(x, st, args, env):
            st.store[S.path + ("mesh_input", "num_dims")] = nd
            x.axiom(T.le(num(0), nd))

        def solver_read(x, st, args, env):
            st.store[S.path + ("solver_inputs",)] = Vec(MArr("solver_inputs"), ns)
            x.axiom(T.le(num(0), ns))
        for n, a in dict(parse_mesh_inputs=mesh_read, parse_dynamic_options=None, parse_output_options=None, parse_solver_input=solver_read, parse_bcs=None,
                         parse_regions=None, parse_materials=None, parse_multimaterial_options=None).items():
            x.contracts[n] = reader(n, a)
        call_fn(x, tu.find("parse_yaml"), [PathLV(("Y",)), S, M, B], st)
        u.reachable("the whole deck is read", st.pc)
        Y, s = ("Y",), S.path
        r = s + ("region_setups",)
        want = [("parse_mesh_inputs", (Y, s + ("mesh_input",))), ("parse_dynamic_options", (Y, s + ("dynamic_options",))), ("parse_output_options", (Y, s + ("output_options",))),
                ("parse_solver_input", (Y, s + ("solver_inputs",))), ("parse_bcs", (Y, B.path, ns)),
                ("parse_regions", (Y,) + tuple(r + (q,) for q in ("reg_fills_in_solver", "num_reg_fills_in_solver", "region_fills", "region_fills_host", "fill_gauss_states", "fill_node_states")) + (ns,)),
                ("parse_materials", (Y, M.path, nd)), ("parse_multimaterial_options", (Y, M.path))]
        for w in want:
            got = [c for c in calls if c[0] == w[0]]
            u.fact("the whole deck: %s reads its block into its own place, once, with the counts the deck gives" % w[0], len(got) == 1 and len(got[0][1]) == len(w[1]) and all(
                (a is b if isinstance(b, T.Term) else a == b) for a, b in zip(got[0][1], w[1])), "symbolic execution", note=str([[getattr(a, "val", a) for a in g[1]] for g in got])[:300])
    ck.unit("the readers together", together)

    n = 3000 if ck.tier == "quick" else 100000
    exe = ck.compile("parse", [HARN + "/parse.cpp", P + "Yaml.cpp", P + "read_abaqus_files.cpp"], INCS, flags=("-O1", "-g", "-fsanitize=address"))
    ck.run_harness("decks read by the real readers", exe, [n, ck.seed, ck.tmp], timeout=120 if ck.tier == "quick" else 1500,
                   bound="%d random decks, a third of them with one wrong word or model name" % n)
