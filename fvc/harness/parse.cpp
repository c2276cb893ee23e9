// random input decks through the real YAML parser and the real parse functions;
// every stored option is compared with what the deck names (or its default), and
// decks with one wrong word must be refused
#include "matar.h"
#include "parse_mesh_inputs.cpp"
#include "parse_dynamic_inputs.cpp"
#include "parse_output_options.cpp"
#include "parse_solver_inputs.cpp"
#include "parse_bdy_conds_inputs.cpp"
#include "parse_regions.cpp"
#include "parse_material_inputs.cpp"
#include "parse_tools.cpp"
#include "parse_yaml.cpp"
#include "rnd.h"
#include <unistd.h>
#include <fcntl.h>
typedef std::vector<std::string> VS;
struct Blk { // words of one block, emitted in random order
    std::vector<std::pair<std::string, VS>> w; // word -> following lines (first: text after "word:")
    void add(const std::string &k, const std::string &v) { w.push_back({k, {v}}); }
    void sub(const std::string &k, const VS &lines) { VS l{""}; for (auto &x : lines) l.push_back(x); w.push_back({k, l}); }
    VS out(Rnd &r) { for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[r.i(0, i - 1)]);
        VS o; for (auto &p : w) { o.push_back(p.first + ":" + (p.second[0].empty() ? "" : " " + p.second[0])); for (size_t k = 1; k < p.second.size(); k++) o.push_back("  " + p.second[k]); } return o; }
};
static std::string num(Rnd &r, double &v) { char b[64]; int k = r.i(0, 5);
    if (k == 0) snprintf(b, 64, "%ld", r.i(-9, 9)); else if (k == 1) snprintf(b, 64, "%.3f", r.in(-5, 5)); else if (k == 2) snprintf(b, 64, "%.4e", r.in(-5, 5) * pow(10, r.in(-12, 12)));
    else if (k == 3) snprintf(b, 64, "%.17g", r.in(-100, 100)); else snprintf(b, 64, "%.6g", r.in(-1000, 1000));
    v = strtod(b, 0); return b; }
static std::string pos(Rnd &r, double &v) { char b[64]; snprintf(b, 64, "%.10g", r.in(0.01, 50)); v = strtod(b, 0); return b; }
static std::string integer(Rnd &r, long a, long z, long &v) { v = r.i(a, z); return std::to_string(v); }
static std::string vec3(Rnd &r, double *o, bool two) { double v; std::string s = "["; int n = two ? 2 : 3; o[2] = 0; for (int i = 0; i < n; i++) { if (i) s += r.b() ? ", " : ","; s += num(r, v); o[i] = v; } return s + "]"; }
static VS list(Rnd &r, size_t n, std::vector<double> &o) { VS l; o.clear(); for (size_t i = 0; i < n; i++) { double v; l.push_back("- " + num(r, v)); o.push_back(v); } return l; }
static std::string what;
template <class A, class B> static void eq(const A &a, const B &b, const char *f, long i = -1) {
    if ((double)a != (double)b) FAILF("%s: %s%s is %.17g, the deck gives %.17g", what.c_str(), f, i < 0 ? "" : ("(" + std::to_string(i) + ")").c_str(), (double)a, (double)b);
}
template <class F> static void eqf(F a, F b, const char *f, long i) { if (a != b) FAILF("%s: %s(%ld) selects %s", what.c_str(), f, i, a == NULL ? "no function" : b == NULL ? "a function though none is named" : "a different function"); }
static const char *BADW[] = {"bogus", "Type", "densityy", "velocity_models", "id_", "values", "none_", "x3", "radius3", "solver", "MARS", "eos"};
struct M { const char *n; int e; };

struct Deck { std::string text; };
static VS indent(const VS &l, const char *s) { VS o; for (auto &x : l) o.push_back(s + x); return o; }
static VS item(const char *name, const VS &l) { VS o; o.push_back(std::string("- ") + name + ":"); for (auto &x : indent(l, "    ")) o.push_back(x); return o; }

// ---- what the deck says
struct EBC { BoundaryConditionSetup_t s; BoundaryConditionEnums_t e; BoundaryConditionFunctions_t f; std::vector<double> v, t, p; bool surf = false; int solver = 0; bool hv = false, ht = false, hs = false; };
struct EMat { MaterialFunctions_t f; MaterialFunctions_t h; MaterialEnums_t e; std::vector<double> eos, str, dis; bool tens = false, dens = false, tab[3] = {0, 0, 0}; std::vector<double> tv[3]; };
static std::string TMP;
// one wrong thing at most per deck: `bad` names it, and the deck must be refused
static std::string bad; static int badat; static int slot_;
static bool hit(const char *n) { if (slot_++ == badat) { bad = n; return true; } return false; }
static std::string wrong(Rnd &r) { return BADW[r.i(0, 2)]; }
static std::string pickm(Rnd &r, const M *m, int n, int &k, const char *opt) { k = r.i(0, n - 1); if (hit(opt)) return std::string(m[k].n) + (r.b() ? "x" : "_bc"); return m[k].n; }

static void one(Rnd &r, bool reject) {
    bad.clear(); slot_ = 0; badat = reject ? (int)r.i(0, 60) : -1;
    int dims = r.b() ? 3 : 2; int ns = r.i(1, 3), nm = r.i(1, 3), nr = r.i(1, 4), nb = r.i(1, 4); double v; long q;
    VS doc;
    auto put = [&](const char *h, const VS &l) { doc.push_back(std::string(h) + ":"); for (auto &x : indent(l, "  ")) doc.push_back(x); };
    // --- mesh
    mesh_input_t em; bool hastype = false; {
        Blk b; b.add("num_dims", std::to_string(dims)); em.num_dims = dims; bool gen = r.b();
        { static const M m[] = {{"generate", mesh_input::generate}, {"file", mesh_input::file}}; if (hit("mesh source")) b.add("source", "filee"); else b.add("source", m[gen ? 0 : 1].n); em.source = gen ? mesh_input::generate : mesh_input::file; }
        if (!gen) { em.file_path = "./some/mesh_" + std::to_string(r.i(0, 99)) + ".geo"; b.add("file_path", em.file_path); }
        if (r.b()) { static const M m[] = {{"box", mesh_input::Box}, {"polar", mesh_input::Polar}}; int k; b.add("type", pickm(r, m, 2, k, "mesh type")); em.type = (mesh_input::type)m[k].e; hastype = true; }
        if (r.b()) b.add("origin", vec3(r, em.origin, dims == 2));
        if (r.b()) b.add("length", vec3(r, em.length, dims == 2));
        if (r.b()) { std::string s = "["; for (int i = 0; i < dims; i++) { if (i) s += ", "; s += integer(r, 1, 90, q); em.num_elems[i] = q; } if (dims == 2) em.num_elems[2] = 0; b.add("num_elems", s + "]"); }
        if (r.b()) { b.add("polynomial_order", integer(r, 1, 4, q)); em.p_order = q; }
        struct { const char *n; double *p; } D[] = {{"inner_radius", &em.inner_radius}, {"outer_radius", &em.outer_radius}, {"starting_angle", &em.starting_angle}, {"ending_angle", &em.ending_angle}, {"scale_x", &em.scale_x}, {"scale_y", &em.scale_y}, {"scale_z", &em.scale_z}};
        for (auto &d : D) if (r.b()) { b.add(d.n, num(r, v)); *d.p = v; }
        if (r.b()) { b.add("num_radial_elems", integer(r, 1, 99, q)); em.num_radial_elems = q; }
        if (r.b()) { b.add("num_angular_elems", integer(r, 1, 99, q)); em.num_angular_elems = q; }
        if (hit("unknown mesh word")) b.add(wrong(r), "1");
        if (hit("missing mesh source")) { for (size_t i = 0; i < b.w.size(); i++) if (b.w[i].first == "source") b.w.erase(b.w.begin() + i); for (size_t i = 0; i < b.w.size(); i++) if (b.w[i].first == "file_path") b.w.erase(b.w.begin() + i); }
        put("mesh_options", b.out(r));
    }
    // --- time
    dynamic_options_t ed; {
        Blk b; struct { const char *n; double *p; bool req; } D[] = {{"time_initial", &ed.time_initial, 0}, {"time_final", &ed.time_final, 1}, {"dt_min", &ed.dt_min, 0}, {"dt_max", &ed.dt_max, 0}, {"dt_start", &ed.dt_start, 0}, {"dt_cfl", &ed.dt_cfl, 0}, {"fuzz", &ed.fuzz, 0}, {"tiny", &ed.tiny, 0}, {"small", &ed.small, 0}};
        for (auto &d : D) if (d.req || r.b()) { b.add(d.n, num(r, v)); *d.p = v; }
        b.add("cycle_stop", integer(r, 0, 100000000, q)); ed.cycle_stop = q;
        if (r.b()) { b.add("rk_num_stages", integer(r, 1, 4, q)); ed.rk_num_stages = q; }
        if (hit("unknown time word")) b.add(wrong(r), "1");
        if (hit("missing cycle_stop")) for (size_t i = 0; i < b.w.size(); i++) if (b.w[i].first == "cycle_stop") { b.w.erase(b.w.begin() + i); break; }
        put("dynamic_options", b.out(r));
    }
    // --- output
    output_options_t eo; bool hasfmt = false; {
        Blk b;
        if (r.b()) { static const M m[] = {{"viz", output_options::viz}, {"ensight", output_options::ensight}, {"state", output_options::state}, {"viz_and_state", output_options::viz_and_state}}; int k; b.add("output_file_format", pickm(r, m, 4, k, "output format")); eo.format = (output_options::format)m[k].e; hasfmt = true; }
        if (r.b()) { static const M m[] = {{"thorough", 0}}; int k; b.add("timer_output_level", pickm(r, m, 1, k, "timer level")); }
        if (r.b()) { b.add("graphics_time_step", num(r, v)); eo.graphics_time_step = v; }
        if (r.b()) { b.add("graphics_iteration_step", integer(r, 1, 1000000, q)); eo.graphics_iteration_step = q; }
        static const M EL[] = {{"den", (int)material_pt_state::density}, {"pres", (int)material_pt_state::pressure}, {"stress", (int)material_pt_state::stress}, {"sie", (int)material_pt_state::specific_internal_energy}, {"sspd", (int)material_pt_state::sound_speed}, {"mass", (int)material_pt_state::mass}, {"volfrac", (int)material_pt_state::volume_fraction}, {"eroded", (int)material_pt_state::eroded_flag}};
        static const M NO[] = {{"coords", (int)node_state::coords}, {"vel", (int)node_state::velocity}, {"temp", (int)node_state::temp}, {"mass", (int)node_state::mass}, {"force", (int)node_state::force}, {"grad_level_set", (int)node_state::gradient_level_set}};
        static const M GA[] = {{"volume", (int)gauss_pt_state::volume}, {"level_set", (int)gauss_pt_state::level_set}, {"vel_grad", (int)gauss_pt_state::gradient_velocity}};
        auto fields = [&](const char *w, const M *m, int n, const char *nm, std::vector<int> &e) { if (!r.b()) return; VS l; std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); for (int i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.i(0, i - 1)]); int c = r.i(1, n); for (int i = 0; i < c; i++) { l.push_back(std::string("- ") + m[ord[i]].n); e.push_back(m[ord[i]].e); } if (hit(nm)) l[r.i(0, c - 1)] += "s"; b.sub(w, l); };
        std::vector<int> e, n, g, p; fields("elem_field_outputs", EL, 6, "element output field", e); fields("node_field_outputs", NO, 6, "node output field", n); fields("gauss_pt_field_outputs", GA, 3, "gauss point output field", g); fields("mat_pt_field_outputs", EL, 8, "material point output field", p);
        bool s = false, ms = false; for (int x : e) { s |= x == (int)material_pt_state::specific_internal_energy; ms |= x == (int)material_pt_state::mass; } if (s && !ms) e.push_back((int)material_pt_state::mass); // averages of sie are written with the mass they are weighted by
        for (int x : e) eo.output_elem_state.push_back((material_pt_state)x); for (int x : n) eo.output_node_state.push_back((node_state)x); for (int x : g) eo.output_gauss_pt_state.push_back((gauss_pt_state)x); for (int x : p) eo.output_mat_pt_state.push_back((material_pt_state)x);
        if (hit("unknown output word")) b.add(wrong(r), "1");
        if (b.w.empty()) { b.add("graphics_iteration_step", integer(r, 1, 1000000, q)); eo.graphics_iteration_step = q; }
        put("output_options", b.out(r));
    }
    // --- solvers, ids in any order
    std::vector<solver_input_t> es(ns); { std::vector<int> id; for (int i = 0; i < ns; i++) id.push_back(i); for (int i = ns; i > 1; i--) std::swap(id[i - 1], id[r.i(0, i - 1)]);
        VS l; for (int i = 0; i < ns; i++) { Blk b; solver_input_t &s = es[id[i]];
            static const M m[] = {{"dynx_FE", solver_input::SGH3D}, {"dynx_FE_rz", solver_input::SGHRZ}, {"thrmex_FE", solver_input::SGTM3D}, {"level_set", solver_input::levelSet}, {"qstatx_FE", solver_input::TLQS3D}}; int k; b.add("method", pickm(r, m, 5, k, "solver method")); s.method = (solver_input::method)m[k].e;
            int gid = id[i]; if (hit("solver id out of range")) gid = r.b() ? ns : -1; else if (ns > 1 && hit("solver id twice")) { if (i == 0) gid = id[1]; else gid = id[0]; } b.add("id", std::to_string(gid));
            if (r.b()) { b.add("time_end", pos(r, v)); s.time_end = v; if (hit("negative solver end time")) b.w.back().second[0] = "-1.0"; }
            if (r.b()) { bool t = r.b(); b.add("use_moving_heat_source", t ? (r.b() ? "true" : "True") : "false"); s.use_moving_heat_source = t; }
            if (hit("unknown solver word")) b.add(wrong(r), "1");
            for (auto &x : item("solver", b.out(r))) l.push_back(x); }
        put("solver_options", l); }
    // --- boundary conditions
    std::vector<EBC> eb(nb); bool contact = false, preload = false, frac = false; int fracid = -1; long cl = 500, cg = 100; {
        VS l; for (int i = 0; i < nb; i++) { Blk b; EBC &e = eb[i]; e.solver = r.i(0, ns - 1);
            { int s = e.solver; if (hit("bc solver id out of range")) s = r.b() ? ns + r.i(0, 2) : -1; if (!hit("missing bc solver id")) b.add("solver_id", std::to_string(s)); }
            { Blk sb; static const M m[] = {{"x_plane", boundary_conditions::xPlane}, {"y_plane", boundary_conditions::yPlane}, {"z_plane", boundary_conditions::zPlane}, {"cylinder", boundary_conditions::cylinder}, {"sphere", boundary_conditions::sphere}, {"global", boundary_conditions::global}}; int k; sb.add("type", pickm(r, m, 6, k, "surface type")); e.s.surface = (boundary_conditions::BdyTag)m[k].e;
              if (r.b()) { sb.add(k < 3 ? "plane_position" : "radius", num(r, v)); e.s.value = v; }
              if (r.b()) { sb.add("tolerance", num(r, v)); e.s.tolerance = v; }
              if (r.b()) sb.add("origin", vec3(r, e.s.origin, r.b()));
              if (hit("unknown surface word")) sb.add(wrong(r), "1");
              VS o = sb.out(r); b.sub("surface", o); }
            if (r.i(0, 2) == 0) { static const M m[] = {{"host", boundary_conditions::host}, {"device", boundary_conditions::device}}; int k; b.add("location", pickm(r, m, 2, k, "location")); e.e.Location = (boundary_conditions::BCFcnLocation)m[k].e; }
            if (r.b()) { static const M m[] = {{"none", 0}, {"constant", 1}, {"time_varying", 2}, {"reflected", 3}, {"fixed", 4}, {"user_defined", 5}, {"piston", 6}}; int k; b.add("velocity_model", pickm(r, m, 7, k, "velocity model")); e.hv = true;
                static decltype(e.f.velocity) F[] = {&NoVelocityBC::velocity, &ConstantVelocityBC::velocity, &TimeVaryingVelocityBC::velocity, &ReflectedVelocityBC::velocity, &ZeroVelocityBC::velocity, &UserDefinedVelocityBC::velocity, &PistonVelocityBC::velocity};
                static const boundary_conditions::BCVelocityModels E[] = {boundary_conditions::noVelocityBC, boundary_conditions::constantVelocityBC, boundary_conditions::timeVaryingVelocityBC, boundary_conditions::reflectedVelocityBC, boundary_conditions::zeroVelocityBC, boundary_conditions::userDefinedVelocityBC, boundary_conditions::pistonVelocityBC};
                e.e.BCVelocityModel = E[k]; e.f.velocity = F[k]; }
            if (r.b()) { static const M m[] = {{"none", boundary_conditions::noTemperatureBC}, {"constant", boundary_conditions::constantTemperatureBC}, {"convection", boundary_conditions::convectionTemperatureBC}, {"radiation", boundary_conditions::radiationTemperatureBC}}; int k; b.add("temperature_model", pickm(r, m, 4, k, "temperature model")); e.ht = true; e.e.BCTemperatureModel = (boundary_conditions::BCTemperatureModels)m[k].e; if (k == 1) e.f.temperature = &ConstantTemperatureBC::temperature; }
            if (r.b()) { static const M m[] = {{"none", boundary_conditions::noStressBC}, {"constant", boundary_conditions::constantStressBC}, {"time_varying", boundary_conditions::timeVaryingStressBC}, {"user_defined", boundary_conditions::userDefinedStressBC}, {"global_contact", -1}, {"preload_contact", -2}, {"fracture", boundary_conditions::fractureStressBC}}; int k; std::string s = pickm(r, m, 7, k, "stress model"); b.add("stress_model", s); e.hs = true;
                if (m[k].e >= 0) e.e.BCStressModel = (boundary_conditions::BCStressModels)m[k].e;
                static decltype(e.f.stress) F[] = {&NoStressBC::stress, &ConstantStressBC::stress, &TimeVaryingStressBC::stress, &UserDefinedStressBC::stress, NULL, NULL, &fractureStressBC::stress}; e.f.stress = F[k]; if (k == 4 || k == 5) contact = true; if (k == 5) preload = true; if (k == 6) { frac = true; fracid = i; } }
            auto gv = [&](const char *w, std::vector<double> &o, const char *nm) { if (!r.b()) return; size_t n = r.i(0, 9) ? r.i(1, 12) : 100; if (hit(nm)) n = 101; b.sub(w, list(r, n, o)); };
            gv("velocity_bc_global_vars", e.v, "101 velocity parameters"); gv("temperature_bc_global_vars", e.t, "101 temperature parameters"); gv("stress_bc_global_vars", e.p, "101 stress parameters");
            if (!r.i(0, 4)) { int n = 2; if (hit("three contact parameters")) n = 3; VS c; for (int k = 0; k < n; k++) { c.push_back("- " + integer(r, 1, 900, q)); (k == 0 ? cl : cg) = q; } b.sub("contact_bc_vars", c); }
            if (hit("unknown bc word")) b.add(wrong(r), "1");
            for (auto &x : item("boundary_condition", b.out(r))) l.push_back(x); }
        put("boundary_conditions", l); }
    // --- regions
    std::vector<RegionFill_t> er(nr); std::vector<RegionFill_host_t> eh(nr); std::vector<int> rs(nr); std::vector<int> gs, nd; bool anyg = false; {
        VS l; for (int i = 0; i < nr; i++) { Blk b; RegionFill_t &e = er[i]; rs[i] = r.i(0, ns - 1); e.solver_id = rs[i];
            { int s = rs[i]; if (hit("region solver id out of range")) s = r.b() ? ns + r.i(0, 1) : -1; b.add("solver_id", std::to_string(s)); }
            e.material_id = r.i(0, nm - 1); if (!hit("missing region material")) b.add("material_id", std::to_string(e.material_id));
            { Blk sb; static const M m[] = {{"global", region::global}, {"box", region::box}, {"sphere", region::sphere}, {"cylinder", region::cylinder}, {"voxel_file", region::readVoxelFile}, {"vtu_file", region::readVTUFile}}; int k; std::string t = pickm(r, m, 6, k, "region volume type"); if (!hit("missing volume type")) sb.add("type", t); e.volume = (region::vol_tag)m[k].e;
              struct { const char *n; double *p; } Q[] = {{"x1", &e.x1}, {"x2", &e.x2}, {"y1", &e.y1}, {"y2", &e.y2}, {"z1", &e.z1}, {"z2", &e.z2}, {"radius1", &e.radius1}, {"radius2", &e.radius2}, {"scale_x", &eh[i].scale_x}, {"scale_y", &eh[i].scale_y}, {"scale_z", &eh[i].scale_z}};
              for (auto &d : Q) if (r.b()) { sb.add(d.n, num(r, v)); *d.p = v; }
              if (r.b()) sb.add("origin", vec3(r, e.origin, r.b())); if (r.b()) { sb.add("part_id", integer(r, 1, 9, q)); e.part_id = q; }
              if (k == 4) { eh[i].file_path = "vox" + std::to_string(r.i(0, 99)) + ".vtk"; sb.add("file_path", eh[i].file_path); }
              if (hit("unknown volume word")) sb.add(wrong(r), "1"); VS o = sb.out(r); b.sub("volume", o); }
            using I = init_conds::init_scalar_conds; static const M ALL[] = {{"uniform", init_conds::uniform}, {"tg_vortex", init_conds::tgVortexScalar}, {"radial", init_conds::radialScalar}, {"spherical", init_conds::sphericalScalar}, {"x_linear", init_conds::xlinearScalar}, {"y_linear", init_conds::ylinearScalar}, {"z_linear", init_conds::zlinearScalar}};
            std::vector<std::pair<int, bool>> order; // names of the filled states in block order are collected after shuffling
            auto scal = [&](const char *w, I &f, double &val, bool ext, double *slope, double *org, const char *nm) { Blk sb; int k; sb.add("type", pickm(r, ALL, ext ? 7 : 2, k, nm)); f = (I)ALL[k].e; if (r.b()) { sb.add("value", num(r, v)); val = v; } if (slope && r.b()) { sb.add("slope", num(r, v)); *slope = v; } if (org && r.b()) sb.add("origin", vec3(r, org, r.b())); if (hit(nm)) sb.add(wrong(r), "1"); VS o = sb.out(r); b.sub(w, o); };
            bool first = i == 0;
            if (first || r.b()) scal("density", e.den_field, e.den, 0, 0, 0, "density fill");
            if (r.b()) scal("specific_internal_energy", e.sie_field, e.sie, 0, 0, 0, "specific internal energy fill");
            if (r.b()) scal("internal_energy", e.ie_field, e.ie, 0, 0, 0, "internal energy fill");
            if (r.b()) scal("specific_heat", e.specific_heat_field, e.specific_heat, 0, 0, 0, "specific heat fill");
            if (r.b()) scal("thermal_conductivity", e.thermal_conductivity_field, e.thermal_conductivity, 0, 0, 0, "thermal conductivity fill");
            if (r.b()) scal("volume_fraction", e.volfrac_field, e.volfrac, 1, &e.volfrac_slope, e.volfrac_origin, "volume fraction fill");
            if (r.b()) scal("temperature", e.temperature_field, e.temperature, 0, 0, 0, "temperature fill");
            if (r.b()) scal("level_set", e.level_set_field, e.level_set, 1, &e.level_set_slope, e.level_set_origin, "level set fill");
            if (r.b()) { Blk sb; static const M m[] = {{"static", init_conds::stationary}, {"cartesian", init_conds::cartesian}, {"radial", init_conds::radialVec}, {"spherical", init_conds::sphericalVec}, {"radial_linear", init_conds::radialLinearVec}, {"spherical_linear", init_conds::sphericalLinearVec}, {"tg_vortex", init_conds::tgVortexVec}}; int k; sb.add("type", pickm(r, m, 7, k, "velocity fill")); e.vel_field = (init_conds::init_vector_conds)m[k].e;
                struct { const char *n; double *p; } Q[] = {{"u", &e.u}, {"v", &e.v}, {"w", &e.w}, {"speed", &e.speed}}; for (auto &d : Q) if (r.b()) { sb.add(d.n, num(r, v)); *d.p = v; } if (hit("unknown velocity word")) sb.add(wrong(r), "1"); VS o = sb.out(r); b.sub("velocity", o); }
            if (hit("unknown region word")) b.add(wrong(r), "1");
            VS o = b.out(r);
            for (auto &p : b.w) { struct { const char *n; int e; bool g; } S[] = {{"density", (int)fill_gauss_state::density, 1}, {"specific_internal_energy", (int)fill_gauss_state::specific_internal_energy, 1}, {"internal_energy", (int)fill_gauss_state::internal_energy, 1}, {"specific_heat", (int)fill_gauss_state::specific_heat, 1}, {"thermal_conductivity", (int)fill_gauss_state::thermal_conductivity, 1}, {"level_set", (int)fill_gauss_state::level_set, 1}, {"velocity", (int)fill_node_state::velocity, 0}, {"temperature", (int)fill_node_state::temperature, 0}};
                for (auto &s : S) if (p.first == s.n) { auto &t = s.g ? gs : nd; if (std::find(t.begin(), t.end(), s.e) == t.end()) t.push_back(s.e); } }
            for (auto &x : item("region", o)) l.push_back(x); }
        put("regions", l); }
    // --- materials, ids in any order
    std::vector<EMat> ea(nm); std::string tabname; std::vector<double> tabd[3]; {
        std::vector<int> id; for (int i = 0; i < nm; i++) id.push_back(i); for (int i = nm; i > 1; i--) std::swap(id[i - 1], id[r.i(0, i - 1)]); int tabmat = r.i(0, 4) ? -1 : (int)r.i(0, nm - 1);
        VS l; for (int i = 0; i < nm; i++) { Blk b; EMat &e = ea[id[i]];
            { int g = id[i]; if (hit("material id out of range")) g = r.b() ? nm : -1; else if (nm > 1 && hit("material id twice")) g = id[i ? 0 : 1]; if (!hit("missing material id")) b.add("id", std::to_string(g)); }
            if (r.b()) { static const M m[] = {{"coupled", model::coupledEOSType}, {"decoupled", model::decoupledEOSType}}; int k; b.add("eos_model_type", pickm(r, m, 2, k, "eos type")); e.e.EOSType = (model::EOSType)m[k].e; }
            { int k = r.i(0, 5); static const char *n[] = {"no_eos", "gamma_law_gas", "void", "user_defined_eos", "host_user_defined_eos", "linear_elastic_eos"}; static const model::EOSModels E[] = {model::noEOS, model::gammaLawGasEOS, model::voidEOS, model::userDefinedEOS, model::hostUserDefinedEOS, model::linearElasticEOS};
              bool given = r.i(0, 3); if (given) { b.add("eos_model", hit("eos model") ? std::string(n[k]) + "s" : n[k]); e.e.EOSModels = E[k];
                static decltype(e.f.calc_pressure) P[] = {&NoEOSModel::calc_pressure, &GammaLawGasEOSModel::calc_pressure, &VoidEOSModel::calc_pressure, &UserDefinedEOSModel::calc_pressure, &HostUserDefinedEOSModel::calc_pressure, &LinearElasticEOS::calc_pressure}; static decltype(e.f.calc_sound_speed) S[] = {&NoEOSModel::calc_sound_speed, &GammaLawGasEOSModel::calc_sound_speed, &VoidEOSModel::calc_sound_speed, &UserDefinedEOSModel::calc_sound_speed, &HostUserDefinedEOSModel::calc_sound_speed, &LinearElasticEOS::calc_sound_speed};
                e.f.calc_pressure = P[k]; e.f.calc_sound_speed = S[k]; if (k == 4) e.e.EOSRunLocation = model::host; if (k) { size_t c = r.i(0, 9) ? r.i(1, 12) : 100; if (hit("101 eos parameters")) c = 101; b.sub("eos_global_vars", list(r, c, e.eos)); } } }
            if (r.b()) { static const M m[] = {{"no_strength", model::noStrengthType}, {"increment_based", model::incrementBased}}; int k; b.add("strength_model_type", pickm(r, m, 2, k, "strength type")); e.e.StrengthType = (model::StrengthType)m[k].e; if (hit("state-based strength")) b.w.back().second[0] = "state_based"; }
            if (r.b()) { int k = r.i(0, 6); static const char *n[] = {"no_strength", "user_defined_strength", "host_ann_strength", "hypo_plasticity_strength", "hypo_plasticity_strength_rz", "hypo_elastic_plastic_strength", "hypo_elastic_plastic_strength_rz"};
                static decltype(e.f.calc_stress) C[] = {&NoStrengthModel::calc_stress, &UserDefinedStrengthModel::calc_stress, &HostANNStrengthModel::calc_stress, &HypoPlasticityModel::calc_stress, &HypoPlasticityRZModel::calc_stress};
                static decltype(e.f.init_strength_state_vars) N[] = {&NoStrengthModel::init_strength_state_vars, &UserDefinedStrengthModel::init_strength_state_vars, &HostANNStrengthModel::init_strength_state_vars, &HypoPlasticityModel::init_strength_state_vars, &HypoPlasticityRZModel::init_strength_state_vars};
                bool ok = k < 3 || (k == 3 && dims == 3) || (k == 4 && dims == 2); if (ok || hit("strength model of the wrong dimension or not built")) { b.add("strength_model", hit("strength model") ? "strength" : n[k]); if (k < 5) { e.f.calc_stress = C[k]; e.h.init_strength_state_vars = N[k]; if (k == 2) e.e.StrengthRunLocation = model::host; } } }
            if (r.b()) { size_t c = r.i(0, 9) ? r.i(1, 12) : 100; if (hit("101 strength parameters")) c = 101; b.sub("strength_global_vars", list(r, c, e.str)); }
            if (r.b()) { static const M m[] = {{"basic", model::basicErosion}, {"no_erosion", model::noErosion}}; int k; b.add("erosion_model", pickm(r, m, 2, k, "erosion model")); e.e.ErosionModels = (model::ErosionModels)m[k].e; e.f.erode = k ? &NoErosionModel::erode : &BasicErosionModel::erode; }
            if (r.b()) { b.add("erode_tension_val", num(r, v)); e.f.erode_tension_val = v; e.tens = true; } if (r.b()) { b.add("erode_density_val", num(r, v)); e.f.erode_density_val = v; e.dens = true; }
            if (r.b()) { b.add("normal_velocity", num(r, v)); e.f.normal_velocity = v; } if (r.b()) { b.add("curvature_velocity", num(r, v)); e.f.curvature_velocity = v; }
            if (r.b()) { static const M m[] = {{"no_level_set", model::noLevelSet}, {"evolve_front", model::evolveFront}}; int k; b.add("level_set_type", pickm(r, m, 2, k, "level set type")); e.e.levelSetType = (model::levelSetType)m[k].e; }
            e.f.calc_dissipation = &NoDissipationModel::calc_dissipation;
            { int k = r.i(0, 3); if (k == 3 && r.b()) b.add("dissipation_model", hit("dissipation model") ? "no_dissipations" : "no_dissipation");
              else if (k == 1 || k == 2) { static const char *n[2][2] = {{"MARS", "directional_MARS"}, {"MARS_rz", "directional_MARS_rz"}}; static decltype(e.f.calc_dissipation) F[2][2] = {{&MARSDissipationModel::calc_dissipation, &DirMARSDissipationModel::calc_dissipation}, {&MARSRZDissipationModel::calc_dissipation, &DirMARSRZDissipationModel::calc_dissipation}}; static const model::DissipationModels E[2][2] = {{model::MARS, model::directionalMARS}, {model::MARSRZ, model::directionalMARSRZ}};
                int z = dims == 2, d = k - 1; b.add("dissipation_model", hit("dissipation model of the wrong dimension") ? n[!z][d] : hit("dissipation model") ? "mars" : n[z][d]); e.e.DissipationModels = E[z][d]; e.f.calc_dissipation = F[z][d]; size_t c = r.i(6, 10); if (hit("five dissipation parameters")) c = 5; else if (hit("eleven dissipation parameters")) c = 11; b.sub("dissipation_global_vars", list(r, c, e.dis)); } }
            if (i == tabmat) { static const char *fn[] = {"density", "thermal_conductivity", "specific_heat"}, *kw[] = {"*Density", "*Conductivity", "*Specific Heat"}; std::string p = TMP; FILE *f = fopen(p.c_str(), "w"); fprintf(f, "** comment\n*Elastic\n1.0,2.0,3.0\n");
                for (int k : {2, 0, 1}) { int n = r.i(2, 5); tabd[k].clear(); double T = r.in(1, 9); fprintf(f, "%s\n", kw[k]); for (int j = 0; j < n; j++) { double y = r.i(1, 99999) / 16.0; T += r.i(1, 400) / 8.0; double Tr = floor(T * 8) / 8; fprintf(f, "%.8g, %.8g\n", y, Tr); tabd[k].push_back(Tr); tabd[k].push_back(y); } } fclose(f);
                VS s; s.push_back("type: " + std::string(hit("tabular type") ? "temp" : "temperature_dependent")); s.push_back("tabular_data: " + p); s.push_back("file_format: " + std::string(hit("tabular file format") ? "csv" : "Abaqus_jmatpro")); s.push_back("fields:"); bool some = false; for (int k = 0; k < 3; k++) if (r.b() || (k == 2 && !some)) { some = true; e.tab[k] = true; e.tv[k] = tabd[k]; s.push_back(std::string("  - ") + (hit("tabular field") ? "elasticity" : fn[k])); } b.sub("tabular_model", s);
                if (e.tab[0]) e.f.get_density_from_temperature = &TabularMaterialModel::get_density_from_temperature; if (e.tab[1]) e.f.get_thermal_conductivity_from_temperature = &TabularMaterialModel::get_thermal_conductivity_from_temperature; if (e.tab[2]) e.f.get_specific_heat_from_temperature = &TabularMaterialModel::get_specific_heat_from_temperature; }
            if (hit("unknown material word")) b.add(wrong(r), "1");
            for (auto &x : item("material", b.out(r))) l.push_back(x); }
        put("materials", l); }
    // --- multimaterial
    int em_eq = model::noEquilibration, eg_eq = model::noEquilibration; long emax = 3; std::vector<double> me, ge; if (r.b()) { Blk b; static const M m[] = {{"no_equilibration", model::noEquilibration}, {"tipton", model::tiptonEquilibration}, {"user_defined", model::userDefinedEquilibration}}; int k;
        if (r.b()) { b.add("max_num_mats_per_element", integer(r, 1, 6, q)); emax = q; }
        if (r.b()) { b.add("mat_equilibration_model", pickm(r, m, 3, k, "equilibration model")); em_eq = m[k].e; } if (r.b()) { b.add("geo_equilibration_model", pickm(r, m, 3, k, "geometric equilibration model")); eg_eq = m[k].e; }
        if (r.b()) { size_t c = r.i(2, 5); if (hit("one equilibration parameter")) c = 1; b.sub("mat_equilibration_global_vars", list(r, c, me)); } if (r.b()) { size_t c = r.i(2, 5); if (hit("one geometric equilibration parameter")) c = 1; b.sub("geo_equilibration_global_vars", list(r, c, ge)); }
        if (hit("unknown multimaterial word")) b.add(wrong(r), "1");
        if (!b.w.empty()) put("multimaterial_options", b.out(r)); }
    if (reject && bad.empty()) return;
    std::string text; for (auto &x : doc) text += x + "\n";
    g_cases++;
    std::ostringstream os; char hd[200]; what = bad.empty() ? "deck" : "deck with " + bad;
    if (getenv("DUMP")) puts(text.c_str());
    Yaml::Node root; SimulationParameters_t sim; Material_t mat; BoundaryCondition_t bc;
    try { Yaml::Parse(root, text); } catch (std::exception &x) { FAILF("the deck cannot be read: %s", x.what()); return; }
    bool threw = false; std::string msg;
    try { parse_yaml(root, sim, mat, bc); }
    catch (std::out_of_range &x) { msg = x.what(); FAILF("%s: memory outside an array is used (%s)", what.c_str(), x.what()); return; }
    catch (std::exception &x) { threw = true; msg = x.what(); }
    if (!bad.empty()) { if (!threw) FAILF("%s is accepted", what.c_str()); return; }
    if (threw) { FAILF("a valid deck is refused: %s", msg.c_str()); if (getenv("DUMPF")) puts(text.c_str()); return; }
    // mesh
    { auto &g = sim.mesh_input; eq(g.num_dims, em.num_dims, "num_dims"); eq(g.source, em.source, "source"); if (g.file_path != em.file_path) FAILF("mesh file path is %s", g.file_path.c_str()); if (hastype) eq(g.type, em.type, "mesh type");
      for (int i = 0; i < 3; i++) { eq(g.origin[i], em.origin[i], "mesh origin", i); eq(g.length[i], em.length[i], "length", i); eq(g.num_elems[i], em.num_elems[i], "num_elems", i); }
      eq(g.p_order, em.p_order, "polynomial_order"); eq(g.inner_radius, em.inner_radius, "inner_radius"); eq(g.outer_radius, em.outer_radius, "outer_radius"); eq(g.starting_angle, em.starting_angle, "starting_angle"); eq(g.ending_angle, em.ending_angle, "ending_angle"); eq(g.num_radial_elems, em.num_radial_elems, "num_radial_elems"); eq(g.num_angular_elems, em.num_angular_elems, "num_angular_elems"); eq(g.scale_x, em.scale_x, "scale_x"); eq(g.scale_y, em.scale_y, "scale_y"); eq(g.scale_z, em.scale_z, "scale_z"); }
    { auto &g = sim.dynamic_options; eq(g.cycle_stop, ed.cycle_stop, "cycle_stop"); eq(g.time_initial, ed.time_initial, "time_initial"); eq(g.time_final, ed.time_final, "time_final"); eq(g.dt_min, ed.dt_min, "dt_min"); eq(g.dt_max, ed.dt_max, "dt_max"); eq(g.dt_start, ed.dt_start, "dt_start"); eq(g.dt_cfl, ed.dt_cfl, "dt_cfl"); eq(g.fuzz, ed.fuzz, "fuzz"); eq(g.tiny, ed.tiny, "tiny"); eq(g.small, ed.small, "small"); eq(g.rk_num_stages, ed.rk_num_stages, "rk_num_stages"); }
    { auto &g = sim.output_options; if (hasfmt) eq(g.format, eo.format, "output format"); eq(g.graphics_time_step, eo.graphics_time_step, "graphics_time_step"); eq(g.graphics_iteration_step, eo.graphics_iteration_step, "graphics_iteration_step");
      if (g.output_elem_state != eo.output_elem_state) FAILF("the element output fields are not the ones listed"); if (g.output_node_state != eo.output_node_state) FAILF("the node output fields are not the ones listed"); if (g.output_gauss_pt_state != eo.output_gauss_pt_state) FAILF("the gauss point output fields are not the ones listed"); if (g.output_mat_pt_state != eo.output_mat_pt_state) FAILF("the material point output fields are not the ones listed"); }
    eq(sim.solver_inputs.size(), (size_t)ns, "number of solvers"); for (int i = 0; i < ns; i++) { auto &g = sim.solver_inputs[i]; eq(g.method, es[i].method, "solver method", i); eq(g.time_end, es[i].time_end, "solver time_end", i); eq(g.use_moving_heat_source, es[i].use_moving_heat_source, "use_moving_heat_source", i); }
    // boundary conditions
    eq(bc.num_bcs, (size_t)nb, "number of boundary conditions"); eq(bc.allow_contact, contact, "contact allowed"); eq(bc.allow_preload, preload, "preload allowed"); eq(bc.allow_fracture, frac, "fracture allowed"); eq(bc.fracture_bc_id, fracid, "fracture condition"); eq(bc.contact_max_local_iter, (size_t)cl, "contact local iterations"); eq(bc.contact_max_global_iter, (size_t)cg, "contact global iterations");
    for (int i = 0; i < nb; i++) { auto &e = eb[i]; auto &s = bc.BoundaryConditionSetup(i); eq(s.surface, e.s.surface, "surface type", i); eq(s.value, e.s.value, "surface position", i); eq(s.tolerance, e.s.tolerance, "surface tolerance", i); for (int d = 0; d < 3; d++) eq(s.origin[d], e.s.origin[d], "surface origin", i);
        for (int hh = 0; hh < 2; hh++) { auto &n = hh ? bc.BoundaryConditionEnums.host(i) : bc.BoundaryConditionEnums(i); eq(n.BCVelocityModel, e.e.BCVelocityModel, "velocity model", i); eq(n.BCTemperatureModel, e.e.BCTemperatureModel, "temperature model", i); if (e.f.stress || !e.hs) eq(n.BCStressModel, e.e.BCStressModel, "stress model", i); eq(n.Location, e.e.Location, "location", i); }
        auto &f = bc.BoundaryConditionFunctions(i); eqf(f.velocity, e.f.velocity, "velocity condition", i); eqf(f.temperature, e.f.temperature, "temperature condition", i); eqf(f.stress, e.f.stress, "stress condition", i);
        struct { std::vector<double> &w; RaggedRightArrayKokkos<double> &g; size_t n; const char *nm; } G[] = {{e.v, bc.velocity_bc_global_vars, bc.num_velocity_bc_global_vars(i), "velocity parameter"}, {e.t, bc.temperature_bc_global_vars, bc.num_temperature_bc_global_vars(i), "temperature parameter"}, {e.p, bc.stress_bc_global_vars, bc.num_stress_bc_global_vars(i), "stress parameter"}};
        for (auto &g : G) { eq(g.n, g.w.size(), g.nm, i); if (g.n == g.w.size()) for (size_t k = 0; k < g.n; k++) eq(g.g(i, k), g.w[k], g.nm, k); } }
    for (int s = 0; s < ns; s++) { std::vector<size_t> V, T, S; for (int i = 0; i < nb; i++) if (eb[i].solver == s) { if (eb[i].hv) V.push_back(i); if (eb[i].ht) T.push_back(i); if (eb[i].hs) S.push_back(i); }
        struct { std::vector<size_t> &w; DCArrayKokkos<size_t> &n, &l; const char *nm; } L[] = {{V, bc.num_vel_bdy_sets_in_solver, bc.vel_bdy_sets_in_solver, "velocity sets of solver"}, {T, bc.num_temperature_bdy_sets_in_solver, bc.temperature_bdy_sets_in_solver, "temperature sets of solver"}, {S, bc.num_stress_bdy_sets_in_solver, bc.stress_bdy_sets_in_solver, "stress sets of solver"}};
        for (auto &l : L) { eq(l.n.host(s), l.w.size(), l.nm, s); if (l.n.host(s) == l.w.size()) for (size_t k = 0; k < l.w.size(); k++) eq(l.l.host(s, k), l.w[k], l.nm, s); } }
    // regions
    { auto &R = sim.region_setups; for (int i = 0; i < nr; i++) { auto &g = R.region_fills(i); auto &e = er[i]; 
#define C(x) eq(g.x, e.x, "region " #x, i)
        C(volume); C(solver_id); C(material_id); C(x1); C(x2); C(y1); C(y2); C(z1); C(z2); C(radius1); C(radius2); C(vel_field); C(den_field); C(sie_field); C(ie_field); C(level_set_field); C(temperature_field); C(thermal_conductivity_field); C(specific_heat_field); C(volfrac_field); C(u); C(v); C(w); C(speed); C(temperature); C(ie); C(sie); C(den); C(level_set); C(level_set_slope); C(volfrac); C(volfrac_slope); C(specific_heat); C(thermal_conductivity); C(part_id);
        for (int d = 0; d < 3; d++) { C(origin[d]); C(level_set_origin[d]); C(volfrac_origin[d]); }
        auto &h = R.region_fills_host(i); if (h.file_path != eh[i].file_path) FAILF("region %d: file path is %s", i, h.file_path.c_str()); eq(h.scale_x, eh[i].scale_x, "region scale_x", i); eq(h.scale_y, eh[i].scale_y, "region scale_y", i); eq(h.scale_z, eh[i].scale_z, "region scale_z", i); }
      for (int s = 0; s < ns; s++) { std::vector<size_t> w; for (int i = 0; i < nr; i++) if (rs[i] == s) w.push_back(i); eq(R.num_reg_fills_in_solver.host(s), w.size(), "fills of solver", s); if (R.num_reg_fills_in_solver.host(s) == w.size()) for (size_t k = 0; k < w.size(); k++) { eq(R.reg_fills_in_solver.host(s, k), w[k], "fills of solver", s); eq(R.reg_fills_in_solver(s, k), w[k], "fills of solver on the device", s); } }
      std::vector<int> a, b; for (auto x : R.fill_gauss_states) a.push_back((int)x); for (auto x : R.fill_node_states) b.push_back((int)x);
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::sort(gs.begin(), gs.end()); std::sort(nd.begin(), nd.end()); if (a != gs) FAILF("the list of filled material fields (%zu) is not the fields named (%zu)", a.size(), gs.size()); if (b != nd) FAILF("the list of filled nodal fields is not the fields named"); }
    // materials
    eq(mat.num_mats, (size_t)nm, "number of materials"); eq(mat.max_num_mats_per_element, (size_t)emax, "max_num_mats_per_element"); eq(mat.EquilibrationModels, em_eq, "equilibration model"); eq(mat.GeoEquilibrationModels, eg_eq, "geometric equilibration model");
    if (!me.empty()) { eq(mat.num_equilibration_global_vars, me.size(), "equilibration parameters"); for (size_t k = 0; k < me.size(); k++) eq(mat.equilibration_global_vars(k), me[k], "equilibration parameter", k); }
    if (!ge.empty()) { eq(mat.num_geo_equilibration_global_vars, ge.size(), "geometric equilibration parameters"); for (size_t k = 0; k < ge.size(); k++) eq(mat.geo_equilibration_global_vars(k), ge[k], "geometric equilibration parameter", k); }
    for (int i = 0; i < nm; i++) { auto &e = ea[i]; auto &f = mat.MaterialFunctions(i); auto &h = mat.MaterialFunctions.host(i);
        bool hostEOS = e.e.EOSModels == model::hostUserDefinedEOS; bool ann = e.e.StrengthRunLocation == model::host; eqf((hostEOS ? h : f).calc_pressure, e.f.calc_pressure, "pressure of material", i); eqf((hostEOS ? h : f).calc_sound_speed, e.f.calc_sound_speed, "sound speed of material", i); eqf((ann ? h : f).calc_stress, e.f.calc_stress, "strength of material", i); eqf(h.init_strength_state_vars, e.h.init_strength_state_vars, "strength set-up of material", i); eqf(f.erode, e.f.erode, "erosion of material", i); eqf(f.calc_dissipation, e.f.calc_dissipation, "dissipation of material", i);
        if (e.tens) eq(f.erode_tension_val, e.f.erode_tension_val, "erode_tension_val", i); if (e.dens) eq(f.erode_density_val, e.f.erode_density_val, "erode_density_val", i); eq(f.normal_velocity, e.f.normal_velocity, "normal_velocity", i); eq(f.curvature_velocity, e.f.curvature_velocity, "curvature_velocity", i);
        for (int hh = 0; hh < 2; hh++) { auto &n = hh ? mat.MaterialEnums.host(i) : mat.MaterialEnums(i); eq(n.EOSType, e.e.EOSType, "eos type", i); eq(n.EOSModels, e.e.EOSModels, "eos model", i); eq(n.EOSRunLocation, e.e.EOSRunLocation, "eos run location", i); eq(n.StrengthType, e.e.StrengthType, "strength type", i); eq(n.StrengthRunLocation, e.e.StrengthRunLocation, "strength run location", i); eq(n.StrengthSetupLocation, e.e.StrengthSetupLocation, "strength set-up location", i); eq(n.ErosionModels, e.e.ErosionModels, "erosion model", i); eq(n.DissipationModels, e.e.DissipationModels, "dissipation model", i); if (hh) eq(n.levelSetType, e.e.levelSetType, "level set type", i); }
        eqf(f.get_density_from_temperature, e.f.get_density_from_temperature, "tabular density of material", i); eqf(f.get_thermal_conductivity_from_temperature, e.f.get_thermal_conductivity_from_temperature, "tabular conductivity of material", i); eqf(f.get_specific_heat_from_temperature, e.f.get_specific_heat_from_temperature, "tabular specific heat of material", i);
        struct { std::vector<double> &w; RaggedRightArrayKokkos<double> &g; size_t n; const char *nm; } G[] = {{e.eos, mat.eos_global_vars, mat.num_eos_global_vars(i), "eos parameter"}, {e.str, mat.strength_global_vars, mat.num_strength_global_vars(i), "strength parameter"}, {e.dis, mat.dissipation_global_vars, mat.num_dissipation_global_vars(i), "dissipation parameter"}};
        for (auto &g : G) { eq(g.n, g.w.size(), g.nm, i); if (g.n == g.w.size()) for (size_t k = 0; k < g.n; k++) eq(g.g(i, k), g.w[k], g.nm, k); }
        Table_t *t[] = {&mat.density_table, &mat.thermal_conductivity_table, &mat.specific_heat_table};
        for (int k = 0; k < 3; k++) if (e.tab[k]) { for (size_t j = 0; j + 1 < e.tv[k].size(); j += 2) { double g = k == 0 ? f.get_density_from_temperature(*t[k], e.tv[k][j]) : k == 1 ? f.get_thermal_conductivity_from_temperature(*t[k], e.tv[k][j]) : f.get_specific_heat_from_temperature(*t[k], e.tv[k][j]); if (!close_to(g, e.tv[k][j + 1], 1e-12)) FAILF("tabular field %d of material %d is %.17g at a listed temperature, the file gives %.17g", k, i, g, e.tv[k][j + 1]); } } }
}
// two materials, each with its own density table
static void two_tables() {
    for (int k = 0; k < 2; k++) { FILE *f = fopen((TMP + std::to_string(k)).c_str(), "w"); fprintf(f, "*Density\n%d.0, 1.0\n%d.0, 2.0\n", k + 1, k + 1); fclose(f); }
    std::string t = "materials:\n"; for (int k = 0; k < 2; k++) t += "  - material:\n      id: " + std::to_string(k) + "\n      tabular_model:\n        type: temperature_dependent\n        tabular_data: " + TMP + std::to_string(k) + "\n        file_format: Abaqus_jmatpro\n        fields:\n          - density\n";
    Yaml::Node root; Material_t m; g_cases++;
    try { Yaml::Parse(root, t); parse_materials(root, m, 3); } catch (std::exception &x) { FAILF("two tabular materials are refused: %s", x.what()); return; }
    for (int k = 0; k < 2; k++) { double g = m.MaterialFunctions(k).get_density_from_temperature(m.density_table, 1.5); if (g != k + 1) FAILF("two tabular materials: material %d reads the density table of the other material", k); }
}
int main(int c, char **v) {
    long n = c > 1 ? atol(v[1]) : 1000; uint64_t seed = c > 2 ? atoll(v[2]) : 1;
    TMP = std::string(c > 3 ? v[3] : ".") + "/tab.dat";
    std::ofstream null("/dev/null"); std::cout.rdbuf(null.rdbuf());
    two_tables();
    for (long i = 0; i < n; i++) { Rnd r(seed * 7919 + i); if (getenv("CASE") && atol(getenv("CASE")) != i) continue; int f0 = g_fail; one(r, i % 3 == 2); if (g_fail > f0 && getenv("CASEV")) printf("case %ld\n", i); }
    return DONE();
}
