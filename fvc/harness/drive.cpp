// the driver of the multiphysics application, run with stand-ins for the parts
// it puts together: every part records its call
#include "mock_drive.h"
#include "rnd.h"
#include "driver.hpp"
#include "region_fill.hpp"
#include "sgh_solver_3D.hpp"
#include "sgh_solver_rz.hpp"
#include "sgtm_solver_3D.hpp"
#include "level_set_solver.hpp"
#include "tlqs_solver_3D.hpp"
#include <fcntl.h>
#include <unistd.h>
static std::vector<std::string> g_log; static Driver *g_driver; static SimulationParameters_t *g_deck; static int g_bcs; static std::map<const void *, size_t> g_num;
static const char *kinds[] = {"3D hydrodynamics", "axisymmetric hydrodynamics", "heat", "level set", "quasi-static"};
static const solver_input::method method_of[] = {solver_input::SGH3D, solver_input::SGHRZ, solver_input::SGTM3D, solver_input::levelSet, solver_input::TLQS3D};
void fvc_say(const std::string &s) { g_log.push_back(s); }
static std::string one(const void *p, int kind, const char *what) { if (!g_num.count(p)) { size_t n = g_num.size(); g_num[p] = n; } return std::string(what) + " solver " + std::to_string(g_num[p]) + " (" + kinds[kind] + ")"; }
static bool same(SimulationParameters_t &I, Material_t &A, swage::Mesh &m, BoundaryCondition_t &B, State_t &S) { return !g_driver || (&I == &g_driver->SimulationParamaters && &A == &g_driver->Materials && &m == &g_driver->mesh && &B == &g_driver->BoundaryConditions && &S == &g_driver->State); }
static void say(const void *p, int kind, const char *what, SimulationParameters_t &I, Material_t &A, swage::Mesh &m, BoundaryCondition_t &B, State_t &S) { fvc_say(one(p, kind, what) + (same(I, A, m, B, S) ? "" : " with other data")); }
static void runs(const Solver *p, int kind, bool ok) { char b[200]; snprintf(b, 200, " number %zu from %.15g to %.15g%s%s", p->solver_id, p->time_start, p->time_end, p->use_moving_heat_source ? " with moving source" : "", ok ? "" : " with other data"); fvc_say(one(p, kind, "run") + b); }
cohesive_zones_t::cohesive_zones_t() {}
Solver::Solver() {} Solver::~Solver() { fvc_say("delete solver " + (g_num.count(this) ? std::to_string(g_num[this]) : std::string("unknown"))); }
#define SOLVER(C, K) \
    void C::initialize(SimulationParameters_t &I, Material_t &A, swage::Mesh &m, BoundaryCondition_t &B, State_t &S) const { say(this, K, "create", I, A, m, B, S); } \
    void C::initialize_material_state(SimulationParameters_t &I, Material_t &A, swage::Mesh &m, BoundaryCondition_t &B, State_t &S) const { say(this, K, "material state of", I, A, m, B, S); } \
    void C::setup(SimulationParameters_t &I, Material_t &A, swage::Mesh &m, BoundaryCondition_t &B, State_t &S) { say(this, K, "set up", I, A, m, B, S); } \
    void C::execute(SimulationParameters_t &I, Material_t &A, BoundaryCondition_t &B, swage::Mesh &m, State_t &S) { runs(this, K, same(I, A, m, B, S)); }
SOLVER(SGH3D, 0) SOLVER(SGHRZ, 1) SOLVER(SGTM3D, 2) SOLVER(LevelSet, 3) SOLVER(TLQS3D, 4)
void parse_yaml(Yaml::Node &root, SimulationParameters_t &I, Material_t &, BoundaryCondition_t &B) { fvc_say("read the deck " + root["name"].As<std::string>("?")); I = *g_deck; B.num_bcs = g_bcs; }
void tag_bdys(const BoundaryCondition_t &, swage::Mesh &m, const DCArrayKokkos<double> &) { fvc_say("tag the boundaries of " + std::to_string(m.num_bdy_sets) + " sets"); }
void build_boundry_node_sets(swage::Mesh &) { fvc_say("nodes of the boundary sets"); }
void simulation_setup(SimulationParameters_t &I, Material_t &A, swage::Mesh &m, BoundaryCondition_t &B, State_t &S, fillGaussState_t &, fillElemState_t &) { fvc_say(std::string("fills") + (same(I, A, m, B, S) ? "" : " with other data")); }
void material_state_setup(SimulationParameters_t &I, Material_t &A, swage::Mesh &m, BoundaryCondition_t &B, State_t &S, fillGaussState_t &, fillElemState_t &) { fvc_say(std::string("material points") + (same(I, A, m, B, S) ? "" : " with other data")); }
void print_inputs() { fvc_say("help"); }
int fierro_main(int, char **);
static void run(Rnd &r, long N) {
    char dir[] = "/tmp/driveXXXXXX"; if (!mkdtemp(dir)) exit(2);
    std::string deck = std::string(dir) + "/deck.yaml"; { std::ofstream f(deck); f << "name: first\n"; }
    for (long t = 0; t < N; t++) {
        g_cases++; SimulationParameters_t I; size_t n = r.i(1, 5); auto &o = I.dynamic_options; o.time_final = r.i(0, 9) ? r.in(.1, 50) : 0; g_bcs = (int)r.i(0, 4); std::vector<int> kind(n); std::string what;
        I.mesh_input.source = r.b() ? mesh_input::generate : mesh_input::file; int where = (int)r.i(0, 3); I.mesh_input.file_path = where == 0 ? "box.inp" : where == 1 ? "meshes/a/../box.vtk" : where == 2 ? "/data/box.inp" : "../box.geo";
        I.solver_inputs.resize(n); for (size_t k = 0; k < n; k++) { auto &s = I.solver_inputs[k]; kind[k] = (int)r.i(0, 4); s.method = method_of[kind[k]]; s.time_end = r.i(0, 2) ? r.in(.01, 60) : 0; s.use_moving_heat_source = r.b(); char b[100]; snprintf(b, 100, "%s%s to %.4g", k ? ", " : "", kinds[kind[k]], s.time_end); what += b; }
        char who[700]; snprintf(who, 700, "deck with %s mesh, final time %.4g, solvers %s, case %ld", I.mesh_input.source == mesh_input::file ? "a file's" : "a generated", o.time_final, what.c_str(), t);
        // what has to happen
        std::vector<std::string> w{"read the deck first"}; if (I.mesh_input.source == mesh_input::file) w.push_back(std::string("read the mesh ") + (where == 0 ? std::string(dir) + "/box.inp" : where == 1 ? std::string(dir) + "/meshes/box.vtk" : where == 2 ? "/data/box.inp" : "/tmp/box.geo")); else w.push_back("build the mesh");
        w.push_back("tag the boundaries of " + std::to_string(g_bcs) + " sets"); w.push_back("nodes of the boundary sets");
        auto each = [&](const char *v) { for (size_t k = 0; k < n; k++) w.push_back(std::string(v) + " solver " + std::to_string(k) + " (" + kinds[kind[k]] + ")"); };
        each("create"); w.push_back("fills"); each("material state of"); w.push_back("material points"); each("set up"); each("run");
        double at = 0; for (size_t k = 0; k < n; k++) { double e = I.solver_inputs[k].time_end, to = e == 0 ? o.time_final : k ? std::min(e, o.time_final) : e; bool mv = kind[k] == 2 && I.solver_inputs[k].use_moving_heat_source; char b[200]; snprintf(b, 200, " number %zu from %.15g to %.15g%s", k, at, to, mv ? " with moving source" : ""); w[w.size() - n + k] += b; at = to; }
        for (size_t k = 0; k < n; k++) w.push_back("delete solver " + std::to_string(k));
        BEGINF("%s", who); fflush(stdout); g_log.clear(); g_num.clear(); g_deck = &I; int so = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul); std::string how;
        try {
            if (t % 4 == 3) { g_driver = nullptr; char a0[] = "Fierro"; char *a[] = {a0, &deck[0], nullptr}; fierro_main(2, a); }
            else { Driver *d = new Driver(&deck[0]); g_driver = d; d->initialize(); d->setup(); d->execute(); d->finalize(); delete d; }
        } catch (std::exception &e) { how = e.what(); }
        fflush(stdout); std::cout.flush(); dup2(so, 1); close(so);
        if (!how.empty()) { FAILF("%s: %s", who, how.c_str()); continue; }
        bool bad = false; for (size_t i = 0; i < w.size() && i < g_log.size() && !bad; i++) if (g_log[i] != w[i]) { FAILF("%s: step %zu is \"%s\", expected \"%s\"", who, i, g_log[i].c_str(), w[i].c_str()); bad = true; }
        if (!bad && w.size() != g_log.size()) FAILF("%s: %zu steps, expected %zu; %s", who, g_log.size(), w.size(), g_log.size() > w.size() ? g_log[w.size()].c_str() : w[g_log.size()].c_str());
    }
    unlink(deck.c_str()); rmdir(dir);
}
#undef main
int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }
