// velocity and stress boundary conditions: real models driven by the real boundary routines
#include "world.h"
#include "constant_velocity_bc.hpp"
#include "no_velocity_bc.hpp"
#include "piston_velocity_bc.hpp"
#include "reflected_velocity_bc.hpp"
#include "time_varying_velocity_bc.hpp"
#include "user_defined_velocity_bc.hpp"
#include "zero_velocity_bc.hpp"
#include "constant_stress_bc.hpp"
#include "time_varying_stress_bc.hpp"
#include "user_defined_stress_bc.hpp"
#include "no_stress_bc.hpp"
#include "global_contact.hpp"
#include "preload_contact.hpp"
typedef RaggedRightArrayKokkos<double> Rag;
static const char *VM[] = {"constant", "fixed", "none", "user defined", "reflected", "piston", "time varying"};
static double direction(Rnd &r, int dims, double *n) { // axis (either sense), oblique, not normalised
    double s = 0; for (int d = 0; d < 3; d++) n[d] = 0;
    if (r.b()) { n[r.i(0, dims - 1)] = r.i(0, 3) ? 1 : -1; if (r.i(0, 3) == 0) for (int d = 0; d < 3; d++) n[d] *= r.in(.2, 5); }
    else do { s = 0; for (int d = 0; d < dims; d++) { n[d] = r.in(-2, 2); s += n[d] * n[d]; } } while (s < .01);
    s = 0; for (int d = 0; d < dims; d++) s += n[d] * n[d];
    return s;
}
struct Sets { // boundary sets shared by several solvers
    size_t nb, ns; std::vector<std::vector<size_t>> items, of;
    Sets(Rnd &r, size_t n) {
        nb = r.i(1, 5); ns = r.i(1, 3); items.resize(nb); of.resize(ns);
        for (auto &b : items) { std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = n - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]); b.assign(p.begin(), p.begin() + r.i(0, n)); }
        for (auto &o : of) { std::vector<size_t> p(nb); for (size_t i = 0; i < nb; i++) p[i] = i; for (size_t i = nb - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]); o.assign(p.begin(), p.begin() + r.i(0, nb)); }
    }
    void put(DCArrayKokkos<size_t> &cnt, RaggedRightArrayKokkos<size_t> &ids) { CArrayKokkos<size_t> c(nb); cnt = DCArrayKokkos<size_t>(nb); for (size_t b = 0; b < nb; b++) c(b) = cnt(b) = items[b].size(); ids = RaggedRightArrayKokkos<size_t>(c); for (size_t b = 0; b < nb; b++) for (size_t i = 0; i < items[b].size(); i++) ids(b, i) = items[b][i]; }
    void solvers(DCArrayKokkos<size_t> &n, DCArrayKokkos<size_t> &s) { n = DCArrayKokkos<size_t>(ns); s = DCArrayKokkos<size_t>(ns, nb); for (size_t a = 0; a < ns; a++) { n(a) = of[a].size(); for (size_t i = 0; i < nb; i++) s(a, i) = i < of[a].size() ? of[a][i] : 0; } }
};
static void timing(Rnd &r, double &t, double &a, double &b) { a = r.in(0, 2); b = a + r.in(0, 2); switch (r.i(0, 5)) { case 0: t = a; break; case 1: t = b; break; case 2: t = a - r.in(1e-6, 1); break; case 3: t = b + r.in(1e-6, 1); break; default: t = r.in(a, b); } }
static void run(Rnd &r, long N) {
    for (long c = 0; c < N; c++) {
        g_cases++;
        BoundaryCondition_t BC; double time = 0, t0, t1; timing(r, time, t0, t1);
#ifdef P18
        bool rz = c & 1; int dims = rz ? 2 : 3; swage::Mesh m; size_t nn = r.i(1, 12); m.initialize_nodes(nn); m.num_dims = dims; m.num_nodes = nn;
        Sets S(r, nn); m.num_bdy_sets = S.nb; S.put(m.num_bdy_nodes_in_set, m.bdy_nodes_in_set); S.solvers(BC.num_vel_bdy_sets_in_solver, BC.vel_bdy_sets_in_solver);
        DCArrayKokkos<double> v(nn, dims); fill(r, v, nn * dims, -3, 3);
        std::vector<double> w(v.st.p, v.st.p + nn * dims), w0 = w;
        CArrayKokkos<size_t> len(S.nb); for (size_t b = 0; b < S.nb; b++) len(b) = 9; BC.velocity_bc_global_vars = Rag(len); BC.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(S.nb); BC.BoundaryConditionEnums = DCArrayKokkos<BoundaryConditionEnums_t>(S.nb);
        std::vector<int> kind(S.nb); auto &P = BC.velocity_bc_global_vars;
        for (size_t b = 0; b < S.nb; b++) {
            for (int i = 0; i < 9; i++) P(b, i) = r.in(-2, 2);
            kind[b] = (int)r.i(0, 6); auto &f = BC.BoundaryConditionFunctions(b); double n[3];
            if (kind[b] >= 4) { direction(r, dims, n); for (int d = 0; d < 3; d++) P(b, d) = n[d]; }
            switch (kind[b]) {
            case 0: f.velocity = ConstantVelocityBC::velocity; break; case 1: f.velocity = ZeroVelocityBC::velocity; break; case 2: f.velocity = NoVelocityBC::velocity; break; case 3: f.velocity = UserDefinedVelocityBC::velocity; break;
            case 4: f.velocity = ReflectedVelocityBC::velocity; break;
            case 5: f.velocity = PistonVelocityBC::velocity; P(b, 6) = t0; P(b, 7) = t1; break;
            case 6: f.velocity = TimeVaryingVelocityBC::velocity; P(b, 5) = t0; P(b, 6) = t1; break; }
        }
        size_t sid = r.i(0, S.ns - 1); std::string trace;
        for (size_t b : S.of[sid]) { trace += std::string(" ") + VM[kind[b]]; for (size_t q : S.items[b]) {
            double *u = &w[q * dims], nv = 0, n2 = 0, sp = 0; for (int d = 0; d < dims; d++) { nv += u[d] * P(b, d); n2 += P(b, d) * P(b, d); }
            bool on = time >= t0 && time <= t1;
            if (kind[b] == 5) sp = P(b, 3) + P(b, 4) * (time - t0) + .5 * P(b, 5) * (time - t0) * (time - t0);
            if (kind[b] == 6) sp = P(b, 3) * exp(-P(b, 4) * (time - t0));
            for (int d = 0; d < dims; d++) switch (kind[b]) { case 0: u[d] = P(b, d); break; case 1: u[d] = 0; break; case 4: u[d] -= nv / n2 * P(b, d); break; case 5: case 6: if (on) u[d] += (sp - nv / sqrt(n2)) * P(b, d) / sqrt(n2); }
        } }
        fvc_par::order() = ORD(r);
        if (rz) { SGHRZ &s = bare<SGHRZ>(); s.solver_id = sid; s.boundary_velocity_rz(m, BC, v, time); } else { SGH3D &s = bare<SGH3D>(); s.solver_id = sid; s.boundary_velocity(m, BC, v, time); }
        fvc_par::order() = 0;
        for (size_t i = 0; i < nn * dims; i++) if (!(fabs(v.st.p[i] - w[i]) < 1e-11)) { std::string p; char t[64]; for (size_t b : S.of[sid]) { p += " ("; for (int j = 0; j < 9; j++) { snprintf(t, 64, "%.17g ", P(b, j)); p += t; } p += ")"; } FAILF("%s boundary velocity: node %zu component %zu = %.17g, expected %.17g (was %.17g) at time %.17g; conditions:%s with parameters%s", rz ? "RZ" : "3D", i / dims, i % dims, v.st.p[i], w[i], w0[i], time, trace.c_str(), p.c_str()); break; }
        // once satisfied the condition stays satisfied (a second application changes nothing)
        std::vector<double> once(v.st.p, v.st.p + nn * dims);
        if (S.of[sid].size() == 1) { if (rz) bare<SGHRZ>().boundary_velocity_rz(m, BC, v, time); else bare<SGH3D>().boundary_velocity(m, BC, v, time);
            for (size_t i = 0; i < nn * dims; i++) if (!(fabs(v.st.p[i] - once[i]) < 1e-11)) { FAILF("%s boundary velocity (%s): applying it twice changes component %zu from %.17g to %.17g", rz ? "RZ" : "3D", trace.c_str(), i % dims, once[i], v.st.p[i]); break; } }
#endif
#ifdef P19
        swage::Mesh m; size_t np = r.i(1, 12), nn = r.i(4, 20); m.num_dims = 3; m.num_nodes = nn; m.num_nodes_in_patch = 4; m.num_patches = np;
        DCArrayKokkos<double> x(nn, 3), F(nn, 3); fill(r, x, nn * 3, -3, 3); fill(r, F, nn * 3, -1, 1); std::vector<double> w(F.st.p, F.st.p + nn * 3);
        m.nodes_in_patch = decltype(m.nodes_in_patch)(np, 4); for (size_t p = 0; p < np; p++) { size_t n[4]; for (int i = 0; i < 4; i++) { again: n[i] = r.i(0, nn - 1); for (int j = 0; j < i; j++) if (n[j] == n[i]) goto again; m.nodes_in_patch(p, i) = n[i]; } }
        Sets S(r, np); m.num_bdy_sets = S.nb; S.put(m.num_bdy_patches_in_set, m.bdy_patches_in_set); S.solvers(BC.num_stress_bdy_sets_in_solver, BC.stress_bdy_sets_in_solver);
        CArrayKokkos<size_t> len(S.nb); for (size_t b = 0; b < S.nb; b++) len(b) = 9; BC.stress_bc_global_vars = Rag(len); BC.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(S.nb); BC.BoundaryConditionEnums = DCArrayKokkos<BoundaryConditionEnums_t>(S.nb);
        std::vector<int> kind(S.nb); auto &P = BC.stress_bc_global_vars;
        for (size_t b = 0; b < S.nb; b++) { for (int i = 0; i < 7; i++) P(b, i) = r.in(-2, 2); P(b, 7) = t0; P(b, 8) = t1; kind[b] = (int)r.i(0, 2); BC.BoundaryConditionFunctions(b).stress = kind[b] == 0 ? ConstantStressBC::stress : kind[b] == 1 ? TimeVaryingStressBC::stress : UserDefinedStressBC::stress; }
        size_t sid = r.i(0, S.ns - 1);
        for (size_t b : S.of[sid]) for (size_t p : S.items[b]) {
            double f = kind[b] == 0 ? 1 : kind[b] == 1 && time >= t0 && time <= t1 ? exp(-P(b, 6) * (time - t0)) : 0, A[3] = {0, 0, 0}, c[3], d[3];
            for (int i = 0; i < 3; i++) { c[i] = x(m.nodes_in_patch(p, 2), i) - x(m.nodes_in_patch(p, 0), i); d[i] = x(m.nodes_in_patch(p, 3), i) - x(m.nodes_in_patch(p, 1), i); }
            for (int i = 0; i < 3; i++) A[i] = .5 * (c[(i + 1) % 3] * d[(i + 2) % 3] - c[(i + 2) % 3] * d[(i + 1) % 3]);
            double s[3][3] = {{P(b, 0), P(b, 5), P(b, 4)}, {P(b, 5), P(b, 1), P(b, 3)}, {P(b, 4), P(b, 3), P(b, 2)}};
            for (int n = 0; n < 4; n++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w[m.nodes_in_patch(p, n) * 3 + i] += f * s[i][j] * A[j] / 4;
        }
        SGH3D &s = bare<SGH3D>(); s.solver_id = sid; fvc_par::order() = ORD(r); s.boundary_stress(m, BC, F, x, time); fvc_par::order() = 0;
        for (size_t i = 0; i < nn * 3; i++) if (!(fabs(F.st.p[i] - w[i]) < 1e-9)) { FAILF("boundary stress: force %zu of node %zu = %.17g, expected %.17g (time %g, sets %zu, patches %zu)", i % 3, i / 3, F.st.p[i], w[i], time, S.of[sid].size(), np); break; }
#endif
    }
}
int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }
