// heat conduction: real kernels on random meshes, one material per element
#include "world.h"
#include "sgtm_solver_3D.hpp"
#include "constant_temp_bc.hpp"
static double tri(const double *a, const double *b, const double *c) { long double u[3], v[3]; for (int d = 0; d < 3; d++) { u[d] = (long double)b[d] - a[d]; v[d] = (long double)c[d] - a[d]; } long double x = u[1] * v[2] - u[2] * v[1], y = u[2] * v[0] - u[0] * v[2], z = u[0] * v[1] - u[1] * v[0]; return (double)(sqrtl(x * x + y * y + z * z) / 2); }
static Material_t *g_M;
static double fd(const Table_t &, double t) { return 2 + t * 1e-3; }
static double fk(const Table_t &, double t) { return 30 - t * 1e-2; }
static double fc(const Table_t &, double t) { return 400 + t * .1; }
static double fd2(const Table_t &, double t) { return 7 - t * 1e-3; }
static void run(Rnd &r, long N) {
    SGTM3D &s = bare<SGTM3D>();
    for (long t = 0; t < N; t++) {
        g_cases++;
        swage::Mesh m; DCArrayKokkos<double> x; if (r.i(0, 5) == 0) fan_mesh(r, m, x, (int)r.i(5, 9), (int)r.i(1, 2), 0); else rnd_mesh3(r, m, x, (int)r.i(1, 3), (int)r.i(1, 2), (int)r.i(1, 2), .15);
        size_t nn = m.num_nodes, ne = m.num_elems, nm = r.i(1, 3); double h = r.i(0, 3) ? 1 : 10; for (size_t i = 0; i < nn * 3; i++) x.st.p[i] *= h;
        DCArrayKokkos<double> vol(ne), T(nn), T0(nn), nq(nn), cq(m.num_corners), mass(nn), src(3); geometry::get_vol(vol, x, m);
        bool hot = r.i(0, 5) == 0; fill(r, T, nn, hot ? 800 : 250, hot ? 1000 : 600); if (r.i(0, 9) == 0) for (size_t n = 0; n < nn; n++) T(n) = 900; fill(r, T0, nn, 250, 600); fill(r, nq, nn, -1, 1); fill(r, cq, m.num_corners, -1, 1); fill(r, mass, nn, .5, 3);
        std::vector<std::vector<size_t>> el(nm); for (size_t e = 0; e < ne; e++) el[r.i(0, nm - 1)].push_back(e); for (auto &q : el) for (int i = (int)q.size() - 1; i > 0; i--) std::swap(q[i], q[r.i(0, i)]);
        CArrayKokkos<size_t> cnt(nm); for (size_t q = 0; q < nm; q++) cnt(q) = el[q].size(); typedef DRaggedRightArrayKokkos<double> DR;
        DR q(cnt, 3), g(cnt, 3), k(cnt), cp(cnt), den(cnt); fill(r, k, k.st.n, 1, 5); fill(r, cp, cp.st.n, 1, 5); fill(r, den, den.st.n, 1, 5); fill(r, q, q.st.n, -9, 9); fill(r, g, g.st.n, -9, 9);
        DRaggedRightArrayKokkos<bool> er(cnt); DRaggedRightArrayKokkos<size_t> eim(cnt); DCArrayKokkos<size_t> nmat(ne), mats(ne, 3), sid(ne, 3); mats.set_values(0); sid.set_values(0);
        for (size_t a = 0; a < nm; a++) for (size_t b = 0; b < el[a].size(); b++) { eim(a, b) = el[a][b]; er(a, b) = r.i(0, 9) == 0; nmat(el[a][b]) = 1; mats(el[a][b], 0) = a; sid(el[a][b], 0) = b; }
        corners_in_mat_t cim(8); Material_t M; M.num_mats = nm; M.MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(nm); double dt = r.in(.01, 1), al = r.b() ? 1 : .5;
        fvc_par::order() = ORD(r);
        std::vector<double> want(cq.st.p, cq.st.p + m.num_corners); std::vector<std::vector<int>> er0(nm); for (size_t a = 0; a < nm; a++) for (size_t b = 0; b < el[a].size(); b++) er0[a].push_back(er(a, b));
        for (size_t a = 0; a < nm; a++) s.get_heat_flux(M, m, vol, x, T, q, k, g, cq, cim, er, eim, el[a].size(), a, 1e-16, 1e-8, dt, al);
        bool bad = false;
        for (size_t a = 0; a < nm && !bad; a++) for (size_t b = 0; b < el[a].size() && !bad; b++) {
            size_t e = el[a][b]; double X[8][3], av = 0; for (int c = 0; c < 8; c++) { av += T(m.nodes_in_elem(e, c)) / 8; for (int d = 0; d < 3; d++) X[c][d] = x(m.nodes_in_elem(e, c), d); }
            double G[3], Bc[8][3], scale = 0; for (int d = 0; d < 3; d++) { G[d] = 0; for (int c = 0; c < 8; c++) { Bc[c][d] = (double)hex_gradient(X, c, d); G[d] += T(m.nodes_in_elem(e, c)) * Bc[c][d] / vol(e); scale = std::max(scale, fabs(T(m.nodes_in_elem(e, c)) * Bc[c][d] / vol(e))); } }
            for (int d = 0; d < 3; d++) { if (!(fabs(g(a, b, d) - G[d]) < 1e-9 * scale)) { FAILF("gradient of point %zu of material %zu (element %zu), component %d = %.15g, expected %.15g", b, a, e, d, (double)g(a, b, d), G[d]); bad = true; } if (!bad && !(fabs(q(a, b, d) + k(a, b) * G[d]) < 1e-9 * scale * k(a, b))) { FAILF("heat flux of point %zu of material %zu, component %d = %.15g, expected %.15g", b, a, d, (double)q(a, b, d), -k(a, b) * G[d]); bad = true; } }
            double sum = 0, sc = 0; for (int c = 0; c < 8; c++) { double v = 0; for (int d = 0; d < 3; d++) { v -= k(a, b) * G[d] * Bc[c][d]; sc = std::max(sc, k(a, b) * scale * fabs(Bc[c][d])); } want[e * 8 + c] = v; sum += cq(e * 8 + c); }
            for (int c = 0; c < 8 && !bad; c++) if (!(fabs(cq(e * 8 + c) - want[e * 8 + c]) < 1e-9 * sc)) { FAILF("heat entering corner %d of element %zu = %.15g, expected %.15g", c, e, cq(e * 8 + c), want[e * 8 + c]); bad = true; }
            if (!bad && !(fabs(sum) < 1e-8 * sc)) { FAILF("element %zu creates heat: %.15g", e, sum); bad = true; }
            if (!bad && fabs(av - 900) > 1e-9 && (bool)er(a, b) != (er0[a][b] || av > 900)) { FAILF("point %zu of material %zu at %.15g is %s", b, a, av, er(a, b) ? "off" : "on"); bad = true; }
            if (!bad && av == 900 && !er(a, b)) { FAILF("point %zu of material %zu at exactly 900 stays on", b, a); bad = true; }
        }
        for (size_t c = 0; c < m.num_corners; c++) want[c] = cq(c);
        // moving source
        double power = r.in(1e4, 1e6); for (int d = 0; d < 3; d++) src(d) = r.i(0, 3) ? r.in(-h, 3 * h) : r.in(-30, 30);
        if (r.b()) { size_t e = r.i(0, ne - 1); double c0 = 0; for (int d = 0; d < 3; d++) { double c = 0; for (int i = 0; i < 8; i++) c += x(m.nodes_in_elem(e, i), d); src(d) = c / 8; } int d = (int)r.i(0, 2); src(d) += (r.b() ? 8 : -8) * (r.b() ? 1 - 1e-9 : 1 + 1e-9); (void)c0; }
        for (size_t a = 0; a < nm; a++) s.moving_flux(M, m, vol, x, cq, src, cim, eim, el[a].size(), power, a, 1e-16, 1e-8, dt, al);
        for (size_t e = 0; e < ne && !bad; e++) { double d2 = 0; for (int d = 0; d < 3; d++) { double c = 0; for (int i = 0; i < 8; i++) c += x(m.nodes_in_elem(e, i), d) / 8; d2 += (c - src(d)) * (c - src(d)); }
            if (fabs(d2 - 64) < 1e-10) continue;
            double add = d2 < 64 ? power / (4. / 3 * 3.14159 * 512) * vol(e) / 8 : 0;
            for (int c = 0; c < 8 && !bad; c++) if (!(fabs(cq(e * 8 + c) - want[e * 8 + c] - add) <= 1e-10 * (fabs(add) + fabs(want[e * 8 + c])))) { FAILF("source at distance %.15g adds %.15g to corner %d of element %zu, expected %.15g", sqrt(d2), cq(e * 8 + c) - want[e * 8 + c], c, e, add); bad = true; } }
        // boundary exchange
        BoundaryCondition_t BC; size_t nb = r.i(1, 4), np = r.i(1, 8); m.num_bdy_sets = nb; m.num_nodes_in_patch = 4; m.nodes_in_patch = decltype(m.nodes_in_patch)(np, 4);
        for (size_t p = 0; p < np; p++) { size_t e = r.i(0, ne - 1); static const int F[6][4] = {{0, 2, 6, 4}, {1, 5, 7, 3}, {0, 4, 5, 1}, {2, 3, 7, 6}, {0, 1, 3, 2}, {4, 6, 7, 5}}; int f = (int)r.i(0, 5), sh = (int)r.i(0, 3); for (int i = 0; i < 4; i++) m.nodes_in_patch(p, i) = m.nodes_in_elem(e, F[f][(i + sh) % 4]); }
        std::vector<std::vector<size_t>> P(nb), B(nb); CArrayKokkos<size_t> pc(nb), bc(nb), one(nb); m.num_bdy_nodes_in_set = DCArrayKokkos<size_t>(nb); m.num_bdy_patches_in_set = DCArrayKokkos<size_t>(nb); BC.BoundaryConditionEnums = DCArrayKokkos<BoundaryConditionEnums_t>(nb); BC.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(nb);
        for (size_t b = 0; b < nb; b++) { for (size_t p = 0; p < np; p++) if (r.b()) P[b].push_back(p); for (size_t n = 0; n < nn; n++) if (r.i(0, 2) == 0) B[b].push_back(n); pc(b) = m.num_bdy_patches_in_set(b) = P[b].size(); bc(b) = m.num_bdy_nodes_in_set(b) = B[b].size(); one(b) = 1; }
        m.bdy_patches_in_set = RaggedRightArrayKokkos<size_t>(pc); m.bdy_nodes_in_set = RaggedRightArrayKokkos<size_t>(bc); BC.temperature_bc_global_vars = RaggedRightArrayKokkos<double>(one);
        using boundary_conditions::BCTemperatureModels; BCTemperatureModels kinds[] = {boundary_conditions::noTemperatureBC, boundary_conditions::constantTemperatureBC, boundary_conditions::convectionTemperatureBC, boundary_conditions::radiationTemperatureBC};
        std::vector<int> kd(nb); for (size_t b = 0; b < nb; b++) { for (size_t i = 0; i < P[b].size(); i++) m.bdy_patches_in_set(b, i) = P[b][i]; for (size_t i = 0; i < B[b].size(); i++) m.bdy_nodes_in_set(b, i) = B[b][i]; BC.temperature_bc_global_vars(b, 0) = r.in(200, 700); BC.BoundaryConditionEnums(b).BCTemperatureModel = kinds[kd[b] = (int)r.i(0, 3)]; BC.BoundaryConditionFunctions(b).temperature = ConstantTemperatureBC::temperature; }
        std::vector<double> wq(nq.st.p, nq.st.p + nn), sc(nn, 0);
        s.boundary_convection(m, BC, T, nq, x, 0); s.boundary_radiation(m, BC, T, nq, x, 0);
        for (size_t b = 0; b < nb; b++) if (kd[b] >= 2) for (size_t p : P[b]) { size_t n[4]; double X[4][3]; for (int i = 0; i < 4; i++) { n[i] = m.nodes_in_patch(p, i); for (int d = 0; d < 3; d++) X[i][d] = x(n[i], d); } double A = (tri(X[0], X[1], X[2]) + tri(X[2], X[3], X[0])) / 4; for (int i = 0; i < 4; i++) { double v = kd[b] == 2 ? -100 * (T(n[i]) - 293.15) * A : -.2 * 5.67037442e-8 * pow(T(n[i]), 4) * A; wq[n[i]] += v; sc[n[i]] += fabs(v) + 1; } }
        for (size_t n = 0; n < nn && !bad; n++) if (!(fabs(nq(n) - wq[n]) <= 1e-8 * sc[n])) { FAILF("boundary exchange of node %zu at %g = %.15g, expected %.15g", n, T(n), nq(n), wq[n]); bad = true; }
        // temperature
        for (size_t n = 0; n < nn; n++) wq[n] = nq(n); fill(r, cq, m.num_corners, -10, 10); std::vector<double> C(nn, 0);
        for (size_t e = 0; e < ne; e++) for (int c = 0; c < 8; c++) { size_t n = m.nodes_in_elem(e, c); wq[n] += cq(e * 8 + c); C[n] += cp(mats(e, 0), sid(e, 0)) / m.num_corners_in_node(n); }
        s.update_temperature(m, cq, T, T0, mass, nq, cp, nmat, mats, sid, al, dt);
        for (size_t n = 0; n < nn && !bad; n++) if (!(fabs(T(n) - T0(n) - al * dt * wq[n] / (mass(n) * C[n])) < 1e-9 * (fabs(T(n)) + fabs(T0(n)) + fabs(dt * wq[n])))) { FAILF("temperature of node %zu (%zu materials) = %.15g, expected %.15g", n, nm, T(n), T0(n) + al * dt * wq[n] / (mass(n) * C[n])); bad = true; }
        std::vector<double> Tw(T.st.p, T.st.p + nn); for (size_t b = 0; b < nb; b++) if (kd[b] == 1) for (size_t n : B[b]) Tw[n] = BC.temperature_bc_global_vars(b, 0);
        s.boundary_temperature(m, BC, T, 0); for (size_t n = 0; n < nn && !bad; n++) if (T(n) != Tw[n]) { FAILF("fixed temperature of node %zu = %.15g, expected %.15g", n, T(n), Tw[n]); bad = true; }
        // properties, position, step start
        for (size_t a = 0; a < nm; a++) { auto &f = M.MaterialFunctions(a); f.get_density_from_temperature = a ? fd2 : fd; f.get_thermal_conductivity_from_temperature = fk; f.get_specific_heat_from_temperature = fc; }
        for (size_t n = 0; n < nn; n++) T(n) = r.in(250, 600);
        for (size_t a = 0; a < nm; a++) s.update_properties(M, m, T, den, k, cp, eim, el[a].size(), a);
        for (size_t a = 0; a < nm; a++) for (size_t b = 0; b < el[a].size() && !bad; b++) { double av = 0; for (int c = 0; c < 8; c++) av += T(m.nodes_in_elem(el[a][b], c)) / 8; Table_t tb; double w[3] = {a ? fd2(tb, av) : fd(tb, av), fk(tb, av), fc(tb, av)}, v[3] = {den(a, b), k(a, b), cp(a, b)}; for (int i = 0; i < 3 && !bad; i++) if (!(fabs(v[i] - w[i]) < 1e-10 * fabs(w[i]))) { FAILF("%s of point %zu of material %zu at %g = %.15g, expected %.15g", i == 0 ? "density" : i == 1 ? "conductivity" : "specific heat", b, a, av, v[i], w[i]); bad = true; } }
        DCArrayKokkos<double> v(nn, 3), v0(nn, 3), x0(nn, 3), y(nn, 3); DR st(cnt, 3); fill(r, v, nn * 3, -1, 1); fill(r, v0, nn * 3, -1, 1); fill(r, x0, nn * 3, 0, 1);
        s.rk_init(x, x0, v, v0, T, T0, nq, st, 3, ne, nn, 0); for (size_t n = 0; n < nn && !bad; n++) { if (T0(n) != T(n)) { FAILF("step start temperature of node %zu = %.15g, expected %.15g", n, T0(n), T(n)); bad = true; } for (int d = 0; d < 3; d++) if (x0(n, d) != x(n, d)) { FAILF("step start coordinate of node %zu", n); bad = true; } }
        s.update_position(al, dt, 3, nn, y, x0, v, v0); for (size_t n = 0; n < nn * 3 && !bad; n++) if (!(fabs(y.st.p[n] - x0.st.p[n] - al * dt * (v.st.p[n] + v0.st.p[n]) / 2) < 1e-12 * h)) { FAILF("position of node %zu component %zu = %.15g", n / 3, n % 3, y.st.p[n]); bad = true; }
        fvc_par::order() = 0;
    }
}
int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }
