// hydrodynamic kernels of the multiphysics solvers, run on small random meshes
#include "world.h"

#ifdef P12
static void run(Rnd &r, long N) {
    SGH3D &s3 = bare<SGH3D>(); SGHRZ &sr = bare<SGHRZ>();
    for (long t = 0; t < N; t++) {
        g_cases++;
        bool rz = t & 1; int dims = rz ? 2 : 3;
        swage::Mesh m; DCArrayKokkos<double> x;
        if (rz) rnd_mesh2(r, m, x, (int)r.i(1, 3), (int)r.i(1, 3), r.in(0.4, 5)); else rnd_mesh3(r, m, x, (int)r.i(1, 2), (int)r.i(1, 2), (int)r.i(1, 2));
        size_t nn = m.num_nodes, ne = m.num_elems;
        DCArrayKokkos<double> vol(ne), v(nn, dims), L(ne, 3, 3), div(ne);
        geometry::get_vol(vol, x, m);
        double G[3][3], a[3]; for (auto &g : G) for (double &q : g) q = r.in(-1, 1); for (double &q : a) q = r.in(-1, 1);
        bool lin = r.b();
        if (lin) for (size_t n = 0; n < nn; n++) for (int i = 0; i < dims; i++) { v(n, i) = a[i]; for (int j = 0; j < dims; j++) v(n, i) += G[i][j] * x(n, j); }
        else fill(r, v, nn * dims, -1, 1);
        L.set_values(0);
        fvc_par::order() = ORD(r);
        if (rz) { sr.get_velgrad_rz(L, m, x, v, vol); sr.get_divergence_rz(div, m, x, v, vol); } else { s3.get_velgrad(L, m, x, v, vol); s3.get_divergence(div, m, x, v, vol); }
        fvc_par::order() = 0;
        for (size_t e = 0; e < ne; e++) {
            double h = 0; for (size_t c = 1; c < m.num_nodes_in_elem; c++) for (int d = 0; d < dims; d++) h = std::max(h, fabs(x(m.nodes_in_elem(e, c), d) - x(m.nodes_in_elem(e, 0), d)));
            double tol = 1e-11 * (1 + 30 / h), W[3][3] = {};
            if (!rz) {
                double X[8][3]; for (int c = 0; c < 8; c++) for (int d = 0; d < 3; d++) X[c][d] = x(m.nodes_in_elem(e, c), d);
                LD V = hex_volume(X); if (V < 1e-3 * h * h * h) continue;
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD q = 0; for (int c = 0; c < 8; c++) q += hex_gradient(X, c, j) * v(m.nodes_in_elem(e, c), i); W[i][j] = q / V; }
                tol *= h * h * h / V;
            } else {
                double X[4][2]; for (int c = 0; c < 4; c++) for (int d = 0; d < 2; d++) X[c][d] = x(m.nodes_in_elem(e, c), d);
                LD A = quad_area(X); if (A < 1e-2 * h * h) continue;
                double vr = 0;
                for (int c = 0; c < 4; c++) { int p = (c + 1) % 4, q = (c + 3) % 4; LD b[2] = {0.5L * (X[p][1] - X[q][1]), 0.5L * (X[q][0] - X[p][0])}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) W[i][j] += b[j] * v(m.nodes_in_elem(e, c), i) / A; vr += v(m.nodes_in_elem(e, c), 1) / 4; }
                W[2][2] = vr / (quad_rzvol(X) / A);
                tol *= h * h / A;
            }
            std::string in = elem_nodes(m, x, e);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
                if (fabs(L(e, i, j) - W[i][j]) > tol) FAILF("%s velocity gradient(%d,%d) = %.17g, expected %.17g; element %s", rz ? "RZ" : "3D", i, j, L(e, i, j), W[i][j], in.c_str());
                if (lin && i < dims && j < dims && fabs(L(e, i, j) - G[i][j]) > tol) FAILF("%s: a linear velocity field with gradient(%d,%d) = %.17g gives %.17g; element %s", rz ? "RZ" : "3D", i, j, G[i][j], L(e, i, j), in.c_str());
            }
            if (fabs(div(e) - (W[0][0] + W[1][1] + W[2][2])) > 3 * tol) FAILF("%s divergence = %.17g, expected %.17g; element %s", rz ? "RZ" : "3D", div(e), W[0][0] + W[1][1] + W[2][2], in.c_str());
        }
        int k = rz ? 2 : 3; double d_[9], w_[9], l_[9], l0[9]; for (int i = 0; i < 9; i++) { l0[i] = l_[i] = r.in(-5, 5); d_[i] = w_[i] = 99; }
        ViewCArrayKokkos<double> Dm(d_, k, k), Wm(w_, k, k), Lm(l_, k, k);
        if (rz) sr.decompose_vel_grad_rz(Dm, Wm, Lm); else s3.decompose_vel_grad(Dm, Wm, Lm);
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (Dm(i, j) != 0.5 * (Lm(i, j) + Lm(j, i)) || Wm(i, j) != 0.5 * (Lm(i, j) - Lm(j, i)) || Lm(i, j) != l0[i * k + j]) FAILF("split of the velocity gradient %s is wrong at (%d,%d)", vec(l0, k * k).c_str(), i, j);
    }
}
#endif

#ifdef P13
// a stand-in viscosity: forces that depend on everything it is given
static double q_force(double e, int c, int d, double area, double nrm, double vol) { return 0.1 * (e + 1) * (c + 1) - 0.3 * d + 0.01 * nrm + 0.001 * vol + area; }
static void q_model(const ViewCArrayKokkos<size_t> nodes, const RaggedRightArrayKokkos<double> &, const DCArrayKokkos<double> &L, const DRaggedRightArrayKokkos<bool> &, const DCArrayKokkos<double> &vel, const DRaggedRightArrayKokkos<double> &den, const DRaggedRightArrayKokkos<double> &ss,
    const ViewCArrayKokkos<double> &disp, const ViewCArrayKokkos<double> &an, const RaggedRightArrayKokkos<size_t> &, const CArrayKokkos<size_t> &, const double vol, const double fuzz, const double small, const double e, const size_t s, const size_t mat) {
    int k = (int)disp.dims(0), dm = (int)disp.dims(1);
    for (int c = 0; c < k; c++) for (int d = 0; d < dm; d++) disp(c, d) += q_force(e, c, d, an(c, d), vel(nodes(c), d) + L((size_t)e, 0, 1), vol + den(mat, s) * ss(mat, s) + fuzz + small);
}
static void run(Rnd &r, long N) {
    SGH3D &s3 = bare<SGH3D>(); SGHRZ &sr = bare<SGHRZ>();
    for (long t = 0; t < N; t++) {
        g_cases++;
        bool rz = t & 1; World w(r, rz, r.in(0.4, 5)); int D = w.dims, k = w.k; size_t ne = w.ne, nn = w.nn;
        for (size_t q = 0; q < w.nm; q++) w.M.MaterialFunctions(q).calc_dissipation = q_model;
        std::vector<double> want(ne * k * D, 0.0); double scale = 1; bool any = false;
        // the forces already on the corners (from set_corner_force_zero) and those of every material
        if (rz) { extern void set_corner_force_zero_rz(const swage::Mesh &, const DCArrayKokkos<double> &); set_corner_force_zero_rz(w.m, w.cforce); } else { extern void set_corner_force_zero(const swage::Mesh &, const DCArrayKokkos<double> &); set_corner_force_zero(w.m, w.cforce); }
        for (size_t c = 0; c < ne * k; c++) for (int d = 0; d < D; d++) if (w.cforce(c, d) != 0) FAILF("corner %zu starts from force %g, not zero", c, w.cforce(c, d));
        double fuzz = 1e-16, small = 1e-8, tiny = 1e-12;
        for (size_t q = 0; q < w.nm; q++) {
            fvc_par::order() = ORD(r);
            if (rz) sr.get_force_rz(w.M, w.m, w.vol, w.L, w.eroded, w.cforce, w.x, w.v, w.den, w.sie, w.pres, w.stress, w.sspd, w.mcf, w.vf, w.geo, w.cim, w.eim, w.el[q].size(), q, fuzz, tiny, small, .1, 1);
            else s3.get_force(w.M, w.m, w.vol, w.L, w.eroded, w.cforce, w.x, w.v, w.den, w.sie, w.pres, w.stress, w.sspd, w.mcf, w.vf, w.geo, w.cim, w.eim, w.el[q].size(), q, fuzz, small, .1, 1);
            fvc_par::order() = 0;
            for (size_t s = 0; s < w.el[q].size(); s++) {
                size_t e = w.el[q][s]; double tau[3][3], A = rz ? w.area(e) : 0;
                if (w.eroded(q, s)) any = true;
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tau[i][j] = w.stress(q, s, i, j) - (i == j && w.M.MaterialEnums(q).EOSType == model::decoupledEOSType ? w.pres(q, s) : 0);
                for (int c = 0; c < k; c++) for (int d = 0; d < D; d++) {
                    double f = q_force((double)e, c, d, -w.B(e, c, d), w.v(w.m.nodes_in_elem(e, c), d) + w.L(e, 0, 1), (rz ? A : w.vol(e)) + w.den(q, s) * w.sspd(q, s) + fuzz + small);
                    for (int i = 0; i < D; i++) f -= w.B(e, c, i) * tau[i][d];
                    if (rz) f += (d == 0 ? tau[1][0] : tau[1][1] - tau[2][2]) * w.carea(e, c) / (w.vol(e) / A);
                    f *= w.vf(q, s) * w.geo(q, s); if (w.eroded(q, s)) f = 0;
                    scale = std::max(scale, fabs(f)); want[(e * k + c) * D + d] += f;
                    if (fabs(w.mcf(q, s * k + c, d) - f) > 1e-9 * std::max(scale, 1.0)) FAILF("%s material corner force (material %zu of %zu, element %zu, corner %d, direction %d, %s) = %.17g, expected %.17g", rz ? "RZ" : "3D", q, w.nm, e, c, d, w.eroded(q, s) ? "eroded" : "intact", w.mcf(q, s * k + c, d), f);
                }
            }
        }
        for (size_t c = 0; c < ne * k; c++) for (int d = 0; d < D; d++) if (fabs(w.cforce(c, d) - want[c * D + d]) > 1e-9 * scale) FAILF("%s corner force (element %zu corner %zu direction %d, %zu materials%s) = %.17g, expected %.17g", rz ? "RZ" : "3D", c / k, c % k, d, w.nm, any ? ", some eroded" : "", w.cforce(c, d), want[c * D + d]);
        // velocity update
        CArrayKokkos<double> contact(nn, D); fill(r, contact, nn * D, -1, 1); bool doing = r.b(); double dt = r.in(.001, 1), al = r.b() ? .5 : 1;
        std::vector<double> F(nn * D, 0.0); double mom[3] = {}, tot[3] = {}, ms = 1;
        for (size_t e = 0; e < ne; e++) for (int c = 0; c < k; c++) for (int d = 0; d < D; d++) F[w.m.nodes_in_elem(e, c) * D + d] += w.cforce(e * k + c, d);
        if (!rz) for (size_t n = 0; n < nn; n++) for (int d = 0; d < D; d++) { F[n * D + d] += w.nforce(n, d); if (doing) F[n * D + d] += contact(n, d); }
        DCArrayKokkos<double> nf(nn, D); for (size_t i = 0; i < nn * D; i++) nf.st.p[i] = w.nforce.st.p[i];
        fvc_par::order() = ORD(r);
        if (rz) sr.update_velocity_rz(al, dt, w.m, w.v, w.v0, w.nmass, w.cforce); else s3.update_velocity(al, dt, w.m, w.v, w.v0, w.nmass, nf, w.cforce, contact, doing);
        fvc_par::order() = 0;
        for (size_t n = 0; n < nn; n++) for (int d = 0; d < D; d++) {
            double u = w.v0(n, d) + al * dt * F[n * D + d] / w.nmass(n); mom[d] += w.nmass(n) * (w.v(n, d) - w.v0(n, d)); tot[d] += al * dt * F[n * D + d]; ms = std::max(ms, fabs(F[n * D + d]));
            if (fabs(w.v(n, d) - u) > 1e-11 * (1 + fabs(u))) FAILF("%s velocity (node %zu direction %d) = %.17g, expected v0 + alpha dt F/m = %.17g (F %.17g, m %.17g, contact %d)", rz ? "RZ" : "3D", n, d, w.v(n, d), u, F[n * D + d], w.nmass(n), (int)doing);
        }
        for (int d = 0; d < D; d++) if (fabs(mom[d] - tot[d]) > 1e-11 * ms * nn) FAILF("momentum change %.17g, impulse %.17g", mom[d], tot[d]);
    }
}
#endif

#ifdef P14
double sum_domain_internal_energy(const DRaggedRightArrayKokkos<double> &, const DRaggedRightArrayKokkos<double> &, const size_t, const size_t);
double sum_domain_kinetic_energy(const swage::Mesh &, const DCArrayKokkos<double> &, const DCArrayKokkos<double> &, const DCArrayKokkos<double> &);
double sum_domain_material_mass(const DRaggedRightArrayKokkos<double> &, const size_t, const size_t);
double sum_domain_node_mass(const swage::Mesh &, const DCArrayKokkos<double> &, const DCArrayKokkos<double> &);
double sum_domain_internal_energy_rz(const DRaggedRightArrayKokkos<double> &, const DRaggedRightArrayKokkos<double> &, const size_t, const size_t);
double sum_domain_kinetic_energy_rz(const swage::Mesh &, const DCArrayKokkos<double> &, const CArrayKokkos<double> &);
double sum_domain_material_mass_rz(const DRaggedRightArrayKokkos<double> &, const size_t, const size_t);
double sum_domain_node_mass_rz(const CArrayKokkos<double> &, const size_t);
static void run(Rnd &r, long N) {
    SGH3D &s3 = bare<SGH3D>(); SGHRZ &sr = bare<SGHRZ>();
    for (long t = 0; t < N; t++) {
        g_cases++;
        bool rz = t & 1; const char *nmz = rz ? "RZ" : "3D"; World w(r, rz, r.b() ? r.in(0.4, 5) : 0); int D = w.dims, k = w.k; size_t ne = w.ne, nn = w.nn;
        double fuzz = 1e-16, small = 1e-8, tiny = 1e-12, dt = pow(10, r.in(-3, 0)), al = r.b() ? .5 : 1;
        DCArrayKokkos<double> x0(nn, D); DRaggedRightArrayKokkos<double> st0(w.cnt, 3, 3); st0.set_values(7); std::vector<double> xs(w.x.st.p, w.x.st.p + nn * D), vs(w.v.st.p, w.v.st.p + nn * D);
        fvc_par::order() = ORD(r);
        for (size_t q = 0; q < w.nm; q++) if (rz) sr.rk_init_rz(w.x, x0, w.v, w.v0, w.sie, w.sie0, w.stress, st0, D, ne, nn, w.el[q].size(), q); else s3.rk_init(w.x, x0, w.v, w.v0, w.sie, w.sie0, w.stress, st0, D, ne, nn, w.el[q].size(), q);
        fvc_par::order() = 0;
        for (size_t n = 0; n < nn; n++) for (int d = 0; d < D; d++) if (x0(n, d) != xs[n * D + d] || w.v0(n, d) != vs[n * D + d] || w.x(n, d) != xs[n * D + d] || w.v(n, d) != vs[n * D + d]) FAILF("%s step start: node %zu direction %d not saved exactly", nmz, n, d);
        for (size_t q = 0; q < w.nm; q++) for (size_t s = 0; s < w.el[q].size(); s++) { if (w.sie0(q, s) != w.sie(q, s)) FAILF("%s step start: energy of material %zu point %zu not saved", nmz, q, s); for (int i = 0; i < 9; i++) if (st0(q, s, i / 3, i % 3) != w.stress(q, s, i / 3, i % 3)) FAILF("%s step start: stress of material %zu point %zu not saved", nmz, q, s); }
        // half of the time this is a later stage of the step: the state has moved
        if (r.b()) { double X[24]; w.nodes(0, X); double h = 0; for (int d = 0; d < D; d++) h += fabs(X[2 * D + d] - X[d]); h *= .02; for (size_t n = 0; n < nn; n++) for (int d = 0; d < D; d++) { if (!(rz && d == 1 && w.x(n, 1) <= 1e-10)) w.x(n, d) += h * r.in(-1, 1); w.v(n, d) += r.in(-.1, .1); } if (rz) for (size_t n = 0; n < nn; n++) w.x(n, 1) = std::max(0., w.x(n, 1)); geometry::get_vol(w.vol, w.x, w.m); for (size_t q = 0; q < w.nm; q++) for (size_t s = 0; s < w.el[q].size(); s++) w.sie(q, s) += r.in(-.1, .1); }
        // forces, velocities, energies, positions; no viscosity
        for (size_t q = 0; q < w.nm; q++) w.M.MaterialFunctions(q).calc_dissipation = [](const ViewCArrayKokkos<size_t>, const RaggedRightArrayKokkos<double> &, const DCArrayKokkos<double> &, const DRaggedRightArrayKokkos<bool> &, const DCArrayKokkos<double> &, const DRaggedRightArrayKokkos<double> &, const DRaggedRightArrayKokkos<double> &, const ViewCArrayKokkos<double> &, const ViewCArrayKokkos<double> &, const RaggedRightArrayKokkos<size_t> &, const CArrayKokkos<size_t> &, const double, const double, const double, const double, const size_t, const size_t) {};
        w.cforce.set_values(0); w.nforce.set_values(0); CArrayKokkos<double> contact(nn, D);
        for (size_t q = 0; q < w.nm; q++) if (rz) sr.get_force_rz(w.M, w.m, w.vol, w.L, w.eroded, w.cforce, w.x, w.v, w.den, w.sie, w.pres, w.stress, w.sspd, w.mcf, w.vf, w.geo, w.cim, w.eim, w.el[q].size(), q, fuzz, tiny, small, dt, al); else s3.get_force(w.M, w.m, w.vol, w.L, w.eroded, w.cforce, w.x, w.v, w.den, w.sie, w.pres, w.stress, w.sspd, w.mcf, w.vf, w.geo, w.cim, w.eim, w.el[q].size(), q, fuzz, small, dt, al);
        if (rz) sr.update_velocity_rz(al, dt, w.m, w.v, w.v0, w.nmass, w.cforce); else s3.update_velocity(al, dt, w.m, w.v, w.v0, w.nmass, w.nforce, w.cforce, contact, false);
        fvc_par::order() = ORD(r);
        double ie0 = 0, ie1 = 0, mt = 0, scale = 1, dIE = 0;
        for (size_t q = 0; q < w.nm; q++) {
            size_t n = w.el[q].size(); double a = rz ? sum_domain_internal_energy_rz(w.mass, w.sie, n, q) : sum_domain_internal_energy(w.mass, w.sie, n, q), b = 0, c = 0;
            for (size_t s = 0; s < n; s++) b += w.mass(q, s) * w.sie(q, s), c += w.mass(q, s);
            if (fabs(a - b) > 1e-11 * (1 + fabs(b))) FAILF("%s internal energy tally of material %zu = %.17g, expected %.17g", nmz, q, a, b);
            double mq = rz ? sum_domain_material_mass_rz(w.mass, n, q) : sum_domain_material_mass(w.mass, n, q); if (fabs(mq - c) > 1e-11 * (1 + c)) FAILF("%s mass tally of material %zu = %.17g, expected %.17g", nmz, q, mq, c);
            ie0 += b; mt += c;
            if (rz) sr.update_energy_rz(al, dt, w.m, w.v, w.v0, w.x, x0, w.sie, w.sie0, w.mass, w.mcf, w.cim, w.eim, n, q); else s3.update_energy(al, dt, w.m, w.v, w.v0, w.sie, w.sie0, w.mass, w.mcf, w.cim, w.eim, n, q);
            for (size_t s = 0; s < n; s++) {
                double p = 0; size_t e = w.el[q][s];
                for (int c2 = 0; c2 < k; c2++) for (int d = 0; d < D; d++) { size_t g = w.m.nodes_in_elem(e, c2); p += w.mcf(q, s * k + c2, d) * 0.5 * (w.v(g, d) + w.v0(g, d)) * (rz ? w.x(g, 1) : 1); scale = std::max(scale, fabs(p)); }
                double want = w.sie0(q, s) - al * dt / w.mass(q, s) * p; dIE += w.mass(q, s) * (w.sie(q, s) - w.sie0(q, s));
                if (fabs(w.sie(q, s) - want) > 1e-10 * scale) FAILF("%s energy (material %zu point %zu) = %.17g, expected %.17g", nmz, q, s, w.sie(q, s), want);
                ie1 += w.mass(q, s) * w.sie(q, s);
            }
        }
        CArrayKokkos<double> xm(nn); for (size_t n = 0; n < nn; n++) xm(n) = rz ? w.nmass(n) * w.x(n, 1) : w.nmass(n);
        double k0 = 0, k1 = 0, nmt = 0;
        for (size_t n = 0; n < nn; n++) { for (int d = 0; d < D; d++) k0 += .5 * xm(n) * w.v0(n, d) * w.v0(n, d), k1 += .5 * xm(n) * w.v(n, d) * w.v(n, d); nmt += xm(n); }
        double ka = rz ? sum_domain_kinetic_energy_rz(w.m, w.v, xm) : sum_domain_kinetic_energy(w.m, w.v, w.x, w.nmass), na = rz ? sum_domain_node_mass_rz(xm, nn) : sum_domain_node_mass(w.m, w.x, w.nmass);
        if (fabs(ka - k1) > 1e-11 * (1 + k1)) FAILF("%s kinetic energy tally = %.17g, expected %.17g", nmz, ka, k1);
        if (fabs(na - nmt) > 1e-11 * (1 + nmt)) FAILF("%s nodal mass tally = %.17g, expected %.17g", nmz, na, nmt);
        if (fabs((k1 - k0) + dIE) > 1e-10 * (scale + k1 + fabs(ie0))) FAILF("%s total energy changed by %.17g in a step (kinetic %.17g, internal %.17g)", nmz, k1 - k0 + dIE, k1 - k0, dIE);
        if (rz) sr.update_position_rz(al, dt, D, nn, w.x, x0, w.v, w.v0); else s3.update_position(al, dt, D, nn, w.x, x0, w.v, w.v0);
        fvc_par::order() = 0;
        for (size_t n = 0; n < nn; n++) for (int d = 0; d < D; d++) { double want = x0(n, d) + al * dt * .5 * (w.v(n, d) + w.v0(n, d)); if (rz && d == 1 && want < 0) want = 0; if (fabs(w.x(n, d) - want) > 1e-12 * (1 + fabs(want))) FAILF("%s position (node %zu direction %d) = %.17g, expected %.17g", nmz, n, d, w.x(n, d), want); }
    }
}
#endif

int main(int argc, char **argv) {
    Rnd r(atoi(argv[1]));
    run(r, atol(argv[2]));
    return DONE();
}
