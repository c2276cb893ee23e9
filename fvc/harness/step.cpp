// time steps, state saved at the start of a step
#include "world.h"
#include "sgtm_solver_3D.hpp"
#include "level_set_solver.hpp"
#ifdef P15
static void run(Rnd &r, long N) {
    SGH3D &s3 = bare<SGH3D>(); SGHRZ &sr = bare<SGHRZ>(); SGTM3D &st = bare<SGTM3D>(); LevelSet &sl = bare<LevelSet>();
    for (long t = 0; t < N; t++) {
        g_cases++;
        int kind = (int)(t % 5); bool rz = kind == 1 || kind == 4; const char *nm = (const char *[]){"3D hydrodynamics", "RZ hydrodynamics", "heat conduction", "3D level set", "2D level set"}[kind];
        World w(r, rz, r.in(0, 3), 2); size_t q = r.i(0, w.nm - 1), n = w.el[q].size();
        DRaggedRightArrayKokkos<double> cond(w.cnt), cp(w.cnt); fill(r, cond, cond.st.n, .1, 3); fill(r, cp, cp.st.n, .1, 3);
        // sometimes one element is much smaller, softer or stiffer than the others
        if (n && r.b()) { size_t s = r.i(0, n - 1); w.sspd(q, s) = r.b() ? 0 : 50; cond(q, s) = 40; }
        if (r.b()) { size_t e = r.i(0, w.ne - 1); int a = (int)r.i(0, w.k - 1), b = (int)r.i(0, w.k - 1); double f = r.in(0, 1); if (a != b) for (int d = 0; d < w.dims; d++) { double &p = w.x(w.m.nodes_in_elem(e, a), d); p += f * (w.x(w.m.nodes_in_elem(e, b), d) - p); } }
        auto &mf = w.M.MaterialFunctions(q); mf.normal_velocity = r.b() ? 0 : r.in(0, 3); mf.curvature_velocity = r.b() ? 0 : r.in(0, 1);
        double time = r.in(0, 2), fin = time + (r.b() ? 100 : r.in(1e-6, .1)), gr = time + (r.b() ? 100 : r.in(-1e-3, .1)), dmax = r.b() ? 1e2 : r.in(1e-3, .1), dmin = r.b() ? 1e-8 : r.in(1e-3, .1), cfl = r.in(.1, .9), fuzz = 1e-16, tiny = 1e-12;
        if (dmin > dmax) std::swap(dmin, dmax);
        double dt0 = r.b() ? r.in(1e-3, .1) : 10, dt = dt0;
        fvc_par::order() = ORD(r);
        switch (kind) {
        case 0: s3.get_timestep(w.m, w.x, w.v, w.vol, w.sspd, w.eroded, w.eim, n, time, gr, fin, dmax, dmin, cfl, dt, fuzz, tiny, q); break;
        case 1: sr.get_timestep_rz(w.m, w.x, w.v, w.vol, w.sspd, w.eroded, w.eim, n, time, gr, fin, dmax, dmin, cfl, dt, fuzz, tiny, q); break;
        case 2: st.get_timestep(w.m, w.x, w.v, w.vol, w.sspd, cond, w.den, cp, w.eroded, w.eim, n, time, gr, fin, dmax, dmin, cfl, dt, fuzz, tiny, q); break;
        case 3: sl.get_timestep(w.m, w.M, w.x, w.vol, w.eim, n, q, time, gr, fin, dmax, dmin, cfl, dt, fuzz, tiny); break;
        case 4: sl.get_timestep_2D(w.m, w.M, w.x, w.vol, w.eim, n, q, time, gr, fin, dmax, dmin, cfl, dt, fuzz, tiny); break;
        }
        fvc_par::order() = 0;
        double want = 1.1 * dt0;
        for (size_t s = 0; s < n; s++) {
            double h = 1e300, X[24]; w.nodes(w.el[q][s], X);
            for (int a = 0; a < w.k; a++) for (int b = 0; b < a; b++) { double y = 0; for (int d = 0; d < w.dims; d++) y += (X[a * w.dims + d] - X[b * w.dims + d]) * (X[a * w.dims + d] - X[b * w.dims + d]); h = std::min(h, sqrt(y)); }
            double l = kind < 2 ? (w.eroded(q, s) ? 1e32 : cfl * h / (w.sspd(q, s) + fuzz)) : kind == 2 ? std::min(1., .3 * h * h * w.den(q, s) * cp(q, s) / (6 * cond(q, s))) : h > 0 ? cfl * h / (1.5 + mf.normal_velocity + mf.curvature_velocity / (3 * h) + fuzz) : 0;
            if (kind >= 3 && h < 1e-12) l = 0;
            want = std::min(want, std::max(std::min(l, dmax), dmin));
        }
        want = std::min(want, std::max(fuzz, gr - time) + tiny); want = std::min(want, fin - time + tiny);
        if (!(fabs(dt - want) <= 1e-12 * fabs(want) + 1e-18)) FAILF("%s: time step = %.17g, expected %.17g (old step %.17g, dt_max %g, dt_min %g, to output %g, to the end %g, %zu elements, material %zu)", nm, dt, want, dt0, dmax, dmin, gr - time, fin - time, n, q);
    }
}
#endif

int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }
