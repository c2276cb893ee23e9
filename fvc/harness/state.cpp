// equations of state, state update, erosion
#include <atomic>
#include "world.h"
#include "region_fill.hpp"
#include "elasticity.hpp"
#include "gamma_law_eos.hpp"
#include "void_eos.hpp"
#include "no_eos.hpp"
#include "user_defined_eos.hpp"
#include "host_user_defined_eos.hpp"
#include "basic_erosion.hpp"
#include "no_erosion.hpp"
typedef DRaggedRightArrayKokkos<double> Rg;
static std::atomic<int> g_calls;
static void strength(const DCArrayKokkos<double>& L, const DCArrayKokkos<double>& x, const DCArrayKokkos<double>& v, const DCArrayKokkos<size_t>& nie, const Rg& pres, const Rg& stress, const Rg& s0, const Rg& sspd, const Rg& es, const Rg& ss, const double den, const double sie, const Rg& sh, const DRaggedRightArrayKokkos<size_t>& eim, const RaggedRightArrayKokkos<double>& eg, const RaggedRightArrayKokkos<double>& sg, const double vol, const double dt, const double al, const double time, const size_t cyc, const size_t pt, const size_t mat, const size_t g, const size_t e) {
    g_calls++;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) stress(mat, pt, i, j) = s0(mat, pt, i, j) + al * dt * L(g, i, j) + den * i + sie * j + vol + 1e-3 * pres(mat, pt) + 1e-2 * sspd(mat, pt) + time + cyc + 1e-1 * x(nie(e, 1), 0) + 1e-1 * v(nie(e, 2), 1) + sh(mat, pt);
}
static void run(Rnd &r, long N) {
    SGH3D &s3 = bare<SGH3D>(); SGHRZ &sr = bare<SGHRZ>();
    for (long t = 0; t < N; t++) {
        g_cases++;
        bool rz = t & 1; World w(r, rz, r.in(0, 3), 2); size_t q = r.i(0, w.nm - 1), n = w.el[q].size();
        CArrayKokkos<size_t> gc(w.nm); for (size_t a = 0; a < w.nm; a++) gc(a) = 6;
        RaggedRightArrayKokkos<double> eg(gc); for (size_t a = 0; a < w.nm; a++) { eg(a, 0) = r.in(1.1, 3); eg(a, 1) = r.b() ? 1e-3 : r.in(0, 2); eg(a, 2) = r.in(.5, 2); eg(a, 3) = r.b() ? 1e-3 : r.in(0, 3); eg(a, 4) = r.in(0, 1); eg(a, 5) = r.in(0, 1); }
        w.M.eos_global_vars = eg; w.M.strength_global_vars = eg;
        Rg es(w.cnt), sst(w.cnt), sh(w.cnt), s0(w.cnt, 3, 3); fill(r, es, es.st.n, 0, 1); fill(r, sst, sst.st.n, 0, 1); fill(r, sh, sh.st.n, 0, 1); fill(r, s0, s0.st.n, -1, 1);
        auto &mf = w.M.MaterialFunctions(q); auto &me = w.M.MaterialEnums(q);
        int eos = (int)r.i(0, 3), str = (int)r.i(0, 2), er = (int)r.i(0, 1); bool dec = r.b();
        me.EOSType = dec ? model::decoupledEOSType : model::coupledEOSType; me.StrengthType = str == 0 ? model::stateBased : str == 1 ? model::incrementBased : model::noStrengthType; me.StrengthRunLocation = model::device;
        me.ErosionModels = er ? model::basicErosion : model::noErosion; mf.erode = er ? BasicErosionModel::erode : NoErosionModel::erode;
        mf.calc_stress = strength;
        switch (eos) {
        case 0: mf.calc_pressure = GammaLawGasEOSModel::calc_pressure; mf.calc_sound_speed = GammaLawGasEOSModel::calc_sound_speed; break;
        case 1: mf.calc_pressure = LinearElasticEOS::calc_pressure; mf.calc_sound_speed = LinearElasticEOS::calc_sound_speed; break;
        case 2: mf.calc_pressure = VoidEOSModel::calc_pressure; mf.calc_sound_speed = VoidEOSModel::calc_sound_speed; break;
        case 3: mf.calc_pressure = NoEOSModel::calc_pressure; mf.calc_sound_speed = NoEOSModel::calc_sound_speed; break;
        }
        if (r.b()) for (size_t a = 0; a < w.vf.st.n; a++) w.vf.st.p[a] = w.geo.st.p[a] = 1;
        // thresholds: away from, or exactly at, one point's values
        std::vector<double> d(n), p(n), c(n);
        for (size_t s = 0; s < n; s++) {
            double de = w.mass(q, s) / (w.vol(w.el[q][s]) * w.vf(q, s) * w.geo(q, s) + 1e-20), e = w.sie(q, s); d[s] = de; p[s] = w.pres(q, s); c[s] = w.sspd(q, s);
            if (dec) switch (eos) {
            case 0: p[s] = (eg(q, 0) - 1) * e * de; c[s] = std::max(sqrt(eg(q, 0) * (eg(q, 0) - 1) * e), eg(q, 1)); break;
            case 1: p[s] = eg(q, 0) * (de / eg(q, 2) - 1); c[s] = std::max(eg(q, 3), sqrt((eg(q, 0) + 4. / 3 * eg(q, 1)) / de)); break;
            case 2: p[s] = 0; c[s] = 1e-32; break;
            }
        }
        mf.erode_tension_val = r.b() ? -1e3 : r.in(-1, 2); mf.erode_density_val = r.b() ? 0 : r.in(0, 3);
        if (n && r.i(0, 3) == 0) { size_t s = r.i(0, n - 1); if (r.b() && (!dec || eos == 2)) mf.erode_tension_val = p[s]; }
        double time = r.in(0, 1), dt = r.in(0, .1), al = r.b() ? .5 : 1; size_t cyc = r.i(0, 5);
        auto cp = [](const Rg &a) { return std::vector<double>(a.st.p, a.st.p + a.st.n); };
        auto pd = cp(w.den), pp = cp(w.pres), pc = cp(w.sspd), ps = cp(w.stress); std::vector<char> pe; for (size_t s = 0; s < n; s++) pe.push_back(w.eroded(q, s));
        auto S = [&](size_t s, int i, int j, double den) { size_t e = w.el[q][s]; return s0(q, s, i, j) + al * dt * w.L(e, i, j) + den * i + w.sie(q, s) * j + w.vol(e) + 1e-3 * p[s] + 1e-2 * c[s] + time + cyc + .1 * w.x(w.m.nodes_in_elem(e, 1), 0) + .1 * w.v(w.m.nodes_in_elem(e, 2), 1) + sh(q, s); };
        fvc_par::order() = ORD(r); g_calls = 0;
        if (rz) sr.update_state_rz(w.M, w.m, w.x, w.v, w.L, w.den, w.pres, w.stress, s0, w.sspd, w.sie, w.vf, w.geo, w.vol, w.mass, es, sst, w.eroded, sh, w.eim, time, dt, al, cyc, n, q);
        else s3.update_state(w.M, w.m, w.x, w.v, w.L, w.den, w.pres, w.stress, s0, w.sspd, w.sie, w.vf, w.geo, w.vol, w.mass, es, sst, w.eroded, sh, w.eim, time, dt, al, cyc, n, q);
        fvc_par::order() = 0;
        const char *nm = rz ? "RZ" : "3D";
        if (g_calls != (str == 0 ? (int)n : 0)) FAILF("%s: strength model called %d times for %zu points (strength type %d)", nm, (int)g_calls, n, str);
        size_t off0 = w.cnt(q) ? &w.den(q, 0) - w.den.st.p : 0;
        for (size_t s = 0; s < n; s++) {
            // the density decides erosion after rounding: skip points within rounding of the threshold unless exactly there
            bool tb = fabs(p[s] - mf.erode_tension_val) < 1e-9 && p[s] != mf.erode_tension_val, db = fabs(d[s] - mf.erode_density_val) < 1e-9;
            if (er && (tb || db)) continue;
            bool dead = er && (pe[s] || p[s] <= mf.erode_tension_val || d[s] <= mf.erode_density_val);
            bool flag = pe[s] || dead;
            double wd = dead ? 1e-32 : d[s], wp = dead ? 0 : p[s], wc = dead ? 1e-32 : c[s];
            char ctx[300]; snprintf(ctx, 300, "%s EOS %d (%s) strength %d erosion %d material %zu of %zu point %zu mass %.17g volume %.17g fractions %g %g energy %g", nm, eos, dec ? "decoupled" : "coupled", str, er, q, w.nm, s, w.mass(q, s), w.vol(w.el[q][s]), w.vf(q, s), w.geo(q, s), w.sie(q, s));
            if ((bool)w.eroded(q, s) != flag) FAILF("%s: eroded = %d, expected %d (pressure %g <= %g, density %g <= %g, before %d)", ctx, (int)w.eroded(q, s), (int)flag, p[s], mf.erode_tension_val, d[s], mf.erode_density_val, pe[s]);
            if (!close_to(w.den(q, s), wd, 1e-13, 0)) FAILF("%s: density %.17g, expected %.17g", ctx, w.den(q, s), wd);
            if (!close_to(w.pres(q, s), wp, 1e-12)) FAILF("%s: pressure %.17g, expected %.17g", ctx, w.pres(q, s), wp);
            if (!close_to(w.sspd(q, s), wc, 1e-12)) FAILF("%s: sound speed %.17g, expected %.17g", ctx, w.sspd(q, s), wc);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double ws = dead ? 0 : str == 0 ? S(s, i, j, d[s]) : ps[(off0 + s) * 9 + 3 * i + j]; if (!close_to(w.stress(q, s, i, j), ws, 1e-12)) FAILF("%s: stress(%d,%d) = %.17g, expected %.17g", ctx, i, j, w.stress(q, s, i, j), ws); }
        }
        // nothing else moves
        for (size_t a = 0; a < pd.size(); a++) if (a < off0 || a >= off0 + n) if (pd[a] != w.den.st.p[a] || pp[a] != w.pres.st.p[a] || pc[a] != w.sspd.st.p[a]) { FAILF("%s: a point of another material changed", nm); break; }
        // the initial state
        {
            fill(r, w.den, w.den.st.n, .5, 3); fill(r, w.sie, w.sie.st.n, 0, 2); for (size_t a = 0; a < w.stress.st.n; a++) w.stress.st.p[a] = r.in(-1, 1);
            CArrayKokkos<size_t> c3(w.nm); Rg sh3(w.cnt, 3); bool has = r.b(); if (has) fill(r, sh3, sh3.st.n, 0, 1); else sh3 = Rg();
            auto b = cp(w.pres), c0 = cp(w.sspd);
            fvc_par::order() = ORD(r); init_press_sspd_stress(w.M, w.m, w.den, w.pres, w.stress, w.sspd, w.sie, es, sst, sh3, n, q); fvc_par::order() = 0;
            for (size_t s = 0; s < n; s++) {
                double de = w.den(q, s), e = w.sie(q, s), P = b[off0 + s], C = c0[off0 + s];
                switch (eos) { case 0: P = (eg(q, 0) - 1) * e * de; C = std::max(sqrt(eg(q, 0) * (eg(q, 0) - 1) * e), eg(q, 1)); break; case 1: P = eg(q, 0) * (de / eg(q, 2) - 1); C = std::max(eg(q, 3), sqrt((eg(q, 0) + 4. / 3 * eg(q, 1)) / de)); break; case 2: P = 0; C = 1e-32; }
                if (!close_to(w.pres(q, s), P, 1e-12) || !close_to(w.sspd(q, s), C, 1e-12)) { FAILF("initial state, EOS %d: pressure %.17g and sound speed %.17g, expected %.17g and %.17g (density %g, energy %g)", eos, w.pres(q, s), w.sspd(q, s), P, C, de, e); break; }
                for (int i = 0; i < 9; i++) if (w.stress(q, s, i / 3, i % 3) != 0) { FAILF("initial stress of point %zu is %g", s, w.stress(q, s, i / 3, i % 3)); break; }
            }
            for (size_t a = 0; a < b.size(); a++) if ((a < off0 || a >= off0 + n) && (w.pres.st.p[a] != b[a] || w.sspd.st.p[a] != c0[a])) { FAILF("initial state: a point of another material changed"); break; }
        }
        // increment-based models
        g_calls = 0; size_t k0 = w.den.st.n; std::vector<double> dd(n); for (size_t s = 0; s < n; s++) { dd[s] = w.den(q, s); p[s] = w.pres(q, s); c[s] = w.sspd(q, s); }
        if (!rz) me.StrengthRunLocation = (decltype(me.StrengthRunLocation))r.i(0, 2);
        fvc_par::order() = ORD(r);
        if (rz) sr.update_stress(w.M, w.m, w.vol, w.x, w.v, w.L, w.den, w.sie, w.pres, w.stress, s0, w.sspd, es, sst, sh, w.eim, n, q, 1e-16, 1e-14, time, dt, al, cyc);
        else s3.update_stress(w.M, w.m, w.vol, w.x, w.v, w.L, w.den, w.sie, w.pres, w.stress, s0, w.sspd, es, sst, sh, w.eim, n, q, 1e-16, 1e-14, time, dt, al, cyc);
        fvc_par::order() = 0;
        if (g_calls != (int)n) FAILF("%s: update of the stress called the model %d times for %zu points", nm, (int)g_calls, n);
        else for (size_t s = 0; s < n; s++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!close_to(w.stress(q, s, i, j), S(s, i, j, dd[s]), 1e-12)) FAILF("%s: updated stress(%d,%d) of point %zu = %.17g, expected %.17g", nm, i, j, s, w.stress(q, s, i, j), S(s, i, j, dd[s]));
    }
}
int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }
