// shock viscosity of one element
#include "world.h"
#include "mars.hpp"
#include "no_dissipation.hpp"
static double mag(const double *a, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * a[i]; return sqrt(s); }
int main(int argc, char **argv) {
    Rnd r(atoi(argv[1])); long N = atol(argv[2]);
    static const int hex[8][3] = {{1, 2, 4}, {0, 3, 5}, {0, 3, 6}, {2, 1, 7}, {6, 5, 0}, {4, 7, 1}, {4, 7, 2}, {6, 5, 3}}, quad[4][3] = {{1, 3}, {0, 2}, {1, 3}, {2, 0}};
    for (long t = 0; t < N; t++) {
        g_cases++;
        int kind = (int)(t % 5); bool rz = kind == 2 || kind == 3, dir = kind & 1 && kind < 4; int D = rz ? 2 : 3, n = rz ? 4 : 8;
        const char *nm = (const char *[]){"MARS", "directional MARS", "MARS RZ", "directional MARS RZ", "no viscosity"}[kind];
        const size_t ne = 9, mats = 2; size_t e = r.i(0, ne - 1), q = r.i(0, 1), s = r.i(0, 2), nn = n + 3;
        CArrayKokkos<size_t> six(mats), cnt(mats), nnb(ne); for (size_t i = 0; i < mats; i++) six(i) = 6, cnt(i) = 3; for (size_t i = 0; i < ne; i++) nnb(i) = 6;
        RaggedRightArrayKokkos<double> pars(six); RaggedRightArrayKokkos<size_t> nbr(nnb);
        for (size_t i = 0; i < mats; i++) { for (int j = 0; j < 4; j++) pars(i, j) = r.in(0, 2); pars(i, 4) = r.b() ? 0 : r.in(0, 1); pars(i, 5) = r.b() ? 0 : r.in(0, 1); }
        for (size_t i = 0; i < ne; i++) for (int j = 0; j < 6; j++) nbr(i, j) = r.i(0, ne - 1);
        for (size_t i = 0; i < ne; i++) nnb(i) = r.i(0, 6);
        DCArrayKokkos<double> L(ne, 3, 3), v(nn, D); fill(r, L, ne * 9, -1, 1); double sc = r.b() ? 1 : 1e-3; for (size_t i = 0; i < ne; i++) { double sh = r.in(-2, .5); for (int j = 0; j < 3; j++) L(i, j, j) = sc * (L(i, j, j) + sh); if (r.b()) for (int j = 0; j < 9; j++) if (j % 4) L(i, j / 3, j % 3) *= 1e-2 * sc; }
        int vk = (int)r.i(0, 3); fill(r, v, nn * D, -1, 1); if (vk == 0) for (size_t i = 1; i < nn; i++) for (int d = 0; d < D; d++) v(i, d) = v(0, d); // rigid motion
        DRaggedRightArrayKokkos<bool> er(cnt); for (size_t i = 0; i < mats; i++) for (int j = 0; j < 3; j++) er(i, j) = false;
        DRaggedRightArrayKokkos<double> den(cnt), ss(cnt); fill(r, den, den.st.n, .1, 3); fill(r, ss, ss.st.n, 0.1, 3);
        size_t nd[8]; double F[24], F0[24], An[24]; std::vector<size_t> perm; for (size_t i = 0; i < nn; i++) perm.push_back(i); for (size_t i = nn - 1; i > 0; i--) std::swap(perm[i], perm[r.i(0, i)]);
        for (int i = 0; i < n; i++) nd[i] = perm[i]; for (int i = 0; i < n * D; i++) F[i] = F0[i] = r.in(-1, 1), An[i] = r.in(-1, 1);
        for (int d = 0; d < D; d++) { An[(n - 1) * D + d] = 0; for (int i = 0; i < n - 1; i++) An[(n - 1) * D + d] -= An[i * D + d]; }
        ViewCArrayKokkos<size_t> vn(nd, n); ViewCArrayKokkos<double> vF(F, n, D), vA(An, n, D);
        double vol = r.in(1e-3, 2), fuzz = 1e-16, small = 1e-14;
        if (kind == 0) MARSDissipationModel::calc_dissipation(vn, pars, L, er, v, den, ss, vF, vA, nbr, nnb, vol, fuzz, small, (double)e, s, q);
        else if (kind == 1) DirMARSDissipationModel::calc_dissipation(vn, pars, L, er, v, den, ss, vF, vA, nbr, nnb, vol, fuzz, small, (double)e, s, q);
        else if (kind == 2) MARSRZDissipationModel::calc_dissipation(vn, pars, L, er, v, den, ss, vF, vA, nbr, nnb, vol, fuzz, small, (double)e, s, q);
        else if (kind == 3) DirMARSRZDissipationModel::calc_dissipation(vn, pars, L, er, v, den, ss, vF, vA, nbr, nnb, vol, fuzz, small, (double)e, s, q);
        else NoDissipationModel::calc_dissipation(vn, pars, L, er, v, den, ss, vF, vA, nbr, nnb, vol, fuzz, small, (double)e, s, q);
        double W[24] = {0};
        if (kind < 4) {
            double div = L(e, 0, 0) + L(e, 1, 1) + L(e, 2, 2), cu[3] = {L(e, 2, 1) - L(e, 1, 2), L(e, 0, 2) - L(e, 2, 0), L(e, 1, 0) - L(e, 0, 1)}, curl = rz ? fabs(cu[2]) : mag(cu, 3);
            double m[3] = {0}, mu[8], S = 0, vs[3] = {0}; for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) m[d] += v(nd[i], d) / n;
            for (int i = 0; i < n; i++) {
                double rel[3], w, a = mag(An + i * D, D); for (int d = 0; d < D; d++) rel[d] = v(nd[i], d) - m[d]; w = mag(rel, D);
                if (dir) { double ar = 0; for (int j = 0; j < D; j++) { int o = rz ? quad[i][j] : hex[i][j]; double p = 0; for (int d = 0; d < D; d++) p += (w > small ? rel[d] / w : An[i * D + d] / a) * .5 * (An[o * D + d] - An[i * D + d]); ar += fabs(p); } a = ar; }
                mu[i] = den(q, s) * ((div < 0 ? pars(q, 0) : pars(q, 1)) * ss(q, s) + (div < 0 ? pars(q, 2) : pars(q, 3)) * w) * a; S += mu[i]; for (int d = 0; d < D; d++) vs[d] += mu[i] * v(nd[i], d);
            }
            for (int d = 0; d < D; d++) vs[d] = S > fuzz ? vs[d] / S : 0;
            double rm = 1; for (size_t j = 0; j < nnb(e); j++) { size_t o = nbr(e, j); rm = std::min(rm, .9 * (L(o, 0, 0) + L(o, 1, 1) + L(o, 2, 2) + small) / (div + small)); }
            double al = std::min(1., 20 * (rz ? sqrt(vol) : cbrt(vol)) * fabs(div) / (ss(q, s) + fuzz)), lim = std::max(std::min(1., (rz ? 4 : 1) * fabs(div) / (curl + fuzz)), pars(q, 5)), phi = std::max(pars(q, 4), std::min(al * (1 - std::max(0., rm)), lim));
            for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) W[i * D + d] = phi * mu[i] * (vs[d] - v(nd[i], d));
            double pw = 0, tot[3] = {0}; for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) pw += (F[i * D + d] - F0[i * D + d]) * v(nd[i], d), tot[d] += F[i * D + d] - F0[i * D + d];
            if (vk == 0 && dir) continue; // the mean is off by a rounding error and the shock direction follows it
            if (pw > 1e-12 * (1 + S)) FAILF("%s: the viscosity adds %.17g of mechanical power (div %g)", nm, pw, div);
            if (S > 1e-6) for (int d = 0; d < D; d++) if (fabs(tot[d]) > 1e-12 * (1 + S)) FAILF("%s: net viscous force %.17g in direction %d (div %g)", nm, tot[d], d, div);
        }
        for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) if (!(fabs(F[i * D + d] - F0[i * D + d] - W[i * D + d]) <= 1e-10 * (1 + fabs(W[i * D + d])))) FAILF("%s: force on corner %d direction %d = %.17g, expected %.17g (divergence %g, %zu neighbours, parameters %g %g %g %g %g %g)", nm, i, d, F[i * D + d] - F0[i * D + d], W[i * D + d], L(e, 0, 0) + L(e, 1, 1) + L(e, 2, 2), nnb(e), pars(q, 0), pars(q, 1), pars(q, 2), pars(q, 3), pars(q, 4), pars(q, 5));
    }
    return DONE();
}
