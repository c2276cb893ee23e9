// boundary sets of random meshes against a direct reading of the definition
#include "world.h"
#include "boundary_conditions.hpp"
#include <set>
void tag_bdys(const BoundaryCondition_t &, swage::Mesh &, const DCArrayKokkos<double> &);
void build_boundry_node_sets(swage::Mesh &);
size_t check_bdy(const size_t, const int, const double, const double, const double, const double, const double, const swage::Mesh &, const DCArrayKokkos<double> &);
static void __attribute__((noinline)) dirty(double v) { volatile double a[400]; for (int i = 0; i < 400; i++) a[i] = v; }
static const char *NM[] = {"x plane", "y plane", "z plane", "cylinder", "sphere"};
int main(int c, char **v) {
    long seed = atol(v[1]), n = atol(v[2]);
    std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf());
    for (long t = 0; t < n; t++) {
        Rnd r(seed * 104729 + t); g_cases++;
        int nd = r.b() ? 3 : 2; size_t nn = r.i(2, 14), npn = nd == 3 ? 4 : 2, np = r.i(1, 12), nb = r.i(0, 5);
        if (nn < npn) nn = npn;
        swage::Mesh m; m.num_dims = nd; m.num_nodes = nn; m.num_patches = np; m.num_nodes_in_patch = npn;
        struct B { int s; double val, tol, o[3]; }; std::vector<B> b(nb);
        for (auto &q : b) { q.s = r.i(0, nd == 3 ? 4 : 3); if (nd == 2 && q.s == 2) q.s = 4; q.val = q.s < 3 ? (r.b() ? 0 : r.in(-2, 2)) : r.in(.5, 2); q.tol = r.i(0, 2) ? r.in(1e-7, 1e-3) : r.in(.01, .5); for (double &o : q.o) o = r.b() ? 0 : r.in(-1, 1); if (nd == 2 && r.b()) q.o[2] = 0; if (r.i(0, 6) == 0) q = b[0]; }
        DCArrayKokkos<double> x(nn, nd);
        for (size_t i = 0; i < nn; i++) {
            double X[3] = {r.in(-3, 3), r.in(-3, 3), nd == 3 ? r.in(-3, 3) : 0};
            if (nb && r.i(0, 5)) { // put it on (or just off) a surface
                auto &q = b[r.i(0, std::min<long>(nb - 1, 1))]; double e = q.tol * (r.i(0, 7) ? r.in(-.9, .9) : (r.b() ? 1.2 : -1.2));
                if (q.s < 3) X[q.s] = q.val + e; else { int k = q.s == 3 ? 2 : nd; double s = 0; for (int d = 0; d < k; d++) s += (X[d] - q.o[d]) * (X[d] - q.o[d]); double R = q.val + e; if (q.s == 4 && nd == 2) { R = R * R - q.o[2] * q.o[2]; R = R > 0 ? sqrt(R) : 1; } if (s > 1e-6) for (int d = 0; d < k; d++) X[d] = q.o[d] + (X[d] - q.o[d]) * R / sqrt(s); }
            }
            for (int d = 0; d < nd; d++) x(i, d) = X[d];
        }
        m.nodes_in_patch = CArrayKokkos<size_t>(np, npn);
        for (size_t p = 0; p < np; p++) { std::set<size_t> u; for (size_t k = 0; k < npn; k++) { size_t g; do g = r.i(0, nn - 1); while (u.count(g)); u.insert(g); m.nodes_in_patch(p, k) = g; } }
        std::vector<size_t> bp; for (size_t p = 0; p < np; p++) if (r.i(0, 3)) bp.insert(bp.begin() + r.i(0, bp.size()), p);
        m.num_bdy_patches = bp.size(); m.bdy_patches = CArrayKokkos<size_t>(bp.size()); for (size_t i = 0; i < bp.size(); i++) m.bdy_patches(i) = bp[i];
        m.num_bdy_sets = nb; m.num_bdy_patches_in_set = DCArrayKokkos<size_t>(nb);
        BoundaryCondition_t BC; BC.num_bcs = nb; BC.BoundaryConditionSetup = CArrayKokkos<BoundaryConditionSetup_t>(nb);
        for (size_t i = 0; i < nb; i++) { auto &S = BC.BoundaryConditionSetup(i); S = BoundaryConditionSetup_t(); S.surface = (boundary_conditions::BdyTag)b[i].s; S.value = b[i].val; S.tolerance = b[i].tol; for (int d = 0; d < 3; d++) S.origin[d] = b[i].o[d]; }
        // expectation
        bool edge = false; std::vector<std::vector<size_t>> ep(nb); std::vector<std::set<size_t>> en(nb);
        for (size_t i = 0; i < nb; i++) for (size_t p : bp) {
            bool all = true;
            for (size_t k = 0; k < npn; k++) { size_t g = m.nodes_in_patch(p, k); double X[3] = {x(g, 0), x(g, 1), nd == 3 ? x(g, 2) : 0}, d; if (b[i].s < 3) d = X[b[i].s] - b[i].val; else { double s = 0; for (int q = 0; q < (b[i].s == 3 ? 2 : 3); q++) s += (X[q] - b[i].o[q]) * (X[q] - b[i].o[q]); d = sqrt(s) - b[i].val; }
                if (fabs(fabs(d) - b[i].tol) < 1e-12) edge = true; all = all && fabs(d) <= b[i].tol; }
            if (all) { ep[i].push_back(p); for (size_t k = 0; k < npn; k++) en[i].insert(m.nodes_in_patch(p, k)); }
        }
        if (edge) continue;
        char in[300]; int l = snprintf(in, 300, "random input %ld (%dD, %zu boundary patches;", t, nd, bp.size()); for (auto &q : b) if (l < 250) l += snprintf(in + l, 300 - l, " %s %.3g", NM[q.s], q.val); snprintf(in + l, 300 - l, ")");
        BEGINF("%s", in); dirty(r.b() ? 0.1 : 1e6);
        tag_bdys(BC, m, x); if (!nb) continue; build_boundry_node_sets(m);
        for (size_t i = 0; i < nb; i++) {
            if (m.num_bdy_patches_in_set.host(i) != ep[i].size() || m.num_bdy_patches_in_set(i) != ep[i].size()) { FAILF("%s: set %zu holds %zu patches, %zu are on its surface", in, i, (size_t)m.num_bdy_patches_in_set.host(i), ep[i].size()); continue; }
            std::vector<size_t> g; for (size_t k = 0; k < ep[i].size(); k++) g.push_back(m.bdy_patches_in_set(i, k)); auto e2 = ep[i]; std::sort(g.begin(), g.end()); std::sort(e2.begin(), e2.end());
            if (g != e2) { FAILF("%s: set %zu does not hold the patches on its surface", in, i); continue; }
            std::vector<size_t> h, e3(en[i].begin(), en[i].end()); if (m.num_bdy_nodes_in_set.host(i) != e3.size() || m.num_bdy_nodes_in_set(i) != e3.size()) { FAILF("%s: set %zu holds %zu nodes, its patches have %zu", in, i, (size_t)m.num_bdy_nodes_in_set.host(i), e3.size()); continue; }
            for (size_t k = 0; k < e3.size(); k++) h.push_back(m.bdy_nodes_in_set(i, k)); std::sort(h.begin(), h.end());
            if (h != e3) FAILF("%s: set %zu does not hold the nodes of its patches once each", in, i);
        }
    }
    return DONE();
}
