// corner and nodal masses
#include "world.h"
#include "region_fill.hpp"
#include <set>
static void run(Rnd &r, long N) {
    for (long t = 0; t < N; t++) {
        g_cases++;
        bool rz = t & 1; World w(r, rz, rz && r.b() ? 0 : r.in(0, 3), 3); const char *nm = rz ? "RZ" : "3D"; swage::Mesh &m = w.m;
        if (r.b()) for (size_t a = 0; a < w.vf.st.n; a++) w.vf.st.p[a] = w.geo.st.p[a] = 1;
        DCArrayKokkos<double> cm(m.num_corners); fill(r, cm, m.num_corners, -1, 1); fill(r, w.nmass, w.nn, -1, 1);
        fvc_par::order() = ORD(r);
        if (rz) bare<SGHRZ>().init_corner_node_masses_zero_rz(m, w.nmass, cm); else init_corner_node_masses_zero(m, w.nmass, cm);
        for (size_t c = 0; c < m.num_corners; c++) if (cm(c) != 0) { FAILF("%s: corner mass %zu starts at %g", nm, c, cm(c)); break; }
        for (size_t n = 0; n < w.nn; n++) if (w.nmass(n) != 0) { FAILF("%s: node mass %zu starts at %g", nm, n, w.nmass(n)); break; }
        std::vector<double> want(m.num_corners, 0), nm0(w.nn, 0); double tot = 0;
        for (size_t q = 0; q < w.nm; q++) {
            if (rz) calc_corner_mass_rz(w.M, m, w.x, w.nmass, cm, w.den, w.vf, w.geo, w.eim, w.el[q].size(), q); else calc_corner_mass(w.M, m, w.x, w.nmass, cm, w.mass, w.eim, w.el[q].size(), q);
            for (size_t s = 0; s < w.el[q].size(); s++) for (int c = 0; c < w.k; c++) { double d = rz ? w.carea(w.el[q][s], c) * w.den(q, s) * w.vf(q, s) * w.geo(q, s) : w.mass(q, s) / 8; want[w.el[q][s] * w.k + c] += d; tot += d; }
        }
        for (size_t c = 0; c < m.num_corners; c++) if (!close_to(cm(c), want[c], 1e-11)) { FAILF("%s: mass of corner %zu (element %zu, %zu materials) = %.17g, expected %.17g", nm, c, c / w.k, w.nm, cm(c), want[c]); break; }
        if (rz) calc_node_mass_rz(m, w.x, w.nmass, cm); else calc_node_mass(m, w.x, w.nmass, cm);
        double sum = 0; for (size_t e = 0; e < w.ne; e++) for (int c = 0; c < w.k; c++) nm0[m.nodes_in_elem(e, c)] += want[e * w.k + c];
        for (size_t n = 0; n < w.nn; n++) { sum += w.nmass(n); if (!close_to(w.nmass(n), nm0[n], 1e-11)) { FAILF("%s: mass of node %zu (%zu corners) = %.17g, expected %.17g", nm, n, (size_t)m.num_corners_in_node(n), w.nmass(n), nm0[n]); break; } }
        if (!close_to(sum, tot, 1e-10)) FAILF("%s: nodal masses add up to %.17g, the materials to %.17g", nm, sum, tot);
        for (size_t e = 0; e < w.ne; e++) for (int c = 0; c < w.k; c++) { double v = want[e * w.k + c] * (rz ? w.x(m.nodes_in_elem(e, c), 1) : 1); if (!close_to(cm(e * w.k + c), v, 1e-11)) { FAILF("%s: corner mass after summing = %.17g, expected %.17g", nm, cm(e * w.k + c), v); e = w.ne - 1; break; } }
        if (!rz) { fvc_par::order() = 0; continue; }
        // true masses stay while the mesh moves; nodes on the axis take half of the heaviest neighbour
        CArrayKokkos<double> M(w.nn); std::vector<double> M0(w.nn); calc_node_extensive_mass_rz(M, w.x, w.nmass, (double)w.nn);
        for (size_t n = 0; n < w.nn; n++) { M0[n] = nm0[n] * w.x(n, 1); if (!close_to(M(n), M0[n], 1e-11)) { FAILF("true mass of node %zu = %.17g, expected %.17g", n, M(n), M0[n]); break; } }
        double h = pow(10, r.in(-1, 1)); for (size_t n = 0; n < w.nn; n++) if (w.x(n, 1) > 1e-9 * h) w.x(n, 1) *= r.in(.5, 2);
        if (r.b()) for (size_t n = 0; n < w.nn; n++) if (r.i(0, 3) == 0) w.x(n, 1) = 0;
        std::vector<std::set<size_t>> nb(w.nn); for (size_t e = 0; e < w.ne; e++) for (int c = 0; c < 4; c++) { size_t a = m.nodes_in_elem(e, c), b = m.nodes_in_elem(e, (c + 1) % 4); nb[a].insert(b); nb[b].insert(a); }
        m.num_nodes_in_node = CArrayKokkos<size_t>(w.nn); for (size_t n = 0; n < w.nn; n++) m.num_nodes_in_node(n) = nb[n].size(); m.nodes_in_node = RaggedRightArrayKokkos<size_t>(m.num_nodes_in_node);
        for (size_t n = 0; n < w.nn; n++) { size_t i = 0; for (size_t b : nb[n]) m.nodes_in_node(n, i++) = b; }
        m.num_bdy_nodes = w.nn; m.bdy_nodes = CArrayKokkos<size_t>(w.nn); std::vector<size_t> p(w.nn); for (size_t i = 0; i < w.nn; i++) p[i] = i; for (size_t i = w.nn - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]); for (size_t i = 0; i < w.nn; i++) m.bdy_nodes(i) = p[i];
        calc_node_areal_mass_rz(m, w.x, w.nmass, M, 1e-12);
        for (size_t n = 0; n < w.nn; n++) {
            double rad = w.x(n, 1), v = 0; if (rad > 1e-12) v = M0[n] / rad; else for (size_t b : nb[n]) if (w.x(b, 1) > 1e-12) v = std::max(v, M0[b] / w.x(b, 1) / 2);
            if (!close_to(w.nmass(n), v, 1e-11)) { FAILF("RZ: areal mass of node %zu at radius %g = %.17g, expected %.17g", n, rad, w.nmass(n), v); break; }
            if (!close_to(M(n), M0[n], 1e-11)) { FAILF("RZ: true mass of node %zu changed", n); break; }
        }
        fvc_par::order() = 0;
    }
}
int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }
