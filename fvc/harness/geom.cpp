#include "mp.h"
#include "geometry_new.hpp"
int main(int argc, char **argv) {
    Rnd r(atoi(argv[1]));
    long N = atol(argv[2]);
    for (long t = 0; t < N; t++) {
        g_cases++;
        if (t % 2 == 0) {
            // a mesh of a few unrelated elements with shuffled node ids
            int ne = (int)r.i(1, 3), perm[24];
            for (int i = 0; i < 24; i++) perm[i] = i;
            for (int i = 23; i > 0; i--) std::swap(perm[i], perm[r.i(0, i)]);
            swage::Mesh m; m.initialize_nodes(24); m.initialize_elems(ne, 3);
            DCArrayKokkos<double> x(24, 3), vol(ne), vol1(ne);
            double X[3][8][3];
            for (int e = 0; e < ne; e++) { rnd_hex(r, X[e], r.b() ? 0.1 : 0.45); if (r.i(0, 9) == 0) for (int n = 0; n < 8; n++) X[e][n][0] = -X[e][n][0];
                for (int n = 0; n < 8; n++) { m.nodes_in_elem(e, n) = perm[e * 8 + n]; for (int d = 0; d < 3; d++) x(perm[e * 8 + n], d) = X[e][n][d]; } }
            vol1.set_values(-7);
            fvc_par::order() = ORD(r);
            geometry::get_vol(vol, x, m);
            fvc_par::order() = 0;
            for (int e = 0; e < ne; e++) {
                ViewCArrayKokkos<size_t> nod(&m.nodes_in_elem(e, 0), 8);
                geometry::get_vol_hex(vol1, e, x, nod);
                LD V = hex_volume(X[e]); double s = size_of(&X[e][0][0], 8, 3), g = mag_of(&X[e][0][0], 24), tol = 1e-13 * g * g * g * 50;
                LD W = V > 1e-14L ? V : 1e-14L;
                if (fabsl(vol1(e) - W) > tol || vol1(e) < 0.999e-14) FAILF("get_vol_hex = %.17g, volume is %.17Lg, of the hexahedron %s", vol1(e), W, vec(&X[e][0][0], 24).c_str());
                if (vol(e) != vol1(e)) FAILF("get_vol gives element %d of %d the volume %.17g, not %.17g; nodes %s", e, ne, vol(e), vol1(e), vec(&X[e][0][0], 24).c_str());
                double b[24]; ViewCArrayKokkos<double> B(b, 8, 3);
                geometry::get_bmatrix(B, e, x, nod);
                for (int d = 0; d < 3; d++) {
                    double sum = 0;
                    for (int n = 0; n < 8; n++) {
                        sum += B(n, d);
                        LD q = hex_gradient(X[e], n, d);
                        if (fabsl(B(n, d) - q) > 1e-12 * (s * s + g * g)) { FAILF("get_bmatrix(%d,%d) = %.17g, dV/dx is %.17Lg, hexahedron %s", n, d, B(n, d), q, vec(&X[e][0][0], 24).c_str()); }
                    }
                    if (fabs(sum) > 1e-12 * g * g) FAILF("corner normals do not sum to zero in direction %d: %g, hexahedron %s", d, sum, vec(&X[e][0][0], 24).c_str());
                }
            }
            for (int e = 0; e < ne; e++) for (int n = 0; n < 8; n++) for (int d = 0; d < 3; d++) if (x(perm[e * 8 + n], d) != X[e][n][d]) FAILF("coordinates were changed");
        } else {
            int ne = (int)r.i(1, 3), perm[12];
            for (int i = 0; i < 12; i++) perm[i] = i;
            for (int i = 11; i > 0; i--) std::swap(perm[i], perm[r.i(0, i)]);
            swage::Mesh m; m.initialize_nodes(12); m.initialize_elems(ne, 2);
            DCArrayKokkos<double> x(12, 2), vol(ne);
            double X[3][4][2];
            for (int e = 0; e < ne; e++) { rnd_quad(r, X[e], r.b() ? 0.05 : 0.3, true); if (r.i(0, 9) == 0) for (int n = 0; n < 4; n++) X[e][n][0] = -X[e][n][0];
                for (int n = 0; n < 4; n++) { m.nodes_in_elem(e, n) = perm[e * 4 + n]; for (int d = 0; d < 2; d++) x(perm[e * 4 + n], d) = X[e][n][d]; } }
            fvc_par::order() = ORD(r);
            geometry::get_vol(vol, x, m);
            fvc_par::order() = 0;
            for (int e = 0; e < ne; e++) {
                ViewCArrayKokkos<size_t> nod(&m.nodes_in_elem(e, 0), 4);
                double g = mag_of(&X[e][0][0], 8);
                std::string in = vec(&X[e][0][0], 8);
                LD A = quad_area(X[e]), V = quad_rzvol(X[e]); if (V < 1e-14L) V = 1e-14L;
                if (fabsl(vol(e) - V) > 1e-12 * g * g * g) FAILF("get_vol (RZ) = %.17g, volume per radian is %.17Lg, of the quadrilateral %s", vol(e), V, in.c_str());
                double a = geometry::get_area_quad(e, x, nod);
                if (fabsl(a - A) > 1e-13 * g * g * 10) FAILF("get_area_quad = %.17g, area is %.17Lg, of %s", a, A, in.c_str());
                double b[8]; ViewCArrayKokkos<double> B(b, 4, 2);
                geometry::get_bmatrix2D(B, e, x, nod);
                for (int d = 0; d < 2; d++) {
                    double sum = 0;
                    for (int n = 0; n < 4; n++) {
                        sum += B(n, d);
                        int p = (n + 1) % 4, q = (n + 3) % 4;
                        double w = d == 0 ? 0.5 * (X[e][p][1] - X[e][q][1]) : 0.5 * (X[e][q][0] - X[e][p][0]);
                        if (fabs(B(n, d) - w) > 1e-12 * g) FAILF("get_bmatrix2D(%d,%d) = %.17g, dA/dx is %.17g, quadrilateral %s", n, d, B(n, d), w, in.c_str());
                    }
                    if (fabs(sum) > 1e-12 * g) FAILF("2D corner normals do not sum to zero: %g for %s", sum, in.c_str());
                }
                double wv[4]; ViewCArrayKokkos<double> W(wv, 4);
                geometry::get_area_weights2D(W, e, x, nod);
                LD c[2] = {0, 0}; for (int n = 0; n < 4; n++) for (int d = 0; d < 2; d++) c[d] += X[e][n][d] / 4.0L;
                LD T[4], ts = 0; for (int n = 0; n < 4; n++) { int p = (n + 1) % 4; T[n] = fabsl(tri_area(X[e][n][0], X[e][n][1], X[e][p][0], X[e][p][1], c[0], c[1])); ts += T[n]; }
                double sum = 0, s = size_of(&X[e][0][0], 4, 2), tol = 3e-7 * g * s + 1e-7 * g * g; // Heron's formula loses half the digits for flat triangles
                for (int n = 0; n < 4; n++) { LD w = (5 * T[n] + 5 * T[(n + 3) % 4] + T[(n + 1) % 4] + T[(n + 2) % 4]) / 12; sum += W(n); if (fabsl(w - W(n)) > tol) FAILF("corner area %d = %.17g, expected %.17Lg, quadrilateral %s", n, W(n), w, in.c_str()); }
                if (fabsl(sum - ts) > tol) FAILF("corner areas do not sum to the area: %g %Lg", sum, ts);
                double h = geometry::heron(X[e][0][0], X[e][0][1], X[e][1][0], X[e][1][1], X[e][2][0], X[e][2][1]);
                LD H = fabsl(tri_area(X[e][0][0], X[e][0][1], X[e][1][0], X[e][1][1], X[e][2][0], X[e][2][1]));
                if (fabsl(h - H) > tol) FAILF("heron = %.17g, area is %.17Lg", h, H);
            }
        }
    }
    return DONE();
}
