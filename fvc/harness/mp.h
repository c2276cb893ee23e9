// shared by the multiphysics harnesses: small meshes and independent oracles
#pragma once
#include "matar.h"
#include "mesh.hpp"
#include "rnd.h"
#include <cstring>
#include <functional>
typedef long double LD;
static const int XI3[8][3] = {{-1,-1,-1},{1,-1,-1},{-1,1,-1},{1,1,-1},{-1,-1,1},{1,-1,1},{-1,1,1},{1,1,1}}; // tensor order
// a distorted hexahedron around a random centre
static void rnd_hex(Rnd &r, double X[8][3], double distort) {
    double s = pow(10, r.in(-3, 3)), c[3] = {r.in(-5, 5), r.in(-5, 5), r.in(-5, 5)}, A[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = (i == j) + r.in(-.4, .4);
    for (int n = 0; n < 8; n++) for (int i = 0; i < 3; i++) { double t = 0; for (int j = 0; j < 3; j++) t += A[i][j] * (0.5 * XI3[n][j] + r.in(-distort, distort)); X[n][i] = s * (t + c[i]); }
}
static void rnd_quad(Rnd &r, double X[4][2], double distort, bool rz = false) {
    double s = pow(10, r.in(-3, 3)), c[2] = {r.in(-5, 5), rz ? r.in(1.2, 5) : r.in(-5, 5)}, A[2][2];
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A[i][j] = (i == j) + r.in(-.3, .3);
    static const int q[4][2] = {{-1,-1},{1,-1},{1,1},{-1,1}};
    for (int n = 0; n < 4; n++) for (int i = 0; i < 2; i++) { double t = 0; for (int j = 0; j < 2; j++) t += A[i][j] * (0.5 * q[n][j] + r.in(-distort, distort)); X[n][i] = s * (t + c[i]); }
}
// volume of a trilinear hexahedron by 2x2x2 Gauss quadrature of the Jacobian (exact), long double
static LD hex_volume(const double X[8][3]) {
    LD v = 0, g = 1 / sqrtl(3.0L);
    LD c[3] = {0, 0, 0};
    for (int n = 0; n < 8; n++) for (int i = 0; i < 3; i++) c[i] += X[n][i] / 8.0L;
    for (int p = 0; p < 8; p++) {
        LD x = XI3[p][0] * g, y = XI3[p][1] * g, z = XI3[p][2] * g, J[3][3] = {};
        for (int n = 0; n < 8; n++) {
            LD a = XI3[n][0], b = XI3[n][1], d = XI3[n][2];
            LD G[3] = {a * (1 + b * y) * (1 + d * z) / 8, b * (1 + a * x) * (1 + d * z) / 8, d * (1 + a * x) * (1 + b * y) / 8};
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J[i][j] += (X[n][i] - c[i]) * G[j];
        }
        v += J[0][0]*(J[1][1]*J[2][2]-J[1][2]*J[2][1])-J[0][1]*(J[1][0]*J[2][2]-J[1][2]*J[2][0])+J[0][2]*(J[1][0]*J[2][1]-J[1][1]*J[2][0]);
    }
    return v;
}
// dV/dx(n,d): V is linear in each single coordinate, so a unit difference is exact up to rounding
static LD hex_gradient(const double X[8][3], int n, int d) {
    double s = 0; for (int a = 0; a < 8; a++) for (int i = 0; i < 3; i++) s = std::max(s, fabs(X[a][i] - X[0][i]));
    double Y[8][3]; memcpy(Y, X, sizeof Y);
    Y[n][d] = X[n][d] + s; double up = Y[n][d]; LD a = hex_volume(Y); Y[n][d] = X[n][d] - s; LD b = hex_volume(Y);
    return (a - b) / ((LD)up - (LD)Y[n][d]);
}
static LD tri_area(LD x1, LD y1, LD x2, LD y2, LD x3, LD y3) { return 0.5L * ((x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)); }
static LD quad_area(const double X[4][2]) { return tri_area(X[0][0], X[0][1], X[1][0], X[1][1], X[2][0], X[2][1]) + tri_area(X[0][0], X[0][1], X[2][0], X[2][1], X[3][0], X[3][1]); }
static LD quad_rzvol(const double X[4][2]) { // two triangles, centroid rule
    return tri_area(X[0][0], X[0][1], X[1][0], X[1][1], X[2][0], X[2][1]) * ((LD)X[0][1] + X[1][1] + X[2][1]) / 3 + tri_area(X[0][0], X[0][1], X[2][0], X[2][1], X[3][0], X[3][1]) * ((LD)X[0][1] + X[2][1] + X[3][1]) / 3;
}
static double size_of(const double *X, int n, int d) { double s = 0; for (int a = 0; a < n; a++) for (int i = 0; i < d; i++) s = std::max(s, fabs(X[a * d + i] - X[i])); return s; }
static double mag_of(const double *X, int n) { double s = 0; for (int a = 0; a < n; a++) s = std::max(s, fabs(X[a])); return s; }
// connectivity in the way the solvers use it
static void connect(swage::Mesh &m, size_t dims) {
    size_t ne = m.num_elems, nn = m.num_nodes, k = m.num_nodes_in_elem;
    m.num_dims = dims; m.num_corners = ne * k; m.num_gauss_in_elem = 1; m.num_zones_in_elem = 1;
    m.num_corners_in_node = CArrayKokkos<size_t>(nn, "ncn"); m.num_corners_in_node.set_values(0);
    for (size_t e = 0; e < ne; e++) for (size_t c = 0; c < k; c++) m.num_corners_in_node(m.nodes_in_elem(e, c))++;
    m.corners_in_node = RaggedRightArrayKokkos<size_t>(m.num_corners_in_node, "cin");
    m.elems_in_node = RaggedRightArrayKokkos<size_t>(m.num_corners_in_node, "ein");
    std::vector<size_t> pos(nn, 0);
    for (size_t e = 0; e < ne; e++) for (size_t c = 0; c < k; c++) { size_t n = m.nodes_in_elem(e, c); m.elems_in_node(n, pos[n]) = e; m.corners_in_node(n, pos[n]++) = e * k + c; }
    std::vector<std::vector<size_t>> nb(ne);
    for (size_t e = 0; e < ne; e++) for (size_t f = 0; f < ne; f++) if (e != f) { int s = 0; for (size_t a = 0; a < k; a++) for (size_t b = 0; b < k; b++) s += m.nodes_in_elem(e, a) == m.nodes_in_elem(f, b); if (s) nb[e].push_back(f); }
    m.num_elems_in_elem = CArrayKokkos<size_t>(ne, "nee"); for (size_t e = 0; e < ne; e++) m.num_elems_in_elem(e) = nb[e].size();
    m.elems_in_elem = RaggedRightArrayKokkos<size_t>(m.num_elems_in_elem, "eie");
    for (size_t e = 0; e < ne; e++) for (size_t i = 0; i < nb[e].size(); i++) m.elems_in_elem(e, i) = nb[e][i];
}
// a perturbed structured mesh with shuffled node and element numbers
static void rnd_mesh3(Rnd &r, swage::Mesh &m, DCArrayKokkos<double> &x, int nx, int ny, int nz, double distort = 0.25) {
    int N = (nx + 1) * (ny + 1) * (nz + 1), E = nx * ny * nz;
    std::vector<int> p(N), q(E); for (int i = 0; i < N; i++) p[i] = i; for (int i = 0; i < E; i++) q[i] = i;
    for (int i = N - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]); for (int i = E - 1; i > 0; i--) std::swap(q[i], q[r.i(0, i)]);
    m = swage::Mesh(); m.initialize_nodes(N); m.initialize_elems(E, 3); x = DCArrayKokkos<double>(N, 3, "coords");
    double h = pow(10, r.in(-1, 1)); auto id = [&](int i, int j, int k) { return p[(k * (ny + 1) + j) * (nx + 1) + i]; };
    for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { int n = id(i, j, k); x(n, 0) = h * (i + r.in(-distort, distort)); x(n, 1) = h * (j + r.in(-distort, distort)); x(n, 2) = h * (k + r.in(-distort, distort)); }
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int e = q[(k * ny + j) * nx + i], c = 0; for (int dk = 0; dk < 2; dk++) for (int dj = 0; dj < 2; dj++) for (int di = 0; di < 2; di++) m.nodes_in_elem(e, c++) = id(i + di, j + dj, k + dk); }
    connect(m, 3);
}
static void rnd_mesh2(Rnd &r, swage::Mesh &m, DCArrayKokkos<double> &x, int nx, int ny, double r0, double distort = 0.25) {
    int N = (nx + 1) * (ny + 1), E = nx * ny;
    std::vector<int> p(N), q(E); for (int i = 0; i < N; i++) p[i] = i; for (int i = 0; i < E; i++) q[i] = i;
    for (int i = N - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]); for (int i = E - 1; i > 0; i--) std::swap(q[i], q[r.i(0, i)]);
    m = swage::Mesh(); m.initialize_nodes(N); m.initialize_elems(E, 2); x = DCArrayKokkos<double>(N, 2, "coords");
    double h = pow(10, r.in(-1, 1)); auto id = [&](int i, int j) { return p[j * (nx + 1) + i]; };
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { int n = id(i, j); x(n, 0) = h * (i + r.in(-distort, distort)); x(n, 1) = h * (r0 + j + (j == 0 && r0 == 0 ? 0 : r.in(-distort, distort))); }
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int e = q[j * nx + i]; m.nodes_in_elem(e, 0) = id(i, j); m.nodes_in_elem(e, 1) = id(i + 1, j); m.nodes_in_elem(e, 2) = id(i + 1, j + 1); m.nodes_in_elem(e, 3) = id(i, j + 1); }
    connect(m, 2);
}
// n quadrilaterals (extruded: hexahedra in nz layers) around one centre: nodes of any valence
static void fan_mesh(Rnd &r, swage::Mesh &m, DCArrayKokkos<double> &x, int n, int nz, double r0, double distort = 0.1) {
    int P = 1 + 2 * n, L = nz ? nz + 1 : 1, N = P * L, E = n * (nz ? nz : 1), D = nz ? 3 : 2;
    std::vector<int> p(N); for (int i = 0; i < N; i++) p[i] = i; for (int i = N - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]);
    m = swage::Mesh(); m.initialize_nodes(N); m.initialize_elems(E, D); x = DCArrayKokkos<double>(N, D, "coords");
    double h = pow(10, r.in(-1, 1));
    for (int l = 0; l < L; l++) for (int i = 0; i < P; i++) { int g = p[l * P + i]; double a = (i - 1) * M_PI / n, R = i == 0 ? 0 : (i - 1) % 2 ? 1.0 : 1.2; x(g, 0) = h * (R * cos(a) + r.in(-distort, distort) / n); x(g, 1) = h * (R * sin(a) + (nz ? 0 : r0 + 1.6) + r.in(-distort, distort) / n); if (nz) x(g, 2) = h * (l + r.in(-distort, distort)); }
    for (int l = 0; l < (nz ? nz : 1); l++) for (int i = 0; i < n; i++) { int q[4] = {0, 1 + 2 * i, 2 + 2 * i, 1 + (2 * i + 2) % (2 * n)}, e = l * n + i;
        if (!nz) for (int c = 0; c < 4; c++) m.nodes_in_elem(e, c) = p[q[c]];
        else for (int z = 0; z < 2; z++) { size_t b = (l + z) * P; m.nodes_in_elem(e, 4 * z) = p[b + q[0]]; m.nodes_in_elem(e, 4 * z + 1) = p[b + q[1]]; m.nodes_in_elem(e, 4 * z + 2) = p[b + q[3]]; m.nodes_in_elem(e, 4 * z + 3) = p[b + q[2]]; } }
    connect(m, D);
}
template <class A> static void fill(Rnd &r, const A &a, size_t n, double lo, double hi) { for (size_t i = 0; i < n; i++) a.st.p[i] = r.in(lo, hi); }
static std::string elem_nodes(const swage::Mesh &m, const DCArrayKokkos<double> &x, size_t e) { std::string s; char b[40]; for (size_t c = 0; c < m.num_nodes_in_elem; c++) for (size_t d = 0; d < m.num_dims; d++) { snprintf(b, 40, "%.17g ", x(m.nodes_in_elem(e, c), d)); s += b; } return s; }
