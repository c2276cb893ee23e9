// replay / bounded harnesses of the micromechanics kernels
#include "definitions.h"
#include "rnd.h"
#include <cstring>
using namespace std;
#if defined(P02)
#include "chg_basis.h"
#elif defined(P03)
#include "euler.h"
#elif defined(P04)
#include "orient.h"
#elif defined(P05)
#include "math_functions.h"
#if __has_include("determinant33.h")
#include "determinant33.h"
#include "matrix_exp.h"
#define HAVE_DET
#endif
#elif defined(P06)
#include "defgrad_dcmp.h"
#elif defined(P07)
#include "vm.h"
#endif
typedef double M3[3][3];
static int O(int i, int j) { return i + 3 * j; } // column major, 0 based
static void randrot(Rnd &r, double *A) {
    double q[4], n = 0;
    do { n = 0; for (auto &x : q) { x = r.in(-1, 1); n += x * x; } } while (n < 1e-3 || n > 1);
    n = sqrt(n); for (auto &x : q) x /= n;
    double w = q[0], x = q[1], y = q[2], z = q[3];
    double R[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[O(i, j)] = R[i][j];
}
static void mul(const double *A, const double *B, double *C) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += A[O(i, k)] * B[O(k, j)]; C[O(i, j)] = s; } }
static double det(const double *A) { return A[O(0,0)]*(A[O(1,1)]*A[O(2,2)]-A[O(1,2)]*A[O(2,1)])-A[O(0,1)]*(A[O(1,0)]*A[O(2,2)]-A[O(1,2)]*A[O(2,0)])+A[O(0,2)]*(A[O(1,0)]*A[O(2,1)]-A[O(1,1)]*A[O(2,0)]); }
static double orth_err(const double *A) { double e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += A[O(k, i)] * A[O(k, j)]; e = max(e, fabs(s - (i == j))); } return e; }
static double maxdiff(const double *A, const double *B, int n) { double e = 0; for (int i = 0; i < n; i++) { if (!(fabs(A[i] - B[i]) <= 1e300)) return 1e300; e = max(e, fabs(A[i] - B[i])); } return e; }

int main(int argc, char **argv) {
    Rnd r(atoi(argv[1]));
    long N = atol(argv[2]);
#if defined(P02)
    ChgBasis cb;
    double *B = cb.B_basis_host_pointer();
    double *Bd = cb.B_basis_device_pointer();
    for (long t = 0; t < N; t++) {
        for (int K = 5; K <= 6; K++) {
            g_cases++;
            double c[9], ce[6], c2[9], ce2[6], sc = pow(10, r.in(-3, 6));
            for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) c[O(i, j)] = c[O(j, i)] = r.in(-1, 1) * sc;
            if (K == 5) { double tr = (c[0] + c[4] + c[8]) / 3; c[0] -= tr; c[4] -= tr; c[8] -= tr; }
            double cin[9]; memcpy(cin, c, sizeof c);
            cb.chg_basis_2(ce, c, 2, K, B);
            if (memcmp(c, cin, sizeof c)) FAILF("chg_basis_2 changed its input tensor");
            double n2 = 0, m2 = 0; for (double x : c) n2 += x * x; for (int k = 0; k < K; k++) m2 += ce[k] * ce[k];
            if (!close_to(n2, m2, 1e-10, sc * sc)) FAILF("norm not preserved for symmetric tensor %s (K=%d): %g %g", vec(c, 9).c_str(), K, n2, m2);
            cb.chg_basis_1(ce, c2, 1, K, Bd);
            if (maxdiff(c, c2, 9) > 1e-11 * sc) FAILF("round trip of %s with %d components gives %s", vec(c, 9).c_str(), K, vec(c2, 9).c_str());
            if (K == 6 && fabs(ce[5] - (c[0] + c[4] + c[8]) / sqrt(3.)) > 1e-11 * sc) FAILF("sixth component is not trace/sqrt(3) for %s", vec(c, 9).c_str());
            double u[6]; for (int k = 0; k < K; k++) u[k] = r.in(-1, 1) * sc;
            cb.chg_basis_1(u, c2, 1, K, B); cb.chg_basis_2(ce2, c2, 2, K, B);
            if (maxdiff(u, ce2, K) > 1e-11 * sc) FAILF("vector round trip, %d components", K);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (fabs(c2[O(i, j)] - c2[O(j, i)]) > 1e-12 * sc) FAILF("tensor not symmetric");
            double m[36], mo[36], c4[81];
            for (int k = 0; k < K * K; k++) m[k] = r.in(-1, 1) * sc;
            cb.chg_basis_3(m, c4, 3, K, B); cb.chg_basis_4(mo, c4, 4, K, B);
            if (maxdiff(m, mo, K * K) > 1e-10 * sc) FAILF("fourth order round trip, %d components", K);
            // apply: (M ce) <-> C4 : c
            double y[6], y2[6], t9[9];
            for (int a = 0; a < K; a++) { y[a] = 0; for (int b = 0; b < K; b++) y[a] += m[a + K * b] * u[b]; }
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { t9[O(i, j)] = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) t9[O(i, j)] += c4[i + 3 * j + 9 * k + 27 * l] * c2[O(k, l)]; }
            cb.chg_basis_2(y2, t9, 2, K, B);
            if (maxdiff(y, y2, K) > 1e-10 * sc * sc) FAILF("matrix-vector product differs from tensor contraction, %d components", K);
        }
    }
#elif defined(P03)
    const double D = 180 / M_PI;
    for (long t = 0; t < N; t++) {
        g_cases++;
        double A[9], B[9], ph = r.in(-180, 180), th = r.in(0, 180), tm = r.in(-180, 180);
        switch (t % 8) { case 1: th = 0; break; case 2: th = 180; break; case 3: th = r.in(0, .7); break; case 4: th = 90; ph = 90; break; case 5: ph = 180; tm = 0; break; case 6: th = 180 - r.in(0, .7); break; }
        double p = ph / D, q = th / D, s = tm / D;
        double p0 = p, q0 = q, s0 = s;
        euler(2, p, q, s, A);
        if (p != p0 || q != q0 || s != s0) FAILF("euler(2) changed its angles");
        if (!(orth_err(A) < 1e-12) || fabs(det(A) - 1) > 1e-12) FAILF("matrix of angles %g %g %g is not a rotation", ph, th, tm);
        // oracle: Rz(tm) Rx(th) Rz(ph), passive
        auto Z = [](double a, double *M) { double X[9] = {cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1}; memcpy(M, X, sizeof X); };
        auto X_ = [](double a, double *M) { double X[9] = {1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a)}; memcpy(M, X, sizeof X); };
        double z1[9], xx[9], z2[9], w1[9], w2[9];
        Z(p, z1); X_(q, xx); Z(s, z2); mul(z2, xx, w1); mul(w1, z1, w2);
        if (maxdiff(A, w2, 9) > 1e-12) FAILF("matrix of Bunge angles (%g,%g,%g) is not Rz*Rx*Rz: %s", ph, th, tm, vec(A, 9).c_str());
        double A0[9];
        if (t % 3 == 0) { randrot(r, A); }
        if (t % 16 == 7) { for (int i = 0; i < 9; i++) A[i] = (i % 4 == 0) ? 1 + 2.3e-16 * (double)(t & 1) : 0; if (t % 32 >= 16) { A[0] = 1; A[4] = -1; A[8] = -1 - 2.3e-16; } }
        memcpy(A0, A, sizeof A);
        double a, b, c;
        euler(1, a, b, c, A);
        if (memcmp(A, A0, sizeof A)) FAILF("euler(1) changed its matrix");
        if (!(a == a && b == b && c == c)) { FAILF("angles of the rotation %s are not finite: %g %g %g", vec(A, 9).c_str(), a, b, c); continue; }
        if (b < -1e-9 || b > 180.0000001 || fabs(a) > 180.0000001 || fabs(c) > 180.0000001) FAILF("angles out of range: %g %g %g", a, b, c);
        a /= D; b /= D; c /= D;
        euler(2, a, b, c, B);
        double gim = fabs(A[8]) >= 0.9999 ? 0.03 : 1e-9;
        if (!(maxdiff(A, B, 9) < gim)) FAILF("matrix -> angles -> matrix: %s becomes %s", vec(A, 9).c_str(), vec(B, 9).c_str());
        if (fabs(A[8]) >= 0.9999 && fabs(A[8]) > 1 - 1e-15 && !(maxdiff(A, B, 9) < 1e-6)) FAILF("aligned axes: %s becomes %s", vec(A, 9).c_str(), vec(B, 9).c_str());
    }
#elif defined(P04)
    for (long t = 0; t < N; t++) {
        g_cases++;
        double A[9], A0[9], C[9], C0[9], R[9], E[9], ang = pow(10, r.in(-9, 0.45));
        if (t % 5 == 0) ang = 0; if (t % 7 == 0) ang = r.in(0.5, 3.0);
        double v[3], n = 0; do { n = 0; for (auto &x : v) { x = r.in(-1, 1); n += x * x; } } while (n < .01); n = sqrt(n); for (auto &x : v) x *= ang / n;
        if (t % 11 == 0) { v[0] = 0; v[1] = 0; v[2] = ang; }
        randrot(r, A); memcpy(A0, A, sizeof A);
        for (auto &x : C) x = r.in(-1, 1);
        C[O(2, 1)] = v[0]; C[O(0, 2)] = v[1]; C[O(1, 0)] = v[2]; C[O(1, 2)] = -v[0]; C[O(2, 0)] = -v[1]; C[O(0, 1)] = -v[2]; C[0] = C[4] = C[8] = 0;
        memcpy(C0, C, sizeof C);
        orient(A, C);
        if (memcmp(C, C0, sizeof C)) FAILF("spin increment changed");
        if (!(orth_err(A) < 1e-12) || !(fabs(det(A) - det(A0)) < 1e-12)) FAILF("orientation no longer a rotation after spin %s: error %g", vec(v, 3).c_str(), orth_err(A));
        double th = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), a = th > 1e-12 ? sin(th) / th : 1, b = th > 1e-6 ? (1 - cos(th)) / (th * th) : 0.5, K[9], K2[9];
        memcpy(K, C, sizeof K); mul(K, K, K2);
        for (int i = 0; i < 9; i++) R[i] = (i % 4 == 0) + a * K[i] + b * K2[i];
        mul(R, A0, E);
        if (!(maxdiff(A, E, 9) < 2e-6)) FAILF("rotation by spin %s wrong: %s expected %s", vec(v, 3).c_str(), vec(A, 9).c_str(), vec(E, 9).c_str());
        if (th > 1.0001e-6 && !(maxdiff(A, E, 9) < 1e-12)) FAILF("rotation by spin %s is not exp(spin): %s expected %s", vec(v, 3).c_str(), vec(A, 9).c_str(), vec(E, 9).c_str());
    }
#elif defined(P05)
    auto inv_case = [&](auto nn, double *A, bool singular, const char *what) {
        constexpr int n = decltype(nn)::value;
        double A0[n * n]; memcpy(A0, A, sizeof A0); g_cases++;
        int e = invert_matrix<n>(A);
        if (singular) { if (e == 0) FAILF("inverse of a singular %dx%d matrix (%s) reports success: %s", n, n, what, vec(A0, n * n).c_str()); return; }
        double err = 0, nb = 0, na = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += A0[i * n + k] * A[k * n + j]; double dd = fabs(s - (i == j)); if (!(dd <= err)) err = dd; na = max(na, fabs(A0[i * n + j])); nb = max(nb, fabs(A[i * n + j])); }
        if (e != 0 || !(err <= 1e-12 * (1 + na * nb * n))) FAILF("inverse of %dx%d %s matrix %s: flag %d, |A*inv-I|=%g", n, n, what, vec(A0, n * n).c_str(), e, err);
    };
    for (long t = 0; t < N; t++) {
        double A[36];
        for (auto &x : A) x = r.in(-1, 1);
        for (int i = 0; i < 6; i++) A[i * 7] += 4 * (r.b() ? 1 : -1);
        inv_case(std::integral_constant<int, 6>(), A, false, "random");
        for (int i = 0; i < 9; i++) A[i] = r.in(-1, 1); for (int i = 0; i < 3; i++) A[i * 4] += 3;
        inv_case(std::integral_constant<int, 3>(), A, false, "random");
        randrot(r, A); inv_case(std::integral_constant<int, 3>(), A, false, "rotation");
        { int p[6] = {0, 1, 2, 3, 4, 5}; for (int i = 5; i > 0; i--) swap(p[i], p[r.i(0, i)]); for (auto &x : A) x = 0; for (int i = 0; i < 6; i++) A[i * 6 + p[i]] = r.in(1, 2) * (r.b() ? 1 : -1); inv_case(std::integral_constant<int, 6>(), A, false, "permutation"); }
        { int p[3] = {0, 1, 2}; for (int i = 2; i > 0; i--) swap(p[i], p[r.i(0, i)]); double B[9] = {0}; for (int i = 0; i < 3; i++) B[i * 3 + p[i]] = r.b() ? 1 : -1; inv_case(std::integral_constant<int, 3>(), B, false, "axis permuting rotation"); }
        { double B[9]; for (auto &x : B) x = 0; B[r.i(0, 8)] = 1; inv_case(std::integral_constant<int, 3>(), B, true, "rank one"); }
        { double c = cos(M_PI / 2), s = 1, B[9] = {c, -s, 0, s, c, 0, 0, 0, 1}; inv_case(std::integral_constant<int, 3>(), B, false, "90 degree rotation"); }
        int n = 1 + (int)(t % 12);
        std::vector<double> S(n * n), S0, b(n), b0, x(n);
        for (auto &y : S) y = r.in(-1, 1); for (int i = 0; i < n; i++) if (r.b()) S[i * n + i] += 3;
        if (r.i(0, 3) == 0) { for (int i = 0; i < n; i++) S[i * n + i] = 0; if (n == 1) S[0] = 2; for (int i = 0; i + 1 < n; i++) { S[i * n + i + 1] += 3; } if (n > 1) S[(n - 1) * n] += 3; }
        for (auto &y : x) y = r.in(-5, 5);
        for (int i = 0; i < n; i++) { b[i] = 0; for (int j = 0; j < n; j++) b[i] += S[i * n + j] * x[j]; }
        S0 = S; b0 = b; g_cases++;
        int e = solve_linear_system(S.data(), b.data(), n);
        double res = 0, nx = 0; for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += S0[i * n + j] * b[j]; res = max(res, fabs(s - b0[i])); nx = max(nx, fabs(b[i])); }
        if (e != 0 || !(res <= 1e-11 * (1 + nx * n))) FAILF("solution of a %dx%d system: flag %d residual %g matrix %s rhs %s", n, n, e, res, vec(S0.data(), n * n).c_str(), vec(b0.data(), n).c_str());
        { std::vector<double> Z(n * n), z(n, 1.0); for (auto &y : Z) y = (double)r.i(-2, 2); int k = (int)r.i(0, n - 1); for (int i = 0; i < n; i++) Z[i * n + k] = 0; if (solve_linear_system(Z.data(), z.data(), n) == 0) FAILF("singular %dx%d system reports success", n, n); }
        for (int n2 = 2; n2 <= 3; n2++) {  // small integer matrices: exact zeros and signs in every position
            double Z[9], Z0[9], I9[9], z[3], z0[3]; for (int i = 0; i < n2 * n2; i++) Z[i] = Z0[i] = I9[i] = (double)r.i(-2, 2); for (int i = 0; i < n2; i++) z[i] = z0[i] = (double)r.i(-3, 3);
            double dz = n2 == 2 ? Z[0] * Z[3] - Z[1] * Z[2] : det(Z);
            int fl = solve_linear_system(Z, z, n2); g_cases++;
            double rs = 0; for (int i = 0; i < n2; i++) { double q = 0; for (int j = 0; j < n2; j++) q += Z0[i * n2 + j] * z[j]; double w = fabs(q - z0[i]); if (!(w <= rs)) rs = w; }
            if (dz != 0 && (fl != 0 || !(rs < 1e-11))) FAILF("solution of the %dx%d system %s rhs %s: flag %d residual %g", n2, n2, vec(Z0, n2 * n2).c_str(), vec(z0, n2).c_str(), fl, rs);
            if (dz != 0) { if (n2 == 2) inv_case(std::integral_constant<int, 2>(), I9, false, "integer"); else inv_case(std::integral_constant<int, 3>(), I9, false, "integer"); }
        }
        int ex = (int)r.i(-40, 40); double bs = r.in(-2, 2); if (t % 9 == 0) bs = -1; if (fabs(bs) > 0.05) { double p = PowIntExpo(bs, ex), w = pow(bs, ex); g_cases++; if (!close_to(p, w, 1e-12, 0)) FAILF("PowIntExpo(%.17g,%d)=%g expected %g", bs, ex, p, w); }
        { double z = PowIntExpo(0.0, (int)r.i(1, 20)); if (z != 0) FAILF("0^n is %g", z); if (PowIntExpo(0.0, 0) != 1) FAILF("0^0"); }
#ifdef HAVE_DET
        double G[9], Ex[9], Gi[9]; for (auto &y : G) y = r.in(-2, 2); memcpy(Gi, G, sizeof G); double dd = 1e99; determinant33(G, dd); g_cases++;
        if (!close_to(dd, det(G), 1e-12)) FAILF("determinant of %s is %g expected %g", vec(G, 9).c_str(), dd, det(G));
        double G2[9], G3[9]; mul(G, G, G2); mul(G2, G, G3); matrix_exp(G, Ex);
        for (int i = 0; i < 9; i++) { double w = (i % 4 == 0) + G[i] + G2[i] / 2 + G3[i] / 6; if (!close_to(Ex[i], w, 1e-12)) FAILF("matrix_exp of %s component %d: %g expected %g", vec(G, 9).c_str(), i, Ex[i], w); }
        if (memcmp(Gi, G, sizeof G)) FAILF("matrix_exp changed its argument");
#endif
    }
#elif defined(P06)
    for (long t = 0; t < N; t++) {
        g_cases++;
        double F[9], F0[9], V[9], R[9], Q[9], S[9], U[9];
        randrot(r, Q); randrot(r, U);
        double l[3]; for (auto &x : l) x = pow(10, r.in(-1, 1)); if (t % 4 == 0) for (auto &x : l) x = 1; if (t % 4 == 1) for (auto &x : l) x = 1 + r.in(-1e-3, 1e-3); if (t % 13 == 0) l[0] = l[1] = l[2] = 2.5;
        double t9[9], Ut[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Ut[O(i, j)] = U[O(j, i)]; t9[O(i, j)] = U[O(i, j)] * l[j]; }
        mul(t9, Ut, S);
        if (t % 10 == 3) { double c = 0, s = 1, B[9] = {c, s, 0, -s, c, 0, 0, 0, 1}; memcpy(Q, B, sizeof B); for (auto &x : S) x = 0; for (int i = 0; i < 3; i++) S[i * 4] = l[i]; }
        mul(S, Q, F); memcpy(F0, F, sizeof F);
        BEGINF("polar decomposition of %s", vec(F, 9).c_str());
        defgrad_dcmp(F, V, R);
        if (memcmp(F, F0, sizeof F)) FAILF("deformation gradient changed");
        double P[9]; mul(V, R, P);
        double sc = 0; for (double x : F0) sc = max(sc, fabs(x));
        if (!(maxdiff(P, F0, 9) < 1e-9 * (1 + sc))) FAILF("V*R differs from F=%s by %g", vec(F0, 9).c_str(), maxdiff(P, F0, 9));
        if (!(orth_err(R) < 1e-9)) FAILF("R of F=%s is not orthogonal: %g", vec(F0, 9).c_str(), orth_err(R));
        if (!(maxdiff(R, Q, 9) < 1e-7) || !(maxdiff(V, S, 9) < 1e-6 * (1 + sc))) FAILF("polar factors of F=%s: R=%s V=%s", vec(F0, 9).c_str(), vec(R, 9).c_str(), vec(V, 9).c_str());
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(fabs(V[O(i, j)] - V[O(j, i)]) < 1e-8 * (1 + sc))) FAILF("V of F=%s is not symmetric", vec(F0, 9).c_str());
    }
#elif defined(P07)
    for (long t = 0; t < N; t++) {
        g_cases++;
        double A[9], A0[9], sc = pow(10, r.in(-8, 12)); if (t % 50 == 0) sc = 1e30;
        for (auto &x : A) x = r.in(-1, 1) * sc;
        if (t % 6 == 0) { double p = r.in(-1, 1) * sc; for (auto &x : A) x = 0; A[0] = A[4] = A[8] = p; }
        memcpy(A0, A, sizeof A);
        double s[9], tr = (A[0] + A[4] + A[8]) / 3, n2 = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s[O(i, j)] = .5 * (A[O(i, j)] + A[O(j, i)]) - (i == j) * tr; n2 += s[O(i, j)] / sc * (s[O(i, j)] / sc); }
        double w = sqrt(2. / 3 * n2) * sc, g = vm(A);
        if (!close_to(g, w, 1e-12, sc * 1e-3)) FAILF("von Mises strain of %s is %.17g expected %.17g", vec(A, 9).c_str(), g, w);
        for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) A[O(i, j)] = A[O(j, i)]; memcpy(A0, A, sizeof A);
        tr = (A[0] + A[4] + A[8]) / 3; n2 = 0; for (int i = 0; i < 9; i++) { double q = (A[i] - (i % 4 == 0) * tr) / sc; n2 += q * q; }
        w = sqrt(1.5 * n2) * sc; g = vm_stress(A);
        if (!close_to(g, w, 1e-11, sc * 1e-3)) FAILF("von Mises stress of %s is %.17g expected %.17g", vec(A, 9).c_str(), g, w);
        if (memcmp(A, A0, sizeof A)) FAILF("tensor changed");
    }
#endif
    return DONE();
}
