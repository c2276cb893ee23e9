#include "voigt.h"
#include "rnd.h"
static int V[4][4];
int main(int c, char **v) {
    Rnd r(atoi(v[1]));
    long n = atol(v[2]);
    V[1][1] = 1; V[2][2] = 2; V[3][3] = 3; V[2][3] = V[3][2] = 4; V[1][3] = V[3][1] = 5; V[1][2] = V[2][1] = 6;
    int M[7][2] = {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {2, 3}, {1, 3}, {1, 2}};
    for (long t = 0; t < n; t++) {
        real_t c2[36], c2o[36], c4[81], c4o[81];
        for (auto &x : c2) x = r.in(-1e5, 1e5);
        for (auto &x : c4) x = r.in(-1e5, 1e5);
        for (int opt = 1; opt <= 3; opt++) {
            std::copy(c2, c2 + 36, c2o); std::copy(c4, c4 + 81, c4o);
            voigt(c2o, c4o, opt);
            g_cases++;
            for (int i = 1; i <= 3; i++) for (int j = 1; j <= 3; j++) for (int k = 1; k <= 3; k++) for (int l = 1; l <= 3; l++) {
                int a = V[i][j], b = V[k][l], o = (i - 1) + 3 * (j - 1) + 9 * (k - 1) + 27 * (l - 1);
                double f = opt == 3 ? (a > 3 ? .5 : 1) * (b > 3 ? .5 : 1) : 1;
                if (opt != 2 && c4o[o] != f * c2[(a - 1) + 6 * (b - 1)]) FAILF("mode %d tensor(%d,%d,%d,%d)=%g expected %g", opt, i, j, k, l, c4o[o], f * c2[(a - 1) + 6 * (b - 1)]);
                if (opt == 2 && c4o[o] != c4[o]) FAILF("mode 2 changed the tensor");
            }
            for (int i = 1; i <= 6; i++) for (int j = 1; j <= 6; j++) {
                int o = (i - 1) + 6 * (j - 1);
                if (opt != 2 && c2o[o] != c2[o]) FAILF("mode %d changed the matrix", opt);
                double w = c4[(M[i][0] - 1) + 3 * (M[i][1] - 1) + 9 * (M[j][0] - 1) + 27 * (M[j][1] - 1)];
                if (opt == 2 && c2o[o] != w) FAILF("mode 2 voigt(%d,%d)=%g expected %g", i, j, c2o[o], w);
            }
        }
    }
    return DONE();
}
