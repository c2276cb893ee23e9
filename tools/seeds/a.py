import json
MI="apps/micromechanics/"
S=[]
S.append(dict(id="C03-gimbal-pi", property="C03", needs="an orientation whose third axis is flipped (a33 = -1) with a non-zero in-plane angle", what_it_breaks="angles recovered at second angle = 180 degrees have the wrong sign of the first angle; the branch is right at 0 degrees",
 edits=[[MI+"LS-EVPFFT/src/euler.cpp","ph = ATAN2(a(1,2),a(1,1));","ph = ATAN2(-a(2,1),a(1,1));"]],
 stubs="micro", incs=[MI+"LS-EVPFFT/src"], sources=[MI+"LS-EVPFFT/src/euler.cpp"],
 demo_cpp=r'''
#include "euler.h"
#include <cstdio>
#include <cmath>
int main() {
    int bad = 0;
    const double D = M_PI / 180;
    for (int t = 0; t < 2; t++) for (double w = -170; w < 175; w += 17) {
        double a[9], b[9], p = w * D, q = t ? M_PI : 0, s = 0;
        euler(2, p, q, s, a);
        if (a[8] > 1) a[8] = 1; if (a[8] < -1) a[8] = -1;
        euler(1, p, q, s, a);
        p *= D; q *= D; s *= D;
        euler(2, p, q, s, b);
        for (int i = 0; i < 9; i++) if (!(std::fabs(a[i] - b[i]) < 1e-6)) bad++;
    }
    printf("%d components differ\n", bad);
    return bad ? 1 : 0;
}
'''))
S.append(dict(id="C04-small-spin", property="C04", needs="a spin increment whose magnitude lies between 1e-6 and 1e-3", what_it_breaks="small rotations are silently dropped because the threshold branch no longer normalises consistently",
 edits=[[MI+"EVPFFT/src/orient.cpp","if (snorm > 1.0E-06) goto label_97;","if (snorm > 1.0E-03) goto label_97;"]],
 stubs="micro", incs=[MI+"EVPFFT/src"], sources=[MI+"EVPFFT/src/orient.cpp"],
 demo_cpp=r'''
#include "orient.h"
#include <cstdio>
#include <cmath>
int main() {
    int bad = 0;
    for (double w : {3e-6, 1e-5, 1e-4, 5e-4, 2e-3, .1}) {
        double a[9] = {1,0,0,0,1,0,0,0,1}, c[9] = {0, w, 0, -w, 0, 0, 0, 0, 0}; // c(2,1)=w
        orient(a, c);
        double got = std::atan2(a[1], a[0]);
        if (!(std::fabs(got - w) < 1e-9 * w + 1e-14)) { bad++; printf("spin %g rotates by %g\n", w, got); }
    }
    return bad ? 1 : 0;
}
'''))
S.append(dict(id="C05-solve-sign", property="C05", needs="a system whose largest pivot candidate is negative and whose other candidates are zero or tiny", what_it_breaks="pivot search compares signed values, so a zero pivot is kept and a regular system is reported singular",
 edits=[[MI+"LSNP-EVPFFT/src/math_functions.cpp","if (fabs(A[j * n + i]) > fabs(A[pivotRow * n + i])) {","if (A[j * n + i] > A[pivotRow * n + i]) {"]],
 stubs="micro", incs=[MI+"LSNP-EVPFFT/src"], sources=[MI+"LSNP-EVPFFT/src/math_functions.cpp"],
 demo_cpp=r'''
#include "math_functions.h"
#include <cstdio>
#include <cmath>
int main() {
    double A[4] = {0, 1, -2, 1}, b[2] = {3, 1};   // x = 1, y = 3
    int e = solve_linear_system(A, b, 2);
    printf("flag %d x %g %g\n", e, b[0], b[1]);
    return !(e == 0 && std::fabs(b[0] - 1) < 1e-12 && std::fabs(b[1] - 3) < 1e-12);
}
'''))
S.append(dict(id="C06-threshold", property="C06", needs="a deformation gradient near a rotation but not one (strain about 1e-3)", what_it_breaks="the iteration stops one step early, leaving a rotation factor that is not orthogonal",
 edits=[[MI+"LSNP-EVPFFT/src/defgrad_dcmp.cpp","  const real_t tol = 1.0e-12;","  const real_t tol = 1.0e-5;"]],
 stubs="micro", incs=[MI+"LSNP-EVPFFT/src"], sources=[MI+"LSNP-EVPFFT/src/defgrad_dcmp.cpp",MI+"LSNP-EVPFFT/src/math_functions.cpp"],
 demo_cpp=r'''
#include "defgrad_dcmp.h"
#include <cstdio>
#include <cmath>
int main() {
    double F[9] = {1.002, 0, 0, 0, 1, 0, 0, 0, 0.999}, V[9], R[9], e = 0;
    defgrad_dcmp(F, V, R);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += R[i + 3 * k] * R[j + 3 * k]; e = std::fmax(e, std::fabs(s - (i == j))); }
    printf("orthogonality error %g\n", e);
    return e > 1e-10;
}
'''))
S.append(dict(id="C02-major", property="C02", needs="a fourth-order tensor without major symmetry (a tangent, not an elastic stiffness)", what_it_breaks="the six-by-six form comes back transposed; invisible for symmetric stiffnesses",
 edits=[[MI+"LS-EVPFFT-J2/src/chg_basis.cpp","CE4(n,m) += C4(i,j,k,l) * B_basis(i,j,n) * B_basis(k,l,m);","CE4(n,m) += C4(i,j,k,l) * B_basis(i,j,m) * B_basis(k,l,n);"]],
 stubs="micro", incs=[MI+"LS-EVPFFT-J2/src"], sources=[MI+"LS-EVPFFT-J2/src/chg_basis.cpp"],
 demo_cpp=r'''
#include "chg_basis.h"
#include <cstdio>
#include <cmath>
int main() {
    ChgBasis cb;
    double m[36], c4[81], r[36], e = 0;
    for (int i = 0; i < 36; i++) m[i] = i + 1;      // no major symmetry
    cb.chg_basis_3(m, c4, 3, 6, cb.B_basis_host_pointer());
    cb.chg_basis_4(r, c4, 4, 6, cb.B_basis_host_pointer());
    for (int i = 0; i < 36; i++) e = std::fmax(e, std::fabs(m[i] - r[i]));
    printf("round trip error %g\n", e);
    return e > 1e-9;
}
'''))
if __name__ == "__main__":
    import sys
    sys.path.insert(0, "/verif/tools")
    import mkseed
    for s in S:
        if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]: continue
        mkseed.main(s)
