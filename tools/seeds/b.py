import sys
sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/fvc"); sys.path.insert(0, "/verif")
M = "apps/multiphysics/src/"
import os
def incs():
    out = []
    root = os.path.join("/repo", M)
    for b, dirs, files in os.walk(root):
        dirs.sort(); r = os.path.relpath(b, root); parts = r.split(os.sep)
        if parts[-1] in ("include", "input", "src") or "boundary_conditions" in parts or "material_models" in parts or "common" in parts or r == ".":
            out.append(os.path.normpath(M + r))
    return out
H = "/verif/fvc/harness/"
COMMON = dict(stubs="multi", incs=incs(), extra_files=[H + "rnd.h", H + "mp.h", H + "world.h"], libs="-Wl,--unresolved-symbols=ignore-all -no-pie")
G = M + "common/src/geometry_new.cpp"
S = []
S.append(dict(COMMON, id="C11-rzvol", property="C11", needs="a quadrilateral that is not a parallelogram", what_it_breaks="the axisymmetric volume becomes area times the mean corner radius, exact only for parallelograms",
 edits=[[G, "( (y(2) + y(3) + y(0)) * ((y(2) - y(3)) * (x(0) - x(3)) - (y(0) - y(3)) * (x(2) - x(3)) )\n        + (y(0) + y(1) + y(2)) * (", "0.75 * (y(0) + y(1) + y(2) + y(3)) * ( ((y(2) - y(3)) * (x(0) - x(3)) - (y(0) - y(3)) * (x(2) - x(3)) )\n        + ("]],
 sources=[G], demo_cpp=r'''
#include "world.h"
int main() {
    int bad = 0;
    for (int t = 0; t < 2; t++) {
        double X[4][2] = {{0, 1}, {1, 1}, {t ? 1 : 0.6, 2}, {0, 2}};
        swage::Mesh m; m.initialize_nodes(4); m.initialize_elems(1, 2); for (int i = 0; i < 4; i++) m.nodes_in_elem(0, i) = i; connect(m, 2);
        DCArrayKokkos<double> x(4, 2), v(1); for (int i = 0; i < 4; i++) for (int d = 0; d < 2; d++) x(i, d) = X[i][d];
        geometry::get_vol(v, x, m);
        printf("volume %g exact %g\n", v(0), (double)quad_rzvol(X));
        if (fabs(v(0) - quad_rzvol(X)) > 1e-12) bad++;
    }
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C12-hoop", property="C12", needs="a tapered quadrilateral moving radially", what_it_breaks="the hoop rate uses the mean corner radius instead of the volume over the area",
 edits=[[M + "Solvers/SGH_solver_rz/src/momentum_rz.cpp", "double mean_radius = elem_vol(elem_gid) / elem_area;", "double mean_radius = 0.25 * (node_coords(elem_node_gids(0), 1) + node_coords(elem_node_gids(1), 1) + node_coords(elem_node_gids(2), 1) + node_coords(elem_node_gids(3), 1));", 2]],
 sources=[G, M + "Solvers/SGH_solver_rz/src/momentum_rz.cpp"], demo_cpp=r'''
#include "world.h"
int main() {
    int bad = 0; SGHRZ &s = bare<SGHRZ>();
    for (int t = 0; t < 2; t++) {
        double X[4][2] = {{0, 1}, {1, 1}, {t ? 1 : 0.3, 3}, {0, 3}};
        swage::Mesh m; m.initialize_nodes(4); m.initialize_elems(1, 2); for (int i = 0; i < 4; i++) m.nodes_in_elem(0, i) = i; connect(m, 2);
        DCArrayKokkos<double> x(4, 2), v(4, 2), vol(1), L(1, 3, 3); L.set_values(0); for (int i = 0; i < 4; i++) { for (int d = 0; d < 2; d++) x(i, d) = X[i][d]; v(i, 0) = 0; v(i, 1) = 1; }
        geometry::get_vol(vol, x, m);
        s.get_velgrad_rz(L, m, x, v, vol);
        double w = (double)(quad_area(X) / quad_rzvol(X));
        printf("hoop rate %g expected %g\n", L(0, 2, 2), w);
        if (fabs(L(0, 2, 2) - w) > 1e-12) bad++;
    }
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C13-valence", property="C13", needs="a mesh with a node shared by more than eight elements", what_it_breaks="forces of the ninth and later corners of a node are left out of its velocity",
 edits=[[M + "Solvers/SGH_solver_3D/src/momentum.cpp", "for (size_t corner_lid = 0; corner_lid < mesh.num_corners_in_node(node_gid); corner_lid++) {", "const size_t num_corners = (mesh.num_corners_in_node(node_gid) < 8) ? mesh.num_corners_in_node(node_gid) : 8;\n        for (size_t corner_lid = 0; corner_lid < num_corners; corner_lid++) {"]],
 sources=[G, M + "Solvers/SGH_solver_3D/src/momentum.cpp"], demo_cpp=r'''
#include "world.h"
int main() {
    Rnd r(3); int bad = 0; SGH3D &s = bare<SGH3D>();
    for (int n = 5; n < 12; n++) {
        swage::Mesh m; DCArrayKokkos<double> x; fan_mesh(r, m, x, n, 1, 0);
        size_t nn = m.num_nodes, nc = m.num_corners;
        DCArrayKokkos<double> v(nn, 3), v0(nn, 3), mass(nn), f(nn, 3), cf(nc, 3); CArrayKokkos<double> ct(nn, 3); fill(r, v0, nn * 3, -1, 1); fill(r, mass, nn, 1, 2); f.set_values(0); ct.set_values(0); fill(r, cf, nc * 3, -1, 1);
        s.update_velocity(1.0, .1, m, v, v0, mass, f, cf, ct, false);
        for (size_t i = 0; i < nn; i++) for (int d = 0; d < 3; d++) { double F = 0; for (size_t e = 0; e < m.num_elems; e++) for (int c = 0; c < 8; c++) if (m.nodes_in_elem(e, c) == i) F += cf(8 * e + c, d); if (fabs(v(i, d) - v0(i, d) - .1 * F / mass(i)) > 1e-12) bad++; }
    }
    printf("%d velocity components wrong\n", bad);
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C14-radius", property="C14", needs="a second Runge-Kutta stage, where the positions have moved since the start of the step, axisymmetric", what_it_breaks="the power of the corner forces uses the radius at the start of the step while momentum uses the current one, so energy drifts",
 edits=[[M + "Solvers/SGH_solver_rz/src/energy_sgh_rz.cpp", "double node_radius = node_coords(node_gid, 1);", "double node_radius = node_coords_n0(node_gid, 1);"]],
 sources=[G, M + "Solvers/SGH_solver_rz/src/energy_sgh_rz.cpp"], demo_cpp=r'''
#include "world.h"
int main() {
    Rnd r(5); SGHRZ &s = bare<SGHRZ>(); int bad = 0;
    for (int t = 0; t < 20; t++) {
        World w(r, true, 1.5, 1); DCArrayKokkos<double> x0(w.nn, 2); for (size_t i = 0; i < w.nn; i++) for (int d = 0; d < 2; d++) x0(i, d) = w.x(i, d) - .01 * w.v(i, d);
        for (size_t q = 0; q < w.nm; q++) {
            s.update_energy_rz(1.0, .1, w.m, w.v, w.v0, w.x, x0, w.sie, w.sie0, w.mass, w.mcf, w.cim, w.eim, w.el[q].size(), q);
            for (size_t p = 0; p < w.el[q].size(); p++) { double P = 0; for (int c = 0; c < 4; c++) for (int d = 0; d < 2; d++) { size_t g = w.m.nodes_in_elem(w.el[q][p], c); P += w.mcf(q, p * 4 + c, d) * .5 * (w.v(g, d) + w.v0(g, d)) * w.x(g, 1); } if (fabs(w.sie(q, p) - w.sie0(q, p) + .1 * P / w.mass(q, p)) > 1e-12) bad++; }
        }
    }
    printf("%d energies wrong\n", bad);
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C15-edge", property="C15", needs="an axisymmetric element whose shortest edge joins its third and fourth corner", what_it_breaks="that edge is left out of the shortest-distance search, so the step exceeds the stability limit",
 edits=[[M + "Solvers/SGH_solver_rz/src/time_integration_rz.cpp", "for (int i = 0; i < 6; ++i) {\n            dist_min", "for (int i = 0; i < 5; ++i) {\n            dist_min"]],
 sources=[G, M + "Solvers/SGH_solver_rz/src/time_integration_rz.cpp"], demo_cpp=r'''
#include "world.h"
int main() {
    SGHRZ &s = bare<SGHRZ>(); int bad = 0;
    for (int t = 0; t < 4; t++) {
        double X[4][2] = {{0, 1}, {1, 1}, {1, 2}, {0, 2}}; int b = (t + 1) % 4; for (int d = 0; d < 2; d++) X[b][d] = X[t][d] + .1 * (X[b][d] - X[t][d]);
        swage::Mesh m; m.initialize_nodes(4); m.initialize_elems(1, 2); for (int i = 0; i < 4; i++) m.nodes_in_elem(0, i) = i; connect(m, 2);
        CArrayKokkos<size_t> one(1); one(0) = 1; DRaggedRightArrayKokkos<double> ss(one); DRaggedRightArrayKokkos<bool> er(one); DRaggedRightArrayKokkos<size_t> el(one); ss(0, 0) = 2; er(0, 0) = false; el(0, 0) = 0;
        DCArrayKokkos<double> x(4, 2), v(4, 2), vol(1); for (int i = 0; i < 4; i++) for (int d = 0; d < 2; d++) x(i, d) = X[i][d]; double dt = 10;
        s.get_timestep_rz(m, x, v, vol, ss, er, el, 1, 0, 100, 100, 100, 1e-9, .5, dt, 1e-16, 1e-12, 0);
        printf("edge %d: step %g expected %g\n", t, dt, .5 * .1 / 2); if (fabs(dt - .025) > 1e-10) bad++;
    }
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C16-vorticity", property="C16", needs="an element rotating about the first axis while compressing slowly (curl along the first axis only)", what_it_breaks="the vorticity limiter misses one component of the curl, so rotation about that axis is damped as if it were a shock",
 edits=[[M + "material_models/artificial_viscosity/mars.hpp", "double mag_curl = sqrt(curl[0] * curl[0] + curl[1] * curl[1] + curl[2] * curl[2]);", "double mag_curl = sqrt(curl[1] * curl[1] + curl[1] * curl[1] + curl[2] * curl[2]);", 2]],
 sources=[], demo_cpp=r'''
#include "world.h"
#include "mars.hpp"
int main() {
    int bad = 0; double out[3];
    for (int a = 0; a < 3; a++) {
        CArrayKokkos<size_t> six(1), one(1), nn(1); six(0) = 6; one(0) = 1; nn(0) = 1; RaggedRightArrayKokkos<double> p(six); RaggedRightArrayKokkos<size_t> nb(nn); nn(0) = 0; double P[6] = {1, 1, 1, 1, 0, 0}; for (int i = 0; i < 6; i++) p(0, i) = P[i];
        DCArrayKokkos<double> L(2, 3, 3), v(8, 3); L.set_values(0); for (int i = 0; i < 3; i++) L(0, i, i) = -.01; int b = (a + 1) % 3, c = (a + 2) % 3; L(0, c, b) = 1; L(0, b, c) = -1;
        nn(0) = 1; nb(0, 0) = 1; // a neighbour at rest
        DRaggedRightArrayKokkos<bool> er(one); DRaggedRightArrayKokkos<double> den(one), ss(one); den(0, 0) = 1; ss(0, 0) = .01;
        double F[24] = {0}, A[24]; size_t nd[8]; for (int i = 0; i < 8; i++) { nd[i] = i; for (int d = 0; d < 3; d++) A[3 * i + d] = -.25 * XI3[i][d]; double X[3] = {.5 * XI3[i][0], .5 * XI3[i][1], .5 * XI3[i][2]}; for (int d = 0; d < 3; d++) { v(i, d) = 0; for (int e = 0; e < 3; e++) v(i, d) += L(0, d, e) * X[e]; } }
        ViewCArrayKokkos<size_t> N(nd, 8); ViewCArrayKokkos<double> FF(F, 8, 3), AA(A, 8, 3);
        MARSDissipationModel::calc_dissipation(N, p, L, er, v, den, ss, FF, AA, nb, nn, 1.0, 1e-16, 1e-14, 0.0, 0, 0);
        out[a] = 0; for (int i = 0; i < 24; i++) out[a] += F[i] * F[i]; printf("axis %d: %g\n", a, out[a]);
    }
    for (int a = 1; a < 3; a++) if (fabs(out[a] - out[0]) > 1e-9 * (out[a] + out[0])) bad++;
    return bad != 0;
}
'''))
if __name__ == "__main__":
    import mkseed
    for s in S:
        if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]: continue
        mkseed.main(s)
