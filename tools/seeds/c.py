import sys
sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/fvc"); sys.path.insert(0, "/verif")
M = "apps/multiphysics/src/"
import os
def incs():
    out = []
    root = os.path.join("/repo", M)
    for b, dirs, files in os.walk(root):
        dirs.sort(); r = os.path.relpath(b, root); parts = r.split(os.sep)
        if parts[-1] in ("include", "input", "src") or "boundary_conditions" in parts or "material_models" in parts or "common" in parts or r == ".":
            out.append(os.path.normpath(M + r))
    return out
H = "/verif/fvc/harness/"
COMMON = dict(stubs="multi", incs=incs(), extra_files=[H + "rnd.h", H + "mp.h", H + "world.h"], libs="-Wl,--unresolved-symbols=ignore-all -no-pie")
G = M + "common/src/geometry_new.cpp"
S = []
S.append(dict(COMMON, id="C17-heal", property="C17", needs="a point that fails in one step and recovers its density in the next", what_it_breaks="an eroded point comes back to life when its density recovers, instead of staying eroded",
 edits=[[M + "material_models/erosion/basic_erosion.hpp", '''        if (MaterialPoint_pres <= erode_tension_val || MaterialPoint_den <= erode_density_val) {

            MaterialPoints_eroded(mat_id, mat_point_sid) = true;

        } // end if
''', '''        MaterialPoints_eroded(mat_id, mat_point_sid) =
            (MaterialPoint_pres <= erode_tension_val || MaterialPoint_den <= erode_density_val);
''']],
 sources=[], demo_cpp=r'''
#include "world.h"
#include "basic_erosion.hpp"
int main() {
    CArrayKokkos<size_t> one(1); one(0) = 1; DRaggedRightArrayKokkos<bool> er(one); DRaggedRightArrayKokkos<double> s(one, 3, 3); er(0, 0) = false;
    BasicErosionModel::erode(er, s, -2, 1, 0, 1, -1, .1, 0, 0); bool a = er(0, 0);
    BasicErosionModel::erode(er, s, 0, 1, 0, 1, -1, .1, 0, 0); bool b = er(0, 0);
    printf("after failing %d, a step later %d\n", a, b);
    return !(a && b);
}
'''))
S.append(dict(COMMON, id="C17-secant", property="C17", needs="a density away from the reference density", what_it_breaks="the linear elastic pressure uses the strain relative to the current instead of the reference density; both agree to first order",
 edits=[[M + "material_models/eos/elasticity.hpp", "= B*(den/den0 - 1.0);", "= B*(1.0 - den0/den);"]],
 sources=[], demo_cpp=r'''
#include "world.h"
#include "elasticity.hpp"
int main() {
    CArrayKokkos<size_t> one(1), six(1); one(0) = 1; six(0) = 6; DRaggedRightArrayKokkos<double> p(one), c(one), es(one), s(one, 3, 3); RaggedRightArrayKokkos<double> g(six); g(0, 0) = 10; g(0, 1) = 3; g(0, 2) = 2; g(0, 3) = 1e-6;
    int bad = 0;
    for (double d = 2; d < 2.5; d += .1) { LinearElasticEOS::calc_pressure(p, s, 0, 0, es, c, d, 0, g); printf("p(%g) = %g\n", d, p(0, 0)); if (fabs(p(0, 0) - 10 * (d / 2 - 1)) > 1e-9) bad++; }
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C18-setcount", property="C18", needs="two boundary sets of different sizes listed for the solver in another order than they are numbered", what_it_breaks="the number of nodes is taken from the set at the position in the solver's list instead of the set itself, so nodes of the larger set are skipped",
 edits=[[M + "Solvers/SGH_solver_3D/src/boundary.cpp", '''        // Loop over boundary nodes in a boundary set
        FOR_ALL(bdy_node_lid, 0, mesh.num_bdy_nodes_in_set.host(bdy_set), {
            // get the global index''', '''        // Loop over boundary nodes in a boundary set
        FOR_ALL(bdy_node_lid, 0, mesh.num_bdy_nodes_in_set.host(bc_lid), {
            // get the global index''']],
 sources=[M + "Solvers/SGH_solver_3D/src/boundary.cpp", G], demo_cpp=r'''
#include "world.h"
#include "constant_velocity_bc.hpp"
int main() {
    swage::Mesh m; m.num_dims = 3; m.num_nodes = 6; m.num_bdy_sets = 2;
    CArrayKokkos<size_t> c(2); c(0) = 1; c(1) = 4; m.num_bdy_nodes_in_set = DCArrayKokkos<size_t>(2); m.num_bdy_nodes_in_set(0) = 1; m.num_bdy_nodes_in_set(1) = 4;
    m.bdy_nodes_in_set = RaggedRightArrayKokkos<size_t>(c); m.bdy_nodes_in_set(0, 0) = 5; for (int i = 0; i < 4; i++) m.bdy_nodes_in_set(1, i) = i;
    BoundaryCondition_t BC; BC.num_vel_bdy_sets_in_solver = DCArrayKokkos<size_t>(1); BC.num_vel_bdy_sets_in_solver(0) = 1; BC.vel_bdy_sets_in_solver = DCArrayKokkos<size_t>(1, 2); BC.vel_bdy_sets_in_solver(0, 0) = 1; BC.vel_bdy_sets_in_solver(0, 1) = 0;
    CArrayKokkos<size_t> n(2); n(0) = n(1) = 3; BC.velocity_bc_global_vars = RaggedRightArrayKokkos<double>(n); BC.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(2);
    for (int b = 0; b < 2; b++) { BC.BoundaryConditionFunctions(b).velocity = ConstantVelocityBC::velocity; for (int d = 0; d < 3; d++) BC.velocity_bc_global_vars(b, d) = 7; }
    DCArrayKokkos<double> v(6, 3); v.set_values(0); SGH3D &s = bare<SGH3D>(); s.solver_id = 0; s.boundary_velocity(m, BC, v, 0.);
    int bad = 0; for (int i = 0; i < 4; i++) { printf("node %d moves at %g\n", i, v(i, 0)); bad += v(i, 0) != 7; }
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C19-shear", property="C19", needs="a constant stress condition with different transverse shear components on a face whose normal has the matching component", what_it_breaks="the 23 and 13 components of a constant boundary stress are exchanged (Voigt order)",
 edits=[[M + "boundary_conditions/stress/constant_stress_bc.hpp", '''    sig_12 = 3,
    sig_02 = 4,''', '''    sig_12 = 4,
    sig_02 = 3,''']],
 sources=[], demo_cpp=r'''
#include "world.h"
#include "constant_stress_bc.hpp"
int main() {
    swage::Mesh m; m.num_dims = 3; CArrayKokkos<size_t> n(1); n(0) = 6; RaggedRightArrayKokkos<double> p(n); for (int i = 0; i < 6; i++) p(0, i) = i + 1;
    DCArrayKokkos<BoundaryConditionEnums_t> e(1); DCArrayKokkos<double> st(1); double f_[3] = {0, 0, 0}, n_[3] = {0, 0, 1}; ViewCArrayKokkos<double> f(f_, 3), nn(n_, 3);
    ConstantStressBC::stress(m, e, p, st, f, nn, 0, 1, 0, 0);
    printf("traction on a z face: %g %g %g (expected 5 4 3)\n", f(0), f(1), f(2));
    return !(f(0) == 5 && f(1) == 4 && f(2) == 3);
}
'''))
S.append(dict(COMMON, id="C20-share", property="C20", needs="an element shared by two materials", what_it_breaks="a corner keeps only the mass of the last material put into its element",
 edits=[[M + "common/src/region_fill.cpp", "corner_mass(corner_gid) += corner_frac*MaterialPoints_mass(mat_id, mat_elem_sid);", "corner_mass(corner_gid) = corner_frac*MaterialPoints_mass(mat_id, mat_elem_sid);"]],
 sources=[M + "common/src/region_fill.cpp", G], demo_cpp=r'''
#include "world.h"
#include "region_fill.hpp"
int main() {
    Rnd r(1); swage::Mesh m; DCArrayKokkos<double> x; rnd_mesh3(r, m, x, 2, 1, 1); DCArrayKokkos<double> nm(m.num_nodes), cm(m.num_corners);
    CArrayKokkos<size_t> c(2); c(0) = 2; c(1) = 1; DRaggedRightArrayKokkos<double> mass(c); DRaggedRightArrayKokkos<size_t> e(c); mass(0, 0) = 1; mass(0, 1) = 2; mass(1, 0) = 4; e(0, 0) = 0; e(0, 1) = 1; e(1, 0) = 1; Material_t M;
    init_corner_node_masses_zero(m, nm, cm); calc_corner_mass(M, m, x, nm, cm, mass, e, 2, 0); calc_corner_mass(M, m, x, nm, cm, mass, e, 1, 1); calc_node_mass(m, x, nm, cm);
    double t = 0; for (size_t n = 0; n < m.num_nodes; n++) t += nm(n);
    printf("nodes carry %g of 7\n", t); return fabs(t - 7) > 1e-12;
}
'''))
S.append(dict(COMMON, id="C20-axis", property="C20", needs="a node on the axis next to an axis node whose off-axis neighbour is more than twice as heavy, visited after it", what_it_breaks="an axis node also takes half of its axis neighbours' masses, and the result depends on the visiting order",
 edits=[[M + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp", "                if (node_coords(node_neighbor_gid, 1) > tiny) {", "                if (node_coords(node_neighbor_gid, 1) > -tiny) {"]],
 sources=[M + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp", G], demo_cpp=r'''
#include "world.h"
int main() {
    swage::Mesh m; m.num_nodes = 4; m.num_bdy_nodes = 4; m.bdy_nodes = CArrayKokkos<size_t>(4); for (int i = 0; i < 4; i++) m.bdy_nodes(i) = i;
    size_t nb[4][2] = {{1, 2}, {0, 3}, {0, 3}, {1, 2}}; m.num_nodes_in_node = CArrayKokkos<size_t>(4); m.num_nodes_in_node.set_values(2); m.nodes_in_node = RaggedRightArrayKokkos<size_t>(m.num_nodes_in_node); for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) m.nodes_in_node(i, j) = nb[i][j];
    DCArrayKokkos<double> x(4, 2), nm(4); CArrayKokkos<double> M(4); x.set_values(0); x(2, 1) = x(3, 1) = 1; M(0) = M(1) = 0; M(2) = 100; M(3) = 2;
    calc_node_areal_mass_rz(m, x, nm, M, 1e-12);
    printf("axis nodes carry %g (expected 50) and %g (expected 1)\n", nm(0), nm(1)); return !(nm(0) == 50 && nm(1) == 1);
}
'''))
S.append(dict(COMMON, id="C21-stage", property="C21", needs="a scheme of two stages (the second stage starts from the first stage's temperature)", what_it_breaks="each stage adds its temperature change to the current temperature instead of the one at the step start",
 edits=[[M + "Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp", "        node_temp(node_gid) = node_temp_n0(node_gid) + rk_alpha * dt * node_q_transfer(node_gid) / (node_mass(node_gid)*Cp);", "        node_temp(node_gid) += rk_alpha * dt * node_q_transfer(node_gid) / (node_mass(node_gid)*Cp);"]],
 sources=[M + "Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp", G], demo_cpp=r'''
#include "world.h"
#include "sgtm_solver_3D.hpp"
int main() {
    Rnd r(1); swage::Mesh m; DCArrayKokkos<double> x; rnd_mesh3(r, m, x, 1, 1, 1); DCArrayKokkos<double> cq(8), T(8), T0(8), mass(8), nq(8); CArrayKokkos<size_t> c(1); c(0) = 1; DRaggedRightArrayKokkos<double> cp(c); cp(0, 0) = 1; DCArrayKokkos<size_t> n(1), id(1, 1), s(1, 1); n(0) = 1; id(0, 0) = s(0, 0) = 0;
    cq.set_values(1); T.set_values(300); T0.set_values(300); mass.set_values(1);
    for (double a : {.5, 1.}) { nq.set_values(0); bare<SGTM3D>().update_temperature(m, cq, T, T0, mass, nq, cp, n, id, s, a, 1.); }
    printf("T after the step: %g (expected 301)\n", T(0)); return fabs(T(0) - 301) > 1e-9;
}
'''))
S.append(dict(COMMON, id="C21-patch", property="C21", needs="a boundary patch that is not a parallelogram", what_it_breaks="the second triangle of a radiating patch is taken over the wrong node, so its area is wrong unless the patch is a parallelogram",
 edits=[[M + "Solvers/SGTM_solver_3D/src/boundary.cpp", "            node_c_gid = mesh.nodes_in_patch(patch_gid, 0);", "            node_c_gid = mesh.nodes_in_patch(patch_gid, 1);", 2]],
 sources=[M + "Solvers/SGTM_solver_3D/src/boundary.cpp", G], demo_cpp=r'''
#include "world.h"
#include "sgtm_solver_3D.hpp"
int main() {
    swage::Mesh m; m.num_dims = 3; m.num_nodes = 4; m.num_nodes_in_patch = 4; m.num_bdy_sets = 1; CArrayKokkos<size_t> c(1); c(0) = 1; m.bdy_patches_in_set = RaggedRightArrayKokkos<size_t>(c); m.bdy_patches_in_set(0, 0) = 0; m.num_bdy_patches_in_set = DCArrayKokkos<size_t>(1); m.num_bdy_patches_in_set(0) = 1; m.nodes_in_patch = decltype(m.nodes_in_patch)(1, 4); for (int i = 0; i < 4; i++) m.nodes_in_patch(0, i) = i;
    DCArrayKokkos<double> x(4, 3), T(4), q(4); double X[4][2] = {{0, 0}, {4, 0}, {3, 1}, {0, 2}}; x.set_values(0); for (int i = 0; i < 4; i++) for (int d = 0; d < 2; d++) x(i, d) = X[i][d]; T.set_values(1000); q.set_values(0);
    BoundaryCondition_t BC; BC.BoundaryConditionEnums = DCArrayKokkos<BoundaryConditionEnums_t>(1); BC.BoundaryConditionEnums(0).BCTemperatureModel = boundary_conditions::radiationTemperatureBC;
    bare<SGTM3D>().boundary_radiation(m, BC, T, q, x, 0);
    double w = -.2 * 5.67037442e-8 * 1e12 * 5, s = q(0) + q(1) + q(2) + q(3); printf("the patch radiates %.9g, expected %.9g\n", s, w); return fabs(s - w) > 1e-9 * fabs(w);
}
'''))
S.append(dict(COMMON, id="C25-end", property="C25", needs="a lookup beyond the last row of a column whose last value is larger than the argument", what_it_breaks="the upper end test compares with the wrong column: beyond the table the lookup gives zero instead of the last value",
 edits=[[M + "common/include/table.hpp", "        if (independent_value >= data(num_rows - 1, independent_idx)) {", "        if (independent_value >= data(num_rows - 1, dependent_idx)) {"]],
 sources=[], demo_cpp=r'''
#include "matar.h"
#include "table.hpp"
int main() {
    Table_t t(2, 2, "t"); t.set_value(0, 0, 0); t.set_value(0, 1, 50); t.set_value(1, 0, 10); t.set_value(1, 1, 70);
    printf("at 5: %g (expected 60), at 12: %g (expected 70)\n", t.linear_interpolation(5, 1), t.linear_interpolation(12, 1)); return !(t.linear_interpolation(5, 1) == 60 && t.linear_interpolation(12, 1) == 70);
}
'''))
S.append(dict(COMMON, id="C25-second", property="C25", needs="a property file with two materials", what_it_breaks="the block of the second material is appended to the first one's",
 edits=[[M + "input/read_abaqus_files.cpp", "                    // We hit a new keyword, so the block for our table has ended\n                    break;", "                    // We hit a new keyword, so the block for our table has ended\n                    in_block = false;"]],
 sources=[M + "input/read_abaqus_files.cpp"], demo_cpp=r'''
#include "matar.h"
#include "table.hpp"
#include "read_abaqus_files.hpp"
int main() {
    FILE *f = fopen("m.inp", "w"); fprintf(f, "*Material, name=A\n*Density\n8, 20\n7, 500\n*Conductivity\n1, 20\n*Material, name=B\n*Density\n3, 600\n*End\n"); fclose(f);
    Table_t t; AbaqusReader::read_tabular_jmatpro_file("m.inp", "density", t); printf("%zu rows (expected 2)\n", t.num_rows); return t.num_rows != 2;
}
'''))
SNAP = dict(COMMON, defs=["FVC_SNAP"])
S.append(dict(SNAP, id="C30-lost", property="C30", needs="two loaded patches sharing a node that are processed at the same time", what_it_breaks="the tally of the boundary stress into the node is not atomic any more: contributions of patches processed at the same time are lost",
 edits=[[M + "Solvers/SGH_solver_3D/src/boundary.cpp", "Kokkos::atomic_add(&node_bdy_force(node_gid, dim), corn_patch_force(dim));", "node_bdy_force(node_gid, dim) += corn_patch_force(dim);"]],
 sources=[M + "Solvers/SGH_solver_3D/src/boundary.cpp", G], demo_cpp=r'''
#include "world.h"
#include "constant_stress_bc.hpp"
int main() {
    double f[2][18]; int bad = 0; double X[6][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {2, 0, 0}, {2, 1, 0}}; size_t P[2][4] = {{0, 1, 2, 3}, {1, 4, 5, 2}};
    for (int o = 0; o < 2; o++) {
        swage::Mesh m; m.num_dims = 3; m.num_nodes = 6; m.num_nodes_in_patch = 4; m.num_bdy_sets = 1; CArrayKokkos<size_t> c(1); c(0) = 2; m.bdy_patches_in_set = RaggedRightArrayKokkos<size_t>(c); m.bdy_patches_in_set(0, 0) = 0; m.bdy_patches_in_set(0, 1) = 1; m.num_bdy_patches_in_set = DCArrayKokkos<size_t>(1); m.num_bdy_patches_in_set(0) = 2;
        m.nodes_in_patch = decltype(m.nodes_in_patch)(2, 4); for (int p = 0; p < 2; p++) for (int i = 0; i < 4; i++) m.nodes_in_patch(p, i) = P[p][i];
        DCArrayKokkos<double> x(6, 3), F(6, 3); for (int i = 0; i < 6; i++) for (int d = 0; d < 3; d++) x(i, d) = X[i][d]; F.set_values(0);
        BoundaryCondition_t BC; BC.num_stress_bdy_sets_in_solver = DCArrayKokkos<size_t>(1); BC.num_stress_bdy_sets_in_solver(0) = 1; BC.stress_bdy_sets_in_solver = DCArrayKokkos<size_t>(1, 1); BC.stress_bdy_sets_in_solver(0, 0) = 0;
        CArrayKokkos<size_t> len(1); len(0) = 6; BC.stress_bc_global_vars = RaggedRightArrayKokkos<double>(len); for (int i = 0; i < 6; i++) BC.stress_bc_global_vars(0, i) = i + 1;
        BC.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(1); BC.BoundaryConditionFunctions(0).stress = ConstantStressBC::stress;
        SGH3D &s = bare<SGH3D>(); s.solver_id = 0; fvc_par::order() = o; s.boundary_stress(m, BC, F, x, 0.0); fvc_par::order() = 0;
        for (int i = 0; i < 18; i++) f[o][i] = F.st.p[i];
    }
    for (int i = 0; i < 18; i++) if (fabs(f[0][i] - f[1][i]) > 1e-12) { printf("force %d of node %d: %g one patch after the other, %g both at the same time\n", i % 3, i / 3, f[0][i], f[1][i]); bad++; }
    return bad != 0;
}
'''))
S.append(dict(COMMON, id="C30-scratch", property="C30", needs="elements processed at the same time by different threads", what_it_breaks="the scratch array for the corner area normals is shared by all elements of the loop",
 edits=[[M + "Solvers/SGTM_solver_3D/src/heat_flux.cpp", "    // ---- calculate the forces acting on the nodes from the element ---- //\n    FOR_ALL(mat_elem_sid, 0, num_mat_elems, {\n\n        // get elem gid\n        size_t elem_gid = elem_in_mat_elem(mat_id, mat_elem_sid); \n\n        // the material point index = the material elem index for a 1-point element\n        size_t mat_point_sid = mat_elem_sid;\n\n        // corner area normals\n        double b_matrix_array[24];\n        ViewCArrayKokkos<double> b_matrix(b_matrix_array, num_nodes_in_elem, num_dims);\n\n        // temperature gradient",
 "    // corner area normals, allocated once instead of on the stack of every element\n    CArrayKokkos<double> b_matrix_array(num_nodes_in_elem, num_dims, \"b_matrix_array\");\n\n    // ---- calculate the forces acting on the nodes from the element ---- //\n    FOR_ALL(mat_elem_sid, 0, num_mat_elems, {\n\n        // get elem gid\n        size_t elem_gid = elem_in_mat_elem(mat_id, mat_elem_sid); \n\n        // the material point index = the material elem index for a 1-point element\n        size_t mat_point_sid = mat_elem_sid;\n\n        // corner area normals\n        ViewCArrayKokkos<double> b_matrix(&b_matrix_array(0, 0), num_nodes_in_elem, num_dims);\n\n        // temperature gradient"]],
 defs=["FVC_THREADS"], libs="-fsanitize=thread -pthread " + COMMON["libs"],
 sources=[M + "Solvers/SGTM_solver_3D/src/heat_flux.cpp", G], demo_cpp=r'''
#include "world.h"
#include "sgtm_solver_3D.hpp"
// run with the loop over the elements on four threads, under the race detector
int main() {
    Rnd r(1); swage::Mesh m; DCArrayKokkos<double> x; rnd_mesh3(r, m, x, 3, 2, 2, 0); size_t ne = m.num_elems;
    DCArrayKokkos<double> vol(ne), T(m.num_nodes), cq(m.num_corners); geometry::get_vol(vol, x, m); for (size_t i = 0; i < m.num_nodes; i++) T(i) = 300 + x(i, 0); cq.set_values(0);
    CArrayKokkos<size_t> cnt(1); cnt(0) = ne; DRaggedRightArrayKokkos<double> q(cnt, 3), g(cnt, 3), k(cnt); DRaggedRightArrayKokkos<bool> er(cnt); DRaggedRightArrayKokkos<size_t> eim(cnt); for (size_t e = 0; e < ne; e++) { eim(0, e) = e; k(0, e) = 1; er(0, e) = false; }
    corners_in_mat_t cim(8); Material_t M; fvc_par::order() = 1;
    for (int i = 0; i < 20; i++) bare<SGTM3D>().get_heat_flux(M, m, vol, x, T, q, k, g, cq, cim, er, eim, ne, 0, 1e-16, 1e-8, .1, 1);
    return 0;
}
'''))
S.append(dict(COMMON, id="C30-marks", property="C30", needs="two boundary sets collected at the same time that share a node", what_it_breaks="the marks of the nodes already collected are shared by all boundary sets, so sets collected at the same time steal each other's nodes",
 edits=[[M + "common/src/geometry_new.cpp", "temp_count_num_bdy_nodes_in_set(mesh.num_bdy_sets, mesh.num_nodes, ", "temp_count_num_bdy_nodes_in_set(mesh.num_nodes, "], [M + "common/src/geometry_new.cpp", "temp_count_num_bdy_nodes_in_set(bdy_set, node_gid)", "temp_count_num_bdy_nodes_in_set(node_gid)", 3]],
 defs=["FVC_THREADS"], libs="-fsanitize=thread -pthread " + COMMON["libs"], sources=[G], demo_cpp=r'''
#include "world.h"
void build_boundry_node_sets(swage::Mesh &);
int main() {
    int bad = 0;
#ifdef FVC_THREADS
    fvc_par::order() = 1;
#endif
    swage::Mesh m; m.num_dims = 3; m.num_nodes = 8; m.num_nodes_in_patch = 4; m.num_bdy_sets = 2; m.num_bdy_patches = 2; CArrayKokkos<size_t> c(2); c(0) = c(1) = 1; m.bdy_patches_in_set = RaggedRightArrayKokkos<size_t>(c); m.num_bdy_patches_in_set = DCArrayKokkos<size_t>(2); size_t P[2][4] = {{0, 1, 2, 3}, {1, 5, 6, 2}};
    m.nodes_in_patch = decltype(m.nodes_in_patch)(2, 4); for (int p = 0; p < 2; p++) { m.num_bdy_patches_in_set(p) = 1; m.bdy_patches_in_set(p, 0) = p; for (int i = 0; i < 4; i++) m.nodes_in_patch(p, i) = P[p][i]; }
    build_boundry_node_sets(m);
    for (int p = 0; p < 2; p++) if (m.num_bdy_nodes_in_set(p) != 4) { printf("set %d has %zu nodes, expected 4\n", p, (size_t)m.num_bdy_nodes_in_set(p)); bad = 1; }
    return bad;
}
'''))
FILL = r"""
#include <sstream>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include "world.h"
#include "region.hpp"
#include "boundary_conditions.hpp"
#include "mesh_io.hpp"
#include "simulation_parameters.hpp"
void simulation_setup(SimulationParameters_t &, Material_t &, swage::Mesh &, BoundaryCondition_t &, State_t &, fillGaussState_t &, fillElemState_t &);
void material_state_setup(SimulationParameters_t &, Material_t &, swage::Mesh &, BoundaryCondition_t &, State_t &, fillGaussState_t &, fillElemState_t &);
static RegionFill_t reg(region::vol_tag v, size_t mat, double vf) { RegionFill_t q; q.solver_id = 0; q.volume = v; q.material_id = mat; q.volfrac = vf; q.den_field = q.ie_field = q.level_set_field = init_conds::uniform; q.den = 2 + mat; q.ie = 6; return q; }
static void setup(swage::Mesh &m, DCArrayKokkos<double> &x, std::vector<RegionFill_t> f, size_t nm, State_t &S) {
    m.num_gauss_in_elem = 1; m.num_zones_in_elem = 1; S.node.initialize(m.num_nodes, 3, {node_state::coords, node_state::velocity}); for (size_t i = 0; i < m.num_nodes * 3; i++) S.node.coords.st.p[i] = x.st.p[i];
    S.GaussPoints.initialize(m.num_elems, 3, {gauss_pt_state::volume}); Material_t M; M.num_mats = nm; M.max_num_mats_per_element = 3; SimulationParameters_t P; auto &F = P.region_setups.region_fills; F = CArrayKokkos<RegionFill_t>(f.size()); P.region_setups.region_fills_host = CArray<RegionFill_host_t>(f.size());
    for (size_t i = 0; i < f.size(); i++) F(i) = f[i];
    P.region_setups.fill_gauss_states = {fill_gauss_state::density, fill_gauss_state::internal_energy}; for (auto &q : f) q.level_set_field = init_conds::noICsScalar; for (size_t i = 0; i < f.size(); i++) F(i) = f[i];
    BoundaryCondition_t B; fillGaussState_t G; fillElemState_t L; simulation_setup(P, M, m, B, S, G, L);
    S.MaterialToMeshMaps.initialize(); S.MaterialPoints.initialize(3, {material_pt_state::density, material_pt_state::specific_internal_energy, material_pt_state::mass, material_pt_state::volume_fraction, material_pt_state::eroded_flag}); material_state_setup(P, M, m, B, S, G, L);
}
"""
RF = M + "common/src/region_fill.cpp"
S.append(dict(COMMON, id="C22-replace", property="C22", needs="an element with two partially filled materials that a later region fills completely", what_it_breaks="a full fill keeps the second of the materials that were in the element before",
 edits=[[RF, "                    elem_num_mats_saved_in_elem(elem_gid) = 1;\n", "                    if (elem_num_mats_saved_in_elem(elem_gid) == 0) elem_num_mats_saved_in_elem(elem_gid) = 1;\n"]],
 sources=[RF, G], demo_cpp=FILL + r"""
int main() {
    Rnd r(3); swage::Mesh m; DCArrayKokkos<double> x; rnd_mesh3(r, m, x, 2, 1, 1, 0); State_t S; auto all = region::global; setup(m, x, {reg(all, 0, .4), reg(all, 1, .6), reg(all, 2, 1)}, 3, S); int bad = 0;
    for (size_t e = 0; e < m.num_elems; e++) { size_t k = S.MeshtoMaterialMaps.num_mats_in_elem.host(e); printf("element %zu: %zu materials (expected 1)\n", e, k); bad |= k != 1; }
    return bad;
}
"""))
S.append(dict(COMMON, id="C22-energy", property="C22", needs="an internal energy given for a material that fills an element partially", what_it_breaks="the specific internal energy is taken with the mass of the whole element instead of the mass of the material",
 edits=[[RF, "fillGaussState.ie.host(gauss_gid,a_mat_in_elem)/State.MaterialPoints.mass.host(mat_id,mat_point_sid);", "fillGaussState.ie.host(gauss_gid,a_mat_in_elem)/(State.MaterialPoints.den.host(mat_id,mat_point_sid)*State.GaussPoints.vol.host(gauss_gid));"]],
 sources=[RF, G], demo_cpp=FILL + r"""
int main() {
    Rnd r(3); swage::Mesh m; DCArrayKokkos<double> x; rnd_mesh3(r, m, x, 2, 1, 1, 0); State_t S; auto all = region::global; setup(m, x, {reg(all, 0, .25), reg(all, 1, .75)}, 2, S); int bad = 0;
    for (size_t q = 0; q < 2; q++) for (size_t s = 0; s < m.num_elems; s++) { double E = S.MaterialPoints.sie.host(q, s) * S.MaterialPoints.mass.host(q, s); printf("material %zu element %zu: internal energy %g (input 6)\n", q, s, E); bad |= !(fabs(E - 6) < 1e-9); }
    return bad;
}
"""))
S.append(dict(COMMON, id="C22-cylinder", property="C22", needs="a cylindrical region with an origin off the z = 0 plane", what_it_breaks="the z planes of a cylinder are measured from its origin instead of the coordinate origin",
 edits=[[RF, "                    radius_cyl <= region_fills(f_id).radius2 &&\n                    mesh_coords(2) >= z_lower_bound && mesh_coords(2) <= z_upper_bound) {", "                    radius_cyl <= region_fills(f_id).radius2 &&\n                    dist_z >= z_lower_bound && dist_z <= z_upper_bound) {"]],
 sources=[RF, G], demo_cpp=FILL + r"""
int main() {
    Rnd r(3); swage::Mesh m; DCArrayKokkos<double> x; rnd_mesh3(r, m, x, 1, 1, 6, 0); double z0 = 1e9, z1 = -1e9; for (size_t i = 0; i < m.num_nodes; i++) z0 = std::min(z0, x(i, 2)), z1 = std::max(z1, x(i, 2));
    State_t S; auto q = reg(region::cylinder, 1, 1); q.radius2 = 99; q.z1 = (z0 + z1) / 2; q.z2 = z1 + 1; q.origin[2] = (z1 - z0); setup(m, x, {reg(region::global, 0, 1), q}, 2, S); int bad = 0;
    for (size_t e = 0; e < m.num_elems; e++) { double z = 0; for (int k = 0; k < 8; k++) z += x(m.nodes_in_elem(e, k), 2) / 8; size_t want = z >= q.z1, got = S.MeshtoMaterialMaps.mats_in_elem.host(e, 0); printf("element at z=%g: material %zu (expected %zu)\n", z, got, want); bad |= got != want; }
    return bad;
}
"""))

BSET = r"""
#include "world.h"
#include "boundary_conditions.hpp"
#include <set>
void tag_bdys(const BoundaryCondition_t &, swage::Mesh &, const DCArrayKokkos<double> &);
void build_boundry_node_sets(swage::Mesh &);
static void strip(swage::Mesh &m, size_t np) { m.num_dims = 3; m.num_nodes_in_patch = 4; m.num_patches = m.num_bdy_patches = np; m.num_nodes = 2 * np + 2; m.nodes_in_patch = CArrayKokkos<size_t>(np, 4); m.bdy_patches = CArrayKokkos<size_t>(np); for (size_t p = 0; p < np; p++) { m.bdy_patches(p) = np - 1 - p; size_t g[4] = {2 * p, 2 * p + 1, 2 * p + 3, 2 * p + 2}; for (int k = 0; k < 4; k++) m.nodes_in_patch(p, k) = g[k]; } m.num_bdy_sets = 1; m.num_bdy_patches_in_set = DCArrayKokkos<size_t>(1); }
"""
S.append(dict(COMMON, id="C24-inside", property="C24", needs="a spherical surface and boundary patches nearer to its origin (a hollow body)", what_it_breaks="patches inside the sphere are taken to be on it",
 edits=[[G, "                            (these_patch_coords[2] - orig_z) * (these_patch_coords[2] - orig_z));\n\n            if (fabs(R - val) <= tolerance) {", "                            (these_patch_coords[2] - orig_z) * (these_patch_coords[2] - orig_z));\n\n            if (R - val <= tolerance) {"]],
 sources=[G], demo_cpp=BSET + r"""
int main() {
    swage::Mesh m; strip(m, 2); DCArrayKokkos<double> x(m.num_nodes, 3); BoundaryCondition_t B; B.BoundaryConditionSetup = CArrayKokkos<BoundaryConditionSetup_t>(1); auto &q = B.BoundaryConditionSetup(0); q = BoundaryConditionSetup_t(); q.surface = boundary_conditions::sphere; q.value = 2;
    double X[6][3] = {{0, 0, 2}, {0, 2, 0}, {2, 0, 0}, {0, 0, -2}, {0, 0, 1}, {0, 1, 0}}; for (int i = 0; i < 6; i++) for (int d = 0; d < 3; d++) x(i, d) = X[i][d];
    tag_bdys(B, m, x); size_t n = m.num_bdy_patches_in_set.host(0); printf("%zu patches on the sphere (expected 1)\n", n); return n != 1;
}
"""))
S.append(dict(COMMON, id="C24-twice", property="C24", needs="a node that comes back in the second or a later patch of the set, saved under another number", what_it_breaks="the mark of a node already in the set is put at the wrong entry, nodes shared by patches are listed more than once (and nodes are lost)",
 edits=[[G, "temp_count_num_bdy_nodes_in_set(bdy_set, node_gid) = node_gid;", "temp_count_num_bdy_nodes_in_set(bdy_set, num_saved) = node_gid;"]],
 sources=[G], demo_cpp=BSET + r"""
int main() {
    swage::Mesh m; strip(m, 5); DCArrayKokkos<double> x(m.num_nodes, 3); x.set_values(0); BoundaryCondition_t B; B.BoundaryConditionSetup = CArrayKokkos<BoundaryConditionSetup_t>(1); auto &q = B.BoundaryConditionSetup(0); q = BoundaryConditionSetup_t(); q.surface = boundary_conditions::zPlane;
    tag_bdys(B, m, x); build_boundry_node_sets(m); size_t n = m.num_bdy_nodes_in_set.host(0); std::set<size_t> s; for (size_t i = 0; i < n; i++) s.insert(m.bdy_nodes_in_set(0, i)); printf("%zu nodes listed, %zu different (expected %zu)\n", n, s.size(), m.num_nodes); return n != m.num_nodes || s.size() != n;
}
"""))

DECK = r"""
#include "matar.h"
#include "parse_bdy_conds_inputs.hpp"
#include "parse_material_inputs.hpp"
#include "parse_regions.hpp"
#include "parse_tools.cpp"
#include <unistd.h>
#include <fcntl.h>
static int quiet() { fflush(stdout); int k = dup(1), n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); return k; }
static void loud(int k) { std::cout.flush(); fflush(stdout); dup2(k, 1); close(k); }
"""
I_ = M + "input/"
S.append(dict(COMMON, id="C29-order", property="C29", needs="materials that are not listed in the order of their ids, with different strength parameters", what_it_breaks="the strength parameters of a material are taken from the block at the material's id instead of its own block",
 edits=[[I_ + "parse_material_inputs.cpp", 'double strength_var = root["materials"][m_id]["material"]', 'double strength_var = root["materials"][mat_id]["material"]']],
 sources=[I_ + "Yaml.cpp", I_ + "parse_material_inputs.cpp", I_ + "read_abaqus_files.cpp"], demo_cpp=DECK + r"""
int main() {
    std::string t = "materials:\n"; int ids[2] = {1, 0};
    for (int k = 0; k < 2; k++) t += "  - material:\n      id: " + std::to_string(ids[k]) + "\n      eos_model_type: decoupled\n      eos_model: gamma_law_gas\n      eos_global_vars:\n        - 1.4\n        - 1e-14\n        - 1.0\n      strength_model_type: increment_based\n      strength_model: hypo_plasticity_strength\n      strength_global_vars:\n        - 10" + std::to_string(ids[k]) + "\n        - 2\n        - 3\n        - 4\n        - 5\n        - 6\n";
    int q = quiet(); Yaml::Node root; Material_t m; std::string err; try { Yaml::Parse(root, t); parse_materials(root, m, 3); } catch (std::exception &x) { err = x.what(); } loud(q);
    if (!err.empty()) { printf("%s\n", err.c_str()); return 2; }
    int bad = 0; for (int i = 0; i < 2; i++) { printf("material %d: first strength parameter %g (expected %d)\n", i, m.strength_global_vars(i, 0), 100 + i); bad |= m.strength_global_vars(i, 0) != 100 + i; }
    return bad;
}
"""))
S.append(dict(COMMON, id="C29-mixed", property="C29", needs="a solver with a velocity condition next to a temperature condition", what_it_breaks="the temperature condition is put at the place counted by the velocity conditions of the solver, so the solver's list of temperature conditions starts with another one",
 edits=[[I_ + "parse_bdy_conds_inputs.cpp", "size_t num_saved = BoundaryConditions.num_temperature_bdy_sets_in_solver.host(solver_id);", "size_t num_saved = BoundaryConditions.num_vel_bdy_sets_in_solver.host(solver_id);"]],
 sources=[I_ + "Yaml.cpp", I_ + "parse_bdy_conds_inputs.cpp"], demo_cpp=DECK + r"""
int main() {
    std::string t = "boundary_conditions:\n"; const char *m[3] = {"velocity_model: fixed", "velocity_model: fixed", "temperature_model: constant\n      temperature_bc_global_vars:\n        - 300"};
    for (int k = 0; k < 3; k++) t += std::string("  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: x_plane\n        plane_position: 0\n      ") + m[k] + "\n";
    int q = quiet(); Yaml::Node root; BoundaryCondition_t b; std::string err; try { Yaml::Parse(root, t); parse_bcs(root, b, 1); } catch (std::exception &x) { err = x.what(); } loud(q);
    if (!err.empty()) { printf("%s\n", err.c_str()); return 2; }
    size_t n = b.num_temperature_bdy_sets_in_solver.host(0), s = b.temperature_bdy_sets_in_solver.host(0, 0); printf("%zu temperature conditions, the first is condition %zu (expected 1, 2)\n", n, s); return n != 1 || s != 2;
}
"""))
S.append(dict(COMMON, id="C29-origin", property="C29", needs="a region with a level set that has its own origin with three coordinates", what_it_breaks="the third coordinate of the level set's origin overwrites that of the volume fraction's origin",
 edits=[[I_ + "parse_regions.cpp", "region_fills(reg_id).level_set_origin[2] = z1;", "region_fills(reg_id).volfrac_origin[2] = z1;"]],
 sources=[I_ + "Yaml.cpp", I_ + "parse_regions.cpp"], demo_cpp=DECK + r"""
int main() {
    std::string t = "regions:\n  - region:\n      volume:\n        type: global\n      material_id: 0\n      solver_id: 0\n      level_set:\n        type: spherical\n        value: 0.5\n        slope: 1.0\n        origin: [1, 2, 3]\n";
    DCArrayKokkos<size_t> l, n; CArrayKokkos<RegionFill_t> f; CArray<RegionFill_host_t> h; std::vector<fill_gauss_state> g; std::vector<fill_node_state> s;
    int q = quiet(); Yaml::Node root; std::string err; try { Yaml::Parse(root, t); parse_regions(root, l, n, f, h, g, s, 1); } catch (std::exception &x) { err = x.what(); } loud(q);
    if (!err.empty()) { printf("%s\n", err.c_str()); return 2; }
    double *o = f(0).level_set_origin; printf("origin %g %g %g (expected 1 2 3)\n", o[0], o[1], o[2]); return o[2] != 3;
}
"""))

GRID = r"""
#include "matar.h"
#include "mesh_io.hpp"
#include <cstdio>
static int build(SimulationParameters_t &sim, swage::Mesh &m, State_t &S) { MeshBuilder b; try { b.build_mesh(m, S.GaussPoints, S.node, S.corner, sim); return 1; } catch (std::out_of_range &e) { printf("outside its arrays\n"); return -1; } catch (std::exception &e) { printf("%s\n", e.what()); return 0; } }
"""
S.append(dict(COMMON, id="C23-spacing", property="C23", needs="a 3D box with different numbers of elements along y and z", what_it_breaks="the spacing along z is computed from the number of elements along y, so the box has a wrong height",
 edits=[[M + "common/include/mesh_io.hpp", "const double dz = lz / ((double)num_elems_k);  // len/(num_elems_k)\n\n        const int num_elems = num_elems_i * num_elems_j * num_elems_k;\n\n        std::vector<double> origin(num_dim);\n        // SimulationParamaters.mesh_input.origin.update_host();\n        for (int i = 0; i < num_dim; i++) { origin[i] = SimulationParamaters.mesh_input.origin[i]; }\n\n        // --- 3D parameters ---\n        // const int num_faces_in_elem  = 6;  // number of faces in elem\n        // const int num_points_in_elem = 8;  // number of points in elem\n        // const int num_points_in_face = 4;  // number of points in a face\n        // const int num_edges_in_elem  = 12; // number of edges in a elem\n\n\n        // initialize mesh node variables",
   "const double dz = lz / ((double)num_elems_j);  // len/(num_elems_k)\n\n        const int num_elems = num_elems_i * num_elems_j * num_elems_k;\n\n        std::vector<double> origin(num_dim);\n        // SimulationParamaters.mesh_input.origin.update_host();\n        for (int i = 0; i < num_dim; i++) { origin[i] = SimulationParamaters.mesh_input.origin[i]; }\n\n        // --- 3D parameters ---\n        // const int num_faces_in_elem  = 6;  // number of faces in elem\n        // const int num_points_in_elem = 8;  // number of points in elem\n        // const int num_points_in_face = 4;  // number of points in a face\n        // const int num_edges_in_elem  = 12; // number of edges in a elem\n\n\n        // initialize mesh node variables"]],
 sources=[], demo_cpp=GRID + r"""
int main() {
    SimulationParameters_t sim; auto &in = sim.mesh_input; in.num_dims = 3; in.type = mesh_input::Box; size_t n[3] = {2, 2, 3}; for (int d = 0; d < 3; d++) { in.num_elems[d] = n[d]; in.length[d] = 1; in.origin[d] = 0; }
    swage::Mesh m; State_t S; if (build(sim, m, S) != 1) return 2;
    double top = S.node.coords.host(m.num_nodes - 1, 2); printf("top of the box at %g (expected 1)\n", top); return !(top > 0.999 && top < 1.001);
}
"""))
S.append(dict(COMMON, id="C23-polar", property="C23", needs="a polar mesh whose inner nodes alone lie at a negative radius", what_it_breaks="only the outermost node of every ray is checked for a negative radius, so a mesh crossing the axis at its inner side is accepted",
 edits=[[M + "common/include/mesh_io.hpp", """                if(node.coords.host(node_gid, 0) < 0.0){
                    throw""", """                if(i == num_points_i - 1 && node.coords.host(node_gid, 0) < 0.0){
                    throw"""]],
 sources=[], demo_cpp=GRID + r"""
int main() {
    SimulationParameters_t sim; auto &in = sim.mesh_input; in.num_dims = 2; in.type = mesh_input::Polar; in.num_radial_elems = 2; in.num_angular_elems = 2; in.inner_radius = 0.2; in.outer_radius = 2; in.starting_angle = 0; in.ending_angle = 60; in.origin[0] = -0.5; in.origin[1] = 0;
    swage::Mesh m; State_t S; int b = build(sim, m, S); printf("mesh with nodes at negative radii %s\n", b ? "accepted" : "refused"); return b != 0;
}
"""))
S.append(dict(COMMON, id="C23-cells", property="C23", needs="a 3D box with different numbers of elements along y and z, more than one layer", what_it_breaks="elements are numbered with the number of elements along z instead of y, so layers overwrite each other or leave gaps",
 edits=[[M + "common/include/mesh_io.hpp", "int elem_gid = get_id(i, j, k, num_elems_i, num_elems_j);\n\n                    // store the point IDs for this elem where the range is\n                    // (i:i+1, j:j+1, k:k+1) for a linear hexahedron\n                    int this_point = 0;\n                    for (int kcount = k; kcount <= k + 1; kcount++) {\n                        for (int jcount = j; jcount <= j + 1; jcount++) {\n                            for (int icount = i; icount <= i + 1; icount++) {\n                                // global id for the points\n                                int node_gid = get_id(icount, jcount, kcount,\n                                                  num_points_i, num_points_j);\n\n                                // convert this_point index to the FE index convention\n                                int this_index = this_point;",
  "int elem_gid = get_id(i, j, k, num_elems_i, num_elems_k);\n\n                    // store the point IDs for this elem where the range is\n                    // (i:i+1, j:j+1, k:k+1) for a linear hexahedron\n                    int this_point = 0;\n                    for (int kcount = k; kcount <= k + 1; kcount++) {\n                        for (int jcount = j; jcount <= j + 1; jcount++) {\n                            for (int icount = i; icount <= i + 1; icount++) {\n                                // global id for the points\n                                int node_gid = get_id(icount, jcount, kcount,\n                                                  num_points_i, num_points_j);\n\n                                // convert this_point index to the FE index convention\n                                int this_index = this_point;"]],
 sources=[], demo_cpp=GRID + r"""
int main() {
    SimulationParameters_t sim; auto &in = sim.mesh_input; in.num_dims = 3; in.type = mesh_input::Box; size_t n[3] = {2, 3, 2}; for (int d = 0; d < 3; d++) { in.num_elems[d] = n[d]; in.length[d] = 1; in.origin[d] = 0; }
    swage::Mesh m; State_t S; if (build(sim, m, S) != 1) return 2;
    // element (0,0,1) is number 6 and its first corner is node (0,0,1), number 12
    long g = m.nodes_in_elem.host(6, 0); printf("first corner of the first element of the second layer: %ld (expected 12)\n", g); return g != 12;
}
"""))

VIZ = GRID + r"""
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <cstdlib>
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<double> numbers(const std::string &t, const std::string &after) { size_t p = t.find(after); std::vector<double> o; if (p == std::string::npos) return o; p = t.find('>', p) + 1; std::stringstream s(t.substr(p, t.find('<', p) - p)); double z; while (s >> z) o.push_back(z); return o; }
// a bar of elements; materials fill the listed elements
static void world(swage::Mesh &m, State_t &S, std::vector<std::vector<size_t>> el) {
    size_t n = 0; for (auto &e : el) for (auto k : e) n = std::max(n, k + 1);
    SimulationParameters_t sim; auto &in = sim.mesh_input; in.num_dims = 3; in.type = mesh_input::Box; for (int d = 0; d < 3; d++) { in.num_elems[d] = d == 2 ? n : 1; in.length[d] = d == 2 ? n : 1; in.origin[d] = 0; }
    if (build(sim, m, S) != 1) exit(2);
    size_t nm = el.size(); auto &mp = S.MaterialPoints; auto &mm = S.MaterialToMeshMaps;
    CArrayKokkos<size_t> cnt(nm); mm.num_mat_elems = DCArrayKokkos<size_t>(nm); mp.num_material_points = DCArrayKokkos<size_t>(nm);
    for (size_t q = 0; q < nm; q++) { cnt(q) = el[q].size(); mm.num_mat_elems(q) = el[q].size(); mp.num_material_points(q) = el[q].size(); }
    mm.elem_in_mat_elem = DRaggedRightArrayKokkos<size_t>(cnt); auto mk = [&](double v) { DRaggedRightArrayKokkos<double> a(cnt); for (size_t q = 0; q < nm; q++) for (size_t s = 0; s < el[q].size(); s++) a(q, s) = v; return a; };
    mp.den = mk(1); mp.pres = mk(2); mp.sie = mk(3); mp.sspd = mk(4); mp.mass = mk(5); mp.volfrac = mk(1); mp.geo_volfrac = mk(1); mp.stress = DRaggedRightArrayKokkos<double>(cnt, 3, 3);
    for (size_t q = 0; q < nm; q++) for (size_t s = 0; s < el[q].size(); s++) { mm.elem_in_mat_elem(q, s) = el[q][s]; for (int i = 0; i < 9; i++) mp.stress(q, s, i / 3, i % 3) = 6; }
    S.GaussPoints.vol = DCArrayKokkos<double>(n); for (size_t e = 0; e < n; e++) S.GaussPoints.vol(e) = 10 + e;
    size_t nn = m.num_nodes; S.node.vel = DCArrayKokkos<double>(nn, 3); S.node.vel_n0 = DCArrayKokkos<double>(nn, 3); S.node.mass = DCArrayKokkos<double>(nn); for (size_t i = 0; i < nn; i++) { S.node.mass(i) = 1; for (int d = 0; d < 3; d++) S.node.vel(i, d) = S.node.vel_n0(i, d) = 0; }
}
static void write(swage::Mesh &m, State_t &S, SimulationParameters_t &sim, std::vector<material_pt_state> have) {
    MeshWriter w; CArray<double> gt(10); std::vector<node_state> n; std::vector<gauss_pt_state> g; w.write_mesh(m, S, sim, 1.0, 0.5, gt, n, g, have, 0);
}
struct Scratch { char d[30] = "/tmp/vizXXXXXX"; Scratch() { if (!mkdtemp(d) || chdir(d)) exit(2); } ~Scratch() { if (chdir("/") == 0) std::system((std::string("rm -r ") + d).c_str()); } };
"""
S.append(dict(COMMON, id="C10-part", property="C10", needs="a 3D mesh with a material that does not touch the first layer of nodes", what_it_breaks="the part file of a material takes the z coordinate of its points from the node with the point's number, not from its own node",
 edits=[[M + "common/include/mesh_io.hpp", "mat_node_coords.host(mat_node_gid, 2) = state_node_coords.host(node_gid, 2);", "mat_node_coords.host(mat_node_gid, 2) = state_node_coords.host(mat_node_gid, 2);"]],
 sources=[], demo_cpp=VIZ + r"""
int main() {
    Scratch t; swage::Mesh m; State_t S; world(m, S, {{0}, {1}}); SimulationParameters_t sim; sim.output_options.format = output_options::viz; sim.output_options.output_mat_pt_state = {material_pt_state::density}; write(m, S, sim, {material_pt_state::density});
    auto x = numbers(slurp("vtk/data/Fierro.solver0.mat1.00000.vtu"), "<DataArray type=\"Float64\" NumberOfComponents=\"3\""); if (x.size() != 24) { printf("%zu numbers\n", x.size()); return 2; }
    printf("first and last point of the upper element at z = %g, %g (expected 1, 2)\n", x[2], x[23]); return x[2] != 1 || x[23] != 2;
}
"""))
S.append(dict(COMMON, id="C10-mix", property="C10", needs="stress output of an element shared by materials with geometric volume fractions below one", what_it_breaks="the element average of the stress leaves out the geometric volume fraction of each material",
 edits=[[M + "common/include/mesh_io.hpp", """                                                MaterialPoints.stress(mat_id, mat_elem_sid,i,j) *
                                                MaterialPoints.volfrac(mat_id, mat_elem_sid)*
                                                MaterialPoints.geo_volfrac(mat_id, mat_elem_sid);""", """                                                MaterialPoints.stress(mat_id, mat_elem_sid,i,j) *
                                                MaterialPoints.volfrac(mat_id, mat_elem_sid);"""]],
 sources=[], demo_cpp=VIZ + r"""
int main() {
    Scratch t; swage::Mesh m; State_t S; world(m, S, {{0}, {0}}); S.MaterialPoints.geo_volfrac(0, 0) = S.MaterialPoints.geo_volfrac(1, 0) = 0.5; SimulationParameters_t sim; sim.output_options.format = output_options::viz; sim.output_options.output_elem_state = {material_pt_state::stress}; write(m, S, sim, {material_pt_state::stress});
    auto x = numbers(slurp("vtk/data/Fierro.solver0.fields.00000.vtu"), "Name=\"stress\""); if (x.size() != 9) { printf("%zu numbers\n", x.size()); return 2; }
    printf("stress of an element of two equal halves under 6: %g (expected 6)\n", x[0]); return x[0] != 6;
}
"""))
S.append(dict(COMMON, id="C10-state", property="C10", needs="a state file with two materials, the second not starting at element 0", what_it_breaks="the state file lists the volume of the element with the number of the material element instead of the element's own",
 edits=[[M + "common/include/mesh_io.hpp", "                         State.GaussPoints.vol.host(elem_gid),\n                         State.MaterialPoints.mass.host(mat_id, mat_elem_sid) );", "                         State.GaussPoints.vol.host(mat_elem_sid),\n                         State.MaterialPoints.mass.host(mat_id, mat_elem_sid) );"]],
 sources=[], demo_cpp=VIZ + r"""
int main() {
    Scratch t; swage::Mesh m; State_t S; world(m, S, {{0}, {1}}); SimulationParameters_t sim; sim.output_options.format = output_options::state; write(m, S, sim, {});
    std::ifstream f("state/mat_pt_state_t_5.0000e-01.txt"); std::string l; std::vector<double> v; while (std::getline(f, l)) if (l[0] != '#') { std::stringstream s(l); double z; for (int k = 0; k < 10; k++) s >> z; v.push_back(z); }
    if (v.size() != 2) { printf("%zu lines\n", v.size()); return 2; }
    printf("volumes %g %g (expected 10 11)\n", v[0], v[1]); return v[0] != 10 || v[1] != 11;
}
"""))

# ---- C31: the harness of the time loops is the demonstration
EXEC = """#define main harness_main
#include "exec.cpp"
#undef main
int main() { char *a[] = {(char *)"demo", (char *)"7", (char *)"600", 0}; return harness_main(3, a); }
"""
def loops(src):
    H = "/verif/fvc/harness/"
    R3 = [M + x for x in ("Solvers/SGH_solver_3D/src/sgh_execute.cpp", "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp", "Solvers/SGTM_solver_3D/src/sgtm_execute.cpp")]
    return dict(COMMON, property="C31", demo_cpp=EXEC, sources=R3, incs=COMMON["incs"] + ['. -include "$D/mock_io.h"'], extra_files=[H + f for f in ("exec.cpp", "mock_io.h", "rnd.h", "mp.h")], libs="-Wl,--unresolved-symbols=ignore-all -no-pie")
S.append(dict(loops(0), id="C31-materials", needs="two materials, the one with the smaller stable step not being the last", what_it_breaks="the step of the 3D hydro loop is the stable step of the last material, not the smallest of all",
 edits=[[M + "Solvers/SGH_solver_3D/src/sgh_execute.cpp", "min_dt_calc = fmin(dt_mat, min_dt_calc);", "min_dt_calc = fmin(dt_mat, dt_max);"]]))
S.append(dict(loops(0), id="C31-resume", needs="output times that cut a step short in the axisymmetric loop, and a step after one", what_it_breaks="after a file is written the axisymmetric loop goes on from the step cut short for the output instead of the one before the cut",
 edits=[[M + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp", "        dt = min_dt_calc;  // save this dt time step\n", "        dt = min_dt_calc;  // save this dt time step\n        cached_pregraphics_dt = dt;\n"]]))
S.append(dict(loops(0), id="C31-power", needs="a moving heat source whose power changes with time", what_it_breaks="the heat loop takes the power of the moving source at the end of the stage while its place is the one at the start of the step",
 edits=[[M + "Solvers/SGTM_solver_3D/src/sgtm_execute.cpp", "double power = path.get_power(time_value);", "double time_stage = time_value + rk_alpha * dt;\n                    double power = path.get_power(time_stage);"]]))

# ---- C32: likewise, with the harness of the driver
DRIVE = open(H + "drive.cpp").read().replace("int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }", "int main() { Rnd r(7); run(r, 2000); return DONE(); }")
DRV = dict(COMMON, property="C32", demo_cpp=DRIVE, incs=COMMON["incs"] + ['. -include "$D/mock_drive.h"'], extra_files=[H + f for f in ("mock_drive.h", "rnd.h")], sources=[M + "driver.cpp", '-Dmain=fierro_main ' + M + "main.cpp", M + "input/Yaml.cpp"], libs="-Wl,--unresolved-symbols=ignore-all -no-pie")
S.append(dict(DRV, id="C32-resume", needs="a second solver after one whose entry gives no end time (or one past the final time, from the third on)", what_it_breaks="a later solver starts at the end time written in the entry before it, which is not where that solver ended when the entry has none",
 edits=[[M + "driver.cpp", "double time_prior_solver_ends = this->solvers[solver_id-1]->time_end;", "double time_prior_solver_ends = this->SimulationParamaters.solver_inputs[solver_id-1].time_end;"]]))
S.append(dict(DRV, id="C32-final", needs="a second solver whose end time is past the final time of the calculation", what_it_breaks="a later solver whose entry gives an end time past the final time runs on to it",
 edits=[[M + "driver.cpp", "a_solver->time_end = fmin(t_end, time_final);", "a_solver->time_end = fmax(t_end, a_solver->time_start);"]]))

if __name__ == "__main__":
    import mkseed
    for s in S:
        if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]: continue
        mkseed.main(s)
