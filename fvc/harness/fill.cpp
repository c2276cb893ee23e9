// regions painted on random meshes against an independent reading of the input
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <map>
#include <set>
#include <unistd.h>
#define private public
#include "world.h"
#include "region.hpp"
#include "boundary_conditions.hpp"
#include "mesh_io.hpp"
#include "simulation_parameters.hpp"
#undef private
void simulation_setup(SimulationParameters_t &, Material_t &, swage::Mesh &, BoundaryCondition_t &, State_t &, fillGaussState_t &, fillElemState_t &);
void material_state_setup(SimulationParameters_t &, Material_t &, swage::Mesh &, BoundaryCondition_t &, State_t &, fillGaussState_t &, fillElemState_t &);
typedef init_conds::init_scalar_conds SK; typedef init_conds::init_vector_conds VK;
struct Vox { std::vector<double> p[3]; std::vector<int> v; double s[3]; };
struct In { size_t f; double v; };
static const char *NAME[] = {"nothing", "everything", "box", "cylinder", "sphere", "voxels", "polycrystal", "stl", "part"};
static double val(SK k, double v, double sl, const double *o, const double *X, int nd, bool *set) {
    *set = true;
    switch (k) {
    case SK::uniform: return v;
    case SK::xlinearScalar: return sl * X[0] + v;
    case SK::ylinearScalar: return sl * X[1] + v;
    case SK::zlinearScalar: return sl * X[2] + v;
    case SK::sphericalScalar: { double q = 0; for (int d = 0; d < nd; d++) q += (X[d] - o[d]) * (X[d] - o[d]); return sl * sqrt(q) - v; }
    default: *set = false; return 0;
    }
}
static bool vel(VK k, const RegionFill_t &q, const double *X, double *o) {
    double r2 = hypot(X[0], X[1]), r3 = sqrt(X[0] * X[0] + X[1] * X[1] + X[2] * X[2]); o[0] = o[1] = o[2] = 0;
    switch (k) {
    case VK::stationary: return true;
    case VK::cartesian: o[0] = q.u; o[1] = q.v; o[2] = q.w; return true;
    case VK::radialVec: for (int d = 0; d < 2; d++) o[d] = r2 > 1e-14 ? q.speed * X[d] / r2 : 0; return true;
    case VK::sphericalVec: for (int d = 0; d < 3; d++) o[d] = r3 > 1e-14 ? q.speed * X[d] / r3 : 0; return true;
    case VK::tgVortexVec: o[0] = sin(M_PI * X[0]) * cos(M_PI * X[1]); o[1] = -cos(M_PI * X[0]) * sin(M_PI * X[1]); return true;
    default: return false;
    }
}
static bool edge(double a, double b) { return fabs(a - b) < 1e-9; }

int main(int c, char **v) {
    long seed = atol(v[1]), n = atol(v[2]); char dir[] = "/tmp/fvcfillXXXXXX"; if (!mkdtemp(dir)) return 2; std::string vf = std::string(dir) + "/v.vtk";
    std::ofstream nul("/dev/null"); auto *cb = std::cout.rdbuf(nul.rdbuf()); int out = dup(1);
    auto quiet = [&](bool q) { fflush(stdout); if (q) { if (!freopen("/dev/null", "w", stdout)) return; } else { dup2(out, 1); stdout = fdopen(dup(out), "w"); } };
    for (long t = 0; t < n; t++) {
        Rnd r(seed * 7919 + t); g_cases++; World w(r, r.b(), r.b() ? 0.1 : 0.4, 2); size_t ne = w.ne, nf = r.i(1, 6); int nd = w.dims; swage::Mesh &m = w.m; m.num_gauss_in_elem = 1; m.num_zones_in_elem = 1;
        double sh[3]; for (int d = 0; d < 3; d++) sh[d] = d == 1 && w.rz ? 0 : r.in(-1, 1);
        if (r.b()) for (size_t i = 0; i < w.nn; i++) for (int d = 0; d < nd; d++) w.x(i, d) += sh[d];
        std::vector<std::array<double, 3>> C(ne); double lo[3] = {1e9, 1e9, 0}, hi[3] = {-1e9, -1e9, 0};
        for (size_t e = 0; e < ne; e++) for (int d = 0; d < 3; d++) { C[e][d] = 0; if (d < nd) for (int k = 0; k < w.k; k++) C[e][d] += w.x(m.nodes_in_elem(e, k), d) / w.k; lo[d] = e ? std::min(lo[d], C[e][d]) : C[e][d]; hi[d] = e ? std::max(hi[d], C[e][d]) : C[e][d]; }
        size_t nm = r.i(1, 3); double span = .1; for (int d = 0; d < nd; d++) span = std::max(span, hi[d] - lo[d]);
        State_t S; std::vector<node_state> ns = {node_state::coords}; bool hv = r.i(0, 5), ht = r.b();
        if (hv) ns.push_back(node_state::velocity); if (ht) ns.push_back(node_state::temp);
        S.node.initialize(w.nn, nd, ns); for (size_t i = 0; i < w.nn * nd; i++) S.node.coords.st.p[i] = w.x.st.p[i];
        if (hv) S.node.vel.set_values(-9); if (ht) S.node.temp.set_values(-9);
        std::vector<gauss_pt_state> gs = {gauss_pt_state::volume}; bool hl = r.b(); if (hl) gs.push_back(gauss_pt_state::level_set); S.GaussPoints.initialize(ne, nd, gs);
        Material_t M; M.num_mats = nm; M.max_num_mats_per_element = r.i(3, 4);
        SimulationParameters_t P; P.mesh_input.object_ids = DCArrayKokkos<int>(ne); for (size_t e = 0; e < ne; e++) P.mesh_input.object_ids(e) = r.i(1, 3);
        auto &F = P.region_setups.region_fills; auto &H = P.region_setups.region_fills_host; F = CArrayKokkos<RegionFill_t>(nf); H = CArray<RegionFill_host_t>(nf);
        std::vector<Vox> vx(nf); bool skip = false; int nvox = 0; bool both = r.b(), tcs = r.b();
        Vox V; { for (int d = 0; d < 3; d++) { int k = r.i(1, 4); double h = span * r.in(.2, .7), a = lo[d] - r.in(0, 1) * h; V.s[d] = r.b() ? 1 : r.in(.3, 3); for (int i = 0; i <= k; i++) V.p[d].push_back((a + i * h) / V.s[d]); }
            size_t N = (V.p[0].size() - 1) * (V.p[1].size() - 1) * (V.p[2].size() - 1); for (size_t i = 0; i < N; i++) V.v.push_back((int)r.i(0, 4) % 3);
            std::ofstream f(vf); f.precision(17); f << "# vtk DataFile Version 3.0\nvoxels\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS " << V.p[0].size() << " " << V.p[1].size() << " " << V.p[2].size() << "\n"; int per = r.i(1, 7);
            for (int d = 0; d < 3; d++) { f << "XYZ"[d] << "_COORDINATES " << V.p[d].size() << " float\n"; for (size_t i = 0; i < V.p[d].size(); i++) f << V.p[d][i] << (i + 1 == V.p[d].size() || i % per == per - 1u ? "\n" : " "); }
            f << "CELL_DATA " << N << "\nSCALARS ids int 1\nLOOKUP_TABLE default\n"; for (size_t i = 0; i < N; i++) f << V.v[i] << (i + 1 == N || i % per == per - 1u ? "\n" : " "); }
        static const VK VV[] = {VK::noICsVec, VK::stationary, VK::cartesian, VK::radialVec, VK::sphericalVec, VK::tgVortexVec};
        static const SK SS[] = {SK::uniform, SK::xlinearScalar, SK::ylinearScalar, SK::zlinearScalar, SK::sphericalScalar};
        for (size_t f = 0; f < nf; f++) {
            RegionFill_t &q = F(f); q = RegionFill_t(); q.solver_id = 0; q.material_id = r.i(0, nm - 1); int a = (int)r.i(0, 6);
            q.volume = f == 0 ? region::global : a == 0 ? region::global : a == 1 ? region::box : a == 2 ? region::sphere : a == 3 ? region::cylinder : a == 4 ? region::readVTUFile : a == 5 ? region::readVoxelFile : region::box;
            const double *m0 = C[r.i(0, ne - 1)].data(); double *b1[] = {&q.x1, &q.y1, &q.z1}, *b2[] = {&q.x2, &q.y2, &q.z2};
            for (int d = 0; d < 3; d++) { double l = m0[d] - span * r.in(0, .8), h = m0[d] + span * r.in(0, .8); if (r.i(0, 4) == 0) l = m0[d] + span * .1, h = l + span; *b1[d] = l; *b2[d] = h; q.origin[d] = r.b() ? 0 : m0[d] + span * r.in(-.5, .5); if (q.volume == region::readVoxelFile) q.origin[d] = r.b() ? 0 : span * r.in(-.5, .5); }
            double o = 0; for (int d = 0; d < 3; d++) o += pow(m0[d] - q.origin[d], 2); o = sqrt(o); q.radius1 = r.b() ? 0 : std::max(0., o - span * r.in(0, .5)); q.radius2 = o + span * r.in(-.05, .5); if (q.radius2 < q.radius1) std::swap(q.radius1, q.radius2);
            q.part_id = (int)r.i(1, 3); H(f).file_path = vf; H(f).scale_x = V.s[0]; H(f).scale_y = V.s[1]; H(f).scale_z = V.s[2];
            q.vel_field = VV[r.i(0, 5)]; q.temperature_field = SS[r.i(0, 1) ? 0 : r.i(0, 3)]; if (r.i(0, 3) == 0) q.temperature_field = SK::noICsScalar;
            q.den_field = SS[r.i(0, 3)]; bool sie = !both || r.b(); (sie ? q.sie_field : q.ie_field) = SS[r.i(0, 3)]; q.level_set_field = SS[r.i(0, 4)]; q.thermal_conductivity_field = SS[r.i(0, 3)]; q.specific_heat_field = SS[r.i(0, 3)];
            q.u = r.in(-1, 1); q.v = r.in(-1, 1); q.w = r.in(-1, 1); q.speed = r.in(-1, 1); q.temperature = r.in(1, 5); q.den = r.in(1, 2); q.sie = r.in(1, 2); q.ie = r.in(1, 2); q.thermal_conductivity = r.in(1, 2); q.specific_heat = r.in(1, 2);
            q.level_set = r.in(-1, 1); q.level_set_slope = r.in(-2, 2); for (int d = 0; d < 3; d++) { q.level_set_origin[d] = r.in(-1, 1); q.volfrac_origin[d] = r.in(-1, 1); }
            q.volfrac_field = SK::uniform; q.volfrac = r.b() ? 1.0 : r.in(.2, .9); int k = (int)r.i(0, 9);
            if (k < 3) { q.volfrac_field = SS[1 + k]; q.volfrac_slope = r.in(-2, 2) / span; q.volfrac = r.in(0, 1) - q.volfrac_slope * m0[k]; }
            if (k == 3 || k == 4) { q.volfrac_field = k == 3 ? SK::radialScalar : SK::sphericalScalar; q.volfrac_slope = r.in(0, 2) / span; q.volfrac = r.b() ? 0 : -r.in(0, 1); }
            if (k == 5) q.volfrac = r.b() ? 1 - 1e-10 : 1 - 1e-6;
            if (f == 0) q.volfrac = 1, q.volfrac_field = SK::uniform;
        }
        auto &fg = P.region_setups.fill_gauss_states; fg = {fill_gauss_state::density, fill_gauss_state::specific_internal_energy}; if (both) fg.push_back(fill_gauss_state::internal_energy); else { bool anyie = false; for (size_t f = 0; f < nf; f++) anyie |= F(f).ie_field != SK::noICsScalar; if (anyie) fg.push_back(fill_gauss_state::internal_energy); }
        if (r.b() && fg.size() == 3) std::swap(fg[1], fg[2]);
        if (tcs) fg.push_back(fill_gauss_state::thermal_conductivity), fg.push_back(fill_gauss_state::specific_heat); else for (size_t f = 0; f < nf; f++) F(f).thermal_conductivity_field = F(f).specific_heat_field = SK::noICsScalar;
        if (hl) fg.push_back(fill_gauss_state::level_set); else for (size_t f = 0; f < nf; f++) F(f).level_set_field = SK::noICsScalar;
        P.region_setups.fill_node_states = {fill_node_state::velocity, fill_node_state::temperature};
        // what the input means
        std::vector<std::vector<In>> E(ne); std::string why;
        for (size_t f = 0; f < nf; f++) for (size_t e = 0; e < ne; e++) {
            const RegionFill_t &q = F(f); const double *X = C[e].data(); bool in = false; double l[] = {q.x1, q.y1, q.z1}, h[] = {q.x2, q.y2, q.z2}, r2 = 0, r3 = 0; for (int d = 0; d < 3; d++) { r3 += pow(X[d] - q.origin[d], 2); if (d < 2) r2 = r3; }
            switch (q.volume) {
            case region::global: in = true; break;
            case region::box: in = true; for (int d = 0; d < 3; d++) { in &= l[d] <= X[d] && X[d] <= h[d]; skip |= edge(l[d], X[d]) || edge(h[d], X[d]); } break;
            case region::cylinder: in = r2 >= q.radius1 * q.radius1 && r2 <= q.radius2 * q.radius2 && q.z1 <= X[2] && X[2] <= q.z2; skip |= (q.radius1 > 0 && edge(r2, q.radius1 * q.radius1)) || edge(r2, q.radius2 * q.radius2) || edge(X[2], q.z1) || edge(X[2], q.z2); break;
            case region::sphere: in = r3 >= q.radius1 * q.radius1 && r3 <= q.radius2 * q.radius2; skip |= (q.radius1 > 0 && edge(r3, q.radius1 * q.radius1)) || edge(r3, q.radius2 * q.radius2); break;
            case region::readVTUFile: in = P.mesh_input.object_ids(e) == q.part_id; break;
            case region::readVoxelFile: { int ix[3]; in = true; for (int d = 0; d < 3; d++) { ix[d] = -1; for (size_t i = 0; i + 1 < V.p[d].size(); i++) { double a = V.p[d][i] * V.s[d] + q.origin[d], b = V.p[d][i + 1] * V.s[d] + q.origin[d]; skip |= edge(a, X[d]) || edge(b, X[d]); if (a <= X[d] && X[d] < b) ix[d] = (int)i; } in &= ix[d] >= 0; }
                if (in) in = V.v[ix[0] + (V.p[0].size() - 1) * (ix[1] + (V.p[1].size() - 1) * ix[2])] == 1; break; }
            default: break;
            }
            if (!in) continue;
            bool s; double fr; if (q.volfrac_field == SK::radialScalar || q.volfrac_field == SK::sphericalScalar) { double d2 = 0; for (int d = 0; d < (q.volfrac_field == SK::radialScalar ? 2 : 3); d++) d2 += pow(X[d] - q.volfrac_origin[d], 2); fr = q.volfrac_slope * sqrt(d2 - q.volfrac); } else fr = val(q.volfrac_field, q.volfrac, q.volfrac_slope, q.volfrac_origin, X, nd, &s);
            fr = std::min(1., std::max(0., fr)); skip |= fabs(fr - (1 - 1e-8)) < 1e-11;
            if (fr >= 1 - 1e-8) E[e].assign(1, In{f, 1.0});
            else { bool had = false; for (auto &i : E[e]) if (F(i.f).material_id == q.material_id) i = In{f, fr}, had = true; if (!had) E[e].push_back(In{f, fr}); }
        }
        BoundaryCondition_t B; fillGaussState_t G; fillElemState_t L; bool o = ORD(r);
        quiet(true); fvc_par::order() = o; simulation_setup(P, M, m, B, S, G, L); fvc_par::order() = 0;
        S.MaterialToMeshMaps.initialize(); std::vector<material_pt_state> mp = {material_pt_state::density, material_pt_state::specific_internal_energy, material_pt_state::mass, material_pt_state::volume_fraction, material_pt_state::eroded_flag};
        if (tcs) mp.push_back(material_pt_state::thermal_conductivity), mp.push_back(material_pt_state::specific_heat);
        S.MaterialPoints.initialize(3, mp); material_state_setup(P, M, m, B, S, G, L); quiet(false);
        if (skip) continue;
        char id[400]; { std::string l; for (size_t f = 0; f < nf; f++) l += std::string(f ? ", " : "") + NAME[F(f).volume] + " (material " + std::to_string(F(f).material_id) + (E.size() ? "" : "") + ")"; snprintf(id, 400, "random input %ld (%s, %zu elements; fills: %s)", t, w.rz ? "2D" : "3D", ne, l.c_str()); }
        std::vector<size_t> cnt(nm, 0); bool bad = false;
        for (size_t e = 0; e < ne && !bad; e++) {
            bad = true; size_t k = S.MeshtoMaterialMaps.num_mats_in_elem.host(e);
            if (k != E[e].size()) { FAILF("%s: element %zu has %zu materials, expected %zu", id, e, k, E[e].size()); break; }
            double ls = 1e32; bool ok = true;
            for (size_t b = 0; b < k && ok; b++) {
                ok = false; size_t mt = S.MeshtoMaterialMaps.mats_in_elem.host(e, b); const In *i = nullptr; for (auto &q : E[e]) if (F(q.f).material_id == mt) i = &q;
                if (!i) { FAILF("%s: element %zu holds material %zu, which no fill put there", id, e, mt); break; }
                for (size_t q = 0; q < b; q++) if (S.MeshtoMaterialMaps.mats_in_elem.host(e, q) == mt) { FAILF("%s: element %zu holds material %zu twice", id, e, mt); i = nullptr; break; }
                if (!i) break;
                const RegionFill_t &q = F(i->f); size_t s = S.MeshtoMaterialMaps.mat_elems_in_elem.host(e, b); cnt[mt]++; const double *X = C[e].data();
                if (s >= S.MaterialToMeshMaps.num_mat_elems.host(mt) || S.MaterialToMeshMaps.elem_in_mat_elem.host(mt, s) != e) { FAILF("%s: the maps of element %zu and material %zu do not agree", id, e, mt); break; }
                auto &Q = S.MaterialPoints; double vol = S.GaussPoints.vol(e); bool set, ss;
                double d0 = val(q.den_field, q.den, 0, q.den_origin, X, nd, &set), mass = d0 * vol * i->v, si = val(q.sie_field, q.sie, 0, q.sie_origin, X, nd, &ss); if (!ss) { bool si2; si = val(q.ie_field, q.ie, 0, q.sie_origin, X, nd, &si2) / mass; }
                struct { const char *n; double a, b; } T[] = {{"volume fraction", Q.volfrac.host(mt, s), i->v}, {"geometric volume fraction", Q.geo_volfrac.host(mt, s), 1}, {"density", Q.den.host(mt, s), d0}, {"mass", Q.mass.host(mt, s), mass}, {"specific internal energy", Q.sie.host(mt, s), si},
                    {"conductivity", tcs ? Q.conductivity.host(mt, s) : 0, tcs ? val(q.thermal_conductivity_field, q.thermal_conductivity, 0, q.den_origin, X, nd, &set) : 0}, {"specific heat", tcs ? Q.specific_heat.host(mt, s) : 0, tcs ? val(q.specific_heat_field, q.specific_heat, 0, q.den_origin, X, nd, &set) : 0},
                    {"eroded flag", Q.eroded.size() ? (double)Q.eroded.host(mt, s) : 0., 0.}};
                ok = true; for (auto &z : T) if (!(mass == 0 && std::string(z.n)[0] == 's') && !close_to(z.a, z.b, 1e-9)) { FAILF("%s: %s of material %zu in element %zu is %.17g, its fill (number %zu) gives %.17g", id, z.n, mt, e, z.a, i->f, z.b); ok = false; break; }
                if (hl) { double z = val(q.level_set_field, q.level_set, q.level_set_slope, q.level_set_origin, X, nd, &set); if (set) ls = std::min(ls, z); }
            }
            if (!ok) break;
            if (hl && k && !close_to(S.GaussPoints.level_set.host(e), ls, 1e-9)) { FAILF("%s: level set of element %zu is %.17g, the least of its fills is %.17g", id, e, S.GaussPoints.level_set.host(e), ls); break; }
            bad = false;
        }
        if (bad) continue;
        for (size_t q = 0; q < nm; q++) if (S.MaterialToMeshMaps.num_mat_elems.host(q) != cnt[q] || S.MaterialPoints.num_material_points.host(q) != cnt[q]) { FAILF("%s: material %zu has %zu elements, expected %zu", id, q, (size_t)S.MaterialToMeshMaps.num_mat_elems.host(q), cnt[q]); bad = true; }
        // nodes take a value of a fill around them, that of the last one with a value
        for (size_t i = 0; i < w.nn && !bad; i++) {
            double X[3] = {0, 0, 0}, want[3] = {-9, -9, -9}, wt = -9; for (int d = 0; d < nd; d++) X[d] = w.x(i, d);
            for (size_t k = 0; k < m.num_corners_in_node(i); k++) { size_t e = m.elems_in_node(i, k); size_t N = S.MeshtoMaterialMaps.num_mats_in_elem.host(e);
                for (size_t b = 0; b < N; b++) { size_t mt = S.MeshtoMaterialMaps.mats_in_elem.host(e, b); for (auto &q : E[e]) if (F(q.f).material_id == mt) { const RegionFill_t &z = F(q.f); double o3[3]; if (vel(z.vel_field, z, X, o3)) for (int d = 0; d < 3; d++) want[d] = o3[d];
                    double tv = 0; bool st = true; switch (z.temperature_field) { case SK::noICsScalar: st = false; break; case SK::sphericalScalar: tv = z.temperature * sqrt(X[0] * X[0] + X[1] * X[1] + X[2] * X[2]); break; default: tv = z.temperature; } if (st) wt = tv; } } }
            for (int d = 0; hv && d < nd && !bad; d++) if (!close_to(S.node.vel(i, d), want[d], 1e-9)) FAILF("%s: velocity %d of node %zu is %.17g, the last fill around it gives %.17g", id, d, i, S.node.vel(i, d), want[d]), bad = true;
            if (ht && !bad && !close_to(S.node.temp(i), wt, 1e-9)) FAILF("%s: temperature of node %zu is %.17g, the last fill around it gives %.17g", id, i, S.node.temp(i), wt), bad = true;
        }
    }
    unlink(vf.c_str()); rmdir(dir); std::cout.rdbuf(cb);
    return DONE();
}
