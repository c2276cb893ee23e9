// loops of the shared code run in order and with all iterations at the same
// time; the results must agree
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <map>
#include <set>
#define private public
#include "world.h"
#include "region.hpp"
#include "boundary_conditions.hpp"
#include "mesh_io.hpp"
#undef private
void fill_regions(const Material_t &, const swage::Mesh &, const DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<bool> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &,
    DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<double> &, DCArrayKokkos<size_t> &, DCArrayKokkos<size_t> &, DCArrayKokkos<size_t> &, const DCArrayKokkos<int> &,
    const CArrayKokkos<RegionFill_t> &, const CArray<RegionFill_host_t> &, std::vector<fill_gauss_state> &, std::vector<fill_node_state> &, const size_t);
void tag_bdys(const BoundaryCondition_t &, swage::Mesh &, const DCArrayKokkos<double> &);
void build_boundry_node_sets(swage::Mesh &);
typedef std::vector<double> Out;
template <class A> static void put(Out &o, const A &a) { for (size_t i = 0; i < a.st.n; i++) o.push_back((double)a.st.p[i]); }

static Out fills(Rnd &r, int ord) {
    Out o; World w(r, r.b(), 0.1, 2); size_t ne = w.ne, nb = 4, nf = r.i(1, 4);
    auto A = [&](size_t a, size_t b) { DCArrayKokkos<double> q(a, b); q.set_values(0); return q; };
    DCArrayKokkos<double> vel(w.nn, 3), temp(w.nn); vel.set_values(-9); temp.set_values(-9);
    auto den = A(ne, nb), sie = A(ne, nb), ie = A(ne, nb), st = A(ne, nb), tc = A(ne, nb), sh = A(ne, nb), em = A(ne, nb), sm = A(ne, nb), pr = A(ne, nb), ls = A(ne, nb), vf = A(ne, nb), gv = A(ne, nb);
    DCArrayKokkos<bool> us(ne, nb); us.set_values(false);
    DCArrayKokkos<size_t> mid(ne, nb), num(ne), vox; mid.set_values(0); num.set_values(0); DCArrayKokkos<int> ids;
    CArrayKokkos<RegionFill_t> F(nf); CArray<RegionFill_host_t> H(nf);
    for (size_t f = 0; f < nf; f++) {
        RegionFill_t &q = F(f); q = RegionFill_t(); q.solver_id = 0; q.material_id = f; q.volume = f == 0 ? region::global : r.b() ? region::box : region::sphere;
        q.x1 = r.in(-1, 1); q.x2 = q.x1 + r.in(0, 3); q.y1 = q.z1 = -9; q.y2 = q.z2 = 9; q.radius1 = 0; q.radius2 = r.in(.5, 3);
        static const init_conds::init_vector_conds V[] = {init_conds::noICsVec, init_conds::stationary, init_conds::cartesian, init_conds::radialVec};
        static const init_conds::init_scalar_conds S[] = {init_conds::noICsScalar, init_conds::uniform, init_conds::xlinearScalar};
        q.vel_field = V[r.i(0, 3)]; q.temperature_field = S[r.i(0, 2)]; q.den_field = S[r.i(0, 2)]; q.sie_field = S[r.i(0, 2)]; q.ie_field = S[r.i(0, 2)]; q.level_set_field = S[r.i(0, 2)];
        q.u = r.in(-1, 1); q.v = r.in(-1, 1); q.w = r.in(-1, 1); q.speed = r.in(-1, 1); q.temperature = r.in(1, 5); q.den = r.in(1, 2); q.sie = r.in(1, 2); q.ie = r.in(1, 2); q.level_set = r.in(-1, 1); q.level_set_slope = 1;
        q.volfrac_field = init_conds::uniform; q.volfrac = r.b() ? 1.0 : r.in(.2, .9);
    }
    std::vector<fill_gauss_state> gs; std::vector<fill_node_state> ns = {fill_node_state::velocity, fill_node_state::temperature};
    fvc_par::order() = ord;
    fill_regions(w.M, w.m, w.x, vel, temp, den, sie, us, ie, st, tc, sh, em, sm, pr, ls, vf, gv, mid, num, vox, ids, F, H, gs, ns, nb);
    fvc_par::order() = 0;
    put(o, vel); put(o, temp); put(o, den); put(o, sie); put(o, ie); put(o, ls); put(o, vf); put(o, gv); put(o, mid); put(o, num); put(o, us);
    return o;
}

static Out nodal(Rnd &r, int ord) {
    Out o; size_t nn = r.i(2, 12), nd = r.i(2, 3); node_t N; std::vector<node_state> all = {node_state::coords, node_state::velocity, node_state::mass, node_state::temp, node_state::gradient_level_set};
    N.initialize(nn, nd, all); fill(r, N.coords, nn * nd, -1, 1); fill(r, N.vel, nn * nd, -1, 1); fill(r, N.vel_n0, nn * nd, -1, 1); fill(r, N.mass, nn, 0, 1); fill(r, N.temp, nn, 0, 1); fill(r, N.gradient_level_set, nn * nd, -1, 1);
    DCArrayKokkos<double> S(2, nn), V(4, nn, 3); S.set_values(0); V.set_values(0);
    MeshWriter &w = bare<MeshWriter>(); fvc_par::order() = ord;
    w.concatenate_nodal_fields(N, S, V, all, 0.1, nn, nd, 0, 0, 1, 2, 3, 1);
    fvc_par::order() = 0; put(o, S); put(o, V); return o;
}

static Out elem(Rnd &r, int ord) {
    Out o; World w(r, false, 0.1, 2); size_t ne = w.ne;
    MaterialPoint_t P; GaussPoint_t G; P.den = w.den; P.volfrac = w.vf; P.geo_volfrac = w.geo; P.pres = w.pres; P.sie = w.sie; P.sspd = w.sspd; P.mass = w.mass; P.stress = w.stress; P.eroded = w.eroded;
    G.vol = w.vol; G.div = DCArrayKokkos<double>(ne); fill(r, G.div, ne, -1, 1); G.vel_grad = w.L;
    DCArrayKokkos<double> S(9, ne), T(2, ne, 3, 3); S.set_values(0); T.set_values(0); MeshWriter &wr = bare<MeshWriter>();
    std::vector<material_pt_state> a = {material_pt_state::density, material_pt_state::pressure, material_pt_state::specific_internal_energy, material_pt_state::sound_speed, material_pt_state::mass, material_pt_state::stress};
    std::vector<gauss_pt_state> b = {gauss_pt_state::volume, gauss_pt_state::divergence_velocity, gauss_pt_state::gradient_velocity};
    fvc_par::order() = ord;
    for (size_t m = 0; m < w.nm; m++) wr.concatenate_elem_fields(P, G, S, T, w.eim, a, b, w.el[m].size(), m, ne, 0, 1, 2, 3, 4, 0, 5, 6, 7, 1, 8, 8);
    fvc_par::order() = 0; put(o, S); put(o, T); return o;
}

static Out bdy(Rnd &r, int ord) {
    Out o; World w(r, r.b(), 0.1, 2); swage::Mesh &m = w.m; size_t ns = r.i(1, 4);
    size_t np = 0; std::vector<std::vector<size_t>> pn; size_t k = w.rz ? 2 : 4;
    for (size_t e = 0; e < w.ne; e++) for (int q = 0; q < 3; q++) { std::vector<size_t> p; for (size_t c = 0; c < k; c++) p.push_back(m.nodes_in_elem(e, (q + c) % w.k)); pn.push_back(p); np++; }
    m.num_bdy_patches = np; m.num_nodes_in_patch = k; m.nodes_in_patch = CArrayKokkos<size_t>(np, k); m.bdy_patches = CArrayKokkos<size_t>(np);
    for (size_t p = 0; p < np; p++) { m.bdy_patches(p) = p; for (size_t c = 0; c < k; c++) m.nodes_in_patch(p, c) = pn[p][c]; }
    m.num_bdy_sets = ns; m.num_bdy_patches_in_set = DCArrayKokkos<size_t>(ns); m.num_bdy_patches_in_set.set_values(0);
    BoundaryCondition_t B; B.BoundaryConditionSetup = CArrayKokkos<BoundaryConditionSetup_t>(ns);
    for (size_t s = 0; s < ns; s++) { auto &q = B.BoundaryConditionSetup(s); q = BoundaryConditionSetup_t(); q.surface = (decltype(q.surface))r.i(0, 3); q.value = r.in(0, 1); q.tolerance = r.in(.1, 2); for (int d = 0; d < 3; d++) q.origin[d] = 0; }
    std::ofstream nul("/dev/null"); auto *cb = std::cout.rdbuf(nul.rdbuf());
    fvc_par::order() = ord; tag_bdys(B, m, w.x); build_boundry_node_sets(m); fvc_par::order() = 0; std::cout.rdbuf(cb);
    put(o, m.num_bdy_patches_in_set); put(o, m.bdy_patches_in_set); put(o, m.num_bdy_nodes_in_set); put(o, m.bdy_nodes_in_set);
    return o;
}

int main(int c, char **v) {
    long seed = atol(v[1]), n = atol(v[2]);
    struct { const char *name; Out (*f)(Rnd &, int); } T[] = {{"region fills", fills}, {"nodal output fields", nodal}, {"element output fields", elem}, {"boundary sets", bdy}};
    for (long t = 0; t < n; t++) for (auto &q : T) {
        Rnd a(seed * 7919 + t), b = a; g_cases++;
        Out x = q.f(a, 0), y = q.f(b, 1); bool ok = x.size() == y.size();
        size_t k = 0; for (; ok && k < x.size(); k++) if (!close_to(x[k], y[k], 1e-12)) { ok = false; break; }
        if (!ok) FAILF("%s, random input %ld: value %zu is %.17g when the iterations run in order and %.17g when they run at the same time", q.name, t, k, k < x.size() ? x[k] : 0., k < y.size() ? y[k] : 0.);
    }
    return DONE();
}
