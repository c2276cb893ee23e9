// the time loops of the solvers, run with stand-ins for the kernels (smooth
// functions of just what the kernels read), against a loop written here
#include "mock_io.h"
#include "mp.h"
#include "sgh_solver_3D.hpp"
#include "sgh_solver_rz.hpp"
#include "sgtm_solver_3D.hpp"
#include "material.hpp"
#include "geometry_new.hpp"
#include "tipton_equilibration.hpp"
#include "additive_data.hpp"
#include <fcntl.h>
#include <unistd.h>
template <class T> static T &bare() { static char *b = (char *)calloc(1, sizeof(T)); return *(T *)b; }
typedef DCArrayKokkos<double> D; typedef DRaggedRightArrayKokkos<double> Q; typedef DRaggedRightArrayKokkos<bool> QB; typedef DRaggedRightArrayKokkos<size_t> QS; typedef DCArrayKokkos<size_t> DS;
typedef const Material_t &CM; typedef const swage::Mesh &CS; typedef const BoundaryCondition_t &CB; typedef const double cd; typedef const size_t cs;
struct Sp { const double *p; size_t n; };
static Sp N(const D &a) { return {a.st.p, a.st.n}; }
static Sp M(const Q &a, size_t m) { size_t w = a.e1 * a.e2; return {a.st.p + (*a.start)[m] * w, (*a.len)[m] * w}; }
// a number that depends smoothly on everything given
struct Dg {
    double h; int k = 0;
    explicit Dg(double s) : h(s) {}
    Dg &operator<<(const Sp &s) { double t = 0; for (size_t i = 0; i < s.n; i++) t += s.p[i] * cos(0.7 * i + k); k++; if (s.n) h += t / sqrt((double)s.n) * (0.4 + 0.1 * (k % 5)); return *this; }
    Dg &operator<<(const D &a) { return *this << N(a); }
    Dg &operator<<(double v) { k++; h += v * (0.4 + 0.1 * (k % 7)); return *this; }
};
static Dg &row(Dg &d, const Q &a, size_t m) { return d << M(a, m); }
static void put(Sp o, double h, double mid, double amp) { for (size_t i = 0; i < o.n; i++) ((double *)o.p)[i] = mid + amp * sin(h + 0.37 * i); }
static void mix(Sp o, double h) { for (size_t i = 0; i < o.n; i++) ((double *)o.p)[i] = 0.5 * o.p[i] + 0.5 * sin(h + 0.37 * i); }
static void addto(Sp o, double h) { for (size_t i = 0; i < o.n; i++) ((double *)o.p)[i] += sin(h + 0.37 * i); }
static double eros(const QB &e, size_t m) { double t = 0; for (size_t i = 0; i < (*e.len)[m]; i++) if (e(m, i)) t += 1; return t; }
static void step_of(double h, double t, double g, double f, double mx, double mn, double cfl, double &dt, double fuzz, double tiny) {
    double l = cfl * (0.03 + 0.02 * sin(h)); if (dt * 1.1 < l) l = dt * 1.1; l = std::min(l, mx); l = std::max(l, mn);
    l = std::min(l, std::max(fuzz, g - t) + tiny); l = std::min(l, f - t + tiny); dt = l;
}
static void move(double a, double dt, D &x, const D &x0, const D &v, const D &v0) { for (size_t i = 0; i < x.st.n; i++) x.st.p[i] = x0.st.p[i] + 0.05 * a * dt * (v.st.p[i] + v0.st.p[i]); }
static void copy(const D &a, D &b) { for (size_t i = 0; i < a.st.n; i++) b.st.p[i] = a.st.p[i]; }
static void copyq(const Q &a, Q &b, size_t m) { Sp s = M(a, m), t = M(b, m); for (size_t i = 0; i < s.n; i++) ((double *)t.p)[i] = s.p[i]; }
static void fix(const D &v, size_t w, double t, int from) { for (size_t n = from; n * w < v.st.n; n += 3) for (size_t d = 0; d < w; d++) v.st.p[n * w + d] = 0.5 * sin(3 * t + n + d); }
static void state_of(double h, CM, const D &x, const D &L, Q den, Q pres, Q stress, Q stress0, Q sspd, Q sie, Q vf, Q gf, const D &vol, Q mass, Q ev, Q sv, QB er, Q sh, double t, double dt, double a, double cyc, size_t n, size_t m) {
    Dg g(h); g << x << L << vol << t << dt << a << 0.1 * cyc << (double)n << (double)m; row(g, stress0, m); row(g, sie, m); row(g, vf, m); row(g, gf, m); row(g, mass, m); row(g, ev, m); row(g, sv, m); row(g, sh, m); g << eros(er, m);
    double q = g.h; put(M(den, m), q, 2, 1); put(M(pres, m), q + 1, 1, .5); mix(M(stress, m), q + 2); put(M(sspd, m), q + 3, 2, 1); mix(M(ev, m), q + 4); mix(M(sv, m), q + 5); mix(M(sh, m), q + 6); if (n && sin(q) > .9) er(m, 0) = true;
}
static void force_of(double h, const D &vol, const D &L, const QB &er, const D &cf, const D &x, const D &v, const Q &den, const Q &sie, const Q &pres, const Q &stress, const Q &sspd, const Q &mcf, const Q &vf, const Q &gf, size_t n, size_t m, double dt, double a) {
    Dg g(h); g << vol << L << x << v << dt << a << (double)n << (double)m << eros(er, m); for (const Q *z : {&den, &sie, &pres, &stress, &sspd, &vf, &gf}) row(g, *z, m); put(M(mcf, m), g.h, 0, 1); addto(N(cf), g.h + 1);
}
static void stress_of(double h, const D &vol, const D &x, const D &v, const D &L, const Q &den, const Q &sie, const Q &pres, const Q &stress, const Q &stress0, const Q &sspd, const Q &ev, const Q &sv, const Q &sh, size_t n, size_t m, double t, double dt, double a, size_t c) {
    Dg g(h); g << vol << x << v << L << t << dt << a << 0.1 * c << (double)n << (double)m; for (const Q *z : {&den, &sie, &pres, &stress0, &sspd, &ev, &sv, &sh}) row(g, *z, m); put(M(stress, m), g.h, 0, 1); mix(M(sv, m), g.h + 1);
}
// ---- three dimensions
void SGH3D::boundary_velocity(CS, CB, D &v, cd t) const { fix(v, 3, t, 0); }
void SGH3D::boundary_contact(CS, CB, D &v, cd t) const {}
void SGH3D::boundary_stress(CS, CB, D &f, D &x, cd t) const { Dg g(.3); g << x << t; for (size_t i = 0; i < f.st.n; i += 2) f.st.p[i] += sin(g.h + i); }
void SGH3D::update_energy(cd a, cd dt, CS, const D &v, const D &v0, const Q &e, const Q &e0, const Q &m, const Q &cf, const corners_in_mat_t, const QS &, cs n, cs k) const { Dg g(.1); g << v << v0 << a << dt << (double)n; row(g, m, k); row(g, cf, k); row(g, e0, k); put(M(e, k), g.h, 1, 1); }
void SGH3D::get_force(CM, CS, const D &vol, const D &L, const QB &er, const D &cf, const D &x, const D &v, const Q &den, const Q &sie, const Q &pres, const Q &stress, const Q &sspd, const Q &mcf, const Q &vf, const Q &gf, const corners_in_mat_t, const QS &, cs n, cs m, cd, cd, cd dt, cd a) const { force_of(.2, vol, L, er, cf, x, v, den, sie, pres, stress, sspd, mcf, vf, gf, n, m, dt, a); }
void SGH3D::update_position(double a, double dt, cs, cs, D &x, D &x0, const D &v, const D &v0) const { move(a, dt, x, x0, v, v0); }
void SGH3D::update_velocity(double a, double dt, CS, D &v, D &v0, const D &m, const D &f, const D &cf, const CArrayKokkos<double> &, bool) const { Dg g(.4); g << v0 << m << f << cf << a << dt; put(N(v), g.h, 0, 1); }
void SGH3D::get_velgrad(D &L, CS, const D &x, const D &v, const D &vol) const { Dg g(.5); g << x << v << vol; put(N(L), g.h, 0, 1); }
void SGH3D::update_state(CM a, CS, const D &x, const D &v, const D &L, const Q &den, const Q &pres, const Q &stress, const Q &stress0, const Q &sspd, const Q &sie, const Q &vf, const Q &gf, const D &vol, const Q &mass, const Q &ev, const Q &sv, const QB &er, const Q &sh, const QS &, cd t, cd dt, cd al, cs c, cs n, cs m) const { state_of(.6, a, x, L, den, pres, stress, stress0, sspd, sie, vf, gf, vol, mass, ev, sv, er, sh, t, dt, al, c, n, m); }
void SGH3D::update_stress(CM, CS, const D &vol, const D &x, const D &v, const D &L, const Q &den, const Q &sie, const Q &pres, const Q &stress, const Q &stress0, const Q &sspd, const Q &ev, const Q &sv, const Q &sh, const QS &, cs n, cs m, cd, cd, cd t, cd dt, cd a, cs c) const { stress_of(.7, vol, x, v, L, den, sie, pres, stress, stress0, sspd, ev, sv, sh, n, m, t, dt, a, c); }
void SGH3D::rk_init(D &x, D &x0, D &v, D &v0, Q &e, Q &e0, Q &s, Q &s0, cs, cs, cs, cs, cs m) const { copy(x, x0); copy(v, v0); copyq(e, e0, m); copyq(s, s0, m); }
void SGH3D::get_timestep(swage::Mesh &, D &x, D &v, D &vol, Q &sspd, QB &er, QS &, size_t n, double t, cd g, cd f, cd mx, cd mn, cd cfl, double &dt, cd fuzz, cd tiny, cs m) const { Dg h(.8 + m); h << x << v << vol << eros(er, m); row(h, sspd, m); step_of(h.h, t, g, f, mx, mn, cfl, dt, fuzz, tiny); }
// ---- axisymmetric
void SGHRZ::boundary_velocity_rz(CS, CB, D &v, cd t) const { fix(v, 2, t, 0); }
void SGHRZ::boundary_contact_rz(CS, CB, D &v, cd t) const {}
void SGHRZ::update_energy_rz(cd a, cd dt, CS, const D &v, const D &v0, const D &x, const D &x0, const Q &e, const Q &e0, const Q &m, const Q &cf, const corners_in_mat_t, const QS &, cs n, cs k) const { Dg g(.1); g << v << v0 << x << x0 << a << dt << (double)n; row(g, m, k); row(g, cf, k); row(g, e0, k); put(M(e, k), g.h, 1, 1); }
void SGHRZ::get_force_rz(CM, CS, const D &vol, const D &L, const QB &er, const D &cf, const D &x, const D &v, const Q &den, const Q &sie, const Q &pres, const Q &stress, const Q &sspd, const Q &mcf, const Q &vf, const Q &gf, const corners_in_mat_t, const QS &, cs n, cs m, cd, cd, cd, cd dt, cd a) const { force_of(.2, vol, L, er, cf, x, v, den, sie, pres, stress, sspd, mcf, vf, gf, n, m, dt, a); }
void SGHRZ::update_position_rz(double a, double dt, cs, cs, D &x, const D &x0, const D &v, const D &v0) const { move(a, dt, x, x0, v, v0); }
void SGHRZ::update_velocity_rz(double a, double dt, CS, D &v, const D &v0, const D &m, const D &cf) const { Dg g(.4); g << v0 << m << cf << a << dt; put(N(v), g.h, 0, 1); }
void SGHRZ::get_velgrad_rz(D &L, const swage::Mesh, const D &x, const D &v, const D &vol) const { Dg g(.5); g << x << v << vol; put(N(L), g.h, 0, 1); }
void SGHRZ::update_state_rz(CM a, CS, const D &x, const D &v, const D &L, const Q &den, const Q &pres, const Q &stress, const Q &stress0, const Q &sspd, const Q &sie, const Q &vf, const Q &gf, const D &vol, const Q &mass, const Q &ev, const Q &sv, const QB &er, const Q &sh, const QS &, cd t, cd dt, cd al, cs c, cs n, cs m) const { state_of(.6, a, x, L, den, pres, stress, stress0, sspd, sie, vf, gf, vol, mass, ev, sv, er, sh, t, dt, al, c, n, m); }
void SGHRZ::update_stress(CM, CS, const D &vol, const D &x, const D &v, const D &L, const Q &den, const Q &sie, const Q &pres, const Q &stress, const Q &stress0, const Q &sspd, const Q &ev, const Q &sv, const Q &sh, const QS &, cs n, cs m, cd, cd, cd t, cd dt, cd a, cs c) const { stress_of(.7, vol, x, v, L, den, sie, pres, stress, stress0, sspd, ev, sv, sh, n, m, t, dt, a, c); }
void SGHRZ::rk_init_rz(D &x, D &x0, D &v, D &v0, Q &e, Q &e0, Q &s, Q &s0, cs, cs, cs, cs, cs m) const { copy(x, x0); copy(v, v0); copyq(e, e0, m); copyq(s, s0, m); }
void SGHRZ::get_timestep_rz(swage::Mesh &, D &x, D &v, D &vol, Q &sspd, QB &er, QS &, size_t n, double t, cd g, cd f, cd mx, cd mn, cd cfl, double &dt, cd fuzz, cd tiny, cs m) const { Dg h(.8 + m); h << x << v << vol << eros(er, m); row(h, sspd, m); step_of(h.h, t, g, f, mx, mn, cfl, dt, fuzz, tiny); }
// ---- heat
void SGTM3D::boundary_temperature(CS, CB, D &T, cd t) const { fix(T, 1, t, 1); }
void SGTM3D::boundary_convection(CS, CB, const D &T, const D &q, const D &x, cd t) const { Dg g(.1); g << T << x << t; addto(N(q), g.h); }
void SGTM3D::boundary_radiation(CS, CB, const D &T, const D &q, const D &x, cd t) const { Dg g(.2); g << T << x << t; addto(N(q), g.h); }
void SGTM3D::update_temperature(CS, const D &cq, const D &T, const D &T0, const D &m, const D &q, const Q &cp, const DS &, const DS &, const DS &, cd a, cd dt) const { Dg g(.3); g << cq << T0 << m << q << a << dt; for (size_t k = 0; k < cp.rows; k++) row(g, cp, k); put(N(T), g.h, 0, 1); }
// every material has corners of its own: its flux goes to one of num_mats parts of the corners
static size_t g_nm = 1;
static Sp part(const D &a, size_t m) { size_t w = a.st.n / g_nm; return {a.st.p + m * w, w}; }
void SGTM3D::get_heat_flux(CM, CS, const D &vol, const D &x, const D &T, const Q &q, const Q &k, const Q &tg, const D &cq, const corners_in_mat_t, const QB &er, const QS &, cs n, cs m, cd, cd, cd dt, cd a) const { Dg g(.4); g << vol << x << T << (double)n; row(g, k, m); g << eros(er, m); put(M(q, m), g.h, 0, 1); put(M(tg, m), g.h + 1, 0, 1); put(part(cq, m), g.h + 2, 0, 1); }
void SGTM3D::moving_flux(CM, CS, const D &vol, const D &x, const D &cq, const D &s, const corners_in_mat_t, const QS &, cs n, cd P, cs m, cd, cd, cd, cd) const { Dg g(.5); g << vol << x << P * 1e-6 << (double)n; for (int d = 0; d < 3; d++) g << s(d) * .01; addto(part(cq, m), g.h); }
void SGTM3D::update_properties(CM, CS, const D &T, const Q &den, const Q &k, const Q &cp, const QS &, cs n, cs m) const { Dg g(.6 + m); g << T << (double)n; put(M(den, m), g.h, 3, 1); put(M(k, m), g.h + 1, 3, 1); put(M(cp, m), g.h + 2, 3, 1); }
void SGTM3D::rk_init(D &x, D &x0, D &v, D &v0, D &T, D &T0, D &, Q &, cs, cs, cs, cs) const { copy(x, x0); copy(v, v0); copy(T, T0); }
void SGTM3D::get_timestep(swage::Mesh &, D &x, D &v, D &vol, Q &sspd, Q &k, Q &den, Q &cp, QB &er, QS &, size_t n, double t, cd g, cd f, cd mx, cd mn, cd cfl, double &dt, cd fuzz, cd tiny, cs m) const { Dg h(.8 + m); h << x << vol << eros(er, m); row(h, k, m); row(h, den, m); row(h, cp, m); step_of(h.h, t, g, f, mx, mn, cfl, dt, fuzz, tiny); }
// ---- shared
namespace geometry { void get_vol(const D &vol, const D &x, CS) { Dg g(.9); g << x; put(N(vol), g.h, 2, 1); } }
static void equil(double h, State_t &S, double dt, double a, Q &f) { auto &P = S.MaterialPoints; Dg g(h); g << S.GaussPoints.vol << dt << a; for (size_t m = 0; m < P.den.rows; m++) for (const Q *z : {&P.pres, &P.den, &P.sspd, &P.mass, &P.sie, &P.volfrac, &P.geo_volfrac}) row(g, *z, m); for (size_t m = 0; m < P.den.rows; m++) { put(M(f, m), g.h + m, .5, .4); mix(M(P.sie, m), g.h + 2 + m); mix(M(P.den, m), g.h + 3 + m); } }
namespace TiptonEquilibrationModel {
void mat_equilibration(CM, CS, State_t &S, CArrayKokkos<double> &, CArrayKokkos<double> &, CArrayKokkos<double> &, CArrayKokkos<double> &, cd dt, cd a, cd, cd) { equil(.2, S, dt, a, S.MaterialPoints.volfrac); }
void geo_equilibration(CM, CS, State_t &S, CArrayKokkos<double> &, CArrayKokkos<double> &, CArrayKokkos<double> &, CArrayKokkos<double> &, cd dt, cd a, cd, cd) { equil(.4, S, dt, a, S.MaterialPoints.geo_volfrac); }
}
// ---- files
struct File { double t; size_t id; std::vector<std::pair<const char *, std::vector<double>>> c; };
static std::vector<File> *g_files; static int g_kind; static State_t *g_state;
static std::vector<std::pair<const char *, std::vector<double>>> contents(State_t &S) {
    std::vector<std::pair<const char *, std::vector<double>>> o; auto &P = S.MaterialPoints;
    auto n = [&](const char *w, const D &a) { o.emplace_back(w, std::vector<double>(a.st.p, a.st.p + a.st.n)); }; auto q = [&](const char *w, const Q &a) { o.emplace_back(w, std::vector<double>(a.st.p, a.st.p + a.st.n)); };
    n("node coordinates", S.node.coords); n("node masses", S.node.mass); n("volumes", S.GaussPoints.vol); q("densities", P.den);
    if (g_kind < 2) { n("node velocities", S.node.vel); n("velocity gradients", S.GaussPoints.vel_grad); q("pressures", P.pres); q("stresses", P.stress); q("sound speeds", P.sspd); q("energies", P.sie); q("volume fractions", P.volfrac); q("part volume fractions", P.geo_volfrac); std::vector<double> e; for (size_t m = 0; m < P.eroded.rows; m++) e.push_back(eros(P.eroded, m)); o.emplace_back("eroded points", e); }
    else { n("temperatures", S.node.temp); n("node heat", S.node.q_transfer); q("conductivities", P.conductivity); q("specific heats", P.specific_heat); q("heat fluxes", P.q_flux); }
    return o;
}
void fvc_written(State_t &S, double t, size_t id) { if (g_files->size() < 300) g_files->push_back({t, id, contents(S)}); if (g_files->size() > 290) throw std::runtime_error("too many files"); }
// ---- worlds
struct Deck { int kind; size_t nm; std::vector<size_t> np; std::vector<int> incr; int eq, geq, heat, stages, stop, ci; double t0, t1, gi, dt0, dtmax, cfl; size_t id; };
static void build(State_t &S, const Deck &d, swage::Mesh &m, const D &x, uint64_t seed) {
    Rnd r(seed); size_t nn = m.num_nodes, ne = m.num_elems, w = m.num_dims; auto mk = [&](D &a, double lo, double hi, D b) { a = b; fill(r, a, a.st.n, lo, hi); };
    mk(S.node.coords, 0, 0, D(nn, w)); copy(x, S.node.coords); mk(S.node.coords_n0, 0, 1, D(nn, w)); mk(S.node.vel, -1, 1, D(nn, w)); mk(S.node.vel_n0, -1, 1, D(nn, w)); mk(S.node.mass, 1, 2, D(nn)); mk(S.node.force, -1, 1, D(nn, w)); mk(S.node.temp, 0, 1, D(nn)); mk(S.node.temp_n0, 0, 1, D(nn)); mk(S.node.q_transfer, -1, 1, D(nn));
    mk(S.GaussPoints.vol, 1, 2, D(ne)); mk(S.GaussPoints.vel_grad, -1, 1, D(ne, 3, 3)); mk(S.GaussPoints.div, -1, 1, D(ne)); mk(S.corner.force, -1, 1, D(m.num_corners, w)); mk(S.corner.q_transfer, -1, 1, D(m.num_corners)); mk(S.corner.mass, 1, 2, D(m.num_corners));
    CArrayKokkos<size_t> c(d.nm), cc(d.nm); S.MaterialToMeshMaps.num_mat_elems = DS(d.nm); S.MaterialPoints.num_material_points = DS(d.nm);
    for (size_t q = 0; q < d.nm; q++) { c(q) = d.np[q] + 1; cc(q) = c(q) * m.num_nodes_in_elem; S.MaterialToMeshMaps.num_mat_elems(q) = S.MaterialPoints.num_material_points(q) = d.np[q]; }
    auto &P = S.MaterialPoints; auto mq = [&](Q &a, double lo, double hi) { a = Q(c); fill(r, a, a.st.n, lo, hi); }; auto m3 = [&](Q &a) { a = Q(c, 3, 3); fill(r, a, a.st.n, -1, 1); };
    mq(P.den, 1, 3); mq(P.pres, -1, 1); m3(P.stress); m3(P.stress_n0); mq(P.sie, 0, 1); mq(P.sie_n0, 0, 1); mq(P.sspd, 1, 2); mq(P.mass, 1, 2); mq(P.conductivity, 1, 3); mq(P.specific_heat, 1, 3); mq(P.volfrac, 0, 1); mq(P.delta_volfrac, 0, 1); mq(P.geo_volfrac, 0, 1); mq(P.delta_geo_volfrac, 0, 1);
    P.q_flux = Q(c, 3); fill(r, P.q_flux, P.q_flux.st.n, -1, 1); P.temp_grad = Q(c, 3); fill(r, P.temp_grad, P.temp_grad.st.n, -1, 1); P.shear_modulii = Q(c, 3); fill(r, P.shear_modulii, P.shear_modulii.st.n, 0, 1); P.eos_state_vars = Q(c, 2); fill(r, P.eos_state_vars, P.eos_state_vars.st.n, 0, 1); P.strength_state_vars = Q(c, 2); fill(r, P.strength_state_vars, P.strength_state_vars.st.n, 0, 1);
    P.eroded = QB(c); P.eroded.set_values(false); S.MaterialCorners.force = Q(cc, w); fill(r, S.MaterialCorners.force, S.MaterialCorners.force.st.n, -1, 1); S.MaterialToMeshMaps.elem_in_mat_elem = QS(c); S.MaterialToMeshMaps.elem_in_mat_elem.set_values(0);
    S.corners_in_mat_elem = corners_in_mat_t(m.num_nodes_in_elem);
}
// what has to happen
struct Want { size_t cycles = 0; double t = 0; };
template <class W> static void clock(const Deck &d, SimulationParameters_t &I, State_t &S, Want &w, const W &cyc) {
    double t = d.t0, g = d.t0 + d.gi, dt = d.dt0; fvc_written(S, t, d.id); cyc(-1, t, 0, 0, dt);
    for (int c = 0; c < d.stop; c++) { double grown = dt, use = cyc(c, t, g, d.t1, dt); t += use; w.cycles++; bool by = (c + 1) % d.ci == 0 && c > 0, due = t >= g, end = t >= d.t1 || c + 1 == d.stop; cyc(-2, t, 0, 0, 0); if (by || due || end) { fvc_written(S, t, d.id); if (due) g += d.gi; dt = grown; } else dt = use; if (t >= d.t1) break; }
    w.t = t;
}
static void run(Rnd &r, long Nn) {
    for (long tt = 0; tt < Nn; tt++) {
        g_cases++; Deck d; d.kind = g_kind = (int)(tt % 3); swage::Mesh m; D x; if (d.kind == 1) rnd_mesh2(r, m, x, (int)r.i(1, 2), (int)r.i(1, 2), 1.0, .1); else rnd_mesh3(r, m, x, (int)r.i(1, 2), 1, 1, .1);
        m.num_bdy_nodes = 0; g_nm = d.nm = r.i(1, 3); for (size_t q = 0; q < d.nm; q++) { d.np.push_back(r.i(0, 5) ? r.i(1, 3) : 0); d.incr.push_back(r.b()); }
        d.eq = r.b(); d.geq = r.b(); d.heat = r.b(); d.stages = (int)r.i(1, 4); d.stop = r.i(0, 3) ? (int)r.i(4, 14) : (int)r.i(1, 3); d.ci = r.b() ? 2000000 : (int)r.i(1, 6); d.t0 = r.b() ? 0 : r.b() ? r.in(0, 6) : r.in(4.9, 5); d.t1 = d.t0 + (r.i(0, 2) ? 1 : r.in(.01, .2)); d.gi = r.i(0, 2) ? r.in(.02, .25) : 5; d.dt0 = r.in(.002, .05); d.dtmax = r.i(0, 3) ? 1 : r.in(.01, .04); d.cfl = r.in(.5, 1); d.id = r.i(0, 2);
        SimulationParameters_t I; auto &o = I.dynamic_options; o.fuzz = 1e-16; o.tiny = 1e-12; o.small = 1e-8; o.dt_min = 1e-8; o.dt_max = d.dtmax; o.dt_start = d.dt0; o.dt_cfl = d.cfl; o.rk_num_stages = d.stages; o.cycle_stop = d.stop; o.time_final = 1e9; o.time_initial = 0;
        I.output_options.graphics_time_step = d.gi; I.output_options.graphics_iteration_step = d.ci; I.solver_inputs.resize(3); for (size_t k = 0; k < 3; k++) I.solver_inputs[k].use_moving_heat_source = k == d.id ? d.heat : !d.heat;
        Material_t A; A.num_mats = d.nm; A.MaterialEnums = DCArrayKokkos<MaterialEnums_t>(d.nm); for (size_t q = 0; q < d.nm; q++) A.MaterialEnums(q).StrengthType = d.incr[q] ? model::incrementBased : r.b() ? model::stateBased : model::noStrengthType;
        A.EquilibrationModels = d.eq ? model::tiptonEquilibration : model::noEquilibration; A.GeoEquilibrationModels = d.geq ? model::tiptonEquilibration : model::noEquilibration;
        BoundaryCondition_t B; State_t S, R; uint64_t seed = r.u(); build(S, d, m, x, seed); build(R, d, m, x, seed);
        std::vector<File> got, want; g_files = &got; std::string how;
        char deck[300]; snprintf(deck, 300, "%s, %zu materials, %d stages, %d cycles, from %.6g to %.6g, files every %.4g and %d cycles%s%s%s, case %ld", d.kind == 0 ? "3D" : d.kind == 1 ? "axisymmetric" : "heat", d.nm, d.stages, d.stop, d.t0, d.t1, d.gi, d.ci, d.eq ? ", equilibration" : "", d.geq ? ", part equilibration" : "", d.heat ? ", moving source" : "", tt);
        BEGINF("%s", deck); fflush(stdout); int so = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
        try {
            if (d.kind == 0) { SGH3D &s = bare<SGH3D>(); s.time_start = d.t0; s.time_end = d.t1; s.solver_id = d.id; s.SGH3D::execute(I, A, B, m, S); }
            else if (d.kind == 1) { SGHRZ &s = bare<SGHRZ>(); s.time_start = d.t0; s.time_end = d.t1; s.solver_id = d.id; s.SGHRZ::execute(I, A, B, m, S); }
            else { SGTM3D &s = bare<SGTM3D>(); s.time_start = d.t0; s.time_end = d.t1; s.solver_id = d.id; s.SGTM3D::execute(I, A, B, m, S); }
        } catch (std::exception &e) { how = e.what(); }
        fflush(stdout); std::cout.flush(); dup2(so, 1); close(so);
        if (!how.empty()) { FAILF("%s: %s", deck, how.c_str()); continue; }
        g_files = &want; auto &n = R.node; auto &G = R.GaussPoints; auto &P = R.MaterialPoints; auto &C = R.corner; auto &E = R.MaterialToMeshMaps; auto &cm = R.corners_in_mat_elem; Want w; CArrayKokkos<double> none, ext(m.num_nodes); CArrayKokkos<double> z0(1);
        auto least = [&](double dt, const std::function<double(size_t, double)> &f) { double l = d.dtmax; for (size_t q = 0; q < d.nm; q++) l = std::min(l, f(q, dt)); return l; };
        const double fuzz = 1e-16, tiny = 1e-12, small = 1e-8;
        if (d.kind == 0) {
            SGH3D &s = bare<SGH3D>(); s.boundary_velocity(m, B, n.vel, d.t0);
            clock(d, I, R, w, [&](int c, double t, double g, double f, double old) {
                if (c < 0) return 0.0;
                double dt = least(old, [&](size_t q, double k) { s.get_timestep(m, n.coords, n.vel, G.vol, P.sspd, P.eroded, E.elem_in_mat_elem, d.np[q], t, g, f, d.dtmax, 1e-8, d.cfl, k, fuzz, tiny, q); return k; });
                for (size_t q = 0; q < d.nm; q++) s.rk_init(n.coords, n.coords_n0, n.vel, n.vel_n0, P.sie, P.sie_n0, P.stress, P.stress_n0, 3, m.num_elems, m.num_nodes, d.np[q], q);
                for (int k = 0; k < d.stages; k++) { double a = 1.0 / (d.stages - k);
                    s.get_velgrad(G.vel_grad, m, n.coords, n.vel, G.vol); for (size_t i = 0; i < C.force.st.n; i++) C.force.st.p[i] = 0;
                    for (size_t q = 0; q < d.nm; q++) { s.get_force(A, m, G.vol, G.vel_grad, P.eroded, C.force, n.coords, n.vel, P.den, P.sie, P.pres, P.stress, P.sspd, R.MaterialCorners.force, P.volfrac, P.geo_volfrac, cm, E.elem_in_mat_elem, d.np[q], q, fuzz, small, dt, a);
                        if (d.incr[q]) s.update_stress(A, m, G.vol, n.coords, n.vel, G.vel_grad, P.den, P.sie, P.pres, P.stress, P.stress_n0, P.sspd, P.eos_state_vars, P.strength_state_vars, P.shear_modulii, E.elem_in_mat_elem, d.np[q], q, fuzz, small, t, dt, a, c); }
                    for (size_t i = 0; i < n.force.st.n; i++) n.force.st.p[i] = 0;
                    s.boundary_stress(m, B, n.force, n.coords, t); s.update_velocity(a, dt, m, n.vel, n.vel_n0, n.mass, n.force, C.force, none, false); s.boundary_velocity(m, B, n.vel, t);
                    for (size_t q = 0; q < d.nm; q++) s.update_energy(a, dt, m, n.vel, n.vel_n0, P.sie, P.sie_n0, P.mass, R.MaterialCorners.force, cm, E.elem_in_mat_elem, d.np[q], q);
                    s.update_position(a, dt, 3, m.num_nodes, n.coords, n.coords_n0, n.vel, n.vel_n0); geometry::get_vol(G.vol, n.coords, m);
                    for (size_t q = 0; q < d.nm; q++) s.update_state(A, m, n.coords, n.vel, G.vel_grad, P.den, P.pres, P.stress, P.stress_n0, P.sspd, P.sie, P.volfrac, P.geo_volfrac, G.vol, P.mass, P.eos_state_vars, P.strength_state_vars, P.eroded, P.shear_modulii, E.elem_in_mat_elem, t, dt, a, c, d.np[q], q);
                    if (d.eq) TiptonEquilibrationModel::mat_equilibration(A, m, R, z0, z0, z0, z0, dt, a, fuzz, small);
                    if (d.geq) TiptonEquilibrationModel::geo_equilibration(A, m, R, z0, z0, z0, z0, dt, a, fuzz, small); }
                return dt; });
        } else if (d.kind == 1) {
            SGHRZ &s = bare<SGHRZ>(); for (size_t i = 0; i < m.num_nodes; i++) ext(i) = n.mass(i) * n.coords(i, 1); s.boundary_velocity_rz(m, B, n.vel, d.t0);
            clock(d, I, R, w, [&](int c, double t, double g, double f, double old) {
                if (c < 0) return 0.0;
                double dt = least(old, [&](size_t q, double k) { s.get_timestep_rz(m, n.coords, n.vel, G.vol, P.sspd, P.eroded, E.elem_in_mat_elem, d.np[q], t, g, f, d.dtmax, 1e-8, d.cfl, k, fuzz, tiny, q); return k; });
                for (size_t q = 0; q < d.nm; q++) s.rk_init_rz(n.coords, n.coords_n0, n.vel, n.vel_n0, P.sie, P.sie_n0, P.stress, P.stress_n0, 2, m.num_elems, m.num_nodes, d.np[q], q);
                for (int k = 0; k < d.stages; k++) { double a = 1.0 / (d.stages - k);
                    s.get_velgrad_rz(G.vel_grad, m, n.coords, n.vel, G.vol); for (size_t i = 0; i < C.force.st.n; i++) C.force.st.p[i] = 0;
                    for (size_t q = 0; q < d.nm; q++) { s.get_force_rz(A, m, G.vol, G.vel_grad, P.eroded, C.force, n.coords, n.vel, P.den, P.sie, P.pres, P.stress, P.sspd, R.MaterialCorners.force, P.volfrac, P.geo_volfrac, cm, E.elem_in_mat_elem, d.np[q], q, fuzz, tiny, small, dt, a);
                        if (d.incr[q]) s.update_stress(A, m, G.vol, n.coords, n.vel, G.vel_grad, P.den, P.sie, P.pres, P.stress, P.stress_n0, P.sspd, P.eos_state_vars, P.strength_state_vars, P.shear_modulii, E.elem_in_mat_elem, d.np[q], q, fuzz, small, t, dt, a, c); }
                    s.update_velocity_rz(a, dt, m, n.vel, n.vel_n0, n.mass, C.force); s.boundary_velocity_rz(m, B, n.vel, t);
                    for (size_t q = 0; q < d.nm; q++) s.update_energy_rz(a, dt, m, n.vel, n.vel_n0, n.coords, n.coords_n0, P.sie, P.sie_n0, P.mass, R.MaterialCorners.force, cm, E.elem_in_mat_elem, d.np[q], q);
                    s.update_position_rz(a, dt, 2, m.num_nodes, n.coords, n.coords_n0, n.vel, n.vel_n0); geometry::get_vol(G.vol, n.coords, m);
                    for (size_t q = 0; q < d.nm; q++) s.update_state_rz(A, m, n.coords, n.vel, G.vel_grad, P.den, P.pres, P.stress, P.stress_n0, P.sspd, P.sie, P.volfrac, P.geo_volfrac, G.vol, P.mass, P.eos_state_vars, P.strength_state_vars, P.eroded, P.shear_modulii, E.elem_in_mat_elem, t, dt, a, c, d.np[q], q);
                    for (size_t i = 0; i < m.num_nodes; i++) n.mass(i) = ext(i) / n.coords(i, 1); }
                return dt; });
        } else {
            SGTM3D &s = bare<SGTM3D>(); D src(3); auto place = [&](double t) { double u = t < 5 ? 100 + 20 * t : 100 + 20 * (t - 5); src(0) = u; src(1) = 150; src(2) = t < 5 ? 15 : 30; }; auto power = [](double t) { return t < 5 ? 3e6 + 2e5 * t : 4e6 - 2e5 * (t - 5); };
            s.boundary_temperature(m, B, n.temp, d.t0);
            clock(d, I, R, w, [&](int c, double t, double g, double f, double old) {
                if (c == -2) return 0.0;
                if (c == -1) { for (size_t i = 0; i < m.num_nodes; i++) n.q_transfer(i) = 0; if (d.heat) for (size_t q = 0; q < d.nm; q++) s.update_properties(A, m, n.temp, P.den, P.conductivity, P.specific_heat, E.elem_in_mat_elem, d.np[q], q); return 0.0; }
                double dt = least(old, [&](size_t q, double k) { s.get_timestep(m, n.coords, n.vel, G.vol, P.sspd, P.conductivity, P.den, P.specific_heat, P.eroded, E.elem_in_mat_elem, d.np[q], t, g, f, d.dtmax, 1e-8, d.cfl, k, fuzz, tiny, q); return k; });
                for (size_t q = 0; q < d.nm; q++) s.rk_init(n.coords, n.coords_n0, n.vel, n.vel_n0, n.temp, n.temp_n0, n.q_transfer, P.stress, 3, m.num_elems, m.num_nodes, d.np[q]);
                place(t);
                for (int k = 0; k < d.stages; k++) { double a = 1.0 / (d.stages - k); for (size_t i = 0; i < m.num_nodes; i++) n.q_transfer(i) = 0;
                    for (size_t q = 0; q < d.nm; q++) { s.get_heat_flux(A, m, G.vol, n.coords, n.temp, P.q_flux, P.conductivity, P.temp_grad, C.q_transfer, cm, P.eroded, E.elem_in_mat_elem, d.np[q], q, fuzz, small, dt, a);
                        if (d.heat) s.moving_flux(A, m, G.vol, n.coords, C.q_transfer, src, cm, E.elem_in_mat_elem, d.np[q], power(t), q, fuzz, small, dt, a); }
                    s.boundary_convection(m, B, n.temp, n.q_transfer, n.coords, t); s.boundary_radiation(m, B, n.temp, n.q_transfer, n.coords, t);
                    s.update_temperature(m, C.q_transfer, n.temp, n.temp_n0, n.mass, n.q_transfer, P.specific_heat, DS(), DS(), DS(), a, dt); s.boundary_temperature(m, B, n.temp, t); geometry::get_vol(G.vol, n.coords, m); }
                return dt; });
        }
        got.push_back({w.t, d.id, contents(S)}); want.push_back({w.t, d.id, contents(R)});
        bool bad = false;
        for (size_t i = 0; i < std::min(got.size(), want.size()) && !bad; i++) {
            bool last = i + 1 == got.size() || i + 1 == want.size(); File &a = got[i], &b = want[i]; char who[40]; snprintf(who, 40, last ? "final state" : "file %zu", i);
            if (!(fabs(a.t - b.t) < 1e-9)) { FAILF("%s: %s at time %.12g, expected %.12g", deck, who, a.t, b.t); bad = true; break; }
            if (a.id != b.id) { FAILF("%s: %s of solver %zu, expected %zu", deck, who, a.id, b.id); bad = true; break; }
            for (size_t k = 0; k < a.c.size() && !bad; k++) for (size_t j = 0; j < a.c[k].second.size() && !bad; j++) if (!close_to(a.c[k].second[j], b.c[k].second[j], 1e-6)) { FAILF("%s: %s at time %.9g: %s, entry %zu = %.12g, expected %.12g", deck, who, b.t, a.c[k].first, j, a.c[k].second[j], b.c[k].second[j]); bad = true; }
        }
        if (!bad && got.size() != want.size()) FAILF("%s: %zu files, expected %zu", deck, got.size() - 1, want.size() - 1);
    }
}
int main(int argc, char **argv) { Rnd r(atoi(argv[1])); run(r, atol(argv[2])); return DONE(); }
