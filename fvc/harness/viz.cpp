// output files written by the real mesh writer, read back
#include "matar.h"
#include "mesh_io.hpp"
#include "rnd.h"
#include "world.h"
#include <array>
#include <fstream>
#include <filesystem>
#include <map>
#include <sstream>
#include <set>
#include <unistd.h>
#include <fcntl.h>
namespace fs = std::filesystem;
typedef material_pt_state P; typedef node_state N; typedef gauss_pt_state G;
struct Vtu { bool ok = false; size_t points = 0, cells = 0; std::map<std::string, std::vector<double>> d; std::map<std::string, int> comps; std::map<std::string, std::string> where; std::string err; };
static std::string attr(const std::string &l, const std::string &a) { size_t p = l.find(" " + a + "=\""); if (p == std::string::npos) return ""; p += a.size() + 3; return l.substr(p, l.find('"', p) - p); }
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static Vtu vtu(const std::string &f) {
    Vtu v; if (!fs::exists(f)) { v.err = "there is no file " + f; return v; }
    std::string t = slurp(f), sec; size_t p = 0;
    std::vector<std::string> open;
    while ((p = t.find('<', p)) != std::string::npos) {
        size_t q = t.find('>', p); if (q == std::string::npos) { v.err = "an open tag"; return v; }
        std::string tag = t.substr(p + 1, q - p - 1), text = t.substr(q + 1, t.find('<', q) == std::string::npos ? std::string::npos : t.find('<', q) - q - 1); p = q + 1;
        if (tag[0] == '?' || tag[0] == '!') continue;
        if (tag[0] == '/') { if (open.empty() || open.back() != tag.substr(1)) { v.err = "tags are not nested: " + tag; return v; } open.pop_back(); continue; }
        std::string nm = tag.substr(0, tag.find(' ')); if (nm == "Piece") { v.points = atol(attr(tag, "NumberOfPoints").c_str()); v.cells = atol(attr(tag, "NumberOfCells").c_str()); }
        if (nm == "DataArray") {
            std::string key = attr(tag, "Name"), par = open.empty() ? "" : open.back(); if (par == "Points") key = "points"; if (v.d.count(key)) { v.err = "two arrays named " + key; return v; }
            std::stringstream s(text); std::string w; std::vector<double> &a = v.d[key]; while (s >> w) { char *e; double z = strtod(w.c_str(), &e); if (*e) { v.err = "'" + w + "' is no number"; return v; } a.push_back(z); }
            v.comps[key] = attr(tag, "NumberOfComponents").empty() ? 1 : atoi(attr(tag, "NumberOfComponents").c_str()); v.where[key] = par; }
        if (tag.back() != '/') open.push_back(nm);
    }
    if (!open.empty()) { v.err = "tag " + open.back() + " is not closed"; return v; }
    v.ok = true; return v;
}
static bool nested(const std::string &t) { // every tag closed in order
    std::vector<std::string> open; size_t p = 0; while ((p = t.find('<', p)) != std::string::npos) { size_t q = t.find('>', p); if (q == std::string::npos) return false; std::string g = t.substr(p + 1, q - p - 1); p = q + 1; if (g.empty()) return false; if (g[0] == '?' || g[0] == '!' || g.back() == '/') continue; if (g[0] == '/') { if (open.empty() || open.back() != g.substr(1)) return false; open.pop_back(); } else open.push_back(g.substr(0, g.find(' '))); } return open.empty() && !t.empty(); }
static bool same(const char *what, const Vtu &v, const std::string &key, const std::vector<double> &want, int comps, const char *where) {
    auto i = v.d.find(key); if (i == v.d.end()) { FAILF("%s: no field %s", what, key.c_str()); return false; }
    if (v.where.at(key) != where || v.comps.at(key) != comps) { FAILF("%s: field %s is in %s with %d components, not in %s with %d", what, key.c_str(), v.where.at(key).c_str(), v.comps.at(key), where, comps); return false; }
    if (i->second.size() != want.size()) { FAILF("%s: field %s has %zu values instead of %zu", what, key.c_str(), i->second.size(), want.size()); return false; }
    for (size_t k = 0; k < want.size(); k++) if (!close_to(i->second[k], want[k], 1e-12, 1.0)) { FAILF("%s: field %s: value %zu is %.15g instead of %.15g", what, key.c_str(), k, i->second[k], want[k]); return false; }
    return true;
}
template <class T> static std::vector<T> pick(Rnd &r, std::vector<T> all) { std::vector<T> o; int m = (int)r.i(0, 3); for (auto f : all) if (m == 0 || (m == 1 && r.b()) || (m == 2 && r.i(0, 4) == 0)) o.push_back(f); for (int i = (int)o.size() - 1; i > 0; i--) std::swap(o[i], o[r.i(0, i)]); return o; }
template <class T> static std::string show(const std::vector<T> &v) { std::string s; for (auto f : v) s += " " + std::to_string((int)f); return s; }
static void one(Rnd &r, long it) {
    World w(r, r.b(), r.b() ? 0 : 0.5); size_t nn = w.nn, ne = w.ne, nm = w.nm; int D = w.dims;
    if (r.i(0, 2) == 0) { // a material that is not on the mesh
        size_t q = r.i(0, nm - 1); bool last = true; for (size_t m = 0; m < nm; m++) if (m != q && w.el[m].size() == ne) last = false; if (!last) w.el[q].clear(); }
    State_t S; auto &mp = S.MaterialPoints; auto &mm = S.MaterialToMeshMaps; S.node.coords = w.x; S.node.vel = w.v; S.node.vel_n0 = w.v0; S.node.mass = w.nmass;
    S.node.temp = DCArrayKokkos<double>(nn); fill(r, S.node.temp, nn, 200, 400); S.node.gradient_level_set = DCArrayKokkos<double>(nn, D); fill(r, S.node.gradient_level_set, nn * D, -1, 1);
    S.GaussPoints.vol = w.vol; S.GaussPoints.vel_grad = w.L; S.GaussPoints.div = DCArrayKokkos<double>(ne); fill(r, S.GaussPoints.div, ne, -1, 1); S.GaussPoints.level_set = DCArrayKokkos<double>(ne); fill(r, S.GaussPoints.level_set, ne, -1, 1);
    mp.num_material_points = DCArrayKokkos<size_t>(nm); mm.num_mat_elems = DCArrayKokkos<size_t>(nm); for (size_t m = 0; m < nm; m++) mm.num_mat_elems(m) = mp.num_material_points(m) = w.el[m].size();
    mm.elem_in_mat_elem = w.eim; mp.den = w.den; mp.pres = w.pres; mp.sie = w.sie; mp.sspd = w.sspd; mp.mass = w.mass; mp.volfrac = w.vf; mp.geo_volfrac = w.geo; mp.stress = w.stress; mp.eroded = w.eroded;
    auto mk = [&](double lo, double hi) { DRaggedRightArrayKokkos<double> a(w.cnt); fill(r, a, a.st.n, lo, hi); return a; }; mp.conductivity = mk(1, 2); mp.specific_heat = mk(1, 2);
    SimulationParameters_t sim; auto &o = sim.output_options; o.format = r.i(0, 3) ? output_options::viz : r.b() ? output_options::viz_and_state : output_options::state;
    std::vector<P> allp{P::density, P::pressure, P::stress, P::sound_speed, P::specific_internal_energy, P::mass, P::thermal_conductivity, P::specific_heat}, allm = allp; allm.push_back(P::volume_fraction); allm.push_back(P::eroded_flag);
    std::vector<P> junk{P::heat_flux, P::elastic_modulii, P::shear_modulii, P::poisson_ratios}; if (r.b()) { allp.push_back(junk[r.i(0, 3)]); allm.push_back(junk[r.i(0, 3)]); if (r.b()) { allp.push_back(P::volume_fraction); allp.push_back(P::eroded_flag); } }
    std::vector<N> alln{N::coords, N::velocity, N::mass, N::temp, N::gradient_level_set}; if (r.b()) { alln.push_back(N::force); alln.push_back(N::heat_transfer); }
    std::vector<G> allg{G::volume, G::divergence_velocity, G::gradient_velocity, G::level_set};
    o.output_elem_state = pick(r, allp); o.output_mat_pt_state = pick(r, allm); o.output_node_state = pick(r, alln); o.output_gauss_pt_state = pick(r, allg);
    std::vector<P> havem = allm; std::vector<N> haven = alln; std::vector<G> haveg = allg;
    size_t sid = r.i(0, 2) ? 0 : r.i(1, 3); double dt = r.in(0.01, 2); int times = (int)r.i(1, 3); CArray<double> gt(10); MeshWriter wr;
    fs::remove_all("vtk"); fs::remove_all("state");
    bool viz = o.format != output_options::state, st = o.format != output_options::viz;
    char what[600]; snprintf(what, 600, "%dD mesh of %zu elements, %zu materials (%zu %zu %zu elements), element outputs%s, material outputs%s, nodal outputs%s, Gauss outputs%s, format %d", D, ne, nm, w.el[0].size(), nm > 1 ? w.el[1].size() : 0, nm > 2 ? w.el[2].size() : 0, show(o.output_elem_state).c_str(), show(o.output_mat_pt_state).c_str(), show(o.output_node_state).c_str(), show(o.output_gauss_pt_state).c_str(), (int)o.format);
    BEGINF("%s", what); g_cases++;
    std::vector<double> tv; std::vector<std::string> first;
    for (int g = 0; g < times; g++) {
        double t = g + r.d(); tv.push_back(t);
        for (size_t i = 0; i < nn * D; i++) w.v.host(i / D, i % D) = r.in(-1, 1);
        for (size_t m = 0; m < nm; m++) for (size_t s = 0; s < w.el[m].size(); s++) w.den(m, s) = r.in(.5, 3);
        try { wr.write_mesh(w.m, S, sim, dt, t, gt, haven, haveg, havem, sid); } catch (std::out_of_range &e) { FAILF("%s: outside an array: %s", what, e.what()); return; } catch (std::exception &e) { FAILF("%s: refused: %s", what, e.what()); return; }
        char f[200];
        auto name = [&](const std::string &p, int k, const char *ext) { snprintf(f, 200, "Fierro.solver%zu.%s%s%05d.%s", sid, p.c_str(), p.empty() ? "" : ".", k, ext); return std::string(f); };
        auto val = [&](size_t m, size_t s, P q) { return q == P::density ? mp.den(m, s) : q == P::pressure ? mp.pres(m, s) : q == P::sound_speed ? mp.sspd(m, s) : q == P::thermal_conductivity ? mp.conductivity(m, s) : q == P::specific_heat ? mp.specific_heat(m, s) : q == P::mass ? mp.mass(m, s) : q == P::specific_internal_energy ? mp.sie(m, s) : q == P::eroded_flag ? (double)mp.eroded(m, s) : 0.0; };
        std::map<P, std::string> en{{P::density, "den"}, {P::pressure, "pres"}, {P::specific_internal_energy, "sie"}, {P::sound_speed, "sspd"}, {P::mass, "mass"}, {P::stress, "stress"}, {P::thermal_conductivity, "thermal_K"}, {P::specific_heat, "Cp"}}; std::map<P, std::string> mn; for (auto &k : en) mn[k.first] = "mat_" + k.second; mn[P::eroded_flag] = "mat_eroded"; mn[P::volume_fraction] = "mat_volfrac";
        if (viz) {
            Vtu v = vtu("vtk/data/" + name("fields", g, "vtu")); if (!v.ok) { FAILF("%s: fields file: %s", what, v.err.c_str()); return; }
            std::set<std::string> names{"points", "connectivity", "offsets", "types"};
            if (v.points != nn || v.cells != ne) { FAILF("%s: %zu points and %zu cells instead of %zu and %zu", what, v.points, v.cells, nn, ne); return; }
            std::vector<double> X, C, O, T; for (size_t n = 0; n < nn; n++) for (int d = 0; d < 3; d++) X.push_back(d < D ? w.x(n, d) : 0); for (size_t e = 0; e < ne; e++) { for (int k = 0; k < w.k; k++) C.push_back(w.m.nodes_in_elem(e, k)); O.push_back((e + 1) * w.k); T.push_back(D == 3 ? 11 : 9); }
            if (!same(what, v, "points", X, 3, "Points") || !same(what, v, "connectivity", C, 1, "Cells") || !same(what, v, "offsets", O, 1, "Cells") || !same(what, v, "types", T, 1, "Cells")) return;
            for (auto q : o.output_elem_state) if (en.count(q)) {
                int c = q == P::stress ? 9 : 1; std::vector<double> a(ne * c, 0.0), mass(ne, 0.0);
                for (size_t m = 0; m < nm; m++) for (size_t s = 0; s < w.el[m].size(); s++) { size_t e = w.el[m][s]; double fr = mp.volfrac(m, s) * mp.geo_volfrac(m, s); mass[e] += mp.mass(m, s);
                    if (c == 9) for (int i = 0; i < 9; i++) a[e * 9 + i] += mp.stress(m, s, i / 3, i % 3) * fr; else a[e] += q == P::mass ? mp.mass(m, s) : q == P::specific_internal_energy ? mp.mass(m, s) * mp.sie(m, s) : val(m, s, q) * fr; }
                if (q == P::specific_internal_energy) for (size_t e = 0; e < ne; e++) a[e] /= mass[e] + 1e-20;
                names.insert(en[q]); if (!same(what, v, en[q], a, c, "CellData")) return; }
            for (auto q : o.output_gauss_pt_state) { std::vector<double> a; for (size_t e = 0; e < ne; e++) for (int i = 0; i < (q == G::gradient_velocity ? 9 : 1); i++) a.push_back(q == G::volume ? S.GaussPoints.vol(e) : q == G::divergence_velocity ? S.GaussPoints.div(e) : q == G::level_set ? S.GaussPoints.level_set(e) : w.L(e, i / 3, i % 3)); std::string nmx = q == G::volume ? "vol" : q == G::divergence_velocity ? "div" : q == G::level_set ? "level_set" : "vel_grad"; names.insert(nmx); if (!same(what, v, nmx, a, q == G::gradient_velocity ? 9 : 1, "CellData")) return; }
            for (auto q : o.output_node_state) {
                if (q == N::mass || q == N::temp) { std::vector<double> a; for (size_t n = 0; n < nn; n++) a.push_back(q == N::mass ? S.node.mass(n) : S.node.temp(n)); std::string nmx = q == N::mass ? "node_mass" : "node_temp"; names.insert(nmx); if (!same(what, v, nmx, a, 1, "PointData")) return; }
                if (q == N::coords || q == N::velocity || q == N::gradient_level_set) { std::vector<double> a, b; for (size_t n = 0; n < nn; n++) for (int d = 0; d < 3; d++) { a.push_back(d >= D ? 0 : q == N::coords ? w.x(n, d) : q == N::velocity ? w.v(n, d) : S.node.gradient_level_set(n, d)); b.push_back(d >= D ? 0 : (w.v(n, d) - w.v0(n, d)) / dt); }
                    std::string nmx = q == N::coords ? "node_coords" : q == N::velocity ? "node_vel" : "node_grad_lvlset"; names.insert(nmx); if (!same(what, v, nmx, a, 3, "PointData")) return; if (q == N::velocity) { names.insert("node_accel"); if (!same(what, v, "node_accel", b, 3, "PointData")) return; } } }
            for (auto &k : v.d) if (!names.count(k.first)) { FAILF("%s: field %s was not asked for", what, k.first.c_str()); return; }
            // materials
            bool mats = false; for (auto q : o.output_mat_pt_state) mats |= mn.count(q) > 0;
            std::set<std::string> files{name("fields", g, "vtu")};
            for (size_t m = 0; m < nm && mats; m++) {
                std::string fn = name("mat" + std::to_string(m), g, "vtu"); size_t k = w.el[m].size();
                if (k == 0) { if (fs::exists("vtk/data/" + fn)) { FAILF("%s: a file for a material that is not on the mesh", what); return; } continue; }
                files.insert(fn); Vtu u = vtu("vtk/data/" + fn); if (!u.ok) { FAILF("%s: material %zu: %s", what, m, u.err.c_str()); return; }
                std::vector<size_t> nodes; std::set<size_t> in; for (auto e : w.el[m]) for (int c = 0; c < w.k; c++) in.insert(w.m.nodes_in_elem(e, c)); nodes.assign(in.begin(), in.end());
                if (u.points != nodes.size() || u.cells != k) { FAILF("%s: material %zu: %zu points, %zu cells instead of %zu, %zu", what, m, u.points, u.cells, nodes.size(), k); return; }
                std::vector<double> &ux = u.d["points"], &uc = u.d["connectivity"]; if (ux.size() != 3 * nodes.size() || uc.size() != k * w.k) { FAILF("%s: material %zu: wrong number of coordinates or corners", what, m); return; }
                for (size_t s = 0; s < k; s++) for (int c = 0; c < w.k; c++) { size_t p = (size_t)uc[s * w.k + c], n = w.m.nodes_in_elem(w.el[m][s], c); if (p >= nodes.size()) { FAILF("%s: material %zu: a corner is no point", what, m); return; } for (int d = 0; d < 3; d++) if (!close_to(ux[3 * p + d], d < D ? w.x(n, d) : 0, 1e-12, 1e-9)) { FAILF("%s: material %zu: corner %d of its element %zu is not at the mesh node", what, m, c, s); return; } }
                std::vector<double> UO, UT; for (size_t s = 0; s < k; s++) { UO.push_back((s + 1) * w.k); UT.push_back(D == 3 ? 11 : 9); } if (!same(what, u, "offsets", UO, 1, "Cells") || !same(what, u, "types", UT, 1, "Cells")) return;
                std::set<std::string> un{"points", "connectivity", "offsets", "types"};
                for (auto q : o.output_mat_pt_state) if (mn.count(q)) { std::vector<double> a, b; int c = q == P::stress ? 9 : 1; for (size_t s = 0; s < k; s++) { if (c == 9) for (int i = 0; i < 9; i++) a.push_back(mp.stress(m, s, i / 3, i % 3)); else a.push_back(q == P::volume_fraction ? mp.volfrac(m, s) : val(m, s, q)); b.push_back(mp.geo_volfrac(m, s)); } un.insert(mn[q]); if (!same(what, u, mn[q], a, c, "CellData")) return; if (q == P::volume_fraction) { un.insert("mat_geo_volfrac"); if (!same(what, u, "mat_geo_volfrac", b, 1, "CellData")) return; } }
                for (auto &x : u.d) if (!un.count(x.first)) { FAILF("%s: material field %s was not asked for", what, x.first.c_str()); return; }
            }
            // the collection lists every output with its time, each output lists its files
            for (int k = 0; k <= g; k++) {
                std::string b = slurp("vtk/data/" + name("", k, "vtm")); if (b.empty()) { FAILF("%s: no vtm file of output %d", what, k); return; }
                if (!nested(b) || b.find("<VTKFile type=\"vtkMultiBlockDataSet\"") == std::string::npos) { FAILF("%s: the tags of the vtm file of output %d are not nested", what, k); return; } std::set<std::string> refs; for (size_t p = b.find("file=\""); p != std::string::npos; p = b.find("file=\"", p + 1)) { std::string x = b.substr(p + 6, b.find('"', p + 6) - p - 6); if (!refs.insert(x).second) { FAILF("%s: output %d lists %s twice", what, k, x.c_str()); return; } if (!fs::exists("vtk/data/" + x)) { FAILF("%s: output %d lists %s, which was not written", what, k, x.c_str()); return; } if (x.find("." + name("", k, "vtu").substr(name("", k, "vtu").size() - 9)) == std::string::npos) { FAILF("%s: output %d lists the file %s of another output", what, k, x.c_str()); return; } }
                for (auto x : files) { bool isf = x.find(".fields.") != std::string::npos, any = false; for (auto q : o.output_elem_state) any |= en.count(q) > 0; for (auto q : o.output_node_state) any |= q != N::force && q != N::heat_transfer; any |= !o.output_gauss_pt_state.empty(); snprintf(f, 200, "%05d.vtu", k); std::string y = x.substr(0, x.size() - 9) + f; if (isf && !any) { if (refs.count(y)) { FAILF("%s: output %d lists %s without fields", what, k, y.c_str()); return; } } else if (!refs.count(y)) { FAILF("%s: output %d does not list %s", what, k, y.c_str()); return; } } }
            snprintf(f, 200, "vtk/Fierro.solver%zu.pvd", sid); std::string c = slurp(f); int seen = 0; if (!nested(c) || c.find("<VTKFile type=\"Collection\"") == std::string::npos || c.find("<Collection>") == std::string::npos) { FAILF("%s: the tags of the collection are not nested", what); return; }
            for (size_t p = c.find("<DataSet"); p != std::string::npos; p = c.find("<DataSet", p + 1), seen++) { std::string l = c.substr(p, c.find('>', p) - p); if (seen > g || attr(l, "file") != "data/" + name("", seen, "vtm") || !close_to(atof(attr(l, "timestep").c_str()), tv[seen], 1e-5)) { FAILF("%s: the collection's entry %d is wrong: %s (time %g)", what, seen, l.c_str(), seen <= g ? tv[seen] : -1.0); return; } }
            if (seen != g + 1) { FAILF("%s: the collection lists %d outputs of %d", what, seen, g + 1); return; }
        } else if (fs::exists("vtk")) { FAILF("%s: graphics files are written though only the state is asked for", what); return; }
        if (st) {
            auto table = [&](const char *pre) { char q[100]; snprintf(q, 100, "state/%s_t_%6.4e.txt", pre, t); std::vector<std::vector<double>> rows; std::ifstream i(q); std::string l; while (std::getline(i, l)) { if (l[0] == '#') continue; std::stringstream s(l); std::string x; rows.emplace_back(); while (s >> x) rows.back().push_back(atof(x.c_str())); } return rows; };
            auto cmp = [&](const char *n, std::vector<std::vector<double>> a, std::vector<std::vector<double>> b) { if (a.size() != b.size()) { FAILF("%s: %s state has %zu lines instead of %zu", what, n, a.size(), b.size()); return false; } for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[i].size(); j++) if (std::isfinite(b[i][j]) && (j >= a[i].size() || !close_to(a[i][j], b[i][j], 1e-9, 1e-6))) { FAILF("%s: %s state, line %zu, column %zu: %.12g instead of %.12g", what, n, i, j, j < a[i].size() ? a[i][j] : NAN, b[i][j]); return false; } return true; };
            std::vector<std::vector<double>> E, M;
            for (size_t m = 0; m < nm; m++) for (size_t s = 0; s < w.el[m].size(); s++) { double c[3] = {0, 0, 0}; size_t e = w.el[m][s]; for (int k = 0; k < w.k; k++) for (int d = 0; d < D; d++) c[d] += w.x(w.m.nodes_in_elem(e, k), d) / w.k; M.push_back({c[0], c[1], c[2], hypot(c[0], c[1]), sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), mp.den(m, s), mp.pres(m, s), mp.sie(m, s), mp.sspd(m, s), w.vol(e), mp.mass(m, s)}); }
            for (size_t n = 0; n < nn; n++) { double c[3] = {0, 0, 0}, v[3] = {0, 0, 0}; for (int d = 0; d < D; d++) { c[d] = w.x(n, d); v[d] = w.v(n, d); } double r2 = hypot(c[0], c[1]); E.push_back({c[0], c[1], c[2], r2, sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), v[0], v[1], v[2], sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), r2 < 1e-6 ? NAN : fabs(v[0] * c[1] - v[1] * c[0]) / r2}); }
            if (!cmp("material", table("mat_pt_state"), M) || !cmp("nodal", table("node_state"), E)) return;
        }
    }
}
int main(int c, char **v) {
    uint64_t seed = c > 1 ? atoll(v[1]) : 1; long n = c > 2 ? atol(v[2]) : 200; char tmpl[] = "./vizXXXXXX"; if (!mkdtemp(tmpl) || chdir(tmpl)) return 3;
    freopen("/dev/null", "w", stderr);
    for (long i = 0; i < n; i++) { Rnd r(seed * 7919 + i); one(r, i); }
    std::string d = fs::current_path(); if (chdir("..") == 0) fs::remove_all(d);
    return DONE();
}
