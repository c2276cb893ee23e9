#pragma once
#include "mp.h"
#include "sgh_solver_3D.hpp"
#include "sgh_solver_rz.hpp"
#include "material.hpp"
#include "state.hpp"
#include "geometry_new.hpp"

// the kernels under test use no data member of their solver
template <class T> static T &bare() { static char *b = (char *)calloc(1, sizeof(T)); return *(T *)b; }

// a random mesh with up to three materials, several of them in one element
struct World {
    bool rz; int dims, k; size_t nn, ne, nm;
    swage::Mesh m; DCArrayKokkos<double> x, v, v0, vol, L, nmass, nforce, cforce;
    std::vector<std::vector<size_t>> el; // elements of each material
    CArrayKokkos<size_t> cnt, ccnt, six;
    DRaggedRightArrayKokkos<size_t> eim;
    DRaggedRightArrayKokkos<bool> eroded;
    DRaggedRightArrayKokkos<double> den, sie, sie0, pres, sspd, vf, geo, mass, stress, mcf;
    Material_t M; corners_in_mat_t cim;
    World(Rnd &r, bool rz_, double r0, int big = 2) : rz(rz_), dims(rz_ ? 2 : 3), k(rz_ ? 4 : 8), cim(rz_ ? 4 : 8) {
        if (r.i(0, 7) == 0) fan_mesh(r, m, x, (int)r.i(5, 11), rz ? 0 : (int)r.i(1, 2), r0); else
        if (rz) rnd_mesh2(r, m, x, (int)r.i(1, big + 1), (int)r.i(1, big + 1), r0, 0.15); else rnd_mesh3(r, m, x, (int)r.i(1, big), (int)r.i(1, big), (int)r.i(1, big), 0.15);
        nn = m.num_nodes; ne = m.num_elems; nm = r.i(1, 3);
        v = DCArrayKokkos<double>(nn, dims); v0 = DCArrayKokkos<double>(nn, dims); fill(r, v, nn * dims, -1, 1); fill(r, v0, nn * dims, -1, 1);
        vol = DCArrayKokkos<double>(ne); geometry::get_vol(vol, x, m);
        L = DCArrayKokkos<double>(ne, 3, 3); fill(r, L, ne * 9, -1, 1); if (rz) for (size_t e = 0; e < ne; e++) L(e, 0, 2) = L(e, 2, 0) = L(e, 1, 2) = L(e, 2, 1) = 0;
        nmass = DCArrayKokkos<double>(nn); fill(r, nmass, nn, .5, 3);
        nforce = DCArrayKokkos<double>(nn, dims); fill(r, nforce, nn * dims, -1, 1);
        cforce = DCArrayKokkos<double>(ne * k, dims); fill(r, cforce, ne * k * dims, -1, 1);
        el.resize(nm); std::vector<std::vector<double>> w(nm);
        for (size_t e = 0; e < ne; e++) { size_t a = r.i(0, nm - 1); for (size_t q = 0; q < nm; q++) if (q == a || r.b()) el[q].push_back(e); }
        for (auto &q : el) for (int i = (int)q.size() - 1; i > 0; i--) std::swap(q[i], q[r.i(0, i)]);
        cnt = CArrayKokkos<size_t>(nm); ccnt = CArrayKokkos<size_t>(nm); six = CArrayKokkos<size_t>(nm); size_t extra = r.i(0, 2);
        for (size_t q = 0; q < nm; q++) { cnt(q) = el[q].size() + extra; ccnt(q) = cnt(q) * k; six(q) = 6; }
        auto mk = [&](double lo, double hi) { DRaggedRightArrayKokkos<double> a(cnt); fill(r, a, a.st.n, lo, hi); return a; };
        eim = DRaggedRightArrayKokkos<size_t>(cnt); eim.set_values(0); for (size_t q = 0; q < nm; q++) for (size_t s = 0; s < el[q].size(); s++) eim(q, s) = el[q][s];
        eroded = DRaggedRightArrayKokkos<bool>(cnt); int er = (int)r.i(0, 3); for (size_t q = 0; q < nm; q++) for (size_t s = 0; s < cnt(q); s++) eroded(q, s) = er == 0 && r.b();
        den = mk(.5, 3); sie = mk(0, 2); sie0 = mk(0, 2); pres = mk(-1, 3); sspd = mk(.1, 2); vf = mk(0.05, 1); geo = mk(0.05, 1); mass = mk(.5, 2);
        stress = DRaggedRightArrayKokkos<double>(cnt, 3, 3); fill(r, stress, stress.st.n, -2, 2);
        mcf = DRaggedRightArrayKokkos<double>(ccnt, dims); fill(r, mcf, mcf.st.n, -1, 1);
        M.num_mats = nm; M.MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(nm); M.MaterialEnums = DCArrayKokkos<MaterialEnums_t>(nm);
        M.dissipation_global_vars = RaggedRightArrayKokkos<double>(six); M.dissipation_global_vars.set_values(0);
        for (size_t q = 0; q < nm; q++) M.MaterialEnums(q).EOSType = r.b() ? model::decoupledEOSType : model::coupledEOSType;
    }
    void nodes(size_t e, double *X) { for (int c = 0; c < k; c++) for (int d = 0; d < dims; d++) X[c * dims + d] = x(m.nodes_in_elem(e, c), d); }
    double B(size_t e, int c, int d) { double X[24]; nodes(e, X); if (!rz) return (double)hex_gradient((double(*)[3])X, c, d); int p = (c + 1) % 4, q = (c + 3) % 4; return d == 0 ? 0.5 * (X[2 * p + 1] - X[2 * q + 1]) : 0.5 * (X[2 * q] - X[2 * p]); }
    double area(size_t e) { double X[24]; nodes(e, X); return (double)quad_area((double(*)[2])X); }
    double carea(size_t e, int c) { double X[24]; nodes(e, X); double g[2] = {0, 0}; for (int i = 0; i < 8; i++) g[i % 2] += X[i] / 4; double t[4]; for (int i = 0; i < 4; i++) { int j = (i + 1) % 4; t[i] = fabs((double)tri_area(X[2 * i], X[2 * i + 1], X[2 * j], X[2 * j + 1], g[0], g[1])); } return (5 * t[c] + 5 * t[(c + 3) % 4] + t[(c + 1) % 4] + t[(c + 2) % 4]) / 12; }
};

