// the real mesh builder on random sizes, lengths, origins and angles
#include "matar.h"
#include "mesh_io.hpp"
#include "rnd.h"
#include <array>
#include <vector>
static void one(Rnd &r) {
    SimulationParameters_t sim; auto &in = sim.mesh_input; in.num_dims = r.b() ? 3 : 2; int nd = in.num_dims; bool polar = nd == 2 && r.b(); in.type = polar ? mesh_input::Polar : mesh_input::Box;
    size_t n[3] = {1, 1, 1}; for (int d = 0; d < nd; d++) { n[d] = r.i(1, r.i(0, 3) ? 4 : 9); in.num_elems[d] = n[d]; in.length[d] = r.in(0.1, 5); in.origin[d] = r.i(0, 3) ? r.in(-3, 3) : 0; }
    if (polar) { in.num_radial_elems = n[0]; in.num_angular_elems = n[1]; in.num_elems[0] = in.num_elems[1] = r.i(1, 9); in.inner_radius = r.i(0, 2) ? r.in(0, 2) : 0; in.outer_radius = in.inner_radius + r.in(0.1, 3); in.starting_angle = r.in(-90, 60); in.ending_angle = in.starting_angle + r.in(5, 180); in.origin[0] = r.in(-0.2, 3); }
    std::vector<std::array<double, 3>> X; bool neg = false, close = false;
    for (size_t k = 0; k <= (nd == 3 ? n[2] : 0); k++) for (size_t j = 0; j <= n[1]; j++) for (size_t i = 0; i <= n[0]; i++) {
        std::array<double, 3> p{0, 0, 0}; size_t q[3] = {i, j, k};
        if (polar) { double rr = in.inner_radius + (in.outer_radius - in.inner_radius) * i / n[0], th = M_PI / 180 * (in.starting_angle + (in.ending_angle - in.starting_angle) * j / n[1]); p[0] = in.origin[0] + rr * cos(th); p[1] = in.origin[1] + rr * sin(th); neg |= p[0] < -1e-12; close |= fabs(p[0]) <= 1e-12; }
        else for (int d = 0; d < nd; d++) p[d] = in.origin[d] + in.length[d] * q[d] / n[d];
        X.push_back(p); }
    char what[200]; snprintf(what, 200, "%s mesh of %zu x %zu x %zu elements", polar ? "polar" : nd == 3 ? "3D box" : "2D box", n[0], n[1], n[2]);
    BEGINF("%s", what);
    swage::Mesh m; State_t S; MeshBuilder b; bool refused = false; g_cases++;
    try { b.build_mesh(m, S.GaussPoints, S.node, S.corner, sim); } catch (std::out_of_range &e) { FAILF("%s: writes outside its arrays: %s", what, e.what()); return; } catch (std::exception &e) { refused = true; }
    if (refused) { if (!neg && !close) FAILF("%s is refused though no node has a negative radius", what); return; }
    if (neg) { FAILF("%s with a node at a negative radius is accepted", what); return; }
    if (m.num_nodes != X.size() || m.num_elems != n[0] * n[1] * n[2] || m.num_dims != nd || m.num_corners != m.num_elems * (nd == 3 ? 8 : 4)) { FAILF("%s: %zu nodes, %zu elements, %zu corners", what, m.num_nodes, m.num_elems, m.num_corners); return; }
    for (size_t g = 0; g < X.size(); g++) for (int d = 0; d < nd; d++) if (!close_to(S.node.coords.host(g, d), X[g][d], 1e-9)) { FAILF("%s: node %zu has coordinate %d = %.12g, the grid point is at %.12g", what, g, d, S.node.coords.host(g, d), X[g][d]); return; }
    for (size_t k = 0, e = 0; k < n[2]; k++) for (size_t j = 0; j < n[1]; j++) for (size_t i = 0; i < n[0]; i++, e++) for (int l = 0; l < (nd == 3 ? 8 : 4); l++) {
        size_t a = l % 2, c = l / 2 % 2; if (nd == 2 && c) a = 1 - a; size_t want = (i + a) + (j + c) * (n[0] + 1) + (k + l / 4) * (n[0] + 1) * (n[1] + 1);
        if (m.nodes_in_elem.host(e, l) != want) { FAILF("%s: corner %d of element %zu is node %zu instead of %zu", what, l, e, (size_t)m.nodes_in_elem.host(e, l), want); return; } }
}
int main(int c, char **v) {
    uint64_t seed = c > 1 ? atoll(v[1]) : 1; long n = c > 2 ? atol(v[2]) : 1000;
    for (long i = 0; i < n; i++) { Rnd r(seed * 7919 + i); one(r); }
    return DONE();
}
