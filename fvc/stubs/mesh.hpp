#pragma once
// Stand-in for the swage mesh of the ELEMENTS library (not shipped here).
#include "matar.h"
using namespace mtr;
typedef double real_t;
namespace swage {
struct CornersInElem { size_t n = 8; size_t operator()(size_t e, size_t c) const { return e * n + c; } size_t host(size_t e, size_t c) const { return e * n + c; } };
struct Mesh {
    size_t num_dims = 3, Pn = 1;
    size_t num_nodes = 0, num_elems = 0, num_nodes_in_elem = 8, num_corners = 0, num_patches = 0;
    size_t num_gauss_in_elem = 1, num_zones_in_elem = 1, num_zones = 0, num_nodes_in_patch = 4, num_nodes_in_zone = 8;
    size_t num_bdy_sets = 0, num_bdy_nodes = 0, num_bdy_patches = 0, num_patches_in_elem = 6, num_surfs = 0;
    size_t num_lob_gauss_in_elem = 8, num_leg_gauss_in_elem = 1;
    DCArrayKokkos<size_t> nodes_in_elem;
    CornersInElem corners_in_elem, gauss_in_elem;
    RaggedRightArrayKokkos<size_t> corners_in_node, elems_in_node, nodes_in_node, elems_in_elem;
    CArrayKokkos<size_t> num_corners_in_node, num_elems_in_elem, num_nodes_in_node;
    CArrayKokkos<size_t> patches_in_elem, nodes_in_patch, elems_in_patch, surfs_in_elem, patches_in_surf, surf_in_patch;
    CArrayKokkos<size_t> bdy_patches, bdy_nodes;
    RaggedRightArrayKokkos<size_t> bdy_nodes_in_set;
    DCArrayKokkos<size_t> num_bdy_nodes_in_set, num_bdy_patches_in_set;
    RaggedRightArrayKokkos<size_t> bdy_patches_in_set;
    void initialize_nodes(size_t n) { num_nodes = n; }
    void initialize_elems(size_t n, size_t d) { num_elems = n; num_dims = d; num_nodes_in_elem = d == 3 ? 8 : 4; nodes_in_elem = DCArrayKokkos<size_t>(n, num_nodes_in_elem, "nodes_in_elem"); corners_in_elem.n = num_nodes_in_elem; }
    void initialize_elems_Pn(size_t n, size_t npe, size_t, size_t, size_t d) { num_elems = n; num_dims = d; num_nodes_in_elem = npe; nodes_in_elem = DCArrayKokkos<size_t>(n, npe, "nodes_in_elem"); corners_in_elem.n = npe; }
    void initialize_corners(size_t n) { num_corners = n; }
    void build_connectivity() {}
    void init_bdy_sets(size_t n) { num_bdy_sets = n; }
};
} // namespace swage
