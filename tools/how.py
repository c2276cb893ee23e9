"""Per-property text of DESIGN.md: (what is specified and how it is discharged, assumed/bounded remainder)"""
HOW = {
"C01": ("`voigt` of all four programs: 81 fourth-order components (expand) and 36 Voigt entries (contract) as postconditions over a symbolic input, plus frames (nothing else written, input kept). Loops have constant bounds and are executed completely.", "none beyond real arithmetic"),
"C02": ("constructor and the four conversions of `ChgBasis` in every copy. The basis constants are read from the extracted text as exact decimals; orthonormality, round trips, trace component and the fourth-order products are polynomial identities in the symbolic tensors, compared with tolerance 1e-13 on the coefficients.", "decimal constants equal the surds to 1e-13"),
"C03": ("`euler` both ways. Matrix: entries equal Rz(tm)Rx(th)Rz(ph). Angles: one unit per case (regular, th=0, th=pi), acos/atan2 by their defining equations, R orthogonal with determinant one.", "rounding (clamping of the cosine, angles next to the poles) only in the harness"),
"C04": ("`orient`: orthogonality of the increment times the old matrix, determinant, and equality with Rodrigues' formula for the spin vector, for the regular branch; for small spins first order, as documented in the code.", "spins below 1e-6 to first order"),
"C05": ("`determinant33`, `matrix_exp`, `invert_matrix` (n=1..3 every pivot path), `solve_linear_system` (n=1..3 every pivot path), `PowIntExpo` (-17..17 and chosen larger exponents): A*inv=I, A*x=b, failure flag exactly when the determinant is zero.", "orders 4..12 are bounded (harness, residual test)"),
"C06": ("`defgrad_dcmp`: generic loop contract for the Newton iteration (every step is the scaled mean of iterate and inverse transpose, callee contracts for `invert_matrix` and the norm); algebraic lemmas show the step keeps the polar factor; postcondition V R = F, V symmetric, R within tolerance orthogonal at the stop, F kept.", "convergence within the iteration limit is bounded (harness)"),
"C07": ("`vm`, `vm_stress`: value squared equals 2/3 (3/2) times the deviator squared and is non-negative; inputs framed; result type is the working precision.", "none beyond real arithmetic"),
"C11": ("`get_vol_hex`, `get_bmatrix` (three directions), `get_bmatrix2D`, `get_area_quad`, `get_vol_quad`, `heron`, `get_area_weights2D`, and the drivers `get_vol` over an arbitrary element of an arbitrary mesh. The hexahedron volume is compared with the trilinear integral expanded exactly; the normals with its partial derivatives.", "heron under its squared-area contract in the corner areas"),
"C12": ("`get_velgrad`, `get_divergence`, `decompose_vel_grad` (3D, RZ): region contract of the element loop; normals and areas by the contracts C11 proves.", "normals/areas by contract"),
"C13": ("`get_force`, `update_velocity`, corner/nodal zeroing in 3D and RZ. Per corner postcondition over an arbitrary material element; eroded branch frame; the nodal sum by an inductive accumulation contract (sum over any number of corners), induction obligations discharged.", "dissipation model by contract (its effect is one of its arguments); mesh invariant: corners of an element are distinct"),
"C14": ("`update_energy`, `update_position`, `rk_init`, the domain tallies (3D, RZ, thermal). The energy/kinetic balance is a lemma over both contracts. Tallies: each parallel reduction adds the summand for an arbitrary index over the complete range.", "reductions assumed to add every index once (Kokkos)"),
"C15": ("`get_timestep` of the four solvers: reduction contract (result is at most every element's limit and is one of them or the start value), clamping, output and end limits, full range.", "min reductions assumed to visit every index once (Kokkos)"),
"C16": ("the four MARS models and the empty model: corner force equals impedance * (mean - corner velocity); impedance, limiter and neighbour minimum (inductive minimum contract over any number of neighbours); lemmas: sum zero, power non-positive, zero in common motion.", "cut points name intermediate values; the cuts themselves are obligations"),
"C17": ("each EOS/erosion model against its formula; `update_state`, `update_stress` (3D, RZ), the initial fill `init_state_vars`: models as uninterpreted functions through the material's own function pointer; order (erosion after pressure) by the stress/pressure postconditions in all four pairings.", "user-defined/host models are outside"),
"C18": ("the seven velocity models against projection formulas and time window; drivers `boundary_velocity(_rz)`: the model of every set is called once for every node of the set with the set's own parameters (ghost array of applications), for this solver's sets only.", "nodes of a set are distinct (established by C24)"),
"C19": ("the stress models against the symmetric traction; driver `boundary_stress`: area vector exact for warped quadrilaterals, quarter per node, only this solver's sets.", "nodes of a patch are distinct (mesh invariant)"),
"C20": ("zeroing, `calc_corner_mass`, `calc_corner_mass_rz`, `calc_node_mass`, the RZ extensive mass and `calc_node_areal_mass_rz` with inductive sums/maxima over corners and neighbours.", "corner areas by contract C11"),
"C21": ("`get_heat_flux`, `moving_flux`, `update_temperature` (nested inductive sums), `update_properties`, position, step start, constant-temperature model and driver, convection and radiation drivers.", "one material per element, as the solver assumes (see observations); normals by contract C11"),
"C25": ("`Table_t::linear_interpolation` (host and device): generic loop invariant `the argument lies above every row passed`, any number of rows, early return proved at the return; falling out of the loop proved impossible. Tool path and property functions by the lookup's contract.", "the property file reader is bounded (harness writes random files and reads them back)"),
"C30": ("every `FOR_ALL`/`FOR_REDUCE`/team loop of the application (found in the syntax tree of 7 groups of sources, so new loops are covered) is executed from an arbitrary state for one arbitrary iteration; the frame (the footprint of reads and writes with path conditions, through every called function) is compared with that of a second arbitrary iteration: z3 proves the indices differ, from the injectivity of the mesh and material tables. Reductions: contribution independent of the accumulator. Models: footprint contract checked on every model the parser can select.", "tables that list elements/corners/boundary nodes once; host-only models (called in serial loops) excluded; harness runs the loops in order and from a common snapshot and compares"),
"C22": ("`fill_geometric_region` for every region kind (2D and 3D, one arbitrary element and fill), `get_region_scalar` for the volume fraction, `append_fills_in_elem` with a search invariant over any number of slots, the nest of `fill_regions` (elements, fills in order, node painting) by a generic contract of the fill loop: `the value is that of the last fill passed that holds`, `the material points` loop over an arbitrary material and point.", "floor/ceil by their integer axioms; the voxel file reader is bounded (harness); radial forms of scalar fields besides the volume fraction excluded"),
"C24": ("`check_bdy` for the five surfaces in 2D and 3D (invariant over any number of nodes: count equals nodes passed unless one is off), `tag_bdys` (ghost numbering of the patches on the surface; each is kept at its number, as many are kept as exist), `build_boundry_node_sets` (nested invariants: marks, no node saved twice, each saved node comes from a patch of the set, each node of the set is saved; ghost witnesses for the existence claims), the copies into the mesh's lists.", "new ragged arrays start with empty rows (array library)"),
"C29": ("every reader (`parse_mesh_inputs`, `parse_dynamic_options`, `parse_output_options`, `parse_solver_input`, `parse_bcs`, `parse_regions`, `parse_materials`, `parse_multimaterial_options`) and `parse_yaml`. The body of the loop over a block's words is executed for every documented word, every documented value of it, and for a word and a value that are none of them, from a state in which everything the loop can change is unknown: the stores must be exactly those the word names (frame), a wrong word must end in an exception; by induction over the words this holds for any deck. Loops over blocks are executed for one arbitrary block. The option tables (`std::map`) and default field values are read from their initialisers; the parallel copies by region contracts.", "contracts: YAML tree, `std::vector/map/find`, `validate_inputs`, text-to-number lists, table file reader (C25); the harness reads random decks with all of these real"),
"C23": ("`build_3d_box`, `build_2d_box`, `build_2d_polar`, `get_id`, `build_mesh`: an arbitrary ghost grid point (or cell) and its number; the invariant of every loop of the nest says its coordinates (corners) are stored if it comes before the counters in the order of the loops, so later iterations must not overwrite it (the numbering is injective: lemmas by z3 for any sizes). Refusals (throws) inside the loops are proved to happen only for a node at a negative radius, and acceptance implies no node has one.", "the mesh library's set-up calls are contracts (sizes passed and order checked); integer products do not overflow; cos/sin uninterpreted"),
"C10": ("`concatenate_elem/mat/nodal_fields`: for every output kind the row and array written and the value at an arbitrary element, node or material element (all other entries framed); `write_mesh` in every format: the lists of outputs by a loop over an arbitrary subset in any order (contracts for the callees record what they are given), names and rows pair up, counts, sizes, materials with elements only, output numbers and times; `write_vtu`, `write_vtm`, `write_pvd`, `write_material_point_state` as text: each file is a term of literals, printed values and loops, compared piece by piece with the format for any sizes; `build_material_elem_node_lists` by region contracts and an inductive numbering invariant.", "strings of at most the buffers' sizes; stdio prints what it is given; the harness writes and reads back real files; ensight and the old vtk writer (to be dropped, say the sources) and high order are excluded"),
"C31": ("`execute` of the three solvers: the state's arrays are versions, a kernel is a function of the versions and numbers it is given (its frame: the arguments it writes), a loop over materials or stages is a fold over the versions it changes, with any number of iterations, and the loop over cycles is entered at one arbitrary cycle. The term of every array after the cycle equals the term of the cycle the property describes (structural equality of folds); clock, end time, last cycle, output condition in both directions, the next output time and the state written are implications over the path conditions.", "which arguments a kernel writes is a table (the kernels' own contracts are C11-C21, C16, C17); contact, fracture and preload are off; the path of the source is a function of time (C25)"),
"C32": ("`Driver::initialize` for both mesh sources: the record of calls equals the one the property describes, with the data every call is given; its loop over the solver list by the invariant `as many solvers as entries passed`, one arbitrary entry for each method (a new solver of the named class, initialized, numbered and added once) and for any other method (refused); `setup`, `execute`, `finalize` for one arbitrary solver; `setup_solver_vars` in its five instances: start, end, number and heat source flag as implications over arbitrary entries; `main`.", "`std::vector` and `new` by contract; the path of the mesh file is bounded (harness: real `std::filesystem`)"),
}
