"""Properties and manifest entries; tools/gen.py writes properties.jsonl and MANIFEST.json from here."""
MI = "apps/micromechanics/{EVPFFT,LS-EVPFFT,LS-EVPFFT-J2,LSNP-EVPFFT}/src"
APPS = ["EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT"]


def mi(f, apps=APPS):
    return ["apps/micromechanics/%s/src/%s" % (a, f) for a in apps]


P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), level="proof", note="", state=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, level=level, note=note, state=state, technique=technique))


T1 = "contract-based deductive verification: weakest-precondition style symbolic execution of the functions extracted from the current source by a clang plugin, obligations discharged by exact rational-function algebra, z3 and cvc5; bounded replay harness on the compiled code"

prop("C01", "Voigt and full-tensor stiffness forms agree",
     "Expanding a symmetric 6x6 stiffness into a fourth-order tensor puts every Voigt entry at all its minor-symmetric positions, and contracting it back returns the same 6x6 matrix. Nothing else is written and the source form is left as it was.",
     "every 6x6 matrix and every component", "No test builds the micromechanics kernels; the mapping has 81 components per option and four copies.",
     mi("voigt.cpp"), [("index map", "voigt")], note="all four copies, every component, no bound")
prop("C02", "Symmetric tensor basis is orthonormal and loses nothing",
     "Converting a symmetric second-order tensor to five or six basis components and back is exact, preserves the norm, and the sixth component is the trace over the square root of three. Fourth-order tensors convert both ways without loss, and converting first and multiplying gives the same as contracting first and converting.",
     "every symmetric tensor, every fourth-order tensor, both basis sizes", "No test covers the basis; samples of symmetric stiffnesses miss transpositions.",
     mi("chg_basis.cpp"), [("basis and its four conversions", "ChgBasis")], note="all four copies, exact arithmetic over Q(sqrt2,sqrt3)")
prop("C03", "Euler angles and rotation matrices convert both ways",
     "The matrix built from three Bunge angles is the rotation Rz(tm) Rx(th) Rz(ph), and the angles taken from any rotation matrix are finite, in range and rebuild that matrix. At the two singular second angles the in-plane rotation is kept in the first angle.",
     "every angle triple and every rotation matrix, including those a rounding error away from aligned axes", "No test covers it; the singular cases and rounding past one need particular inputs.",
     mi("euler.cpp"), [("both directions", "euler")], note="acos/atan2 are characterised by their defining equations; rounding is covered by the bounded harness")
prop("C04", "Reorientation keeps crystal orientations proper rotations",
     "Updating a crystal orientation by an antisymmetric spin increment multiplies it by the proper rotation about the spin axis through the spin magnitude, so an orthogonal matrix stays orthogonal with the same determinant. The increment itself is unchanged.",
     "every rotation matrix and every spin increment with magnitude below pi", "No test covers it; drift shows only over long histories.",
     mi("orient.cpp"), [("Rodrigues update", "orient")], note="increments below 1e-6 are followed to first order, as the code documents")
prop("C05", "Small dense linear algebra is exact or reports failure",
     "Inverting a matrix gives its inverse and solving a linear system gives its solution whenever the matrix is regular; failure is reported exactly when it is singular. Determinant, truncated matrix exponential and integer powers equal their definitions.",
     "every matrix of order 1 to 3 (every pivoting path); order 6 inverse, order up to 12 systems within the bounded harness; every base with exponents -17..17 and selected larger ones", "No test covers it; zero pivots and negative pivots need particular matrices.",
     mi("math_functions.cpp") + mi("math_functions.h") + mi("determinant33.cpp", APPS[1:]) + mi("matrix_exp.cpp", APPS[1:]), [("Gauss-Jordan inverse", "invert_matrix"), ("Gaussian elimination", "solve_linear_system"), ("determinant", "determinant33"), ("exponential", "matrix_exp"), ("integer power", "PowIntExpo")])
prop("C06", "Polar decomposition splits stretch from rotation",
     "The left stretch and rotation computed from an invertible deformation gradient multiply back to it, the rotation is orthogonal to the convergence tolerance and the stretch is symmetric. The deformation gradient is unchanged.",
     "every invertible deformation gradient; convergence within the iteration limit on the sampled range", "No test covers it; whether the factors are right depends on the stopping rule and the number of iterations.",
     mi("defgrad_dcmp.cpp", APPS[1:]), [("scaled Newton iteration", "defgrad_dcmp")], note="loop contract for the Newton iteration: each step is the scaled mean of the iterate and its inverse transpose; lemmas show that keeps the polar factor; convergence is bounded")
prop("C07", "Equivalent stress and strain are the von Mises norms",
     "The equivalent strain of any velocity gradient is the square root of two thirds of its deviatoric symmetric part squared, and the equivalent stress of any symmetric stress is the square root of three halves of its deviator squared, in full working precision. Inputs are unchanged.",
     "every 3x3 tensor", "No test covers it; precision loss needs large or nearly hydrostatic stresses.",
     mi("vm.cpp"), [("strain norm", "vm"), ("stress norm", "vm_stress")])
MP = "apps/multiphysics/src/"
prop("C11", "Element volumes and corner normals are exact",
     "In the multiphysics code the volume given to an element is the exact integral over its trilinear hexahedron (or, axisymmetric, of the radius over its quadrilateral), never below the tiny floor, and every element of the mesh gets its own. The corner normals are the exact derivatives of that volume (or area) with respect to the corner positions, and the axisymmetric corner areas are the 5/12-1/12 split of the four centre triangles, summing to the area.",
     "every hexahedron and quadrilateral, distorted or inverted, and every mesh size", "No test builds the solver; the formulas have hundreds of signed products and hold on cubes even when some are wrong.",
     [MP + "common/src/geometry_new.cpp"], [("volume and normal kernels", "geometry::")], note="triangle areas enter by the contract of the triangle-area function, itself proved as a statement on its square")
prop("C12", "Velocity gradients are exact for linear motion",
     "In the multiphysics hydrodynamic solvers the velocity gradient of an element is the velocity-weighted sum of the corner normals over the volume (plane area, axisymmetric), so a linear velocity field returns its own gradient; the hoop rate is the mean radial velocity over the mean radius. The divergence is the trace of that gradient, and the split into rate of deformation and spin is its symmetric and antisymmetric part.",
     "every mesh, element shape and velocity field", "No test builds the solver; wrong products vanish on uniform motions and cubes.",
     [MP + "Solvers/SGH_solver_3D/src/momentum.cpp", MP + "Solvers/SGH_solver_rz/src/momentum_rz.cpp"], [("3D gradient and divergence", "SGH3D::"), ("axisymmetric gradient and divergence", "SGHRZ::")], note="normals, areas by contract of the geometry kernels (C11)")
prop("C13", "Corner forces and velocity updates conserve momentum",
     "In the multiphysics hydrodynamic solvers each corner receives from every material its inward normal times the total stress plus the dissipative force (and the axisymmetric hoop terms), weighted by the material's volume fractions; an eroded material adds nothing and takes nothing from the others. In 3D an element's corner forces sum to zero when the dissipative forces do. The velocity of a node changes by the step times the sum of its corner forces (and applied and contact forces) over its mass.",
     "every mesh, number and order of materials, stress, node connectivity", "No test builds the solver; an omitted corner or material shows only in slow drifts of momentum.",
     [MP + "Solvers/SGH_solver_3D/src/force_sgh.cpp", MP + "Solvers/SGH_solver_rz/src/force_sgh_rz.cpp", MP + "Solvers/SGH_solver_3D/src/momentum.cpp", MP + "Solvers/SGH_solver_rz/src/momentum_rz.cpp", MP + "Solvers/SGH_solver_3D/src/sgh_execute.cpp", MP + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp"],
     [("corner forces", "get_force"), ("velocity", "update_velocity")], note="accumulation loops by an inductive summation contract, any node valence; viscosity model behind its contract")
prop("C14", "Internal plus kinetic energy is conserved step by step",
     "In the multiphysics hydrodynamic solvers a material's internal energy changes by minus the step times the power of its own corner forces at the mean of the old and new velocities (times the radius, axisymmetric), over its mass, so it loses exactly what its nodes gain; positions advance with that same mean velocity and radii stay non-negative. The copies made at the start of a step are exact. The reported energy and mass totals count every material point and node once.",
     "every mesh, force, velocity, mass and step", "No test builds the solver; an inconsistent velocity or force shows only as a slow energy drift.",
     [MP + "Solvers/SGH_solver_3D/src/" + f for f in ("energy_sgh.cpp", "position.cpp", "time_integration.cpp", "sgh_execute.cpp")] + [MP + "Solvers/SGH_solver_rz/src/" + f for f in ("energy_sgh_rz.cpp", "position_rz.cpp", "time_integration_rz.cpp", "sgh_execute_rz.cpp")],
     [("energy", "update_energy"), ("motion", "update_position"), ("step start", "rk_init"), ("totals", "sum_domain_")], note="element power over all corners, any mesh; lemmas combine it with the velocity update of C13")
prop("C15", "Time steps obey every stability and output limit",
     "In the multiphysics solvers a new time step is the smallest of 1.1 times the old one, every element's own limit (Courant number times the shortest node distance over the wave or front speed; for heat conduction 0.3 h^2/(6 alpha), at most 1; eroded points impose none) clamped between the given minimum and maximum, and the time left to the next output and to the end. No element is left out, however large its material.",
     "every mesh, element shape, material subset and clock position", "No test builds the solvers; the smallest of 28 distances of one element in a large mesh decides.",
     [MP + "Solvers/" + f for f in ("SGH_solver_3D/src/time_integration.cpp", "SGH_solver_rz/src/time_integration_rz.cpp", "SGTM_solver_3D/src/time_integration.cpp", "level_set_solver/src/time_integration.cpp")],
     [("time step", "get_timestep")], note="the parallel minimum is decided from one generic iteration; any number of elements")
prop("C16", "Shock viscosity dissipates and conserves momentum",
     "The multiphysics MARS viscosity models (plain and directional, 3D and axisymmetric) push each corner of an element toward the impedance-weighted mean velocity, so their forces on an element sum to zero, never add mechanical energy and vanish in a common motion. The impedance is density times (linear coefficient times sound speed plus quadratic coefficient times speed relative to the mean) times the corner area, with the compression or expansion coefficients; the limiter lies between its floor and one and uses the smallest divergence ratio of all neighbours and the size of the vorticity.",
     "every element, velocity field, neighbour count and coefficient set", "No test builds the solver; a wrong limiter or coefficient changes shocks only slightly.",
     [MP + "material_models/artificial_viscosity/mars.hpp", MP + "material_models/artificial_viscosity/no_dissipation.hpp"],
     [("viscosity", "calc_dissipation")], note="neighbour loop by an inductive minimum contract, any number of neighbours")
prop("C17", "Pressure, density and erosion follow the material's state",
     "In the multiphysics hydrodynamic solvers every material point's density is its mass over the part of the element volume it occupies (element volume times both volume fractions), and pressure, sound speed and stress come, from the start on, from the material's own models evaluated with that density; an eroded point keeps no pressure or stress. The linear elastic, gamma law and void equations of state and the erosion thresholds equal their formulas, a point fails at or below either threshold, and once eroded it stays eroded.",
     "every mesh, material mix, model pairing, density and energy; every erosion history", "No test builds the solver; the branches differ between model pairings and only multi-material elements tell them apart.",
     [MP + "material_models/eos/" + f for f in ("elasticity.hpp", "gamma_law_eos.hpp", "void_eos.hpp", "no_eos.hpp")] + [MP + "material_models/erosion/" + f for f in ("basic_erosion.hpp", "no_erosion.hpp")] + [MP + "Solvers/SGH_solver_3D/src/properties.cpp", MP + "Solvers/SGH_solver_rz/src/properties_rz.cpp", MP + "common/src/region_fill.cpp"],
     [("equations of state", "calc_pressure"), ("state update", "update_state"), ("stress update", "update_stress"), ("erosion", "erode")], note="models enter the state update by contract (function pointers); each shipped model is proved against its formula separately")

prop("C18", "Velocity boundary conditions impose the velocity asked for",
     "In the multiphysics hydrodynamic solvers (3D and axisymmetric) every velocity boundary condition of a solver is applied to every node of its boundary set and to no other. A constant condition sets the velocity to its values, a fixed one to zero; a reflected, piston or time-varying one replaces only the part of the velocity along its direction (of any sense, tilt or length) by zero, by the polynomial or by the decaying speed, keeps the part across it, and acts from its start to its end time, both included. The other conditions leave the velocity alone.",
     "every direction, velocity, time, number of sets, solvers and nodes", "No test builds the solvers, and shipped inputs use positive axis directions and one solver only.",
     [MP + "boundary_conditions/velocity/" + f + "_velocity_bc.hpp" for f in ("constant", "zero", "no", "user_defined", "reflected", "piston", "time_varying")] + [MP + "Solvers/SGH_solver_3D/src/boundary.cpp", MP + "Solvers/SGH_solver_rz/src/boundary_rz.cpp"],
     [("models", "velocity"), ("drivers", "boundary_velocity")], note="the drivers call the models by contract (function pointers); mesh invariants: the nodes of a set are distinct")
prop("C19", "Stress boundary conditions load the boundary with the stress asked for",
     "In the multiphysics 3D hydrodynamic solver each patch of a stress boundary set adds to each of its nodes a quarter of the stress times the patch's area vector (exact for warped quadrilaterals), so the whole patch receives the traction on its area, and no other node is loaded. The stress is the symmetric tensor given (xx, yy, zz, yz, xz, xy), for a time-varying condition decayed exponentially from its start time and absent before its start or after its end.",
     "every patch shape, stress tensor, time, number of sets, solvers and patches", "No test builds the solvers; shear components and warped faces are not in the examples.",
     [MP + "boundary_conditions/stress/" + f + "_stress_bc.hpp" for f in ("constant", "time_varying", "user_defined")] + [MP + "Solvers/SGH_solver_3D/src/boundary.cpp"],
     [("models", "stress"), ("driver", "boundary_stress")], note="the driver calls the models by contract (function pointers); mesh invariant: the nodes of a patch are distinct")

prop("C20", "Corner and nodal masses add up to the material masses",
     "In the multiphysics solvers the corner masses of an element start from zero and add up to the masses of all materials in it (3D: an eighth each; axisymmetric: density times corner area times the part of the element the material occupies), and a node carries exactly the sum of its corners. Axisymmetric nodes keep their true mass (areal mass times radius at the start) while they move: off the axis the areal mass is the true mass over the radius, on the axis half the largest areal mass of the off-axis neighbours.",
     "every mesh, valence, material mix and motion", "No test builds the solvers; shared elements and axis nodes are rare in examples.",
     [MP + "common/src/region_fill.cpp", MP + "Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp", MP + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp"],
     [("corner masses", "calc_corner_mass"), ("nodal masses", "calc_node_mass"), ("areal masses", "calc_node_areal_mass_rz")], note="sums over a node's corners and neighbours by one arbitrary iteration (induction); corner areas by the contract proved in C11")

prop("C21", "Heat conduction moves heat down the temperature gradient",
     "In the multiphysics thermal solver the heat flux of a material point is minus its conductivity times its element's temperature gradient; its corners receive the flux through their normals, so an element creates no heat, and elements within radius 8 of the moving source take an eighth of power density times volume per corner. A node's temperature advances from the step start by the step times all rates over mass times mean specific heat of the elements around it. Fixed-temperature nodes keep the given temperature, convective and radiating patches lose 100(T-293.15) and 0.2 sigma T^4 times a quarter of their area per node, and properties come from the material's own property functions at the element's mean temperature.",
     "every mesh, number of materials (one per element), temperatures, source position, mix of boundary sets", "No test builds the solver; several materials, warped patches and two-stage steps tell the wrong indices apart.",
     [MP + "Solvers/SGTM_solver_3D/src/" + f + ".cpp" for f in ("heat_flux", "temperature_sgtm", "position", "properties", "time_integration", "boundary")] + [MP + "boundary_conditions/temperature/constant_temp_bc.hpp"],
     [("heat flux and source", "SGTM3D::get_heat_flux"), ("temperature", "update_temperature"), ("surface exchange", "boundary_convection")], note="normals by the contract proved in C11; models called by contract (function pointers); sums over a node's corners by an inductive summation contract")

prop("C25", "Property tables and tool paths are interpolated linearly",
     "In the multiphysics code a lookup in a table of any size returns the first or last row's value outside the table and otherwise the value on the straight line between the two rows around the argument (a step takes the value before it), on host and device alike, for whichever columns are asked for. The tool position and power are the x, y, z and power columns at the time, and each material property is its table's value at the temperature. Reading a material property file gives the first block of the keyword asked for, all rows, as temperature then value, and reports a missing file, a missing block and rows of unequal length.",
     "every table size, value, step and file layout", "No test builds these headers; clamping, steps and file layouts are not in the examples.",
     [MP + "common/include/table.hpp", MP + "common/include/additive_data.hpp", MP + "material_models/tabular/include/tabular_material_model.hpp", MP + "input/read_abaqus_files.cpp", MP + "common/include/string_utils.hpp"],
     [("lookup", "Table_t::linear_interpolation"), ("tool path", "ToolPathInfo"), ("file", "read_tabular_jmatpro_file")], note="the search loop by an inductive invariant, any number of rows; the file reader by the bounded harness only")

prop("C30", "Parallel loops give the same result in any order of their iterations",
     "In the multiphysics application no data-parallel loop depends on the order, or the overlap in time, in which its iterations run: a value one iteration writes is not read or written by another, except for accumulations made atomically and flags that everybody sets to the same constant. Values reduced over a loop receive one contribution per iteration that does not depend on the others, combined by a sum, minimum or maximum. A material or boundary model called inside such a loop touches only the entries of the point or node it is called for.",
     "every schedule of every parallel loop, every mesh, number of materials and boundary sets", "No test builds these loops, and a serial build runs every loop in the same order.",
     [MP + "common/src/geometry_new.cpp", MP + "common/src/region_fill.cpp", MP + "common/include/mesh_io.hpp", MP + "Solvers", MP + "input", MP + "material_models", MP + "boundary_conditions"],
     [("hydrodynamics", "SGH3D::get_force"), ("fills", "fill_regions"), ("output", "concatenate_nodal_fields"), ("heat", "SGTM3D::boundary_convection")], over=("schedules", "inputs"), note="mesh and material tables that list things once are assumed to do so (listed with the evidence); function-pointer models are replaced by footprint contracts, which each model registered by the input parser is checked against")

prop("C22", "Region fills put the materials and fields asked for where they belong",
     "In the multiphysics code an element is filled by a region exactly when its centre lies in the region's volume: everywhere, a box, a cylindrical or spherical shell about the region's origin, the voxel holding the centre has value 1, or the part number matches. Fills apply in input order: a full one replaces what was in the element, a partial one adds its material next to the others and replaces an earlier fill of the same material. Every material in an element carries the volume fraction (clipped to 0..1) and the fields of its own last fill, evaluated at the element's centre, its mass being density times its share of the volume; nodes carry the velocity and temperature of the last fill around them.",
     "every mesh, region, number and order of fills, number of materials, number of dimensions", "No test builds the fills; overlapping partial fills, off-centre origins and 2D meshes are rare in examples.",
     [MP + "common/src/region_fill.cpp", MP + "common/include/region.hpp", MP + "common/include/mesh_io.hpp"],
     [("membership", "fill_geometric_region"), ("fills", "fill_regions"), ("materials of an element", "append_fills_in_elem"), ("material points", "user_voxel_init")],
     note="the element loop's fills by an inductive invariant over any number of fills; radial forms of scalar fields other than the volume fraction are excluded (documented ambiguously)")

prop("C24", "Boundary sets hold exactly the patches on their surface",
     "In the multiphysics code a boundary patch belongs to the set of a boundary condition exactly when all its nodes lie within the tolerance of the set's surface: a plane at its position along x, y or z, a cylindrical shell about the origin in x and y, or a spherical shell about the origin (on 2D meshes the third coordinate is zero). Every such patch is listed once, and the set's nodes are exactly the nodes of its patches, each listed once, however many patches, sets or conditions share them. The numbers of patches and nodes of a set agree with the lists.",
     "every mesh, surface, origin, tolerance, number of sets and patches", "No test builds the mesh code; hollow bodies, 2D meshes and patches sharing nodes tell the errors apart.",
     [MP + "common/src/geometry_new.cpp"], [("surfaces", "check_bdy"), ("patches", "tag_bdys"), ("nodes", "build_boundry_node_sets")],
     note="loops over nodes, patches and corners by inductive invariants with ghost counters; the surface kind `global` (meant for contact) is excluded")

prop("C29", "Input blocks select exactly the models and values they name",
     "In the multiphysics code, for every input deck, each boundary-condition, material, multi-material, region, solver, mesh, time and output block stores the model, number or list each of its words names, under its own block (materials and solvers by their id, whatever the order), leaves options it does not name at their defaults, and registers each boundary condition and region fill with the solver it names. A model name selects that model, on the host or device as it names, and no other. An unknown word or model name in a block stops the run with an error instead of being ignored.",
     "every deck: every set of words in every block, any number and order of blocks", "No test reads a deck with these readers; rare options, several materials or solvers out of order and wrong words are not in the examples.",
     [MP + "input/parse_" + f + ".cpp" for f in "mesh_inputs dynamic_inputs output_options solver_inputs bdy_conds_inputs regions material_inputs yaml".split()] + [MP + "common/include/" + f + ".hpp" for f in "mesh_inputs dynamic_options output_options solver_inputs boundary_conditions region initial_conditions material".split()],
     [("boundary conditions", "parse_bcs"), ("materials", "parse_materials"), ("regions", "parse_regions"), ("solvers", "parse_solver_input")], note="the loop over the words of a block is executed once per documented word and once for a word that is none of them, from an arbitrary state; the YAML tree and the standard containers are contracts")

prop("C23", "Generated meshes are the grid the input asks for",
     "In the multiphysics code, for every number of elements along each axis, every length and every origin, a generated mesh is the box asked for (3D, 2D) or the annulus (2D polar, angles in degrees): its node (i,j,k) lies at the origin plus i, j and k equal steps of the length (or of radius and angle) and has the number that counts i first, then j, then k. Elements are numbered in the same way and each one's corners are the nodes around it in the order the solvers rely on: x first, then y, then z in 3D, counter-clockwise in 2D. The numbers of nodes, elements and corners are those of the grid; a polar mesh is refused exactly when one of its nodes has a negative radius, and an unknown type or dimension stops the run.",
     "every number of elements, length, origin, radius and angle", "No test builds a mesh; most decks use equal sizes along the axes, which hides swapped strides, spacings and counts.",
     [MP + "common/include/mesh_io.hpp"], [("meshes", "build_2d_box"), ("meshes", "build_2d_polar"), ("meshes", "build_3d_box"), ("numbering", "get_id")],
     note="every nest of loops over the grid by one inductive invariant over the loop counters (what belongs to an arbitrary grid point is stored once the loops have passed it); high-order boxes have no caller and are excluded")

prop("C10", "Output files hold the state that was asked for",
     "In the multiphysics code the graphics files of an output hold the mesh, with every node's coordinates and every element's corners, and exactly the element, Gauss point, nodal and material fields the deck names, each under its own name with the current value of every element, node or material element. Element fields are the sums over the element's materials weighted by their volume fractions (specific internal energy: weighted by mass), and each material on the mesh has a file with its own elements and their nodes. The collection lists every output with its time and the files written for it, and the state files list every material element and node with its values.",
     "every mesh, number of materials, choice and order of outputs, number of outputs so far", "No test writes a file; several outputs in unusual order, mixed elements and materials that do not start at the first element are rare.",
     [MP + "common/include/mesh_io.hpp"], [("outputs", "write_mesh"), ("values", "concatenate_elem_fields"), ("files", "write_vtu"), ("parts", "build_material_elem_node_lists"), ("state", "write_material_point_state")],
     note="printed files are compared as terms of literals, values and loops for any sizes; ensight, the old vtk writer and high-order elements are excluded")

prop("C31", "Every cycle advances all materials and a run stops on time",
     "In the hydrodynamic solvers (3D, axisymmetric; without contact and fracture) and the thermal solver of the multiphysics code, every cycle takes the smallest of all materials' time steps, saves the state it starts from, and in each of n Runge-Kutta stages, s = 0..n-1, advances every material with the fraction 1/(n-s) of the step: forces or heat fluxes, motion or temperatures, boundary conditions, energies, volumes and material states, each from the values just computed, with the moving heat source at its place on its path. The clock starts at the solver's start time and advances by the step, and the run ends with the first cycle that reaches the end time or with the last cycle allowed. The state is written at the start, at the end, whenever an interval of time is complete since the start, and (after the first cycle) whenever an interval of cycles is complete; the step after an output grows from the one before it.",
     "every number of materials, stages and cycles, every time, interval and state", "No test runs a solver; several materials, restarts at a later time and outputs by cycle are rare, and the loops that tie the kernels together are in no unit test's reach.",
     [MP + "Solvers/SGH_solver_3D/src/sgh_execute.cpp", MP + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp", MP + "Solvers/SGTM_solver_3D/src/sgtm_execute.cpp"], [("3D", "SGH3D::execute"), ("axisymmetric", "SGHRZ::execute"), ("thermal", "SGTM3D::execute")],
     note="the kernels enter by contract (functions of the arrays and numbers they are given; C11-C21 say which functions): loops over materials and stages are folds of any length, the loop over cycles is one arbitrary cycle plus its start and end")

prop("C32", "The solvers of a deck run in its order, each from where the last one ended",
     "For every input deck the multiphysics program puts the calculation together in the order its parts need each other (deck; mesh, generated or read from the file, whose relative path starts at the deck's folder; boundary sets and their nodes; for every entry of the solver list one solver of the method it names; fills; material state of every solver; material points), then sets up every solver once and runs every solver once, in the order of the list, all on the same data. The first solver starts at time zero and every later one where the one before it ended; a solver ends at the end time of its entry (a later one not after the final time) and, when the entry gives none, at the final time. Every solver carries its number in the list, and a moving heat source is used just by the thermal solvers whose entry asks for it.",
     "every number, order and choice of solvers, every start, end and final time", "No test runs the driver; decks with several solvers, with and without end times, are rare.",
     [MP + "driver.cpp", MP + "main.cpp"], [("assembly", "Driver::initialize"), ("times", "Driver::setup_solver_vars"), ("order", "Driver::execute"), ("program", "main")],
     note="what the driver calls is recorded by contract with the data it is given; the loop over the entries is one arbitrary entry with as many solvers made as entries passed, loops over solvers one arbitrary solver; the resolution of a relative mesh path (std::filesystem) is bounded: the harness runs it")
