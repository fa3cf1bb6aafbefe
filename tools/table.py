LA = ["dense_la.hxx"]
WHY = ("the only stable test samples a handful of points; the statement ranges over all real entries "
       "and all shapes the templates accept")
prop("P01", "Entrywise arithmetic of small matrices and vectors",
     "For all small matrices, vectors and points, every entrywise operation (sum, difference, entrywise product and "
     "quotient, scaling, scalar addition and scalar left operands, and the forms that apply one column to every column of a "
     "matrix), in its value-returning and its in-place form, gives in every entry exactly what the operation's name says of the entries "
     "at that position. Value-returning forms leave their operands unchanged, in-place forms return their own left operand, and this also holds when "
     "both operands are the same object.",
     "all real (and integer) entries, all operators, all instantiated shapes, float, double and integer entries, aliased and distinct operands, scalars that are entries of the matrix itself", WHY, LA,
     [("SmallMat::operator+=, -=, *=, /= and the free operators", "dense_la.hxx"), ("hada_prod, hada_divi", "dense_la.hxx")])
prop("P02", "Matrix products are the algebraic products",
     "For all matrices, the product, the product with a transposed left factor and the product with a transposed right factor equal the algebraic "
     "products entry by entry, with the result shape of the algebraic product; operands are unchanged. "
     "Consequently transposition reverses products and products are associative.",
     "all real entries, all instantiated (rectangular) shapes", WHY, LA,
     [("mat_times_mat, operator*, transposed_mat_times_mat, mat_times_transposed_mat", "dense_la.hxx")])
prop("P03", "Construction, element access and structural builders of small matrices",
     "A small matrix built from values, another matrix, an array or a moved matrix contains exactly those entries; writing one entry, column or diagonal value "
     "through the access functions changes precisely the designated entries and reading returns them, column by column. "
     "Identity, diagonal, transposed, dyadic, cross-product and iota-like builders give exactly the entries their definitions prescribe.",
     "all real entries, all indices inside the shape, all instantiated shapes", WHY, LA,
     [("SmallMat constructors, operator(), operator[], get_column, set_column, data, begin/end", "dense_la.hxx"),
      ("diagonal, dyadic_product, transposed, vector_product", "dense_la.hxx")])
prop("P04", "Comparison of small matrices is a lawful equality and total order",
     "Two small matrices compare equal exactly if all their entries are equal, and unequal otherwise. "
     "The less-than comparison is a strict total order compatible with that equality (irreflexive, transitive, "
     "and exactly one of less, equal, greater holds): the lexicographic order of the entries.",
     "all pairs and triples of matrices of every instantiated shape", WHY, LA,
     [("SmallMat::operator==, !=, <", "dense_la.hxx")])
prop("P05", "Scalar products, norms and reductions",
     "Scalar product, 1-norm, 2-norm, maximum norm, p-norm and the product/extremum type reductions of small vectors and "
     "matrices equal their mathematical definitions for all entries (sums of products, sums of moduli, root of the sum of squares, largest modulus, p-th root of the sum of p-th powers). "
     "They do not modify their arguments.",
     "all real entries, all instantiated sizes", WHY, LA, [("scalar_product, norm_1, norm_2, norm_infty, norm_p", "dense_la.hxx")],
     note="norm_p is proved over an uninterpreted power function")
prop("P06", "Division by zero is reported, never silently performed",
     "Every division of small matrices by a scalar or entrywise by another matrix or column either has only non-zero divisors and returns the quotient, "
     "or has a zero divisor and raises the documented division-by-zero exception. There is no third outcome: no infinities, no partial quotient returned as a result.",
     "all real dividends and divisors, zero at every possible position", WHY, LA, [("SmallMatDivByZeroException", "dense_la.hxx")])
prop("P07", "Linear solves return the solution of the given system or raise",
     "For every square system matrix and every number of right-hand sides, a linear solve either returns X with A X = B exactly (in real arithmetic) or raises "
     "the documented exception because the factorisation reports a singular matrix. "
     "The solve on constant arguments leaves them unchanged, and the quotient operator is the same solve.",
     "all real matrices and right-hand sides, singular ones included", WHY, LA + ["wrapper/lapack.hxx"],
     [("operator/, lapack_solve, LAPACKexception", "wrapper/lapack.hxx, dense_la.hxx")],
     note="LAPACK gesv is an assumed contract (AX=B or info!=0), validated natively in the thorough tier")
prop("P08", "QR decompositions reproduce the matrix with a rotation and a triangle",
     "Every variant of the QR decomposition (only Q, only R, both, full and reduced, on constant and on overwritable arguments) of every matrix with at least as many rows as columns yields an orthogonal Q and an upper "
     "triangular R with Q R equal to the input; the normalised variants give det Q = 1 and a non-negative diagonal of R up to the last entry. "
     "Input declared constant is not modified, and all variants agree on the factors they share.",
     "all real matrices, rank-deficient and axis-aligned ones included", WHY, LA + ["wrapper/lapack.hxx"],
     [("qr_decomp, qr_decomp_q, lapack_qr_decomp_*", "wrapper/lapack.hxx, dense_la.hxx")],
     note="LAPACK geqr2 is an assumed contract (Householder reflectors), validated natively in the thorough tier")
prop("P09", "Determinants have the right value and sign",
     "The determinant of every square small matrix equals its mathematical determinant including the sign, and for a rectangular one the (non-negative) volume factor up to the documented sign convention. "
     "Singular and axis-aligned matrices are no exception, and constant arguments are unchanged.",
     "all real matrices of every instantiated shape", WHY, LA + ["wrapper/lapack.hxx"], [("determinant, lapack_det", "wrapper/lapack.hxx, dense_la.hxx")])
prop("P10", "The affine mapping of a reference hyperedge is what its data say",
     "For all translation vectors and direction matrices the affine map takes reference points to translation plus directions times point, and reports the translation, the directions, its functional determinant (the volume factor of the image of the hyperedge and of each of its faces), and "
     "local, inner and outer unit normals that are orthogonal to the face (or hyperedge) with the documented orientation. "
     "Queries do not change the mapping.",
     "all real translations and full-rank directions, all hyperedge/space dimension pairs up to 3", WHY, ["mapping/linear.hxx"],
     [("Mapping::Linear", "mapping/linear.hxx")])
prop("P11", "Each degree of freedom belongs to exactly one hypernode",
     "For every number of hypernodes and degrees of freedom per node, the global indices of a node are a contiguous block, the blocks of different nodes are disjoint and together cover exactly the global range. "
     "Gathering the values of a node reads exactly its block, adding to or setting a node's values changes exactly its block by exactly the given values and nothing else in the vector.",
     "all numbers of hypernodes, all node indices, all vector contents, unbounded size", WHY, ["hypernodefactory.hxx"],
     [("HyperNodeFactory", "hypernodefactory.hxx")])
prop("P12", "Hypercube counts and tensorial indexing are exact and invertible",
     "The numbers of faces and vertices and the powers of the reference hypercube are the mathematical ones in every dimension. "
     "Decomposing a tensor index gives digits inside the range that determine the index uniquely (first dimension fastest), out-of-range indices are rejected, and tensorial points take, per dimension, the abscissa its digit selects.",
     "all indices, all dimensions 0 to 4, all ranges instantiated, all abscissae", WHY, ["hypercube.hxx"],
     [("Hypercube", "hypercube.hxx")])

prop("P13", "The hypergraph presents consistent views of its hyperedges",
     "For every topology, geometry and node descriptor: indexing, iterating (forwards and backwards) and the component accessors give for hyperedge i the topology, geometry, node description and data of exactly hyperedge i, "
     "every hyperedge is visited once and in order, per-hyperedge data are independent of each other, initially default and writable through every view, and counts of hyperedges, hypernodes and global "
     "degrees of freedom are those of the topology. After changing the refinement level (up or down, repeatedly) all of this holds for the new level.",
     "all topologies / geometries / node descriptors that satisfy the documented concepts (given by uninterpreted functions), all indices, all levels", WHY, ["hdg_hypergraph.hxx", "hy_data_container.hxx"],
     [("HDGHyperGraph", "hdg_hypergraph.hxx"), ("HyDataContainer", "hy_data_container.hxx")],
     note="arbitrary numbers of hyperedges and hypernodes on every level, iteration by a loop invariant; further contracts (iterator algebra, rejections, separate graphs) on hypergraphs with up to four hyperedges")
prop("P14", "Matrix-free operators are the sum of the local contributions",
     "For every global loop and every operator it offers (flux, residual, mass, Jacobian), every local solver, hypergraph, input vector and time, entry j of the result is the sum, over all hyperedges and all their hypernodes that own j, "
     "of what the local solver returns there for the gathered values of that hyperedge at that time; nothing else enters. The argument is unchanged, repeated evaluations agree, the default time is zero, the result has the size of the system; "
     "this holds for every way of constructing the loop and after changing the refinement.",
     "all local solvers (uninterpreted functions of everything they are given), all input vectors, times and parameters", WHY,
     ["global_loop/"],
     [("Elliptic, Parabolic, MassApproxEigenvalue, ShiftedInverseEigenvalue, NonlinearEigenvalue: trace_to_flux, residual_flux, trace_to_mass_flux, jacobian_of_trace_to_flux", "global_loop/*.hxx, global_loop/prototype.hxx")],
     note="arbitrary numbers of hyperedges, hypernodes and degrees of freedom by loop invariants; further contracts (constructors, refinement) on hypergraphs with up to three hyperedges")

prop("P15", "Dirichlet degrees of freedom are exactly the registered or detected ones",
     "In the elliptic loop, for every list of registered indices (any order, repetitions, replacing earlier lists), flux and residual are zero exactly at those indices and unchanged everywhere else, and lists with an index outside the system "
     "are rejected. In the eigenvalue loops, the reported Dirichlet indices are precisely, sorted and without repetition, the degrees of freedom of the hypernodes which some hyperedge marks as Dirichlet "
     "nodes of the current refinement, however often they are asked for and whatever refinement was set before.",
     "all index lists, all node types, all input vectors, levels 1 and 2", WHY, ["global_loop/"],
     [("Elliptic::read_dirichlet_indices, trace_to_flux, residual_flux", "global_loop/elliptic.hxx"),
      ("MassApproxEigenvalue/ShiftedInverseEigenvalue::dirichlet_indices", "global_loop/mass_approx_eigenvalue.hxx, shifted_inverse_eigenvalue.hxx")],
     note="lists of up to three indices, hypergraphs of up to three hyperedges")
prop("P16", "The assembled sparse matrix is the matrix of the operator",
     "For every local solver, hypergraph, refinement and time, the assembled sparse matrix (row, column and value lists, summed over repeated positions) has in entry (i, j) the sum over hyperedges of the local responses "
     "at i to the unit vector at j, all row and column indices lie inside the system, the default time is zero, and for linear local solvers multiplying by the matrix gives the matrix-free operator.",
     "all local solvers (uninterpreted, and all linear ones), all vectors and times", WHY, ["global_loop/", "sparse_la.hxx"],
     [("Elliptic::trace_to_flux_mat", "global_loop/elliptic.hxx, global_loop/prototype.hxx"), ("sparse_mat", "sparse_la.hxx")],
     note="arbitrary numbers of hyperedges and hypernodes by a loop invariant (triplets of every hyperedge); product with vectors and refinement on hypergraphs with up to three hyperedges; numbers of triplets below 2^32")
prop("P17", "Initial values and stored data of time-dependent and nonlinear problems",
     "The initial vector carries, at every degree of freedom, the value which a hyperedge containing it assigns at the given time (zero by default) and zero where no hyperedge contributes; the local solver starts from zero in the parabolic loop and "
     "from the values of the argument in the nonlinear one. Setting data stores on each hyperedge exactly what the local solver computes from that hyperedge's own values and previous data; operators evaluated later see it, and only their "
     "own hyperedge's; refining starts from initial data.",
     "all local solvers, vectors, times, sequences of two time steps", WHY, ["global_loop/"],
     [("Parabolic::make_initial, set_data; NonlinearEigenvalue::make_initial", "global_loop/parabolic.hxx, global_loop/nonlinear_eigenvalue.hxx")],
     note="arbitrary numbers of hyperedges and hypernodes by loop invariants; further contracts (sequences of operations, refinement) on hypergraphs with up to three hyperedges")
prop("P18", "Errors are accumulated over all hyperedges",
     "The error values which a loop reports are the local solver's initial value, combined by its rule with the contribution of every hyperedge exactly once (for the gathered values at the given time, zero by default), and "
     "postprocessed once. The size of the system is that of the current refinement and the zero vector has that size and only zero entries; arguments are unchanged.",
     "all local solvers (uninterpreted), vectors and times", WHY, ["global_loop/"],
     [("errors, size_of_system, zero_vector", "global_loop/*.hxx, global_loop/prototype.hxx")], note="arbitrary numbers of hyperedges and hypernodes by loop invariants; further contracts (sequences of operations, refinement) on hypergraphs with up to three hyperedges")

prop("P20", "Large-vector algebra and the conjugate gradient method",
     "For vectors of every length, inner product, 2-norm and linear combinations (returned or written into a result vector that may coincide with an operand) equal their definitions, leave the other operands unchanged and reject "
     "vectors of different sizes. For every linear operator, right-hand side, tolerance and iteration limit, the conjugate gradient method either returns a vector whose true residual is below the tolerance, or raises its "
     "exception - never something else; it applies the operator at most as often as allowed (the size of the system by default), raises only after using them up, does not modify the right-hand side, "
     "and on symmetric positive definite systems generates conjugate directions, so that enough iterations suffice.",
     "all lengths, all entries, all linear operators, all tolerances and iteration limits", WHY, ["sparse_la.hxx"],
     [("inner_product, norm_2, linear_combination, conjugate_gradient", "sparse_la.hxx")],
     note="unbounded lengths and iteration counts by loop invariants; the conjugate gradient method for systems of size 1 to 3; termination statements for bounded iteration counts")

prop("P21", "Reading a domain file yields the file's contents or rejects it",
     "For every domain file that follows the documented format (any comments, blank lines, separators, orders of values), the hypergraph that is read has exactly the file's numbers of hyperedges, hypernodes and points, "
     "and for every hyperedge exactly the file's hypernode indices, types and point indices, and for every point the file's coordinates. Files with a missing section, too few lines, other dimensions than requested, repeated points, "
     "or indices outside the range are rejected instead of being read; the consistency check reports every such inconsistency, also when assertions are switched off.",
     "all coordinates, indices and types; layouts with and without comments and blank lines; missing and truncated sections", WHY, ["read_domain.hxx"],
     [("read_domain, read_domain_geo, DomainInfo::check_consistency", "read_domain.hxx")],
     note="contents: up to 40 points and 33 hyperedges, dimensions 1 to 3; consistency: everything arbitrary for up to four points and two hyperedges, one arbitrary point or hyperedge among up to 17 given ones; number formatting and parsing are assumed to be inverse to each other")
prop("P22", "The neighbourhood graph of a point set connects exactly the close points",
     "For every set of points and every epsilon, the graph which is generated from the points connects two points by a hyperedge exactly if their distance is smaller than epsilon, and only once; its hypernodes are the points, every "
     "hyperedge runs between its two points, and the written file carries the same domain. Repeated points, sets that are not connected, non-positive epsilon and points of another dimension are rejected.",
     "all point coordinates and epsilon", WHY, ["epsilon_neighborhood_graph.hxx"],
     [("make_epsilon_neighborhood_graph", "epsilon_neighborhood_graph.hxx")],
     note="arbitrary sets of up to four points, and given sets of six to eight points with one moving point; space dimensions 1 to 3; number formatting and parsing are assumed to be inverse to each other")

prop("P23", "A plot carries exactly the cells, vertices and local solutions of the hypergraph",
     "For every hypergraph, geometry, local solver, solution, time and choice of options, plotting writes (replacing an earlier file of that name) a VTU file outputDir/fileName[.fileNumber].vtu with one cell per hyperedge and, if asked for, per face; "
     "every cell has the right type and consists of its own vertices in lexicographic order, the vertices are the geometry's points for the scaled abscissae, padded with zeros to three coordinates, "
     "and every vertex carries the local solver's values of its hyperedge there at that time (zero by default), with the same number of components everywhere. The file number is incremented if asked for and nothing else changes; empty names are rejected. "
     "The plot function of every global loop does this for its own hypergraph, solver and options.",
     "all coordinates, solutions, scalings and times, dimensions 1 to 3", WHY, ["plot.hxx", "global_loop/"],
     [("plot, plot_vtu, plot_vtu_unstructured_geometry, plot_edge_values, plot_boundary_values, vtu_sub_cube_connectivity, open_ofstream", "plot.hxx"), ("plot_solution, plot_option", "global_loop/*.hxx")],
     note="up to three hyperedges; the values on faces are only counted, not interpreted (the library writes zeros there); number formatting and parsing are assumed to be inverse to each other")
prop("P24", "Setting a plot option changes exactly that option",
     "For every state of the options, setting one by name stores the given value (flags: true or 1, and false for everything else), returns it as text, and leaves all other options alone; asking without a value returns the current value and changes nothing. "
     "Unknown options and unknown file types are rejected. The defaults are the documented ones.",
     "all states, all numbers, all texts of the lengths considered", WHY, ["plot.hxx"],
     [("set_plot_option, PlotOptions, fileType_to_string", "plot.hxx")],
     note="names and texts up to 18 characters")
prop("P25", "Assertions stop the program exactly when they are violated",
     "With assertions switched on, an assertion ends the program if and only if its condition does not hold; the condition is evaluated exactly once and execution continues unchanged otherwise, in any control context. "
     "With assertions switched off, neither the condition nor the message is evaluated.",
     "all conditions", WHY, ["hy_assert.hxx"], [("hy_assert, __Hy_Assert", "hy_assert.hxx")])

prop("P26", "Cubic hypergraph: topology, geometry and node types are one lattice",
     "For every number of elements per direction and every refinement, the cubic hypergraph has exactly the lattice's hyperedges and hypernodes: every hyperedge is an axis-parallel box of the lattice inside the unit cube (all different, none missing), two hyperedges share a hypernode "
     "exactly if they share that face, all hypernode indices are in range and used, and the type of a face says on which boundaries of the unit cube it lies (0 in the interior of coarse hyperedges). The geometry's map, spanning vectors, areas, normals, barycentres and "
     "lexicographic points of hyperedges and faces are those of the same box. Copies behave like the original, changing the refinement gives the hypergraph of that refinement, and hyperedges that do not exist are rejected.",
     "all lattice sizes (numbering), all reference points and scalings (geometry), dimensions 1 to 3", WHY,
     ["topology/cubic.hxx", "geometry/unit_cube.hxx", "node_descriptor/cubic.hxx", "wrapper/tpcc.hxx"],
     [("Topology::Cubic", "topology/cubic.hxx"), ("Geometry::UnitCube", "geometry/unit_cube.hxx"), ("NodeDescriptor::Cubic", "node_descriptor/cubic.hxx"), ("Wrapper::tpcc_*", "wrapper/tpcc.hxx")],
     note="numbering for all lattice sizes, refinement 1 and 2 (3 in the thorough tier); geometry for lattices of up to 3 elements per direction; TPCC (an empty submodule here) by its contract")

prop("P27", "Hypergraph read from a file: refined topology, geometry, node types agree",
     "For every domain file, the file-based topology, geometry and node descriptor describe the same hypergraph at every refinement: hyperedge e is cut into r^d different parts on its lattice, the parts of two hyperedges share a hypernode exactly if their faces "
     "are the same part of the same coarse hypernode or the same face inside one hyperedge; all indices are in range and the numbers of hyperedges and hypernodes are right; faces have the file's type, and type 0 inside a hyperedge. The geometry of a part is the affine "
     "sub-box of its hyperedge (map, spanning vectors, areas, normals, barycentres, lexicographic points of hyperedge and faces), with the hyperedge's own properties. Copies behave like the original; hyperedges that do not exist and points outside the reference element are rejected.",
     "all numbers of hyperedges, hypernodes and points, all hypernode indices and types, all points, all reference points and scalings; an arbitrary mapping", WHY,
     ["topology/file.hxx", "geometry/file.hxx", "node_descriptor/file.hxx", "wrapper/tpcc.hxx"],
     [("Topology::File", "topology/file.hxx"), ("Geometry::File", "geometry/file.hxx"), ("NodeDescriptor::File", "node_descriptor/file.hxx")],
     note="arbitrarily many hyperedges, hypernodes and points (up to 2^20) for numbering, types and geometry; one to three hyperedges for the way through the file and for copies; refinements 1 to 3, dimensions 1 to 3; TPCC (an empty submodule here) by its contract; the consistency check of the domain by its contract (P21), the mapping uninterpreted (P10)")

prop("P28", "Local solvers of second-order problems solve the discrete weak form",
     "For every hyperedge, traces, coefficients, data, penalty and time, the local reconstruction of the diffusion solvers (LDG-H, with postprocessing, with advection and reaction, uniform coefficients, eigenvalue problem, interior penalty) satisfies the discrete "
     "weak form of its equation with exactly these data at exactly this time, for every test function. trace_to_flux is the numerical flux of the solution without data and residual_flux that with data, tested with the skeleton's basis and zero on Dirichlet nodes (whatever the result contained before); "
     "errors is the squared L2 distance to the analytic result, mass fluxes are those of the solution whose source is the solution, the Jacobian of the eigenvalue solver is the derivative in both directions, node_types marks exactly the Dirichlet nodes, time is zero by default, and the hyperedge is not changed.",
     "all traces, coefficients, data, geometries (areas, normals, maps), shape functions and quadrature weights; dimensions 1 to 3, degrees 0 to 2", WHY,
     ["local_solver/"],
     [("Diffusion", "local_solver/diffusion_ldgh.hxx"), ("DiffusionAdvectionReaction", "local_solver/diffusion_advection_reaction_ldg.hxx"), ("DiffusionPostprocess", "local_solver/diffusion_ldgh_pp.hxx"),
      ("DiffusionEigs", "local_solver/diffusion_eigs_ldgh.hxx"), ("DiffusionUniform", "local_solver/diffusion_uniform_ldgh.hxx"), ("DiffusionIP", "local_solver/diffusion_ip.hxx")],
     note="quick: degrees up to 2 (1 in dimension 2, 0 in dimension 3), thorough: 2 in dimension 2, 1 in dimension 3; TPP (an empty submodule here) by its contract; local systems regular; make_initial and errors_temp of the diffusion solvers, which call TPP functions of another version, are not claimed")

prop("P29", "Local solvers of fourth-order problems solve the discrete weak form",
     "For every hyperedge, traces, coefficients, data, penalty and time, the local reconstruction of the bilaplacian solvers (LDG-H, eigenvalue problem, uniform coefficients) satisfies the discrete weak form of the system for the solution, its gradient, its Laplacian and the gradient of the Laplacian, "
     "with exactly these data (source, prescribed values of the solution and of its Laplacian) at exactly this time, for every test function. trace_to_flux is the numerical flux of the solution without data and residual_flux that with data, so that the residual without data is the operator; fluxes are zero where the solution "
     "(the Laplacian, respectively) is prescribed. errors is the squared L2 distance to the analytic result, mass fluxes are those of the solution whose source is the solution, the Jacobian of the eigenvalue solver is the derivative in both directions, initial traces are the projections of the initial functions, "
     "and the hyperedge is not changed.",
     "all traces, coefficients, data, geometries, shape functions and quadrature weights; dimensions 1 to 3, degrees 0 and 1", WHY,
     ["local_solver/"],
     [("Bilaplacian", "local_solver/bilaplacian_ldgh.hxx"), ("BilaplacianEigs", "local_solver/bilaplacian_eigs_ldgh.hxx"), ("BilaplacianUniform", "local_solver/bilaplacian_uniform_ldgh.hxx")],
     note="degrees 0 and 1 (0 in dimension 3; thorough: 2); TPP (an empty submodule here) by its contract; local systems regular; positive quadrature weights")

prop("P30", "Local solvers of parabolic problems perform one step of the theta scheme",
     "For every hyperedge, stored state, traces, coefficients, data, penalty, times, step size and theta, the local reconstruction of DiffusionParab and AdvectionParab (and of BilaplacianParab with implicit Euler) satisfies the discrete weak form of one step of the theta scheme "
     "from the stored state, with the data at exactly the old and new time weighted by 1-theta and theta. trace_to_flux is the numerical flux of the solution without data and stored state, residual_flux that with them, tested with the skeleton's basis and zero on Dirichlet nodes (for advection: without the normal flux on outflow nodes; boundary nodes are Dirichlet or outflow nodes depending on the wind at that time); "
     "set_data stores exactly what the next step needs (the new state), make_initial stores and returns the projections of the initial functions, errors is the squared L2 distance to the analytic result at the given time, and nothing but the hyperedge's own data is changed.",
     "all traces, states, coefficients, data, times, geometries, shape functions and quadrature weights; degrees 0 and 1", WHY,
     ["local_solver/"],
     [("DiffusionParab", "local_solver/diffusion_parab_ldgh.hxx"), ("BilaplacianParab", "local_solver/bilaplacian_parab_ldgh.hxx"), ("AdvectionParab", "local_solver/advection_parab_ldgh.hxx")],
     note="degrees 0 and 1 (0 in dimension 3; thorough: up to 2, 1 in dimension 3); BilaplacianParab with theta = 1 (the only value its source supports); set_data and make_initial of DiffusionParab where the space has the dimension of the hyperedge (default argument of TPP); TPP by its contract (its upwind integrals as arbitrary functions of their arguments); local systems regular; traces of AdvectionParab vanish on Dirichlet nodes when set_data is called")

prop("P31", "Local solver of beam networks solves the discrete Timoshenko equations",
     "For every beam (axis, outer normals, length, stiffness and section data), traces, data, penalty and time, the displacements and rotations, forces and moments reconstructed by TimoshenkoBeam satisfy the discrete weak form of n = -C(u' - i x r), m = -D r', n' = f, m' - i x n = g in the frame of the beam, "
     "with exactly these data at exactly this time, for every test function. trace_to_flux is the numerical flux of forces and moments, as vectors in space, of the solution without data and residual_flux that with data, zero where displacement or rotation are prescribed; "
     "errors is the squared L2 distance of the displacements to the analytic result, bulk values are the displacements in space, and the beam is not changed.",
     "all traces, data, frames, materials, penalties, times, shape functions and quadrature weights; degrees 0 and 1", WHY,
     ["local_solver/"],
     [("TimoshenkoBeam", "local_solver/timoshenko_network.hxx")],
     note="degrees 0 to 2 (thorough: 3); results passed in are zero-initialized, as the global loops do; TPP (an empty submodule here) by its contract; local systems regular")

NOT_APPLICABLE = []
