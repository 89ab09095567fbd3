#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text can be reviewed and edited)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Dense matrices behave as a plain table of numbers under any edit history",
  "After any sequence of edits (writes, transposes, row/column swaps and replacements, scalar and matrix additions and scalings), every way of reading a dense matrix - by position, by row, by column, along the diagonal, in row-major order, by its non-zero entries, as text - agrees with a plain two-dimensional table subjected to the same edits. Equality depends only on shape and values, never on how the matrix came to hold them. A position outside the shape is never read as a value and never changes a stored value.",
  ["histories", "inputs"], "every construction and every sequence of edits, all shapes incl. 1xn, nx1 and non-square, square-array-backed matrices too",
  "The unit tests make a handful of fixed 2x2 and 3x3 matrices; layout bugs need a transpose followed by a particular edit and a non-square shape.",
  ["src/matrix/mod.rs", "src/matrix/buffer.rs", "src/matrix/norm.rs"],
  [("position arithmetic for both storage orders", "src/matrix/buffer.rs LinearMatrix::pos"), ("provided row/column/iterator methods", "src/matrix/mod.rs MatrixLike")],
  ["element reads", "iterators", "equality", "Display"],
  [("row_maj", "whether the buffer is read row-major", "src/matrix/buffer.rs")])

p("C02", "All storage schemes hold the same matrix",
  "A matrix stored triangular, diagonal, fixed-size, as a dictionary, compressed by row, or in a lower or full row envelope reads back exactly the values given to it, zero at every other position inside the shape, and nothing outside the shape. Converting between schemes preserves every entry the target can represent, whatever the order the entries were given in and whichever rows are empty where that is allowed. Writing to a position a scheme does not store never changes any other entry.",
  ["inputs", "histories"], "all sparsity patterns, shapes, insertion orders and write sequences",
  "Tests use one or two fixed patterns per scheme; empty leading/trailing rows, single-entry rows and envelope edges are not sampled.",
  ["src/matrix/sparse.rs", "src/matrix/buffer.rs"],
  [("row start tables", "src/matrix/sparse.rs CompressedRow::from_labeled_vals, LowerRowEnvelope::from_envelope"), ("conversions from the dictionary", "src/matrix/sparse.rs From<Dictionary>")],
  ["element reads of every scheme", "stored row slices", "non-zero counts and envelopes"])

p("C03", "Products and structural transforms agree with dense arithmetic in every storage",
  "Multiplying two matrices of compatible shape gives the dense product whichever storage schemes hold the operands and the result, and so do the specialised sparse product, the envelope matrix-vector product and the scaled addition of one envelope matrix to another. Transposing, masking and symmetrically renumbering a sparse matrix move every entry to the position the operation defines and lose none, for square and non-square shapes. Operands of incompatible shape are refused.",
  ["inputs", "configurations"], "all shapes, sparsity patterns and combinations of storage schemes",
  "Tests multiply a few fixed matrices, mostly square and dense.",
  ["src/matrix/mod.rs", "src/matrix/sparse.rs"],
  [("generic and specialised products", "src/matrix/mod.rs MatrixLike::mul; src/matrix/sparse.rs CompressedRow::mul, Dictionary::mul_dict, BiEnvelope::mul_vec"), ("structural transforms", "src/matrix/sparse.rs Dictionary::{transposed,mask,permute}, LowerRowEnvelope::add_scaled_bienv")])

p("C04", "Factorisations multiply back to the matrix they factor",
  "For every matrix that admits it, the LU, Cholesky and root-free symmetric factorisations return factors of the promised triangular or diagonal form (unit diagonal where promised) whose product is the factored matrix to rounding. The envelope factorisations hold for every envelope shape, keep the factor inside the matrix's own envelope, and handle indefinite matrices in the root-free form with as many negative diagonal entries as the matrix has negative eigenvalues.",
  ["inputs"], "all sizes, values and envelope profiles of factorable matrices",
  "Tests factor two fixed 4x4 matrices; profile-dependent slice alignment needs varied envelopes.",
  ["src/matrix/inverse.rs", "src/matrix/solve/direct.rs"],
  [("LU", "src/matrix/inverse.rs lu_decompose"), ("Cholesky / LDL'", "src/matrix/solve/direct.rs cholesky_envelope, cholesky_envelope_no_root")])

p("C05", "Substitution solves satisfy their triangular systems",
  "Forward, backward, transposed and diagonal substitution, with full triangular or envelope storage, on the whole matrix or on any leading, trailing or interior diagonal block, return a vector that satisfies the system to rounding; triangular inverses multiply back to the identity. The answer depends only on the matrix and the right-hand side, never on what the output buffer held before, and the chained solves built on a factorisation solve the factored system.",
  ["inputs", "histories"], "all triangular matrices with non-zero diagonal, right-hand sides with zeros anywhere, blocks and buffer contents",
  "Only one fixed substitution per kind is tested, always into a zeroed buffer.",
  ["src/matrix/buffer.rs", "src/matrix/sparse.rs", "src/matrix/solve/direct.rs"],
  [("substitution", "src/matrix/buffer.rs forward_sub/backward_sub/tri_inv; src/matrix/sparse.rs LowerRowEnvelope::{solve,solve_submatrix,solve_transposed}"), ("chained solves", "src/matrix/solve/direct.rs solve_ll, solve_ldl")])

p("C06", "Every linear solver returns the solution of the system it was given",
  "For every well-posed system a solver accepts (dense elimination: any non-singular matrix; envelope Cholesky: symmetric positive definite, of any sparsity pattern including disconnected ones; the relaxation solver: symmetric diagonally dominant), the returned vector satisfies the equations to that solver's accuracy, in the original order of the unknowns, so that all solvers agree. A zero right-hand side gives the zero vector. Dense elimination reports an error instead of a result when no pivot is available.",
  ["inputs", "configurations"], "all system sizes, sparsity patterns, magnitudes, signs and right-hand sides, and all solvers",
  "One 4x4 system is tested with all three solvers; it needs no pivoting and is connected.",
  ["src/matrix/solve/mod.rs", "src/matrix/solve/direct.rs", "src/matrix/solve/iterative.rs", "src/matrix/inverse.rs"],
  [("elimination with pivoting", "src/matrix/inverse.rs solve_gausselim"), ("reorder, factor, substitute, undo the order", "src/matrix/solve/direct.rs CholeskyEnvelopeSolver"), ("relaxation sweeps", "src/matrix/solve/iterative.rs gauss_seidel")])

p("C07", "Determinants and inverses are those of the matrix",
  "The determinant equals the exact determinant to rounding with the right sign, is multiplicative, flips sign under a row exchange, and a structurally singular matrix yields zero or an error, never a non-zero value. The inverse times the matrix is the identity for every well-conditioned invertible matrix of any size, including those whose leading entries vanish.",
  ["inputs"], "all square matrices of any size and storage, integer matrices being compared with exact arithmetic",
  "Tests check a few 2x2..4x4 matrices with non-zero leading minors and no pivot parity change.",
  ["src/matrix/inverse.rs"],
  [("pivoted elimination with swap parity", "src/matrix/inverse.rs det_lu_pivot"), ("inverse", "src/matrix/inverse.rs inverse, inv_lu")])

p("C08", "Graphs and envelope-reducing orderings are faithful",
  "A connection graph built from edges reports exactly the given undirected neighbourhoods of every vertex, isolated ones included, without duplicates or self-loops, and its distances and degrees are those of the graph; of the vertices farthest from a given one the search finds one of smallest degree; the peripheral vertex found is no closer to its farthest vertex than the first vertex is. The reverse Cuthill-McKee ordering is a bijection on all vertices for every graph, connected or not, and numbers each connected component by breadth-first levels. A permutation, its inverse and its action on a list are mutually consistent.",
  ["inputs"], "all graphs: connected, disconnected, with isolated vertices, duplicate and reversed edges",
  "Tests use one or two small connected graphs.",
  ["src/matrix/graph.rs"],
  [("adjacency lists", "src/matrix/graph.rs from_edges, from_lol"), ("level search", "src/matrix/graph.rs far_node, pseudo_peripheral, reverse_cuthill_mckee"), ("permutations", "src/matrix/graph.rs Permutation")])

p("C09", "Eigenvalue search returns exactly the lowest eigenpairs",
  "For a symmetric positive definite pair of matrices, the count of eigenvalues below a shift is exact, and asking for n eigenpairs returns exactly n, in ascending order, none skipped and none repeated beyond its multiplicity, each value equal to the corresponding lowest eigenvalue to the search tolerance. Each vector satisfies the eigenvalue equation in the original order of the unknowns, has unit mass norm, and vectors of separated eigenvalues are mass-orthogonal. The result does not depend on whether the pairs were requested at once or in steps.",
  ["inputs", "histories"], "all SPD pairs with prescribed spectra (separated, clustered, repeated), envelope shapes, and request sequences",
  "One 4x4 identity-mass problem is tested.",
  ["src/matrix/solve/eigen.rs", "src/matrix/solve/direct.rs"],
  [("Sturm counts from the root-free factorisation", "src/matrix/solve/eigen.rs eigenvalues_under"), ("bisection of brackets", "src/matrix/solve/eigen.rs process_eigenrange, secant_iterate_one"), ("inverse iteration", "src/matrix/solve/eigen.rs inverse_iterate")],
  None, [("eigenpairs", "pairs found so far, lowest first", "src/matrix/solve/eigen.rs DeterminantSearcher")])

p("C10", "Systems are assembled additively and solved independently of numbering",
  "Adding coefficients one at a time, in any order and with any repetition, gives the same system as supplying the summed matrices and right-hand side at once. Renumbering the unknowns renumbers the solution and the eigenvectors and changes nothing else, and applying the envelope-reducing order never changes what is solved. Matrices and right-hand sides whose shapes do not make a system are refused. A copied system is independent of the one it was copied from.",
  ["histories", "inputs"], "all assembly histories, sparsity patterns and renumberings",
  "Tests build systems in one way and one order only.",
  ["src/matrix/solve/mod.rs", "src/matrix/sparse.rs", "src/matrix/graph.rs"],
  [("additive coefficients", "src/matrix/solve/mod.rs add_k_coefficient, add_m_coefficient, add_rhs_val"), ("reordering", "src/matrix/solve/mod.rs reduce_envelope, into_krp, into_parts")],
  None, [("perm", "ordering applied to K, M and the right-hand side", "src/matrix/solve/mod.rs System")])

p("C11", "Numerical integration is exact for the polynomials it promises",
  "Integrating along a segment with n sample points is exact for every polynomial of degree up to 2n-1 in position, scales with the segment's true length, is independent of the segment's direction and additive over a split. Integration over the unit triangle is exact for every polynomial of degree up to two. Matrix-valued integrands are integrated entry by entry.",
  ["inputs", "configurations"], "all polynomials up to the promised degree, segments anywhere in the plane, orders 1 to 4",
  "One polynomial on one segment at order 2 is tested.",
  ["src/element/integrate.rs"],
  [("Gauss points and weights", "src/element/integrate.rs gauss_segment_mat, gauss_tri")])

p("C12", "Element stiffness is the exact elastic stiffness of its triangle",
  "For every non-degenerate triangle, material and plane or axisymmetric condition, the element stiffness equals that of the constant-strain triangle theory, hence is symmetric, positive semi-definite, and produces no force under rigid motion. It does not depend on the order (either orientation) in which the three nodes are listed beyond relabelling, nor, for the plane conditions, on where the triangle sits, and it turns with the triangle. Degenerate (zero-area) elements are refused.",
  ["inputs", "configurations"], "all triangles incl. slivers, both orientations, all materials with valid moduli, all conditions",
  "The tests never assert a stiffness value.",
  ["src/element/element.rs", "src/element/strain.rs", "src/element/integrate.rs"],
  [("strain interpolation and material matrices", "src/element/strain.rs build_b, build_c"), ("integration over the triangle", "src/element/element.rs calc_k, get_isopar_mats")],
  ["element stiffness triplets", "the assembled system handed to the solver"])

p("C13", "Element mass is the exact consistent mass of its triangle",
  "For every non-degenerate triangle and plane condition, the element mass equals density times thickness times the consistent triangle mass, so the total mass in each direction is density times thickness times area, whatever the order in which the nodes are listed; axisymmetric elements weight it by radius. It is symmetric, positive definite and does not couple directions.",
  ["inputs", "configurations"], "all triangles, both orientations, densities, thicknesses and conditions",
  "No test evaluates a mass matrix (the modal element test is commented out).",
  ["src/element/element.rs", "src/element/integrate.rs"],
  [("mass integrand", "src/element/element.rs calc_m")])

p("C14", "Applied loads reach the equations completely and exactly once",
  "The load vector of an assemblage is the sum of all concentrated forces and of every line load, each line load being distributed over its edge's two nodes so that its resultant is force times edge length and its moment is that of the uniform load, and every other node receives nothing from it. Each line load counts once even when its edge is shared by two elements, loads meeting at a node add up, and neither the order in which nodes, elements and loads were added nor the direction in which an edge is named matters.",
  ["histories", "inputs"], "all meshes and load sets: adjacent loaded edges, loads on interior edges, concentrated forces on loaded edges",
  "The only load test applies one line load and asserts nothing.",
  ["src/element/mod.rs", "src/element/element.rs"],
  [("load accumulation", "src/element/mod.rs calc_load"), ("edge integration", "src/element/element.rs int_f_l")],
  ["the right-hand side handed to the solver"],
  [("line_forces / concentrated_forces", "loads keyed by edge / node", "src/element/mod.rs ElementAssemblage")])

p("C15", "Static displacements solve the constrained elasticity problem",
  "For every stably constrained assemblage, the computed displacements satisfy every constraint exactly and equilibrium at every unconstrained degree of freedom with either direct solver, and a body loaded to a uniform stress state deforms exactly as elasticity theory predicts on any mesh. Displacements scale and superpose linearly with the loads, and rotating or renumbering the whole problem rotates or renumbers the result.",
  ["inputs", "configurations", "histories"], "all meshes (random connectivity, orientation, numbering), materials, conditions, constraint and load sets, and direct solvers",
  "The existing tests only check that solving does not panic.",
  ["src/element/mod.rs", "src/element/constraint.rs", "src/element/element.rs", "src/matrix/solve/mod.rs"],
  [("assembly", "src/element/mod.rs calc_k, calc_displacements"), ("constraint elimination and recovery", "src/element/constraint.rs DofTransform")],
  ["node displacements, displacement norms, displaced nodes"])

p("C16", "Constraints combine and transform without losing a restriction",
  "Constraining a node repeatedly never releases a direction an earlier axis constraint fixed: the result fixes the union of the axis directions requested, in any order, an unconstrained request changes nothing, and an angled constraint yields to an axis constraint. Reducing vectors and matrices to the unconstrained directions and expanding solutions back are consistent (the expansion is the transpose of the reduction, energy is preserved, and no expanded motion has a component along a constrained direction). A constraint written as text reads back as the same constraint, and other text is refused.",
  ["histories", "inputs"], "all constraint sequences per node, all angles, all matrices",
  "No test combines constraints or uses an angled one.",
  ["src/element/mod.rs", "src/element/constraint.rs"],
  [("merging", "src/element/mod.rs add_constraint"), ("rotation and masking", "src/element/constraint.rs DofTransform::{bar_matrix,bar_vec,unbar_vec}"), ("text form", "src/element/constraint.rs FromStr, Display")],
  None, [("constraints", "one constraint per node", "src/element/mod.rs ElementAssemblage")])

p("C17", "Recovered stresses and von Mises values are those of the displacement field",
  "The stress at a node is the average, over the elements meeting there, of the stress that elasticity gives for the computed displacements, absent for nodes in no element; a uniform stress state is recovered exactly at every node (plane strain has its stress normal to the plane, and on the axis of an axisymmetric body the hoop strain is the limit of the radial one). The von Mises value is the standard one for the stress tensor each state represents (zero where there is none): non-negative, the same for a plane state and its three-dimensional embedding, scaling with magnitude and unchanged by rotation of axes. The tensor form of a stress state is symmetric and holds the same components.",
  ["inputs"], "all displacement fields, meshes, materials, conditions and stress states of every kind",
  "No test asserts a stress value.",
  ["src/element/stress.rs", "src/element/element.rs", "src/element/mod.rs", "src/matrix/mod.rs"],
  [("nodal averaging", "src/element/mod.rs Deformation::stresses; src/matrix/mod.rs Average"), ("stress recovery", "src/element/element.rs stresses"), ("von Mises", "src/element/stress.rs von_mises")])

p("C18", "Modal analysis returns the lowest natural frequencies and mode shapes",
  "For every stably constrained assemblage, the requested number of modes is returned with ascending frequencies equal to the square roots of the lowest eigenvalues of its stiffness and mass, and each mode shape is the corresponding one, vanishes at constrained directions and has unit modal mass. Frequencies do not depend on node numbering, element node order, position or orientation in the plane, and scale with stiffness, density and size as elasticity dictates.",
  ["inputs", "configurations"], "all meshes, materials, plane conditions, constraint sets and mode counts",
  "The only modal test is commented out because it used to hang.",
  ["src/element/mod.rs", "src/matrix/solve/eigen.rs", "src/element/constraint.rs"],
  [("modal pipeline", "src/element/mod.rs calc_modes"), ("eigen search", "src/matrix/solve/eigen.rs")])

p("C19", "Point arithmetic and geometric predicates decide geometry correctly",
  "Orientation, in-circle and in-sphere answers (corners in counterclockwise order, or in positive orientation) agree with exact arithmetic whenever the configuration is not degenerate to rounding, the circumcentre is equidistant from all three corners and absent for collinear ones, and barycentric coordinates sum to one, reproduce the point and decide membership of the triangle for either corner order. Point operations (sum, difference, scaling, midpoint, distance, dot product, norm, unit vector, conversions) are those of vectors of the point's dimension; a point never shows coordinates beyond its own dimension; adding, subtracting or measuring between points of different dimension, and indexing, building or converting beyond a point's dimension, is refused.",
  ["inputs"], "all point configurations in one, two and three dimensions",
  "Tests check one configuration per predicate, none in three dimensions.",
  ["src/spatial/mod.rs", "src/spatial/predicates.rs"],
  [("determinant predicates", "src/spatial/predicates.rs tetrahedron_dir, in_circle, in_sphere"), ("barycentric coordinates and circumcentre", "src/spatial/predicates.rs bary_coor, circumcenter"), ("point type", "src/spatial/mod.rs Point")])

p("C20", "Every pixel of a rendering is explained by the model drawn",
  "A rendering of any point set, edges and coloured triangles is a square image of the requested size in which the whole model fits, keeps its aspect ratio, and is centred with y pointing up; every node shows as a dot of its colour, every edge as an unbroken line between its nodes, every triangle is filled with the colour map of the linearly interpolated, range-normalised node values, and every other pixel is background. Hiding the mesh hides exactly the dots and lines. Drawing never fails for a model with finite coordinates and at least one point, and replaces the picture that was in the file before.",
  ["inputs", "configurations"], "all point sets (one, two, three dimensions, coincident or collinear ones), values, colours, image sizes and options",
  "The visual tests only save images and assert nothing about them.",
  ["src/visual/mod.rs", "src/visual/fill.rs", "src/visual/bresenham.rs"],
  [("pixel mapping", "src/visual/mod.rs enpixel"), ("rasterisation", "src/visual/bresenham.rs, src/visual/fill.rs"), ("value normalisation", "src/visual/mod.rs set_vals")],
  ["the decoded image file"])

p("C21", "Colour maps are total, continuous and ordered",
  "Both colour maps give a colour for every number. The heat map runs from black through red and yellow to white with no channel ever decreasing and clamps outside zero to one; the rainbow map peaks blue, green and red in that order at one quarter, one half and three quarters, is symmetric around each peak, and fades to black far outside. Neither map jumps: nearby values get nearby colours.",
  ["inputs"], "all floating-point values, including those outside zero to one",
  "No test looks at a colour.",
  ["src/visual/color.rs"], [("piecewise-linear ramps", "src/visual/color.rs hot_map, rgb_map, peak")])

p("C22", "A saved model reads back as the same model",
  "Every model that can be built from nodes, triangles, constraints, concentrated forces and line loads, of a material and condition the mesh format knows, is the same after being saved to a mesh file and read again: every coordinate, thickness, angle and force to the last digit, every element with its corners in order, every constraint and load on its node or edge. Saving what was read gives the same file content up to the order of loads. Its displacements and stresses are those of the model that was saved.",
  ["inputs"], "all models with finite numbers, any node numbering, loads on any nodes or edges, spare nodes included",
  "No test saves or reads a file.",
  ["src/file/bmsh.rs", "src/file/mod.rs", "src/element/mod.rs"],
  [("writer", "src/file/bmsh.rs elas_to_bmsh"), ("reader", "src/file/bmsh.rs bmsh_to_elas"), ("entry points", "src/file/mod.rs save_elas, read_to_elas")],
  ["the file written and the model read from it"])

p("C23", "Mesh files are read as written, and malformed ones are refused",
  "A well-formed mesh file, in any notation of its numbers and with comments and blank lines anywhere, gives exactly the model its lines say, several lines about one node combining as requests to the model do; the materials it may name are aluminium AL6061 (68.9 GPa, Poisson's ratio 0.33, 2700 kg/m3) and the unit material TEST. A file with a mistake (a missing, repeated or cut off section, a wrong count or number, an index out of range, a corner twice in an element, an unknown material, condition or constraint, numbers that are not finite) is refused with an error. Whatever the bytes of the file, reading ends with a model or an error and never ends the program.",
  ["inputs"], "all files: well-formed ones in every notation, with one mistake of every kind, and arbitrary bytes",
  "No test reads a mesh file.",
  ["src/file/bmsh.rs", "src/file/mod.rs"],
  [("section and line parsers", "src/file/bmsh.rs"), ("range checks", "src/file/bmsh.rs bmsh_to_elas")],
  ["the result of reading: a model or an error"])

p("C24", "Boundary files are read as written, and malformed ones are refused",
  "A well-formed boundary file, with its items in any order and its numbers in any notation, gives exactly the polygons, labelled corners, material, condition, distributed forces and distributed constraints its lines say. A file with a mistake (an outline of fewer than three corners or crossing itself or another, a missing end, an unknown label, material, condition or item, numbers missing or not finite) is refused with an error. Whatever the bytes of the file, reading ends with a boundary or an error and never ends the program.",
  ["inputs"], "all files: well-formed ones in every notation and order, with one mistake of every kind, and arbitrary bytes",
  "No test reads a boundary file.",
  ["src/file/bbnd.rs", "src/file/mod.rs", "src/mesher/bounds.rs"],
  [("item parsers", "src/file/bbnd.rs"), ("outline checks", "src/mesher/bounds.rs store_polygon")],
  ["the result of reading: a boundary or an error"])

p("C25", "Subdividing a boundary keeps its shape, loads and constraints",
  "After any sequence of splits and divisions the pieces of each side follow one another from its start to its end on the straight line between them, the outline and holes keep their direction and order, and nothing else is part of the boundary. Every piece of a side carries the side's distributed force and belongs to its base side, every point put on a constrained side is constrained as it is, and points elsewhere gain nothing. Dividing by a length makes pieces of equal length between that length and the square root of three times it wherever that is possible. At any point the boundary tells which directed pieces are segments and how large it is, the middle of a piece is visible from a point unless a side that touches neither lies across the line between them, and a segment or polygon that crosses one of the stored segments is refused while any other is stored.",
  ["histories", "inputs"], "all bodies with holes, loads and constraints given in either direction, and all sequences of splits and divisions",
  "No test subdivides a boundary.",
  ["src/mesher/bounds.rs", "src/mesher/mod.rs"],
  [("splitting", "src/mesher/bounds.rs split_segment"), ("division", "src/mesher/bounds.rs divide_all_segments"), ("attributes of pieces", "src/mesher/bounds.rs distributed_forces, constraints"), ("visibility and crossings", "src/mesher/bounds.rs midpoint_visible, intersects, try_store_polygon")],
  None, [("wall and base wall maps", "pieces of every side, in order, and the side of each piece", "src/mesher/bounds.rs PlaneBoundary")])

p("C26", "Chew's mesher tiles every body with triangles of the promised size",
  "For every plane body, with holes or without, whose boundary can be divided into pieces of at least the element size, the mesh covers the body exactly once: its triangles are counterclockwise, meet edge to edge, end exactly at the pieces of the boundary, use every node, and no node lies inside the circle through a neighbouring triangle it can see. No circle through the corners of a triangle is larger than the element size and no edge is shorter. The plain triangulation tiles every body in the same way, however often it is asked for, and both keep every point stored in the body as a node; meshing again, for the same size or one of at most half, or triangulating again keeps all this.",
  ["inputs", "histories"], "all simple outlines with holes, any size, position and orientation, any element size within the algorithm's precondition",
  "No test meshes a body.",
  ["src/mesher/plane.rs", "src/mesher/bounds.rs", "src/mesher/mod.rs"],
  [("advancing front", "src/mesher/plane.rs gift_wrap"), ("point insertion", "src/mesher/plane.rs chew_mesh"), ("visibility", "src/mesher/plane.rs, src/mesher/bounds.rs")],
  ["the assembled mesh"])

p("C27", "Ruppert's mesher makes well-shaped triangles of the promised size",
  "For every plane body without sharp corners, whatever subdivision of its boundary it starts from, refinement ends with a mesh that covers the body exactly once, edge to edge, inside the boundary. No circle through the corners of a triangle is larger than the element size, nor larger than the square root of two times the triangle's shortest edge. Points stored in the body become nodes, and refining or triangulating the mesh again keeps all this.",
  ["inputs", "histories"], "all outlines with holes and angles from sixty degrees, any size, position and orientation, any element size, any earlier subdivision",
  "No test meshes a body.",
  ["src/mesher/plane.rs", "src/mesher/bounds.rs"],
  [("refinement", "src/mesher/plane.rs ruppert_mesh"), ("encroachment", "src/mesher/plane.rs"), ("segment splitting", "src/mesher/bounds.rs split_segment")],
  ["the assembled mesh"])

p("C28", "A meshed body carries its loads and constraints and solves as the body",
  "The mesh of a body has the body's material and condition, the distributed force of a side on every piece of it and nowhere else, and the constraint of a side or corner on exactly the nodes on it, where several meet combined as on any node; a body without material or condition is refused with an error. A rectangle under uniform traction deforms and is stressed exactly as elasticity predicts, whatever its size, the mesher, the element size and the direct solver.",
  ["inputs", "configurations"], "all bodies with loads and constraints on sides and corners in either direction, all meshers, element sizes, conditions and materials",
  "No test assembles a meshed body.",
  ["src/mesher/plane.rs", "src/mesher/bounds.rs", "src/element/mod.rs"],
  [("assembly", "src/mesher/plane.rs assemble"), ("inheritance of loads and constraints", "src/mesher/bounds.rs")],
  ["the assembled model and its solution"])

p("C29", "The command line delivers the library's results and refuses wrong arguments",
  "Meshing writes a mesh file with a valid mesh of the body in the requested file and its picture; the linear and modal commands print the largest von Mises value and displacement, or every mode's frequency in ascending order, of the solution of the model in the file by the requested solver, and draw exactly the requested picture (size, colours, node values, deformation scale, mesh shown or hidden), options in any order and notation, defaults as documented. The results replace whatever was in their files before; no other file is touched. A command with a missing, unknown or unreadable argument or file ends with an error status and no output, and leaves all files as they were.",
  ["inputs", "configurations"], "all models, bodies and combinations of options, and commands with one mistake of every kind",
  "No test runs the program.",
  ["src/main.rs", "src/cli.yml", "src/file/mod.rs"],
  [("commands", "src/main.rs linear, mesh, modal"), ("arguments", "src/cli.yml")],
  ["exit status, standard output, files written"])

p("C30", "An assemblage and its elements report exactly the model put in",
  "After any history of adding nodes, elements, forces, line loads and constraints, with solutions in between, an assemblage lists exactly what was put in: nodes under consecutive ids at their coordinates, elements in order with their corners in order, every side of an element among its edges and nothing else, the latest force of a node and load of an edge, every node's combined constraint, its material and condition. An element knows its own corners and sides and no others, sends every entry to the right node and direction, and resolves a load along one of its sides into half at each end. An element of zero area, or on nodes that are not there, and a constraint on a node that is not there, is refused, and a refusal or a solution changes nothing.",
  ["histories", "inputs"], "all histories of additions, refusals and solutions, all node numberings, corner orders, forces, conditions and materials",
  "Tests build one or two fixed assemblages and never ask them what they hold.",
  ["src/element/mod.rs", "src/element/element.rs", "src/element/constraint.rs"],
  [("book-keeping", "src/element/mod.rs ElementAssemblage"), ("corners, sides and degrees of freedom", "src/element/element.rs node, node_natural, nodes_connect, map_dof, int_f_l"), ("refusal", "src/element/mod.rs try_add_element")],
  ["accessors of the assemblage and of its elements"])

p("C31", "Pictures of boundaries and triangulations show all their points and edges",
  "At any point of a boundary's history - polygons stored, sides split and divided, free points and single segments added - its picture shows every point as a dot and every piece as an unbroken line between its two ends, and nothing else: no side that has been divided away, no line between points that are not joined. The picture of a triangulation, by any mesher, shows every node and every edge of every triangle, those of the boundary included, and before meshing the points alone. Points may be marked in further colours, the picture has the requested size, hiding the mesh leaves it empty, and making it changes nothing of the boundary or mesh.",
  ["histories", "inputs"], "all bodies with holes, all sequences of splits, divisions, free points and segments, all meshers and element sizes, image sizes and marks",
  "No test draws a boundary or a mesh.",
  ["src/mesher/bounds.rs", "src/mesher/plane.rs", "src/visual/mod.rs"],
  [("boundary pictures", "src/mesher/bounds.rs visualize"), ("mesh pictures", "src/mesher/plane.rs visualize"), ("marks", "src/visual/mod.rs add_points")],
  ["the decoded image file"])

json_lines = [json.dumps(x, ensure_ascii=False) for x in P]
open("/verif/properties.jsonl", "w").write("\n".join(json_lines) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
