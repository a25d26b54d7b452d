#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept here only to make editing the properties bearable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    a = {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L = "lib/mito/"
# ---------------------------------------------------------------- utilities
p("U01", "Shared handles conserve reference counts",
  "At every point of every program that creates, copies, moves, assigns (also to itself, to an alias of the same resource, or from/to a null handle) and drops shared handles, the number of references a handle reports equals the number of live handles designating that resource. A moved-from handle is null, null handles can be copied, moved, assigned and dropped without effect, and equality and ordering of handles follow the identity of the resource they designate.",
  ["programs", "histories"], "every finite sequence of handle operations over any number of resources and handles, including null and aliased handles",
  "The unit test copies and moves a handful of non-null handles once; conservation must hold over every interleaving of copies, moves, self- and alias-assignments and null handles.",
  [L+"utilities/SharedPointer.h", L+"utilities/SharedPointer.icc", L+"utilities/Shareable.icc"],
  ["intrusive count acquired in constructors/assignments and released in destructor/assignments"],
  [("_reference_count", "number of outstanding handles stored in the resource")], ["references()", "is_nullptr()", "id()"])
p("U02", "Segmented containers behave as a stable-address bag of live elements",
  "Under every history of insertions, erasures, moves and random accesses, the container's size is the number of live elements, iterating it (with pre- or post-increment) visits exactly the live elements once each in storage order, and an element never changes address or content while it is alive. Erasing a live element succeeds exactly once, freed locations are reused before the capacity grows, and capacity grows by whole segments only.",
  ["histories", "configurations"], "every history of insert/erase/iterate/move, for every segment size and element type",
  "Unit tests use segment sizes of 2-10 and one fixed sequence of a few operations; reuse order, holes at segment borders, and iteration after mixed histories are not sampled.",
  [L+"utilities/SegmentedVector.h", L+"utilities/SegmentedAllocator.h", L+"utilities/SegmentedAllocatorIterator.h", L+"utilities/SegmentedContainerIterator.h"],
  ["segment list with tail pointers", "queue of available locations", "validity-skipping iterators"],
  [("available locations", "erased slots to be reused"), ("end", "first never-constructed slot")], ["size/capacity/begin/end/operator[]"])
p("U03", "Stored elements are destroyed exactly once",
  "Every element that a segmented container or a repository constructs is destroyed exactly once - when its slot is recycled, when it is erased, or when the container dies - and never used after destruction, whatever the history of insertions, erasures, reuses and moves of the container. No memory obtained by the container is leaked or touched out of bounds.",
  ["histories"], "every history of insert/erase/reuse/move, for every element type whose constructors do not throw",
  "Lifetimes are invisible to value assertions: the unit tests' elements own nothing, so a leak or double destruction passes.",
  [L+"utilities/SegmentedVector.h", L+"utilities/Repository.h", L+"utilities/SegmentedAllocator.h"],
  ["placement new / explicit destructor calls per slot", "bulk release of segments"], [], ["constructor/destructor ledger", "AddressSanitizer/LeakSanitizer reports"])
p("U04", "A repository retires a resource only when its last handle is given back",
  "A resource checked out of a repository stays at the same address, with the same content and identity, as long as any handle to it exists; asking the repository to erase it returns true and frees its slot if the handle given is the only one, and returns false and changes nothing if other handles exist or the handle is null. The repository's size counts the resources created and not erased, and iterating it visits exactly those of them that are in use, once each.",
  ["histories"], "every history of emplace/copy handle/drop handle/erase/iterate on a repository",
  "The unit tests erase only resources with a single handle, on a container of three to six elements.",
  [L+"utilities/Repository.h", L+"utilities/SegmentedContainerIterator.h"],
  ["erase through the shared handle", "use-count based validity"], [], ["size/capacity/begin/end/erase/resource"])
# ---------------------------------------------------------------- math, tensor
p("A01", "Permutation signs form the sign homomorphism",
  "The sign computed for an arrangement with respect to a reference arrangement of the same distinct elements is +1 when an even number of transpositions relates them and -1 otherwise. Hence it is multiplicative under composition, symmetric in its two arguments, +1 for identical arguments, and changes when any two entries are exchanged.",
  ["inputs"], "all pairs of arrangements of distinct elements, of any positive length and any element type",
  "The tests check a few arrangements of three or four integers.",
  [L+"math/combinatorics.h"], ["swap-sort against the reference and swap-count parity"])
p("A02", "Differential forms are multilinear and wedge products are alternating",
  "For all vectors and metrics, one-forms built from a vector evaluate the metric contraction, forms are linear in every argument and in scalar multiples, sums and differences of forms, and tensor products evaluate to the product of the factors. Every supported wedge product (of two or three one-forms, of a scalar and a form, of a one-form and a two-form) equals the alternating sum prescribed by the exterior product - so it vanishes on repeated arguments, flips sign under exchange, is associative, and is the determinant on three one-forms - and contracting some slots first and the rest later gives the same number as contracting all at once. The basis vectors, unit matrices and identity that go by a name (e_0, e_01, identity, ...) have the components their names say.",
  ["inputs"], "all tuples of vectors, metrics, scalars and forms of degree up to three, and all choices of partially contracted slots",
  "Existing tests are compile-time assertions on the canonical basis; on basis vectors many wrong formulas agree.",
  [L+"tensor/Form.h", L+"tensor/wedge.h", L+"tensor/tensor.h", L+"tensor/forms_algebra.h", L+"tensor/factories.h", L+"tensor/api.h"],
  ["closures evaluating the alternating sums", "dummy vector for partial contraction"])
# ---------------------------------------------------------------- topology
p("T01", "One simplex object per oriented vertex set",
  "Over every history of creation and erasure, asking for a simplex by its vertices or by its facets (listed coherently: head to tail for a triangle, as the vertex-based constructor lists them up to an even rearrangement for a tetrahedron) returns the same object for all arrangements related by an even permutation, the flipped object of the same unoriented footprint for odd ones, and a distinct footprint for any other vertex set. The number of simplices of each dimension equals the number of distinct oriented simplices ever requested (directly or as facets) and not erased since.",
  ["histories", "inputs"], "every history of requests over any number of vertices, dimensions 1 to 3, any permutation of vertices or facets",
  "Tests build one or two tetrahedra and compare a few ids; the identity classes over long create/erase histories with address reuse are not explored.",
  [L+"topology/SimplexFactory.h", L+"topology/OrientedSimplexFactory.h", L+"topology/Topology.icc"],
  ["representative by sorted footprint ids", "orientation map (footprint, sign) -> oriented simplex"],
  [("compositions map", "canonical facets -> footprint"), ("orientations map", "(footprint, orientation) -> simplex")], ["id()", "n_simplices", "vertices()"])
p("T02", "Existence and flip queries agree with the creation history",
  "A simplex is reported to exist exactly when an oriented simplex with that vertex order class has been created and not erased, and its flipped counterpart is reported exactly when the opposite orientation has. Flipping is an involution that keeps the footprint and negates the orientation, and queries never create, destroy or alter simplices.",
  ["histories", "inputs"], "every history of creations, flips, erasures and queries",
  "Tests query a couple of segments right after creating them.",
  [L+"topology/Topology.icc", L+"topology/OrientedSimplexFactory.h"], ["find in compositions and orientations maps"], [], ["exists", "exists_flipped", "flip"])
p("T03", "The boundary of a simplex is a closed, consistently oriented cycle",
  "For every simplex of dimension 1 to 3 built in any way, its facets are the distinct facets spanned by its vertices, oriented so that in the boundary of its boundary every sub-facet cancels, and the boundary of the flipped simplex is the opposite chain. The vertices it reports are its vertices in an order belonging to its orientation class, and edges and faces it enumerates are exactly the ones its vertices span.",
  ["inputs", "programs"], "all simplices of dimension 1-3 built from vertices or facets in any arrangement and orientation",
  "Tests list the facets of one tetrahedron built in the canonical order.",
  [L+"topology/Topology.icc", L+"topology/OrientedSimplex.h", L+"topology/Simplex.h", L+"topology/utilities.h"],
  ["vertex-to-facet tables of the triangle and tetrahedron builders", "vertices recovered from facets"], [], ["composition()", "vertices()", "edges()"])
p("T04", "Erasing a simplex reclaims exactly its unused closure",
  "Erasing a simplex removes it, and then recursively those of its facets that no other simplex or handle uses, and nothing else; erasing one that is still in use elsewhere changes nothing. After every history the surviving simplices are exactly the ones reachable from what users still hold or have not erased, still intact, and re-creating an erased simplex works as if it were new.",
  ["histories"], "every history of creations and erasures over meshes of shared simplices, with any set of outstanding handles",
  "Two tests erase one cell of a two-cell patch; the closure logic over arbitrary sharing patterns is not sampled.",
  [L+"topology/Topology.icc", L+"topology/OrientedSimplexFactory.h", L+"topology/SimplexFactory.h"],
  ["use-count guarded recursive erasure"], [], ["n_simplices", "exists", "vertices()"])
p("T05", "Flipping a diagonal preserves the quadrilateral",
  "Flipping the shared diagonal of two adjacent, consistently oriented triangles yields two triangles that share the other diagonal, cover the same four vertices, keep the outer four edges with their orientations, and are again consistently oriented. Flipping twice restores the original pair.",
  ["inputs"], "all pairs of adjacent triangles, in any vertex arrangement and either global orientation, bare or carrying nodes",
  "One test flips one pair in one arrangement.",
  [L+"topology/FlipDiagonal.icc", L+"geometry/utilities.h"], ["opposite vertices / shared edge search"])
# ---------------------------------------------------------------- coordinates, geometry
p("C01", "Coordinate arithmetic and changes of coordinates are consistent",
  "In Cartesian, polar and spherical coordinates, adding to a place the displacement between it and another place yields that other place, displacements and distances agree with the Euclidean ones of the corresponding Cartesian places, and distance is a metric. Converting coordinates to another system and back reproduces the place, and a coordinate system built from another one holds exactly the same points at the converted places.",
  ["inputs"], "all coordinates away from coordinate singularities, in 1-3 dimensions",
  "Tests convert two or three places whose images are known by heart.",
  [L+"coordinates/Coordinates.h", L+"geometry/coordinate_transformation.h", L+"geometry/cartesian/algebra.h", L+"geometry/polar/algebra.h", L+"geometry/spherical/algebra.h", L+"geometry/CoordinateSystem.h", L+"geometry/algebra_coordinates.h"],
  ["per-system operator+ and operator-", "transform_coordinates specializations"])
p("C02", "Metric, basis and volume form of each coordinate system are compatible",
  "At every place of every supported coordinate system the metric is the symmetric positive Gram matrix of the coordinate basis, its inverse inverts it, basis one-forms and basis vectors are dual, and the volume form takes the value sqrt(det g) on the coordinate basis and is alternating. The named coordinate extraction functions return the coordinate they are named after, and converting a vector to its metric-equivalent one-form and back (and vice versa) is the identity.",
  ["inputs"], "all places away from coordinate singularities, all vectors, for Cartesian 1D-3D, polar 2D, spherical 3D",
  "Tests evaluate the forms on basis vectors at one or two places.",
  [L+"geometry/metric_space.h", L+"geometry/cartesian/metric.h", L+"geometry/polar/metric.h", L+"geometry/spherical/metric.h", L+"geometry/cartesian/api.h", L+"geometry/polar/basis.h", L+"geometry/spherical/basis.h"],
  ["field expressions for g, g^-1, dx, w", "metric_equivalent"])
p("G01", "Geometric cells agree with their nodes",
  "For every segment, triangle and tetrahedron in 1-3 dimensions, the parametrization is the affine map that sends the reference vertices to the cell's nodes in order, the barycenter is the mean of the nodes, the directors are the edges out of the first node, and the underlying simplex carries the nodes' vertices in the same orientation class. Flipping a cell keeps its nodes and reverses its signed volume, extracting a facet of a cell yields the facet's nodes, points keep the coordinates they were placed at, and a point cloud enumerates each point in use once.",
  ["inputs"], "all node placements, all vertex arrangements, all simplex dimensions N <= D <= 3",
  "Tests check one simplex per dimension with hand-picked coordinates.",
  [L+"geometry/GeometricSimplex.h", L+"geometry/utilities.h", L+"geometry/ReferenceSimplex.h", L+"geometry/CoordinateSystem.h", L+"geometry/factories.h"],
  ["node order kept alongside the canonical simplex", "reference barycentric coordinates"])
# ---------------------------------------------------------------- mesh
p("K01", "A mesh counts and classifies its cells under any insert/erase history",
  "After every history of inserting and erasing cells, the mesh holds exactly the cells inserted and not erased (with the nodes they were given), and a facet of one of its cells is on the boundary exactly when no present cell has that facet, as oriented in the cell's boundary, with the opposite orientation. Removing topological duplicates leaves exactly one cell per unoriented simplex, and removing geometrical duplicates one per oriented simplex, keeping the first in iteration order.",
  ["histories"], "every history of cell insertions (by nodes or by cell, with duplicates and flipped copies), erasures and duplicate removals, for all cell types",
  "Tests erase one cell of a tiny mesh and remove duplicates once.",
  [L+"mesh/Mesh.h"], ["segmented cell storage", "per-facet counts of +/- orientations"], [("orientation counts", "occurrences of each facet with each orientation")], ["nCells", "cells", "isOnBoundary"])
p("K02", "The boundary of a mesh is the closed skin of its cells",
  "The boundary mesh contains exactly one cell per boundary facet, with the nodes of the cell it came from and the orientation it has in that cell's boundary, its size agrees with the reported boundary size, and the boundary of a conforming mesh has itself no boundary. The signed volume computed from the skin by the divergence theorem equals the volume of the mesh (with facets of segments and triangles listed outwards and those of tetrahedra inwards), and filtering a mesh by a lower dimension yields exactly the sub-cells of that dimension of its cells, with their nodes.",
  ["inputs", "histories"], "all conforming simplicial meshes in 1-3 dimensions, including meshes with holes, after erasures, and read from files",
  "Tests compare boundary sizes of two or three meshes with known counts.",
  [L+"mesh/Boundary.icc", L+"mesh/Filter.icc", L+"mesh/Mesh.h", L+"geometry/utilities.h"], ["facets whose opposite orientation does not occur"])
p("K03", "Uniform refinement subdivides a mesh without gaps, overlaps or cracks",
  "Refining a mesh n times replaces every cell by 2^(N*n) positively oriented cells that lie in it and whose volumes add up to its volume, with every new node at the midpoint of an edge; zero refinements reproduce the mesh. A conforming mesh stays conforming: cells that shared a facet share the refined facets, so the refined boundary has 2^((N-1)*n) times as many facets and the same measure.",
  ["inputs", "configurations"], "all simplicial meshes (N <= D <= 3), any number of refinements",
  "Tests refine single cells and check volumes; refinement of shared facets is not checked.",
  [L+"mesh/tetra.h"], ["recursive subdivision with edge midpoints"])
p("K04", "Mesh partitions cover the mesh exactly once in every process",
  "For every mesh and number of partitions, the parts handed out for ranks 0..n-1 are disjoint, together contain every cell of the mesh exactly once with its nodes, and a single partition reproduces the mesh. The assignment does not depend on the process or memory layout in which it is computed, so parts computed independently by different processes still fit together.",
  ["inputs", "configurations", "programs"], "all meshes, numbers of partitions and ranks, computed in one or in several processes",
  "Tests use two partitions on two meshes and compare counts in one process.",
  [L+"mesh/metis/Partitioner.icc"], ["METIS dual-graph painting followed by per-rank extraction"])
# ---------------------------------------------------------------- functions & fields
p("F01", "Function algebra is pointwise",
  "For every expression built from the library's functions, constants and operators (+, -, *, /, powers, composition, subscripts, transpose, inverse, determinant, dyadic products, linear combinations), evaluating the expression at a place gives the value obtained by evaluating the operands there and combining the results. Evaluation has no side effects, does not depend on when or where the expression was built, and can be repeated.",
  ["inputs", "programs"], "all well-typed expressions (scalar, vector and tensor valued) and all places in their domain",
  "Tests compare a few fixed expressions at one or two places.",
  [L+"functions/function.h", L+"functions/algebra.h", L+"functions/library_functions.h", L+"functions/factories.h"],
  ["expression templates storing operands by value"])
p("F02", "Symbolic derivatives equal the true derivatives",
  "For every differentiable expression and every place in its domain, the derivative function (and the partial derivative in each argument, and higher derivatives obtained by repetition) evaluates to the limit of difference quotients of the function itself. Linear, product, quotient and chain rules therefore hold for all operands, and derivatives of tensor-valued functions have the derivative of output component i with respect to input component j in entry (i, j).",
  ["inputs", "programs"], "all differentiable expressions of the library (scalar, vector, tensor valued, of scalars, vectors or coordinates) and all places in their domain",
  "Tests check each rule on one hand-derived example.",
  [L+"functions/derivation_rules.h", L+"functions/library_derivatives.h", L+"functions/partial_derivatives.h"],
  ["overloads producing derivative expressions"])
p("F03", "Gradient and divergence of fields follow vector calculus",
  "For all smooth scalar, vector and tensor fields in Cartesian coordinates, the gradient of a field contracted with any direction is its directional derivative, the divergence of a vector field is the trace of its gradient and that of a tensor field acts row by row. The product rules and identities of vector calculus that follow (linearity, div(f v), div of a curl-type field being zero, equality of mixed derivatives) hold at every place.",
  ["inputs", "programs"], "all smooth fields and all places",
  "Tests check identities on fixed trigonometric fields at one place.",
  [L+"fields/differential.h", L+"fields/fields_algebra.h"], ["sums of partial derivatives times unit tensors"])
# ---------------------------------------------------------------- manifolds & quadrature
p("Q01", "Quadrature rules are exact up to their declared degree",
  "Every quadrature rule offered on segments, triangles and tetrahedra has its points inside the reference cell and weights summing to one, and integrates every polynomial up to its declared degree exactly (to rounding). The same holds for integrating polynomial fields with it over any affine cell and any mesh, independently of the numbering of the cell's nodes.",
  ["inputs", "configurations"], "all rules and degrees, all polynomials up to the degree, all affine cells in 1-3 dimensions",
  "Tests integrate two or three monomials per rule.",
  [L+"quadrature/quadrature_tables_segments.icc", L+"quadrature/quadrature_tables_triangles.icc", L+"quadrature/quadrature_tables_tetrahedra.icc", L+"quadrature/QuadratureRule.h", L+"quadrature/Integrator.h"],
  ["tabulated points and weights", "pull-back through the cell parametrization"])
p("Q02", "Integrals over manifolds are additive, invariant and satisfy Stokes",
  "The volume of a manifold is the sum of its cells' volumes and equals the exact simplex volume for Cartesian coordinates, is unchanged by rigid motions, renumbering and refinement, and changes sign with orientation. Integrals are linear in the integrand and additive over disjoint parts, the flux of a smooth field through the skin equals the integral of its divergence up to quadrature exactness (facets of tetrahedra are listed inwards, those of triangles outwards), and manifolds in polar or spherical coordinates give the same integrals as in Cartesian ones.",
  ["inputs", "configurations"], "all oriented simplicial meshes, polynomial integrands within exactness, rigid motions, renumberings, refinements",
  "Tests compute the area of a few shapes to loose tolerances.",
  [L+"manifolds/Manifold.h", L+"manifolds/factories.h", L+"quadrature/Integrator.h"], ["volume form contracted with cell directors"])
p("D01", "Discrete fields map each entry to its own value",
  "A discrete field built on the nodes of a mesh, on the points of a cloud or on the cells of a mesh has exactly one entry per distinct key, initialized to the default value, and under every history of insertions, reads and writes each key returns the last value written to it, without affecting other keys. A mesh field sampled from a continuous field holds at every node the value of the field at that node's place, and moving a field preserves its content.",
  ["histories", "inputs"], "every history of insert/read/write, every mesh or cloud, every value type",
  "Tests fill one field and read it back.",
  [L+"discrete/DiscreteField.h", L+"discrete/factories.h"], ["hash map keyed by handle identity"])
# ---------------------------------------------------------------- io
p("I01", "Writing a mesh and reading it back preserves it",
  "For every mesh, coordinate system and element label, the file produced by the summit writer can be read back by the summit reader into a mesh with the same number of cells, the same connectivity and orientation in the same order, the same sharing of points (private nodes in discontinuous mode), and coordinates equal to printed precision. Writing the re-read mesh produces the identical file.",
  ["inputs"], "all segment, triangle and tetrahedron meshes in 1-3 dimensions, any finite coordinates, any element label",
  "One test round-trips one mesh and compares the number of cells.",
  [L+"io/summit/MeshSummitWriter.h", L+"io/summit/reader.h", L+"io/summit/writer.h"], ["point numbering by first appearance", "text format"])
p("I02", "Reading a damaged mesh file never corrupts memory",
  "For every file content - truncated at any byte, with any token altered, with out-of-range node numbers, inconsistent counts or foreign cell types - the summit reader either returns the mesh the file describes - the cells of the kind asked for, each made of the listed nodes, cells of other kinds passed over - or reports an error in a controlled way. A file of another dimension, with negative counts, with fewer nodes or cells than it declares, or with a cell whose nodes are not listed or repeated is reported, never taken for a smaller mesh. The reader never reads or writes out of bounds, never uses uninitialized data, and never runs away in time or memory beyond what the file size justifies.",
  ["inputs", "fault_sequences"], "all byte strings as mesh file, in particular all truncations and token mutations of valid files",
  "Tests read only well-formed files.",
  [L+"io/summit/reader.h"], ["stream extraction of counts, coordinates and connectivity"])
# ---------------------------------------------------------------- finite elements
p("E01", "Shape functions are a nodal partition of unity",
  "On every element type, each shape function is one at its own node and zero at the others, the functions sum to one and reproduce every polynomial up to the element's degree, everywhere in the element. Reported shape derivatives and spatial gradients are the true ones, gradients sum to zero, and the Jacobian is that of the map from the reference cell to the element.",
  ["inputs"], "all element types, all places in the reference cell, all positively oriented element geometries",
  "Tests check the functions at quadrature points of one element.",
  [L+"fem/elements/seg1/ShapeSegmentP1.h", L+"fem/elements/tri1/ShapeTriangleP1.h", L+"fem/elements/tri2/ShapeTriangleP2.h", L+"fem/elements/tri1/IsoparametricTriangleP1.h", L+"fem/elements/tri2/IsoparametricTriangleP2.h", L+"fem/elements/seg1/IsoparametricSegmentP1.h"],
  ["polynomial expressions in reference coordinates", "isoparametric Jacobian"])
p("E02", "Elementary blocks are the exact weak-form integrals",
  "With a quadrature rule of sufficient degree, the elementary stiffness, mass and source contributions of every element equal the exact integrals of the products of shape functions or gradients (and source) over the element, for every element geometry. They are symmetric, invariant under translation, consistent under renumbering of the nodes, stiffness annihilates constants, mass sums to the cell's volume, and a weak form returns the sum of the blocks added to it. A block keeps what it was made of: the function given to it need not outlive the call.",
  ["inputs"], "all element types and positively oriented geometries, all polynomial sources within exactness, any set of blocks",
  "Tests compare the matrix of one reference triangle with tabulated values.",
  [L+"fem/blocks/GradGradBlock.h", L+"fem/blocks/MassBlock.h", L+"fem/blocks/SourceTermBlock.h", L+"fem/Weakform.h"], ["quadrature loops over shape functions"])
p("E03", "Discretization shares degrees of freedom exactly where cells meet",
  "Discretizing any conforming mesh creates one element per cell, exactly one discretization node per mesh node in use (and for quadratic elements exactly one more per distinct edge), shared by all elements that touch it and by no other, independently of cell order, node numbering and memory layout. The constrained nodes are exactly those lying on the constrained domain, and a finite element field has exactly one value per discretization node.",
  ["inputs", "configurations"], "all conforming meshes (segments, triangles), element degrees, constraint domains, cell orders",
  "Tests check the number of nodes implicitly through one solution norm.",
  [L+"fem/FunctionSpace.h", L+"fem/elements/seg1/DiscretizerCG.h", L+"fem/elements/tri1/DiscretizerCG.h", L+"fem/elements/tri2/DiscretizerCG.h", L+"fem/FemField.h", L+"fem/utilities.h"],
  ["node map from mesh to discretization nodes", "edge map for mid-side nodes"])
p("E04", "Assembled systems and solutions satisfy the discrete weak problem",
  "The system assembled for any mesh, weak form and constraint has one equation per unconstrained node and entries equal to the sums of elementary contributions over the elements sharing the nodes; its solution, read back as a field, satisfies every discrete equation to solver accuracy and is zero on constrained nodes. It converges to the exact solution under refinement at the element's order, coincides with it when it lies in the discrete space. All this holds for the offered blocks and for blocks a user writes, symmetric or not; solving again gives the same solution, and, if what a block contributes has changed in between, the solution of the changed problem alone.",
  ["inputs", "configurations"], "all meshes of segments and triangles, degrees 1 and 2, weak forms from the offered blocks and blocks of a user, constraint domains, solver options, repeated solves",
  "Tests run one Poisson problem per element with a fixed mesh and a loose error bound.",
  [L+"fem/DiscreteSystem.h", L+"solvers/LinearSolver.h", L+"fem/FunctionSpace.h"], ["equation map", "assembly loop", "solution scatter"])
p("E05", "Discrete norms are the true norms of the represented functions",
  "The L2 and H1 norms computed on a function space equal the norms of the functions the fields represent on the meshed domain up to quadrature exactness: they vanish exactly for equal fields, scale absolutely with scalars, obey the triangle inequality, and the squared H1 norm is the sum of the squared L2 norms of value and gradient. Localizing a finite element field on an element gives at each element node that node's value.",
  ["inputs"], "all discrete fields and polynomial continuous fields, all meshes",
  "Tests use the norms only to print errors on one mesh.",
  [L+"fem/norms.h", L+"fem/localize.h", L+"fem/blocks/L2NormBlock.h", L+"fem/FemField.h"], ["elementwise localization and quadrature"])
# ---------------------------------------------------------------- solvers
p("S01", "The linear-system layer stores and solves exactly what was put in",
  "After any sequence of setting and adding matrix and right-hand-side entries followed by a solve, the returned solution satisfies the system defined by those entries (last set value, plus sums of added values) to solver accuracy, and reading the solution twice gives the same vector. Options given to one solver act on that solver only, whatever their order, spacing or number, and systems with different names (up to case) coexist without influencing each other. A system that is reset, or created again with another number of equations, has no trace of its past entries.",
  ["histories", "configurations"], "all sequences of set/add/solve on any well-posed system and any number of coexisting named systems and option strings",
  "The test solves one 10x10 tridiagonal system with one option string.",
  [L+"matrix_solvers/backend/petsc/PETScLinearSystem.cc", L+"matrix_solvers/backend/petsc/PETScKrylovSolver.cc", L+"matrix_solvers/backend/petsc/PETScLinearSystem.icc"],
  ["PETSc matrices/vectors", "options prefixing"])
p("S02", "One simulation context per process, consistent with the job",
  "The simulation object and its context are created once per process, every access - from any translation unit or thread - yields the same object, and the context reports the process' rank and the size of the job, with ranks distinct and covering 0..n-1 across a parallel job. The message-passing environment is initialized exactly once, usable while the context lives, and shut down exactly once, also when the application (by hand, or through an object that outlives or is outlived by the context) or the solver backend initialized or finalized it.",
  ["configurations", "programs"], "all job sizes, all access orders to the singleton",
  "The MPI tests run only with their launcher and only read the rank.",
  [L+"simulation/Simulation.h", L+"simulation/Context.icc", L+"utilities/Singleton.h"], ["function-local static singleton", "MPI init/finalize in constructor/destructor"])
# ---------------------------------------------------------------- materials
p("H01", "Stresses and tangents of hyperelastic materials derive from the energy",
  "For every admissible deformation gradient and material parameters, the stress of each hyperelastic material is the derivative of its strain energy and the tangent moduli are the derivative of its stress, with the tangent having major symmetry. In the undeformed state the stress vanishes and the energy is at a minimum; the parameters mean what they say (shear modulus at rest of the Gent material, Young's modulus and Poisson's ratio of the linear one).",
  ["inputs"], "all admissible material parameters and deformation gradients with positive determinant (within the locking limit where there is one)",
  "Tests run the built-in consistency check at one deformation gradient per material.",
  [L+"materials/Gent.h", L+"materials/LinearElastic.h"], ["closed-form energy, stress and tangents"])
p("H02", "Hyperelastic response is frame indifferent and isotropic",
  "For the finite-deformation materials, superposing any rotation on a deformation leaves the strain energy unchanged and rotates the stress, applying a rotation before the deformation leaves the energy unchanged as well, and the resulting Cauchy stress is symmetric. For the linear material the energy and stress are invariant under superposed infinitesimal rotations and stress depends linearly on the displacement gradient.",
  ["inputs"], "all rotations, admissible deformation gradients and material parameters",
  "No test rotates anything.",
  [L+"materials/Gent.h", L+"materials/LinearElastic.h"], ["energy as function of invariants"])
p("H03", "The material consistency check accepts exactly the consistent materials",
  "The consistency check reports success for a material whose stress and tangents are the derivatives of its energy and stress at the given deformation, and failure otherwise: it compares the norm over all components of the difference between the increment of energy (stress) across the perturbation and the increment predicted by the stress (tangents) with the tolerance - for every deformation, perturbation, tolerance and component. Its verdict depends only on its arguments, however they were created.",
  ["inputs", "programs"], "all materials (right and deliberately wrong in any component), deformations, perturbations and tolerances",
  "The check itself is only exercised on correct materials.",
  [L+"materials/MaterialConsistencyTest.h"], ["centered differences of energy and stress"])
# ---------------------------------------------------------------- whole library
p("X01", "No workflow of the library has undefined behaviour",
  "Every end-to-end workflow through the public interface - build or read a mesh, refine, partition, filter, erase, take boundaries, make manifolds, integrate, discretize, assemble, solve, compute norms, write - runs without out-of-bounds or use-after-free access, leaks of container memory, uninitialized reads, integer or alignment errors or null dereferences, and without tripping the library's own internal consistency assertions. This holds through program exit, including the destruction of meshes and handles held in static objects.",
  ["programs", "inputs"], "all workflows composed of public operations on valid inputs, through process exit",
  "Tests run without instrumentation: undefined behaviour that happens to give the right numbers passes.",
  [L+"mesh/Mesh.h", L+"utilities/SegmentedAllocator.h", L+"topology/Topology.h", L+"fem/DiscreteSystem.h", L+"utilities/Repository.h"], ["manual lifetime management, raw locations, references held across objects"])
p("X02", "Results do not depend on memory layout, build mode or process history",
  "Running the same workflow twice gives the same results - counts, connectivity, orientations and boundaries exactly, floating-point quantities to rounding - whatever addresses objects happen to get, whatever was created or erased earlier in the process, and whether or not optimization and internal assertions are enabled.",
  ["configurations", "histories"], "all memory layouts, previous histories in the process, optimization levels and assertion settings",
  "Each test runs once in one build with one layout; object identity is the memory address, so order of sets and maps varies from run to run.",
  [L+"topology/SimplexFactory.h", L+"fem/DiscreteSystem.h", L+"mesh/metis/Partitioner.icc", L+"utilities/SharedPointer.icc"], ["ids are addresses; ordered containers keyed by ids"])
# ---------------------------------------------------------------- not applicable here
p("V01", "Visualization files faithfully mirror meshes, clouds and fields",
  "What the VTK writers hand to VTK for a mesh, point cloud or finite element space is that object: each node (point) in use exactly once, at its place in space whatever the coordinate system (to the precision of VTK points), one cell per mesh cell, of its type, on its nodes and with its orientation; each recorded field under its name with the right number of components and at every point the value of the field there. This holds for any number of fields and files per writer, for writers side by side, for several translation units, and in parallel, where each rank writes the piece with its own part under its own name and a consistent summary. The objects given are unchanged.",
  ["inputs", "programs"], "all meshes, clouds, spaces and fields",
  "The writers are compiled only with VTK; their tests write a few fixed files.",
  [L+"io/vtk/MeshVTKWriter.h", L+"io/vtk/NodeVTKWriter.h", L+"io/vtk/PointCloudVTKWriter.h", L+"io/vtk/FieldVTKWriter.h", L+"io/vtk/GridVTKWriter.h", L+"io/vtk/ParallelGridVTKWriter.h", L+"io/vtk/vtk_point.h", L+"io/vtk/vtk_cell.h"],
  ["conversion to VTK unstructured grids"])
p("Y01", "The Python bindings mirror the C++ library and never crash",
  "Every operation offered by the Python extension returns what the corresponding C++ operation returns: coordinates give back what they were made of and refuse indices out of range, fields call their Python functions with the right coordinates and return their values, meshes read from files have the cells of the file, integrals are those of the library and exact for polynomials of degree two. Exceptions of callbacks arrive unchanged and leave every object usable; wrong arguments and unreadable files raise. Objects stay valid as long as anything made from them is in use, whatever the order in which Python deletes them, and are released afterwards. Nothing crashes the interpreter, up to and including its exit.",
  ["inputs", "programs", "schedules"], "all calls through the bindings", "The Python tests call a few functions once.",
  ["extensions/mito/mito.cc"], ["pybind11 wrappers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))
