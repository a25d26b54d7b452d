"""What decides each property: monitors, builds, and the words that go into evidence and manifest."""
import os

import runners  # noqa: F401

V2 = ["dbg", "rel"]
# with these three checks on, gcc no longer takes the addresses of quadrature tables for constants (ASan still sees null accesses)
VF = ["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "vtkstub"),
      "-fno-sanitize=null,returns-nonnull-attribute,nonnull-attribute"]
QF = ["-fno-sanitize=null,returns-nonnull-attribute,nonnull-attribute"]
CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, rule, technique, note, bins=None, **kw):
    CHECKS[pid] = dict(rule=rule, technique=technique, level_note=note, bins=bins or [], **kw)


def b(src, variants=V2, **kw):
    return dict(src=src, variants=variants, **kw)


# the message-passing libraries leak at exit
NOLEAK = {"ASAN_OPTIONS": ":detect_leaks=0"}

check("U01", "random programs over up to 8 handles and 4 resources (create, default, copy, move, assign, self/alias assign, swap, drop, containers); "
      "distinct = distinct operation traces", "runtime monitor with a live-handle count model, ASan/UBSan",
      "Held on the generated handle programs in an instrumented and an optimized build.", [b("U01.cc", scale={"dbg": 0.5})])
check("U02", "random insert/erase/iterate/index/move histories over segment sizes 1..70 and four element sizes, plus runs of 1e5 erased elements; "
      "distinct = distinct operation traces", "runtime monitor with a reference bag model, ASan/UBSan",
      "Held on the generated histories.", [b("U02.cc", scale={"dbg": 0.5})])
check("U03", "random histories of insert/erase/reuse/drop/move over elements that register every construction and destruction and own heap memory; "
      "distinct = distinct operation traces", "construction/destruction ledger plus AddressSanitizer/LeakSanitizer",
      "Held on the generated histories; elements whose constructors throw are out of scope.", [b("U03.cc", ["dbg", "rel", "o3"], scale={"dbg": 0.5})])
check("U04", "random histories of emplace/copy handle/drop handle/erase/iterate/look up by id on repositories; distinct = distinct operation traces",
      "runtime monitor with a use-count model, ASan/UBSan, three optimization levels", "Held on the generated histories.",
      [b("U04.cc", ["dbg", "rel", "o3"], scale={"dbg": 0.5})])

check("T01", "all arrangements of vertices and of coherently listed facets in random order, and random histories of requests, flips, drops and erasures over "
      "4-7 vertices; distinct = distinct operation traces", "runtime monitor with a reference simplicial complex (identity map, counts)",
      "Held on the generated histories; facets are listed coherently (head to tail) as the library's constructors do.", [b("T01.cc", scale={"dbg": 0.4})])
check("T02", "random create/flip/erase histories over 4-6 vertices with all existence queries repeated after every step; distinct = distinct operation traces",
      "runtime monitor with a reference simplicial complex", "Held on the generated histories.", [b("T02.cc", scale={"dbg": 0.4})])
check("T03", "simplices of dimension 1-3 created by vertices or facets in random arrangements on shared footprints; facets, boundary chains, edges, vertices examined; "
      "distinct = distinct creation traces", "runtime monitor with integer chain algebra", "Held on the generated simplices.", [b("T03.cc", scale={"dbg": 0.4})])
check("T04", "random create/flip/drop/erase histories with vertices replaced on the way, and shared patches erased in random order; distinct = distinct operation traces",
      "runtime monitor with a use-count model of the complex, ASan", "Held on the generated histories.", [b("T04.cc", scale={"dbg": 0.4})])
check("T05", "quadrilaterals cut in two triangles given by vertices, facets or flips, on fresh or existing (also opposite) footprints, bare or with nodes; "
      "distinct = distinct (cycle, orientations, surroundings)", "runtime monitor with integer chain algebra and signed areas", "Held on the generated pairs.", [b("T05.cc", scale={"dbg": 0.4})])
check("A01", "arrays and vectors of distinct elements of five types, lengths 1-60 (200 thorough), and all pairs of arrangements of up to 6 elements; "
      "distinct = distinct pairs of arrangements", "runtime monitor against inversion counting and group laws", "Held on the generated arrangements; exhaustive up to 5 (6 thorough) elements.",
      [b("A01.cc")])
check("A02", "random vectors, symmetric and diagonal metrics, functor forms in dimensions 2-4, every supported partial contraction; distinct = distinct argument tuples",
      "runtime monitor against the alternating sums, ASan/UBSan", "Held on the generated forms and arguments (tolerance 1e-12 relative to the size of the summed terms).", [b("A02.cc", ["dbg0", "rel1"])])
check("C01", "random places (all quadrants, axes, magnitudes 1e-2..1e2, away from r=0 and the polar axis), pairs, triples, and sets of up to 12 points; distinct = distinct places",
      "runtime monitor against Euclidean coordinates computed independently, ASan/UBSan", "Held on the generated places to 1e-11 relative.", [b("C01.cc", ["dbg", "rel1"], scale={"dbg": 0.4})])
check("C02", "random places away from singularities in five coordinate systems, random vectors and one-forms; distinct = distinct places",
      "runtime monitor against Lame factors and difference quotients", "Held on the generated places.", [b("C02.cc", ["dbg0", "rel1"])])
check("K01", "random histories (insert by nodes/cell/flipped cell, erase, erase while iterating, duplicate removal, move) over pools of cells from random conforming meshes, "
      "with opposite simplices alive in the topology; distinct = distinct operation traces", "runtime monitor with a multiset-and-chain model of the mesh, ASan/UBSan",
      "Held on the generated histories.", [b("K01.cc", ["dbg", "rel1"], scale={"dbg": 0.35})])
check("K02", "skins and sub-cell filters of random conforming meshes (holes, local refinement, opposite simplices alive), repeatedly after random erasures and re-insertions, and of meshes "
      "read from files; distinct = distinct (connectivity, history)", "runtime monitor with integer chains and the divergence theorem, ASan/UBSan",
      "Held on the generated meshes.", [b("K02.cc", ["dbg0", "rel1"])])
check("K03", "random conforming meshes in 1-3 dimensions (also with unshared nodes on shared vertices), up to 5/3/2 refinements, in one go or in steps; distinct = distinct (connectivity, depth)",
      "runtime monitor locating every new node in the dyadic lattice of its parent cell", "Held on the generated meshes.", [b("K03.cc", ["dbg0", "rel1"])])
check("K04", "random meshes cut in 1-9 parts, ranks asked in any order, repeated, on copies elsewhere in memory and in forked processes; distinct = distinct partitions",
      "runtime monitor of exactly-once cover and cross-process comparison, ASan/UBSan", "Held on the generated meshes.", [b("K04.cc", ["dbg0", "rel1"])])
check("F01", "expressions drawn by a type-directed generator (every operator at the root of each value type, then random nesting) over scalars, vectors, matrices and "
      "coordinates, evaluated at random places; distinct = distinct (expression, place)", "runtime monitor against a reference interpreter with a running rounding-error bound",
      "Held on the generated expressions and places; ill-conditioned places are skipped and counted.", run=runners.f01)
check("F02", "differentiable expressions drawn by the same generator; all first partial derivatives, derivative matrices and mixed second derivatives at random places; "
      "distinct = distinct (expression, place)", "runtime monitor against automatic differentiation with a running rounding-error bound",
      "Held on the generated expressions and places; determinant, inverse, dyadic product and functors have no derivative in the library.", run=runners.f02)
check("F03", "generated scalar, vector and tensor fields of 1-3 Cartesian coordinates: gradients, directional derivatives, divergences, Laplacians, Hessians, product rule, "
      "fields of forms; distinct = distinct (field, place)", "runtime monitor against automatic differentiation with a running rounding-error bound",
      "Held on the generated fields and places.", run=runners.f03)

check("G01", "random node placements (scales 1e-3..1e3), vertex arrangements, cells on existing simplices, flips, facets, simplex dimensions 1-3 in 1-3D, polar and spherical cells, "
      "coordinate systems with up to 150 points; distinct = distinct (arrangement, placement)", "runtime monitor against plain affine geometry, ASan/UBSan",
      "Held on the generated cells.", [b("G01.cc", ["dbg0", "rel1"])])
check("Q01", "every rule on every monomial and random products of affine functions; random polynomials over random cells and meshes in 1-3D, twice with different numbering; "
      "distinct = distinct (monomial | cells)", "runtime monitor against closed-form and 6-point tensor Gauss-Legendre integrals", "Held for every monomial (exhaustive) and on the generated cells.",
      [b("Q01.cc", ["dbg0", "rel1"], flags=QF)])
check("Q02", "random oriented meshes, polynomial and smooth integrands, random partitions, motions, reversals, renumberings, refinements, erasures, skins, polar and spherical copies; "
      "distinct = distinct meshes", "runtime monitor of integral identities against exact integrals", "Held on the generated meshes.", [b("Q02.cc", ["dbg0", "rel1"], flags=QF)])
check("D01", "random histories of insert/read/write/iterate/move on fields of seven value types keyed by nodes, points and cells, and fields sampled from continuous ones; "
      "distinct = distinct (keys, operation trace)", "runtime monitor against a plain table, ASan/UBSan", "Held on the generated histories.", [b("D01.cc", ["dbg0", "rel1"])])
check("E01", "random segments and triangles (scales 1e-3..1e3, slivers, both orientations), linear and quadratic elements, values, derivatives, gradients and Jacobians at random places; "
      "distinct = distinct cells", "runtime monitor against barycentric shape functions of the affine cell and polynomial reproduction, ASan/UBSan",
      "Held on the generated cells; tolerances follow the conditioning of the cell.", [b("E01.cc", ["dbg0", "rel1"], flags=QF)])
check("E02", "elementary stiffness, mass and source blocks and weak forms of random sums of them, on random cells, with sources up to the degree the rule integrates; distinct = distinct cells",
      "runtime monitor against closed-form integrals of products of barycentric functions, ASan/UBSan", "Held on the generated cells.", [b("E02.cc", ["dbg0", "rel1"], flags=QF)])
check("E03", "random conforming meshes (1-D chains and triangulations with holes, permuted cells, unshared nodes, erased cells), constrained domains inside, partly outside and empty; "
      "distinct = distinct (connectivity, constraint)", "runtime monitor against an edge/node census of the mesh, ASan/UBSan", "Held on the generated meshes.",
      [b("E03.cc", ["dbg0", "rel1"], flags=QF)])
check("E05", "random oriented meshes, fields interpolating polynomials and random nodal fields, triangle inequality, scaling, localization; distinct = distinct (mesh, field)",
      "runtime monitor against closed-form norms of piecewise polynomials, ASan/UBSan", "Held on the generated meshes; domain: positively oriented meshes.",
      [b("E05.cc", ["dbg0", "rel1"], flags=QF)])
check("S01", "random histories over up to 4 (6 thorough) linear systems of size 0-35 (70): setting, adding, options in random order, spacing and calls with overrides, repeated solves, "
      "interleaved; serial and under mpirun with 2 and 3 ranks; distinct = distinct histories", "runtime monitor against a dense model (exact solutions for direct, Jacobi, Richardson), ASan/UBSan",
      "Held on the generated histories; domain: systems the chosen method solves, names different up to case, in parallel no entry set by two ranks.",
      [b("S01.cc", ["dbg0", "rel1"], petsc=True, env=NOLEAK), b("S01.cc", ["dbg0", "rel1"], petsc=True, np=2), b("S01.cc", ["rel1"], petsc=True, np=3)])
check("E04", "random conforming meshes, constraints (skin, some facets, none, everything), weak forms of random sums of blocks, five solver settings, repeated solves; exact recovery of functions "
      "of the discrete space; convergence on warped grids; distinct = distinct meshes", "runtime monitor: assembled entries recorded through a substitute linear system and compared with exact "
      "element sums; residual of every equation; exact solutions", "Held on the generated problems; domain: positively oriented meshes, nonsingular problems.",
      [b("E04.cc", ["dbg0", "rel1"], scale={"dbg0": 0.2}, flags=QF, petsc=True, env=NOLEAK)])
check("S02", "scripts of looks at the simulation from two translation units and several threads, mixed with message passing initialized and finalized by hand or through petsc, "
      "message passing in use, linear systems, other singletons; on 1-4 processes and without a launcher; distinct = distinct (script, processes)",
      "event logs of interposed message-passing calls and object identities, judged by an offline checker (exactly-once, coverage of ranks)",
      "Held on the generated scripts.", run=runners.s02)
check("I01", "random conforming meshes in 1-3D with erased, re-inserted and flipped cells, unshared nodes, opposite simplices alive, coordinates of all magnitudes, nine element labels, Cartesian, polar and "
      "spherical systems, both reading modes; distinct = distinct files", "runtime monitor: independent parse of the file, comparison of the mesh read back, byte comparison of the file written again; ASan/UBSan",
      "Held on the generated meshes.", [b("I01.cc", ["dbg0", "rel1"], scale={"dbg0": 0.6})])
check("I02", "mesh files damaged by cuts at every byte, altered, dropped, doubled tokens, bytes and lines, counts off, files of several kinds of cells, noise; compared with what the text says by the format; each read in a forked process with metered memory and time; "
      "distinct = distinct files", "ASan/UBSan fault detection plus a monitor of the cells returned, of memory requested and of time",
      "Held on the generated files; the reader's own sanity assertions count as controlled reports in builds that have them.", [b("I02.cc", ["dbg0", "rel1"], scale={"dbg0": 0.5}, env=NOLEAK)])
check("H01", "random admissible parameters over five decades and deformations (none to large, rotated, single-component, stretches) within the locking limit; all 9 + 81 + 81 components; "
      "distinct = distinct (deformation, parameters)", "runtime monitor against eighth-order differences of the library's energy and stress with an error estimate",
      "Held on the generated deformations to 1e-8 relative.", [b("H01.cc", ["dbg", "rel"], scale={"dbg": 0.1})])
check("H02", "random rotations (also by right angles) before and after random deformations, infinitesimal spins, combinations of displacement gradients, scaled moduli; distinct = distinct "
      "(deformation, rotation)", "metamorphic runtime monitor: rotated and combined evaluations against each other", "Held on the generated deformations and rotations to 1e-12 relative.",
      [b("H02.cc", ["dbg", "rel"], scale={"dbg": 0.1})])
check("H03", "right materials and materials bent in single components of stress or tangents by 1e-6 to 1 of the modulus, polynomial materials with known mismatch, tolerances around the mismatch, perturbations of "
      "1e-6 to 1, arguments that are variables, temporaries, changed or freed afterwards; distinct = distinct (deformation, deviations)",
      "runtime monitor recomputing the mismatch, ASan (stack-use-after-return)", "Held on the generated materials; verdicts within rounding of the tolerance are not judged.",
      [b("H03.cc", ["dbg", "rel"], scale={"dbg": 0.5})])
check("X01", "random programs of 4-40 steps over worlds of meshes in 1-3D: build from nodes, cells or files, refine, partition and merge, erase, put back, remove duplicates, flip diagonals, move, write and read, "
      "filter, boundaries, integrate, discretize, curvilinear coordinates, assemble, solve, norms; several worlds side by side, some left alive until after main; distinct = distinct meshes to start from",
      "ASan, UBSan, LeakSanitizer, memcheck (undefined values), the standard library's and the library's own assertions on random workflows up to process exit", "Held on the generated workflows.",
      [b("X01.cc", ["dbg0"], flags=QF, petsc=True, env=NOLEAK), b("X01b.cc", ["dbg0", "vg"], shards={"vg": 3}, flags=QF)])
check("X02", "the workflows of X01 recorded by 12 (24 thorough) configurations: four builds (unoptimized with assertions, optimized, fully optimized, instrumented), allocation in shuffled places, "
      "dirty memory, other worlds created, changed and destroyed before and next to the workflow, other orders of workflows, other processes; distinct = distinct meshes, configurations",
      "offline comparison of recorded observations (whole numbers exactly, reals up to rounding) across builds, layouts and histories", "Held on the generated workflows and configurations.", run=runners.x02)
check("Y01", "generated Python programs in six kinds: coordinates (any numbers, containers, indices in and out of range, wrong types), scalar fields (functions, partials, objects, methods, fields as callbacks; results of "
      "other types, exceptions, recursion, kept arguments), integrals over generated mesh files, creation and deletion of systems, meshes, manifolds, integrators, cell lists and iterators in any order, damaged files "
      "and wrong arguments, several Python threads; objects left to the interpreter's exit; distinct = distinct inputs",
      "monitors in Python: exact rational arithmetic, the same calls made by a C++ program, weak references; ASan/UBSan build of the extension", "Held on the generated programs.", run=runners.y01)
check("V01", "meshes of segments, triangles and tetrahedra in 1-3D and in polar and spherical coordinates, with holes, erased cells and unshared nodes; point clouds; finite element spaces of degree 1 and 2; up to a "
      "dozen fields of scalars, vectors and matrices under their own or other names, recorded over others of the same name; one writer writing several times, two writers side by side; ranks of parallel jobs "
      "with parts of their own; distinct = distinct meshes",
      "runtime monitor of what reaches VTK: a stand-in for the VTK library takes down each file and notices misuse; ASan/UBSan", "Held on the generated meshes, clouds, spaces and fields. VTK itself is not installed.",
      [b("V01.cc", ["dbg0", "rel1"], flags=VF, more=("V01b.cc",), scale={"dbg0": 0.4}), b("V01p.cc", ["dbg0"], flags=VF, np=2), b("V01p.cc", ["dbg0"], flags=VF, np=3)])
