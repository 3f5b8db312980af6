PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, na=None, level="other"):
    assert len(title) <= 80, (id, len(title))
    prop = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        prop["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"prop": prop, "technique": technique, "note": note, "na": na, "level": level})


U = "lib/mito/utilities/"
INTERP = "abstract interpretation of the clang-resolved source"
P("U01", "Shared handles count references exactly",
  "Every shared handle that refers to a resource is counted on that resource exactly once: after any construction, copy, move, assignment "
  "(including self-assignment and assignment between handles on one resource), reset or destruction, the resource's reference count has changed by "
  "exactly the change in the number of handles referring to it. Empty handles can be copied, moved, reset and destroyed without touching any resource. "
  "Nobody but the handles can change the count, and a resource cannot be copied or moved along with it.",
  ["histories", "programs"], "every sequence of handle operations and every aliasing of their operands",
  "tests sample a few copies and moves; aliasing cases (self-assignment, two handles on one resource, empty operands) are not enumerated",
  [U + "SharedPointer.h", U + "SharedPointer.icc", U + "Shareable.h", U + "Shareable.icc"],
  [("acquire/release in the special member functions", "SharedPointer.icc"), ("private count accessors, deleted copy", "Shareable.h")],
  INTERP + ": per-operation reference-count delta over all aliasing cases, plus an ownership rule on who writes the count",
  "Exhaustive over operations and operand aliasing; the prior count is symbolic, so by induction it holds for every history. Trusts clang's AST and "
  "the interpreter's model of C++ value semantics. Threads are out of scope (the count is a plain integer).",
  [("reference count", "number of handles referring to the resource", "Shareable.h")])
P("U02", "Every stored element is constructed once and destroyed exactly once",
  "Inserting into a segmented container constructs exactly one element and never on top of one that is still alive; erasing ends the life of exactly "
  "the erased element, empties the caller's handle to it and makes it report itself invalid; erasing through an empty handle or an already erased element does nothing. "
  "When the container dies, every element still alive is destroyed exactly once, before its memory is released, and no erased element is destroyed again.",
  ["histories"], "every history of insertions, releases and erasures, every segment size",
  "tests never observe destructor calls; double destruction of an erased element is silent unless the type is final or the optimiser devirtualises",
  [U + "Repository.h", U + "SegmentedVector.h", U + "SegmentedAllocator.h"],
  [("emplace / erase / destructor", "Repository.h, SegmentedVector.h"), ("location_for_placement", "SegmentedAllocator.h")],
  INTERP + " over a shape abstraction of segment memory (raw/live/gone slots)",
  "All histories of up to 4 (thorough 5) insertions followed by every ordered erasure of up to three elements (ascending/descending beyond), partial releases and refills, for segment sizes "
  "1-3 (1-4); element contents and addresses stay abstract. Larger shapes are assumed to behave like these.")
P("U03", "Slots are accounted for exactly and reused before growth",
  "The reported size of a segmented container always equals insertions minus erasures and its capacity covers every slot in use. An erased slot is "
  "reused before any fresh slot or new memory is taken, two live elements never share a slot, and an insertion hands back the element it created.",
  ["histories"], "every history of insertions and erasures, every segment size",
  "tests check a handful of sizes after fixed sequences; erase orders and refills across segment boundaries are not enumerated",
  [U + "SegmentedAllocator.h", U + "Repository.h", U + "SegmentedVector.h"],
  [("insert/erase bookkeeping", "SegmentedAllocator.h"), ("available locations", "SegmentedAllocator.h")],
  INTERP + " over a shape abstraction of segment memory, compared with a set model of the slots",
  "Same history family as U02.")
P("U04", "Elements stay in place; segment memory is neither overrun nor leaked",
  "No operation of a segmented container reaches outside its allocated segments, and growing, erasing or reusing never moves or changes another live element: positional access "
  "keeps yielding the i-th slot. Each segment is released exactly once, when the container dies and not earlier. A moved container takes over all "
  "elements and free slots, leaving the source empty and harmless to destroy.",
  ["histories"], "every history of insertions, erasures and moves, every segment size including containers that stayed empty",
  "tests do not run under a memory checker and use one or two segment sizes",
  [U + "SegmentedAllocator.h", U + "SegmentedVector.h"],
  [("segment chain and link pointers", "SegmentedAllocator.h"), ("move constructor, destructor", "SegmentedAllocator.h"), ("random access", "SegmentedAllocator.h")],
  INTERP + " over a byte-accurate shape abstraction of segment memory",
  "Same history family as U02, plus moves. operator new is assumed to succeed.")
P("U05", "Iteration visits exactly the valid elements",
  "Walking a segmented container from begin to end terminates and visits each valid element exactly once and nothing else, whether advanced by pre- or "
  "post-increment, whatever elements were erased or are no longer referenced and wherever the segment boundaries fall. Iterating an empty container visits nothing.",
  ["histories"], "every occupancy pattern reachable by insertions, releases and erasures",
  "tests iterate over a few patterns, always with pre-increment",
  [U + "SegmentedContainerIterator.h", U + "SegmentedAllocatorIterator.h", U + "Repository.h", U + "SegmentedVector.h"],
  [("skip of invalid elements", "SegmentedContainerIterator.h"), ("segment hop", "SegmentedAllocatorIterator.h")],
  INTERP + " of begin/end/increment/dereference on every occupancy pattern",
  "Same history family as U02. A destroyed slot is recognised as invalid through the count left behind in its storage (the library's design, taken as given).")
P("U06", "A handle's identifier determines its resource",
  "Two handles compare equal, and have equal identifiers, exactly when they refer to the same resource, whatever the addresses involved; different handles are "
  "strictly and transitively ordered. Looking a resource up by its identifier yields a handle on that very resource, counted as one more handle.",
  ["inputs", "configurations"], "every pair of handles and every address layout",
  "truncated or colliding identifiers only show for particular addresses",
  [U + "SharedPointer.h", U + "SharedPointer.icc", U + "StdSharedPointer.h", U + "StdSharedPointer.icc", U + "Repository.h", U + "api.h"],
  [("id / resource", "SharedPointer.icc"), ("equality and three-way comparison", "SharedPointer.h")],
  INTERP + " over representative address layouts with width-exact conversions",
  "Address layouts are representatives of every truncation width (8..53 bits, sign bit); other arithmetic on the address would be seen as a different identifier.")

T = "lib/mito/topology/"
LOCK = ("abstract interpretation of the resolved source in lock step with a combinatorial model: identities, orientations, sizes and reference counts are "
        "compared after every operation")
LNOTE = ("Exhaustive over the listed scenario family (vertex orders, histories, handles kept or dropped) on one cell of each dimension and its "
         "neighbours; object addresses are abstract, represented by several orderings per type. Developer build (assertions and firewalls live). Larger "
         "complexes are assumed to behave like these. An idiom outside the interpreter's vocabulary is reported as undecided, not as a violation.")
P("T01", "One object per oriented simplex",
  "Every request for an oriented simplex - by its vertices, by its faces, or by footprint and orientation - yields one and the same object for all even "
  "rearrangements of its vertices (or faces) and the opposite-orientation object on the same footprint for odd ones, whatever was created before and "
  "whatever the address order of the objects. A simplex on other vertices is another object, and a request for something that exists creates nothing.",
  ["inputs", "histories"], "every vertex order, every order of requests, every face order, every address order",
  "tests create a handful of simplices in one order; identity depends on address order and on which orientation was requested first",
  [T + "Topology.icc", T + "OrientedSimplexFactory.h", T + "SimplexFactory.h", "lib/mito/math/combinatorics.h"],
  [("lookup by composition", "SimplexFactory.h, OrientedSimplexFactory.h"), ("orientation as permutation sign", "math/combinatorics.h")], LOCK, LNOTE,
  [("composition map", "which simplex has these faces", "SimplexFactory.h"), ("orientation map", "which orientations of a footprint exist", "OrientedSimplexFactory.h")])
P("T02", "Erasing removes exactly what nothing else needs",
  "Erasing a simplex through its only handle removes the oriented simplex, its footprint once neither the opposite orientation nor a handle remains, "
  "and recursively every face that nothing else refers to; everything else stays, with unchanged identity and exact counts. Erasing a simplex that is "
  "still in use, or through an empty handle, changes nothing. A later request behaves as if the erased simplices had never existed.",
  ["histories"], "every history of creating, flipping, keeping, dropping and erasing cells that share faces",
  "tests erase in one or two fixed situations; which faces survive depends on who else refers to them and on slot reuse",
  [T + "Topology.icc", T + "OrientedSimplexFactory.h", T + "SimplexFactory.h", "lib/mito/utilities/Repository.h"],
  [("recursive erase", "Topology.icc"), ("map clean-up", "SimplexFactory.h, OrientedSimplexFactory.h")], LOCK, LNOTE)
P("T03", "Simplices are immutable and made only by the factories",
  "No program outside the factories can create, copy, move, assign or destroy a simplex or the topology; a handle exposes a simplex only as a constant; "
  "and the faces, footprint and orientation of a simplex are private, not mutable, and their constancy is cast away nowhere in the topology.",
  ["programs"], "every program using the library",
  "tests cannot show that a program does not compile",
  [T + "Simplex.h", T + "OrientedSimplex.h", T + "Topology.h"],
  [("private constructors and destructor, deleted copies", "Simplex.h, OrientedSimplex.h"), ("handles to constant", "forward1.h")],
  "compile-fail witnesses (type-level) plus a structural rule on members, friends and casts",
  "Each witness is decided by the compiler for all programs of that shape; the structural rule covers every function of the topology module.")
P("T04", "Only closed compositions become simplices",
  "A simplex is created from a list of faces exactly when the oriented boundaries of the faces cancel pairwise (for a segment: two different vertices "
  "with opposite orientations); otherwise the request is refused and the topology is left unchanged. The verdict does not depend on the order of the faces.",
  ["inputs"], "every choice and every order of oriented faces of the scenario family",
  "tests try one valid and a few invalid compositions in one order",
  [T + "utilities.h", T + "SimplexFactory.h", T + "OrientedSimplexFactory.h"], [("isValid", "utilities.h")], LOCK, LNOTE +
  " Refusal is by assertion or journal firewall, which release builds compile out: stated for the developer build.")
P("T05", "Cells have their canonical faces, vertices and edges",
  "A simplex requested by its vertices is composed of the library's canonical faces with their canonical orientations, so that its boundary closes; it "
  "reports its vertices as an even rearrangement of those requested (odd for the opposite orientation); a segment's tail and head are its first and "
  "second vertex; and its vertex set and edge set are exactly those of the cell.",
  ["inputs", "histories"], "every vertex order, with any faces already present in either orientation, every address order",
  "the vertices a cell reports depend on which of its faces existed before and how they were oriented",
  [T + "Topology.icc", T + "Simplex.h", T + "OrientedSimplex.h", T + "utilities.h"],
  [("vertices / edges accessors", "Simplex.h, OrientedSimplex.h"), ("canonical compositions", "Topology.icc"), ("tail / head", "utilities.h")], LOCK, LNOTE)
P("T06", "Flipping is an involution on one footprint",
  "Flipping an oriented simplex yields the simplex with the same footprint and opposite orientation; flipping twice gives back the same object; flipping "
  "onto an existing orientation creates nothing; exists_flipped answers truthfully before and after creation and erasure; and the flipped simplex lists "
  "its faces and vertices as an odd rearrangement (a flipped segment runs from head to tail).",
  ["histories"], "every simplex, orientation and history of flips and erasures in the scenario family",
  "tests flip one simplex of each order once", [T + "Topology.icc", T + "OrientedSimplexFactory.h", T + "OrientedSimplex.h", T + "utilities.h"],
  [("flip", "Topology.icc"), ("exists_flipped", "OrientedSimplexFactory.h")], LOCK, LNOTE)
P("T07", "Existence queries tell the truth and change nothing",
  "Asking whether a simplex with given faces, vertices or opposite orientation exists answers exactly what the history of creations and erasures implies - "
  "for every order of the faces, for vertex pairs whose oriented tips were never made, for one orientation only, and after erasure - and leaves the "
  "topology unchanged.",
  ["inputs", "histories"], "every order of faces and every vertex pair, before creation, after creation and after erasure",
  "tests ask after one creation; a query that creates or that looks at the footprint only passes them",
  [T + "Topology.icc", T + "OrientedSimplexFactory.h", T + "SimplexFactory.h"], [("exists", "Topology.icc, OrientedSimplexFactory.h")], LOCK, LNOTE)
P("T08", "Flipping a diagonal preserves the boundary",
  "Flipping the diagonal of two consistently oriented triangles that share an edge yields two consistently oriented triangles on the other diagonal whose "
  "joint oriented boundary is exactly that of the original pair, whatever the order of the pair, the orientation signs of the triangles and the address order of "
  "their vertices and edges; the original triangles stay as they were and nothing else is created.",
  ["inputs"], "every labelling and ordering of the pair, positively and negatively oriented triangles, several address orders",
  "the test flips one pair of positively oriented triangles with one address order",
  [T + "FlipDiagonal.h", T + "FlipDiagonal.icc"], [("boundary edges and diagonal", "FlipDiagonal.icc")], LOCK, LNOTE)

MA, TE, KM = "lib/mito/math/", "lib/mito/tensor/", "lib/mito/materials/"
ALG = "abstract interpretation of the clang-resolved source in the domain of polynomials and rational functions over symbolic operands, compared in normal form with the algebra the code stands for"
ANOTE = ("All operand components and parameters are symbolic, so the identity is decided for every value in real arithmetic; rounding is not modelled. The tensor primitives of the "
         "pyre library (products, inverse, determinant, ...) are trusted and modelled by their definition.")
P("M01", "Permutation sign and same-elements decide exactly",
  "The sign of a rearrangement is +1 when it takes an even number of swaps and -1 otherwise, whatever the values and their reference order; arrays that are not "
  "rearrangements of one another are refused in the developer build. Two arrays are reported to have the same elements exactly when they hold the same values equally often.",
  ["inputs"], "every rearrangement of two to five distinct values, every pair of arrays of two to four elements over a small alphabet (repetitions included)",
  "tests take the sign of a few permutations of (1, 2, 3); repeated values and unequal multiplicities are not sampled",
  [MA + "combinatorics.h"], [("permutation_sign, same_elements", "combinatorics.h")],
  "abstract interpretation of the clang-resolved source over all order and equality patterns of the array entries",
  "The functions only compare entries, so the equality patterns cover all values for the sizes enumerated (2 to 5); larger arrays are not covered.")
P("F01", "Forms are linear and evaluate to what they are made of",
  "A one-form built from a vector and a metric evaluates on x to the metric product of the two; sums, differences, negations and multiples of forms evaluate to the sums, "
  "differences, negations and multiples of the values; a tensor product of one-forms evaluates to the product of the factors on their own arguments, in order, also when the "
  "arguments are supplied one after another through partial contractions.",
  ["inputs", "programs"], "all vectors, metrics and scalars in one to four dimensions, every partial contraction up to three factors",
  "tests evaluate forms on basis vectors and a few constants; mixed-up arguments or factors show only for operands without symmetry",
  [TE + "forms_algebra.h", TE + "forms.h", TE + "factories.h", TE + "OneForm.h", TE + "Form.h"], [("form operators", "forms_algebra.h"), ("one_form, tensor", "factories.h")], ALG, ANOTE)
P("F02", "Wedge products are alternating",
  "The wedge product of one, two or three one-forms evaluates to the determinant of the values of the factors on the arguments - hence it changes sign when two factors or "
  "two arguments are exchanged and vanishes when two coincide - however the product is bracketed, scaled by a scalar or contracted step by step.",
  ["inputs", "programs"], "all one-forms and arguments in one to four dimensions, every bracketing and partial contraction offered by the library",
  "tests evaluate wedge products on coordinate vectors, where most of the alternating terms vanish",
  [TE + "wedge.h", TE + "forms_algebra.h"], [("wedge", "wedge.h")], ALG, ANOTE)
P("K01", "Material models derive stress and tangents from their energy",
  "For every deformation gradient and every choice of parameters the stress a material model returns is the derivative of the strain energy density it returns, and "
  "its tangents are the derivative of that stress, component by component.",
  ["inputs"], "all deformation gradients and all material parameters, 9 stress and 81 tangent components per model",
  "the consistency tests difference numerically at one deformation gradient near the identity with one set of parameters; a term that is small there passes the tolerance",
  [KM + "Gent.h", KM + "LinearElastic.h"], [("energy, stress, tangents", "Gent.h, LinearElastic.h")], ALG, ANOTE + " Materials are differentiated exactly, term by term, including logarithms.")
P("K02", "Material models are at rest undeformed, frame-indifferent and isotropic",
  "At the identity deformation gradient the energy and the stress vanish for all parameters; the energy does not change under superposed rotations (the small-strain model: "
  "under the antisymmetric part of the displacement gradient) nor with the orientation of the body; the tangents of the linear elastic model are "
  "those of isotropic elasticity with the given Young modulus and Poisson ratio.",
  ["inputs"], "all deformation gradients and all material parameters",
  "no test evaluates the models at rest or under rotation; a consistent but wrong energy passes the consistency test",
  [KM + "Gent.h", KM + "LinearElastic.h"], [("energy, stress, tangents", "Gent.h, LinearElastic.h")], ALG,
  ANOTE + " Frame indifference and isotropy are decided in infinitesimal form: P F^T and F^T P are symmetric identically in F.")
P("K03", "The material consistency test tests every component",
  "The consistency test accepts a material at F exactly when the norm, over all components, of the centred difference of the energy (of the stress) minus twice the "
  "perturbation times the stress (the tangents) is below the tolerance; it evaluates the material only at F and at F with a single component moved by plus or minus the perturbation, "
  "leaves F and the material alone, and keeps its parameters as long as it lives.",
  ["inputs", "programs"], "any energy, stress and tangents functions, all deformation gradients, perturbations and tolerances, including parameters passed as temporaries",
  "the tests only run it on correct models, on which a blind consistency test also reports success",
  [KM + "MaterialConsistencyTest.h"], [("test_stress, test_tangents", "MaterialConsistencyTest.h")],
  ALG, "The material's functions are opaque function symbols, so the decision holds for every material. " + ANOTE)
FU = "lib/mito/functions/"
P("D01", "Expressions of functions evaluate to the expressions of their values",
  "An expression built from functions with the operators and factories of the library - sums, differences, multiples, products, quotients, compositions at any depth, subscripts, linear "
  "combinations, transposes, inverses, determinants, dyadic products, wrapped functors - builds whenever its parts do, and evaluates at every argument to the same expression of the values of its parts, "
  "operands in order. The named functions (components, powers, elementary functions) evaluate to what they are called after.",
  ["inputs", "programs"], "arbitrary functions of scalars and vectors as parts, every operator on every shape of operands in two dimensions, all arguments and constants",
  "the function tests evaluate a few expressions of trigonometric functions at a few points, with commuting operands, and are not even built with the installed dependencies",
  [FU + "algebra.h", FU + "function.h", FU + "library_functions.h", FU + "factories.h"], [("operators", "algebra.h"), ("the function classes", "function.h")], ALG,
  "The parts are opaque function symbols, so the decision holds for every function put in their place. " + ANOTE)
P("D02", "Derivatives of functions are exact",
  "The I-th derivative of an expression of functions evaluates, component by component, to the exact partial derivative of the value of the expression along the I-th input component: product, quotient and "
  "chain rules (also through vector-valued inner functions), tensor products with operands kept in order, every elementary function. Derivatives can be differentiated again. The full derivative of "
  "a function is the matrix whose row is the output and whose column is the input component.",
  ["inputs", "programs"], "arbitrary smooth functions of scalars and vectors as parts, every derivation rule on every shape of operands in two dimensions, all arguments and constants",
  "the derivative tests compare a few closed forms at a few points; an error in a rule that vanishes there, or needs operands that do not commute, passes",
  [FU + "derivation_rules.h", FU + "library_derivatives.h", FU + "partial_derivatives.h"],
  [("derivation rules", "derivation_rules.h"), ("matrix of partial derivatives", "partial_derivatives.h")], ALG,
  "The parts are opaque function symbols with opaque derivatives. " + ANOTE)

GE = "lib/mito/geometry/"
P("G01", "Coordinates, displacements and distances agree with Cartesian positions",
  "In Cartesian, polar and spherical coordinates alike: adding a vector to coordinates displaces the Cartesian position by that vector (taken in the orthonormal frame at the coordinates); the difference "
  "of two sets of coordinates is the displacement between their positions, so A + (B - A) is at the position of B; distance is its length. Converting between kinds of coordinates keeps the position, "
  "with a nonnegative radius. Coordinate functions extract the component they are named after; construction, access, copies, equality and ordering go by the components.",
  ["inputs", "programs"], "all coordinates away from the singular points of the frame, all displacements, Cartesian coordinates in one to three dimensions, polar and spherical coordinates",
  "the tests evaluate a few round numbers, mostly Cartesian, and the coordinate functions of the third dimension are never used",
  [GE + "algebra_coordinates.h", GE + "coordinate_transformation.h", GE + "Coordinates.h", GE + "cartesian/api.h"], [("affine structure and transformations", GE + "*/"), ("coordinates", GE + "Coordinates.h")], ALG,
  "Identities are decided with the addition theorems and the values of sines and cosines of arctangents, valid for all angles. " + ANOTE)
P("G02", "Bases, metrics and volume forms agree with the coordinates they belong to",
  "For Cartesian, polar and spherical coordinates: the basis field e<I> is the derivative of the Cartesian position along the I-th coordinate; the metric field consists of the inner products of the basis, "
  "and the inverse metric is its inverse; dx<I> extracts the I-th coefficient of a vector in that basis; the volume form of D vectors is the signed volume they span; the form equivalent "
  "to a vector field contracts any vector to its inner product with the field, and the vector equivalent to a form reverses this.",
  ["inputs", "programs"], "all coordinates (radius and sine of the polar angle positive), all vectors, arbitrary vector fields",
  "the tests evaluate these fields at single points, and the equivalence of vectors and forms only in the direction used by one example",
  [GE + "metric_space.h", GE + "polar/metric.h", GE + "spherical/metric.h"], [("metric space", GE + "metric_space.h"), ("bases and metrics", GE + "*/")], ALG,
  "Derivatives of the position are computed symbolically by the check. " + ANOTE)
P("G03", "Gradients and divergences of fields, and fields of forms, are exact",
  "The gradient of a scalar, vector or product field over Cartesian coordinates has as component along j the derivative along the j-th coordinate of every component; the divergence of vector and tensor "
  "fields sums the derivatives over the last index; they compose (Laplacian, Hessian, divergence of a gradient). Tensor and wedge products, multiples and sums of one-form fields evaluate, at "
  "every point and on all vectors, to the products, multiples and sums of the forms at that point.",
  ["inputs", "programs"], "arbitrary smooth scalar, vector and tensor fields in one to three dimensions, arbitrary one-form fields over every kind of coordinates, all points and vectors",
  "tests differentiate a few closed-form fields at a few points; rows and columns exchanged, or a missing term, are invisible on symmetric examples",
  ["lib/mito/fields/differential.h", "lib/mito/fields/fields_algebra.h"], [("differential operators", "lib/mito/fields/"), ("forms", "lib/mito/fields/")], ALG,
  "Fields are opaque function symbols with opaque derivatives. " + ANOTE)
P("G04", "Coordinate systems keep one position per point",
  "A coordinate system returns for each point exactly the coordinates it was placed at, visits each point once, refuses to place a point twice and to look up a point it does not hold. A system made "
  "from another one by change of coordinates holds the same points at the same Cartesian positions. Distances and midpoints of points are those of their positions.",
  ["inputs", "histories"], "all coordinates of two distinct points (also coinciding ones), Cartesian, polar and spherical",
  "tests place points at convenient, different places and never look up a foreign point",
  [GE + "CoordinateSystem.h", GE + "utilities.h"], [("point-coordinates map", GE + "CoordinateSystem.h")], ALG,
  "Points are opaque handles with distinct identities. " + ANOTE)
P("G05", "Barycenters, directors, volumes and integrals over cells are right for all cells",
  "For segments, triangles and tetrahedra with arbitrary node positions: the barycenter is the mean of the node positions; directors are the displacements from the first node; the parametrization is the affine "
  "map from the reference simplex that sends vertices to nodes; the volume of a cell is the metric volume form (contracted with the given normal fields for embedded cells) of the directors over the "
  "factorial of the order, and that of a manifold is the sum over its cells; the integral of a field is the sum over cells and quadrature points of weight times cell volume times the value at the image of "
  "the quadrature point.",
  ["inputs", "programs"], "all node positions of cells of order one to three in one to three dimensions (queries that involve frames also in polar and spherical coordinates), arbitrary integrands, two cells, every quadrature degree",
  "tests measure a few unit-sized cells; a wrong node, factor or frame is invisible on symmetric cells",
  [GE + "utilities.h", GE + "GeometricSimplex.h", "lib/mito/manifolds/Manifold.h", "lib/mito/quadrature/Integrator.h"],
  [("queries", GE + "utilities.h"), ("volume", "lib/mito/manifolds/Manifold.h"), ("integral", "lib/mito/quadrature/Integrator.h")], ALG,
  "Cells are stand-ins with symbolic node positions. " + ANOTE)
P("G06", "A point cloud hands out new points and lists those it has",
  "There is one point cloud for each dimension, whoever asks for it; each point it is asked for is new, different from all others in use; its size is the number of its points, and walking it meets each of them once. "
  "A node made at coordinates has a point and a vertex of its own, and its point is placed at these coordinates in the given coordinate system and in no other.",
  ["histories"], "sequences of requests in one, two and three dimensions, three orders of addresses, nodes at symbolic and at equal coordinates",
  "tests make a few nodes at different places; points that are shared after some number of requests, or by nodes at equal coordinates, are not sampled",
  ["lib/mito/geometry/PointCloud.h", "lib/mito/geometry/factories.h", "lib/mito/utilities/Singleton.h"],
  [("point cloud", "lib/mito/geometry/PointCloud.h"), ("nodes", "lib/mito/geometry/factories.h")], ALG,
  "Repositories and topology are stand-ins that follow what U02-U06 and T01 establish. " + ANOTE)
P("E01", "Isoparametric elements interpolate exactly",
  "The shape functions of every element (segment of degree one, triangles of degree one and two) are one at their own node and zero at the others, and reproduce every polynomial up to the degree of the element; "
  "their tabulated derivatives are exact; the parametrization of an element maps to the combination of the node positions by shape functions; the jacobian is its derivative; the gradient of a shape function, "
  "contracted with the jacobian, is its derivative in the reference element.",
  ["inputs"], "all reference coordinates, all node positions of a cell, every shape function of the three elements",
  "tests check the partition of unity at sample points and integrals on one mesh; swapped mid-side nodes or a transposed jacobian pass",
  ["lib/mito/fem/elements/"], [("shape functions", "lib/mito/fem/elements/*/Shape*.h"), ("elements", "lib/mito/fem/elements/*/Isoparametric*.h")], ALG, ANOTE)
P("E02", "Quadrature rules are exact to their degree",
  "The weights of every quadrature rule add up to one, the points lie in the reference simplex, and the rule of degree r integrates every polynomial of degree at most r over the reference segment, triangle or tetrahedron "
  "exactly (to the precision of the tabulated numbers); the measure of each reference simplex is one over the factorial of its dimension.",
  ["inputs"], "all monomials up to the degree, for every tabulated rule, with tolerance 1e-12",
  "the tests integrate two or three functions per rule",
  ["lib/mito/quadrature/"], [("tables", "lib/mito/quadrature/quadrature_tables_*.icc"), ("rule", "lib/mito/quadrature/QuadratureRule.h")], ALG,
  "The tables are read from the resolved program as exact rationals. " + ANOTE)
P("E03", "Elementary blocks, weak forms and norms compute the integrals they stand for",
  "On every element: the mass block is the quadrature of the products of shape functions over the cell, the gradient block that of the inner products of the shape functions' gradients in physical space, the source block "
  "that of the source at the image of the quadrature point times each shape function, each weighted with the rule's weights and the determinant of the jacobian; a weak form sums the contributions of all its blocks, "
  "matrix and vector alike; the L2 norm of a difference is the square root of the quadrature of its square over all elements, and the H1 norm adds the squared difference of the gradients in physical space.",
  ["inputs", "programs"], "all node positions of a cell, arbitrary sources and fields, segments of degree one and triangles of degree one and two, quadrature of degree one and two, meshes of two elements",
  "the tests look at the final error of one Poisson problem on one mesh, with a tolerance; a missing measure factor, a gradient in reference coordinates or a dropped block that is small on that mesh passes",
  ["lib/mito/fem/blocks/", "lib/mito/fem/Weakform.h", "lib/mito/fem/norms.h", "lib/mito/fem/localize.h"],
  [("blocks", "lib/mito/fem/blocks/*Block.h"), ("weak form", "lib/mito/fem/Weakform.h"), ("norms", "lib/mito/fem/norms.h")], ALG,
  "Elements are the library's own, built on stand-in cells with symbolic nodes; the expected values are derived from the interpolation property alone. " + ANOTE)
P("E04", "Function spaces number unknowns consistently and systems scatter exactly",
  "Discretising a manifold makes one element per cell; local nodes of different elements are the same unknown exactly when they stand for the same mesh node or the middle of the same edge; the constrained nodes are exactly "
  "those on the constrained boundary. A discrete system numbers the unconstrained nodes 0..n-1, one equation each, and creates its linear system with n equations; assembling adds every entry of every element's matrix and "
  "vector to the equations of its nodes and adds nothing for constrained nodes; solving assembles before the solver runs and reads the solution afterwards, giving each unconstrained node the unknown of its equation; the solution on an element "
  "interpolates its nodal values with the shape functions.",
  ["inputs", "histories"], "segment and triangle patches (chains, loops, disconnected, rotated and reversed shared edges, interior nodes), all constrained boundaries listed for each, three orders of addresses, symbolic elementary contributions",
  "the tests solve one problem on one mesh whose nodes come in one order; sharing, numbering and scatter errors on other connectivity, address orders or constraints are not sampled",
  ["lib/mito/fem/FunctionSpace.h", "lib/mito/fem/DiscreteSystem.h", "lib/mito/fem/FemField.h", "lib/mito/fem/elements/Discretizer.h", "lib/mito/discrete/", "lib/mito/constraints/"],
  [("discretisation", "lib/mito/fem/elements/*/DiscretizerCG.h"), ("equation map and scatter", "lib/mito/fem/DiscreteSystem.h")], ALG,
  "Meshes, manifolds, handles and the linear system are stand-ins; the library's discretisers, maps, assembly and read-back are interpreted on them. " + ANOTE)
P("H01", "Meshes hold the cells inserted, and know their boundary and sub-cells",
  "A mesh holds exactly the cells inserted and not erased, on their nodes in the given order, and counts them; a face of a cell is on the boundary exactly when no cell of the mesh has it with the opposite orientation, and "
  "the boundary of a mesh consists of exactly these faces, each oriented as its cell induces and on the nodes of its cell; this holds after any erasures and insertions. Erasing duplicates leaves one cell for each simplex "
  "(up to orientation, or with it); filtering gives exactly the sub-simplices of the cells, on the same nodes; the nodes of a mesh are those of its cells; flipping a cell reverses its orientation on the same nodes, and flipping the diagonal of two triangles gives the two on the other diagonal, on their nodes.",
  ["inputs", "histories"], "chains, rings, fans, closed surfaces, triangle and tetrahedron patches, all insertion and erasure histories of bounded length, three orders of addresses, either representative orientation, all rotations of the faces",
  "tests build a few meshes in one order and count their boundary cells; a face with the wrong orientation or a stale erasure is not sampled",
  ["lib/mito/mesh/Mesh.h", "lib/mito/mesh/Boundary.h", "lib/mito/mesh/utilities.h", "lib/mito/mesh/filters.h"],
  [("mesh", "lib/mito/mesh/Mesh.h"), ("boundary", "lib/mito/mesh/Boundary.h"), ("filters", "lib/mito/mesh/filters.h")], ALG,
  "The topology is a stand-in that follows what T01-T08 establish; every convention they leave open is chosen arbitrarily. " + ANOTE)
P("H02", "Refined meshes tile the original conformingly with cells of equal volume",
  "Refining a mesh n times replaces every cell of order d by 2^(nd) cells with the orientation of the original and 2^-(nd) of its volume each, which lie in the original and whose vertices are its vertices and the "
  "mid-points of edges; cells that share a face in the original share the vertices and faces of its refinement, so the boundary of the refined mesh is the refinement of the boundary; refining zero times changes nothing.",
  ["inputs", "programs"], "segments, triangles and tetrahedra with symbolic node positions, alone and in patches of two or more cells, one and two refinements, three orders of addresses, either representative orientation",
  "tests count the refined cells and compare total volumes on one mesh; a tiling that overlaps, a flipped or a disconnected child passes",
  ["lib/mito/mesh/tetra.h"], [("subdivision", "lib/mito/mesh/tetra.h"), ("mid-points", GE + "utilities.h")], ALG,
  "The topology is a stand-in as in H01. " + ANOTE)
PE = "lib/mito/matrix_solvers/backend/petsc/"
PNOTE = ("PETSc is a model that follows its manual pages: objects with their set-up, values, assembly state and ownership by processes; a call in a state that PETSc rejects, or on an object that was not created or is "
         "destroyed, is a violation. The library's translation units are interpreted against it. ")
P("L01", "PETSc objects live as long as they are used, and are released once",
  "In any history of creating, filling, solving, reading, printing, destroying and creating again one or two linear systems and their solvers, no PETSc object is used before it is created and set up or after it is destroyed, "
  "no array borrowed from a vector is kept, and every object (also temporary ones) is destroyed exactly once; PETSc is initialised and finalised once.",
  ["histories"], "eight kinds of histories on one to two systems, seen from one process, either of two, and a process without equations",
  "the tests of the backend run one history and cannot see a leak or a use that happens to work",
  [PE], [("linear system", PE + "PETScLinearSystem.cc"), ("Krylov solver", PE + "PETScKrylovSolver.cc")], ALG, PNOTE)
P("L02", "A failing PETSc call is reported, ends the method, and leaves things destroyable",
  "Whichever call of PETSc fails in such a history: the failure is reported as a PETSc error, the method that made the call makes no further call except to release what it holds, and the systems and solvers made so far can "
  "still be destroyed, without using what was never created and without leaving an object behind.",
  ["fault_sequences", "histories"], "the failure of any single call in each of the histories of L01",
  "no test injects failures",
  [PE], [("checks of error codes", PE + "*.cc"), ("handles", PE + "PETScLinearSystem.cc")], ALG, PNOTE)
P("L03", "The entries given are the system solved, and the solution is read completely",
  "Entries that are added accumulate and entries that are inserted replace, in the matrix and in the right-hand side, at the given row and column; the solver works on the matrix and right-hand side of its own system, after both are "
  "assembled, also when entries follow a first solution; reading the solution gives every unknown in order on every process; a system has as many equations as it was created with, and its label.",
  ["inputs", "histories", "schedules"], "symbolic entries of systems of one to five equations, one and two systems, one process, either of two, and a process without equations",
  "the tests solve one symmetric system on one process",
  [PE], [("entries and assembly", PE + "PETScLinearSystem.cc"), ("reading", PE + "PETScLinearSystem.icc"), ("solver", PE + "PETScKrylovSolver.cc")], ALG, PNOTE)
P("L04", "Solver options reach their solver, and no other",
  "Each option given to a solver reaches PETSc with that solver's prefix (the label of its system) behind its '-', each value unchanged, also a negative number, in the given order; the solver carries the same prefix and reads the options after they are "
  "recorded; solvers of different systems have different prefixes.",
  ["inputs"], "option strings with flags, values, negative numbers, repeated and surrounding spaces, dashes inside words, for several labels",
  "the tests set one pair of options",
  [PE], [("options", PE + "PETScKrylovSolver.cc")], ALG, PNOTE)
P("N01", "A discrete field has one value per entry, and samples fields where they are",
  "A field on a mesh has exactly one entry for each node of the cells of the mesh, a field on a point cloud exactly one for each point, with the default value; what is written at an entry is read there afterwards and nowhere else, "
  "by key or by going through the field, which meets each entry once. Access to something that is no entry throws, and inserting never replaces the value of an entry. A field made from a continuous field has at "
  "each node the value of that field at the position of the node.",
  ["inputs", "histories"], "meshes of segments, triangles and tetrahedra of up to four cells (neighbours, rotated, duplicates, closed), cells with shared nodes or with nodes of their own, symbolic values and positions, a "
  "continuous field that is an arbitrary function",
  "the tests read a few values back on one mesh, and check sampling for one field",
  ["lib/mito/discrete/"], [("entries", "lib/mito/discrete/DiscreteField.h"), ("construction and sampling", "lib/mito/discrete/factories.h")], ALG,
  "The topology and the segmented storage are stand-ins that follow T01-T08 and U02-U05. " + ANOTE)
P("O01", "A mesh written to file is the mesh that is read back",
  "The file written for a mesh is in the summit format: dimension, numbers of points, cells and cell types, each point of the nodes once, with its coordinates to at least 15 significant digits, and each cell with its type and the "
  "one-based numbers of its nodes in their order; reading a file in the format gives exactly its cells in their order and orientation with nodes at the given positions; cells that name the same number share the node "
  "(continuous) or have nodes of their own on one vertex and one point (discontinuous). So a mesh that is written and read back is the same, however its cells are labelled; reading a file that cannot be opened throws.",
  ["inputs"], "meshes of segments, triangles and tetrahedra of up to four cells, with shared nodes or nodes of their own, symbolic coordinates, cells without a label, with one, and with one of two words; continuous and "
  "discontinuous reading",
  "the tests write a mesh and read it back with one label, and compare numbers of cells",
  ["lib/mito/io/summit/"], [("writer", "lib/mito/io/summit/MeshSummitWriter.h"), ("reader", "lib/mito/io/summit/reader.h")], ALG,
  "Files are sequences of characters and of symbolic numbers (with the digits they are written with); formatted and unformatted input follows the C++ standard. The topology is a stand-in as in H01. " + ANOTE)
P("O02", "VTK files show the mesh, cloud or space and its fields as they are",
  "The grid written for a mesh or a function space has one point for each mesh node, at its Cartesian position (also for polar and spherical coordinates), and its cells in order, each with its VTK type and the points of its nodes in their "
  "order; for a point cloud it has each point once. Every recorded field is written under the name given, or else its own, with one tuple of all its components per point, the value of the field at the node or point written there. The "
  "serial writers write one file, the name and .vtu; in parallel, process i of k writes its grid to the name, _i and .vtu, and contributes piece i of k, and no other, to the .pvtu file.",
  ["inputs", "configurations"], "meshes of segments, triangles and tetrahedra of up to four cells, with shared nodes or nodes of their own, their point clouds, spaces of three element types; scalar and vector fields with symbolic values; serial, "
  "and one and three processes",
  "the VTK tests are not built here, and compare no file",
  ["lib/mito/io/vtk/"], [("meshes", "lib/mito/io/vtk/MeshVTKWriter.h"), ("clouds", "lib/mito/io/vtk/PointCloudVTKWriter.h"), ("spaces", "lib/mito/io/vtk/NodeVTKWriter.h"), ("fields", "lib/mito/io/vtk/FieldVTKWriter.h"),
   ("parallel", "lib/mito/io/vtk/ParallelGridVTKWriter.h"), ("points", "lib/mito/io/vtk/vtk_point.h")], ALG,
  "VTK is not installed: its classes are declared in driver/stub/vtk and modelled by what their documentation says. A space shows the nodes of the mesh only, not the middles of edges, as its comment says. The iteration order of "
  "unordered containers is not that of insertion. " + ANOTE)
P("Q01", "Partitioning a mesh gives every cell to exactly one process",
  "Partitioning a mesh gives each process exactly the cells that METIS assigns to it, on the same nodes in the same order, so that every cell is in exactly one part, whatever METIS answers; METIS is given the mesh as it is (numbers of "
  "cells, vertices and parts, the vertices of each cell under a one-to-one numbering, the number of vertices that neighbours share). Partitioning for one process gives the whole mesh.",
  ["inputs"], "meshes of segments, triangles and tetrahedra of up to four cells, also after cells were erased, two and three parts, four kinds of answers of METIS, all processes",
  "the partitioner is not built with the tests",
  ["lib/mito/mesh/metis/"], [("partitioner", "lib/mito/mesh/metis/Partitioner.icc")], ALG,
  "METIS is a model that follows its manual: it answers with an arbitrary assignment, the same on every process. The topology is a stand-in as in H01.")
P("S01", "The simulation is one, and knows its process",
  "The simulation is one object, whoever asks for it and how often. Its context knows the rank of the process and the number of processes of the job; without MPI it is process 0 of 1. MPI is initialised exactly once, before it is asked "
  "for anything, and a context finalises it exactly once, when it is destroyed.",
  ["histories", "inputs"], "jobs of one, two and five processes, every process, with and without MPI",
  "no test runs the simulation with more than one process",
  ["lib/mito/simulation/"], [("context", "lib/mito/simulation/Context.icc"), ("simulation", "lib/mito/simulation/Simulation.icc"), ("singleton", U + "Singleton.h")], INTERP,
  "MPI is a model of its life cycle and of its two communicators. Threads are out of scope.")
P("P01", "Python objects keep alive what they refer to",
  "Whatever variables a Python program drops, an object of the module never refers to a destroyed one: a manifold keeps its mesh and its coordinate system alive, an integrator its manifold, and no "
  "constructed object refers to a temporary of its constructor. What a method returns is a copy, or a reference that keeps its owner alive, and is not destroyed twice.",
  ["programs", "histories"], "every class, constructor, method and property that the module registers, called on objects the module itself constructs",
  "the Python tests keep every object in a variable until the end, and are not among the tests that run here",
  ["extensions/mito/mito.cc"], [("module", "extensions/mito/mito.cc"), ("manifold", "lib/mito/manifolds/Manifold.h"), ("integrator", "lib/mito/quadrature/Integrator.h")],
  "ownership analysis: the registrations are interpreted, then every constructor and method; the references reachable from the C++ object are compared with the keep_alive edges",
  "pybind11 is a stand-in that follows its documentation (keep_alive, return value policies); its functions that construct objects are interpreted as they are.")
P("P02", "The Python module gives what the C++ library computes",
  "The module can be imported and every call it offers is possible: each type it takes or gives is registered or converted. The entries of coordinates are those they were constructed with, up to an error "
  "beyond the last; a field is its function; a mesh has the cells of its file, and a file that cannot be read is an error; the integral of a field is that of the library for the mesh, coordinate system and function given.",
  ["inputs"], "symbolic coordinates, functions and node positions; a mesh of two triangles; every class, constructor, method and property that the module registers",
  "the Python tests sample a few numbers, and are not among the tests that run here",
  ["extensions/mito/mito.cc"], [("module", "extensions/mito/mito.cc")], ALG,
  "pybind11 is a stand-in that follows its documentation; which types it converts is decided by the compiler. The file is a model as in O01, the topology a stand-in as in H01.")
P("Z01", "The library can be used from several translation units of one program",
  "Every function and variable that a header of the library defines can be defined in each translation unit that includes the header (inline, template or constexpr, or local to the translation unit), and every variable "
  "that the program can change is one object in the whole program, however many translation units include the header.",
  ["programs"], "all function and variable definitions of all headers that the public header includes, with MPI and PETSc",
  "every test program is a single translation unit",
  ["lib/mito/"], [("headers", "lib/mito/public.h")],
  "linkage rule over the clang-resolved definitions: no header defines a symbol with strong external linkage, or a mutable variable with internal linkage",
  "Exhaustive over the definitions that clang resolves. The headers that need VTK or METIS are not part of it.")
P("A01", "Computed solutions converge at the rate of the finite elements",
  "On refined meshes, the error of the computed solution of a well-posed problem decreases at the rate that the degree of its elements promises.",
  ["inputs"], "problems, meshes and refinements", "tests sample a few refinements of one problem", ["lib/mito/fem/"], [("blocks and elements", "lib/mito/fem/")],
  na="an asymptotic statement about floating-point results over unbounded sequences of meshes: no sound static argument in reach bounds it (its algebraic ingredients are decided by E01-E04, G02, L03)")
P("A02", "The solution of a linear system satisfies it to the tolerance of the solver",
  "The vector that a Krylov solver returns satisfies the equations to the tolerance that was asked for, or the failure to converge is visible to the caller.",
  ["inputs"], "matrices, right-hand sides and solver options", "tests solve one small system", [PE], [("solver", PE + "PETScKrylovSolver.cc")],
  na="depends on the convergence of numerical iterations inside PETSc for given numbers, which is outside of the source and of static reach (that the right system is handed over and read back is L03)")
