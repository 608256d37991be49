#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
G, M, K = "solver/graph.py", "solver/method.py", "solver/geometric/constraint.py"
CL, CF, R, GE = ("solver/geometric/cluster.py", "solver/geometric/configuration.py",
                 "solver/geometric/relation.py", "solver/geometry.py")
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


# ------------------------------------------------------------------ graph
p("C01", "A graph always equals the digraph its history of edits describes",
  "After any history of edits a graph's vertices, edges and edge values are exactly those of the mathematical "
  "directed graph given by the same history: adding an existing vertex or edge changes nothing (the old value stays), "
  "setting creates or overwrites, removing an edge removes that edge only, and removing a vertex removes it together "
  "with exactly its incident edges, self-loops included. Removing an absent vertex or an absent edge is refused with an "
  "exception and changes nothing, and two graphs never share state.",
  ["histories", "inputs"], "every sequence of edit operations and every choice of hashable vertices and values",
  "Two tests look at one fixed six-edge graph that is only ever added to; no test removes anything, overwrites a value, "
  "uses a self-loop or repeats an operation.", [G],
  [("forward and reverse adjacency dictionaries edited together", G + ": add_vertex, remove_vertex, add_edge, remove_edge, set")],
  [("forward adjacency", "vertex -> successor -> value", G + ": Graph"), ("reverse adjacency", "vertex -> predecessor -> value", G + ": Graph")],
  ["vertices, edges, membership tests and value look-ups after each edit"])
p("C02", "Neighbour and edge listings agree with the edges in both directions",
  "At every point of every history, the successors, predecessors and neighbours listed for a vertex, and its outgoing, "
  "ingoing and adjacent edges written as (source, target) pairs, are exactly those implied by the edges the graph has. "
  "A listing is a snapshot: it can be iterated while the graph is edited.",
  ["histories", "inputs"], "every history of edits, every vertex of the resulting graph",
  "No test asks for the neighbours or incident edges of any vertex; the reverse index is never compared with the forward one.", [G],
  [("reverse index kept in step", G + ": ingoing_vertices, outgoing_vertices, adjacent_vertices, ingoing_edges, outgoing_edges, adjacent_edges")])
p("C03", "Copies, subgraphs and reversals are exact and independent",
  "A copy of a graph (by either way of making one) has the same vertices, edges and values; a subgraph has exactly the "
  "requested vertices that exist and the edges between them with their values; a reversal has the same vertices and every "
  "edge turned around with its value. Editing a derived graph never changes the original, nor the other way round.",
  ["inputs", "histories"], "every graph and every requested vertex list",
  "One test checks that reversed edges are present and one that a subgraph has no foreign edges, on one fixed graph; "
  "isolated vertices, values, missing edges and independence are never looked at.", [G],
  [("copying loops", G + ": Graph.__init__, subgraph, copy, reverse")])
p("C04", "Path search returns a real path exactly when one exists",
  "Asked for a path between two vertices of the graph, the search returns a list that starts at the first, ends at the "
  "second, follows an existing edge at each step and repeats no intermediate vertex; for equal ends that is a cycle of at "
  "least one edge. The empty list is returned exactly when no such path exists, and the graph is not changed.",
  ["inputs"], "every directed graph and every pair of its vertices",
  "No test calls the path search directly; it is reached only through one cycle rejection in a method graph.", [G],
  [("depth-first search over outgoing vertices with trail map", G + ": path")])
p("C05", "Reachability and connected components are computed correctly",
  "The vertices reported connected to a vertex are exactly those reachable by one or more steps along edges in the allowed "
  "direction(s) (forwards, backwards or either), without the vertex itself and without repeats. The connected subsets are "
  "exactly the weakly connected components: they partition the vertices, and two vertices share a subset exactly when joined by "
  "an undirected path.",
  ["inputs"], "every directed graph, every start vertex and each direction mode",
  "No test exercises reachability or components at all.", [G],
  [("worklist closure", G + ": connected, connected_via_outgoing, connected_via_ingoing, connected_subsets")])
# ------------------------------------------------------------------ method graph
p("C06", "After propagation every method's outputs equal its result on current inputs",
  "In a method graph with nothing pending, each method's outputs hold exactly what executing that method on the current values of "
  "its inputs gives, or no value if any of its inputs has none, for every acyclic wiring and any method behaviour. "
  "Variables no method determines keep the value last assigned to them, and propagation always terminates. (Assignments are to "
  "variables that no method determines.)",
  ["histories", "inputs"], "every acyclic wiring (chains, diamonds, shared inputs, several outputs), every method behaviour, every assignment history, values of any type",
  "The tests use one chain of additions in which each variable feeds the network in a lucky order; diamonds that read a changed "
  "variable twice, missing values and multi-output methods are not covered.", [M],
  [("change flags and worklist", M + ": propagate, _do_execute, execute, set, add_method")],
  [("changed set", "variables whose readers must be re-run", M + ": MethodGraph._changed")])
p("C07", "Order and batching of changes never affect the final values",
  "Assigning several variables and adding methods with propagation deferred and then propagating once gives the same values as doing "
  "the same steps with immediate propagation, in any order of the assignments. The final values depend only on the methods present "
  "and the values of the undetermined variables.",
  ["schedules", "histories"], "every interleaving of deferred and immediate steps over every small acyclic wiring",
  "No test defers propagation; every test changes one variable at a time.", [M],
  [("change flags survive until their readers ran", M + ": set(prop), add_method(prop), propagate")])
p("C08", "A refused operation on a method graph leaves no trace in the network",
  "Adding a method that would close a cycle, or determine a variable already determined by another method, raises the corresponding error; "
  "afterwards the methods present and all values are as before, the refused method is never executed, and the "
  "network keeps propagating exactly as if it had never been offered (variables it named for the first time may stay). Every acyclic, "
  "singly determined method is accepted, and assigning to, removing or executing something not in the network is refused and changes nothing.",
  ["histories", "inputs"], "every wiring, every offered method, every later assignment",
  "One test checks that the two exceptions are raised; none looks at the network afterwards.", [M, G],
  [("roll-back after validity check", M + ": add_method, rem_method"), ("cycle search", G + ": path")])
p("C09", "Removing a variable or method removes exactly it and what depends on it",
  "Removing a method stops it from ever being executed again and leaves every value and all other methods in place; removing a variable also removes exactly "
  "the methods that read or write it. What remains keeps propagating correctly, a removed variable or method can be added again, and "
  "clearing leaves no variables and no methods on them.",
  ["histories", "inputs"], "every wiring and every removal at any point of a history",
  "No test removes a variable or a method.", [M, G],
  [("removal of incident edges", G + ": remove_vertex"), ("cascading removal", M + ": rem_variable, rem_method, clear")])
p("C10", "The built-in methods compute sum, difference, constant and assignment",
  "For all operands, the addition method outputs the sum of its inputs, the subtraction method the first minus the second, the setting method its "
  "constant and the assigning method its input's value, under the output's name and nothing else; if an operand is missing or has no value, "
  "addition, subtraction and assignment output nothing. They work the same alone and inside a method graph, for numbers and vectors.",
  ["inputs"], "every operand value of any additive type, every presence pattern of the inputs",
  "Only the addition of small integers in a graph is tested; subtraction, setting and assigning never run.", [M],
  [("execute methods", M + ": AddMethod, SubMethod, SetMethod, AssignMethod")])
p("C11", "Multi-valued methods yield every combination of their multi-valued inputs",
  "A method over multi-valued inputs outputs exactly the values its evaluation yields over the full Cartesian product of the values of those inputs, with "
  "single-valued inputs held fixed, each value once; no combination is skipped or taken with a mixed-up operand. A multi-valued method must have exactly one "
  "output and that output must be multi-valued, otherwise it is refused.",
  ["inputs"], "every number of inputs and values, every mixture of single- and multi-valued inputs, every evaluation function",
  "One test computes one sum/product example whose inputs are symmetric, so swapped or skipped operands can go unseen.", [M],
  [("recursive expansion of multi inputs", M + ": MultiMethod.execute, _recurse_execute, SumProdMethod")])
# ------------------------------------------------------------------ constraints
p("C12", "A constraint graph answers queries exactly as its history of edits implies",
  "After any history of adding and removing variables and constraints, the variables and constraints present are exactly those implied: adding a constraint "
  "adds its variables, removing a constraint keeps its variables, and removing a variable removes exactly the constraints on it. The constraints "
  "on a variable, on all of several variables, and on any of several variables are exactly those present whose variables contain it, all of "
  "them, or one of them; removing absent things changes nothing.",
  ["histories", "inputs"], "every edit history, every constraint arity and overlap, every query list",
  "The tests add three fixed chained constraints and query them; nothing is ever removed and no query has a constraint it should leave out of a partial overlap.", [K, G],
  [("bipartite variable-constraint graph", K + ": ConstraintGraph"), ("incident edge removal", G + ": remove_vertex")])
p("C13", "A selection constraint holds exactly when its predicate accepts its points",
  "A function constraint is satisfied by a mapping exactly when its function, applied to the mapped values of its variables in the declared "
  "order, returns true; other variables in the mapping are irrelevant and the mapping is not changed. Every constraint reports its variables, in order, as a "
  "fresh list and can be put into a constraint graph and found there by each of its variables.",
  ["inputs"], "every predicate, arity, variable naming and mapping",
  "Tests evaluate fixed triangles; selection constraints are never put into a constraint graph.", [K],
  [("application of function to mapped variables", K + ": FunctionConstraint.satisfied, SelectionConstraint"), ("sum test", K + ": PlusConstraint.satisfied")])
p("C14", "Turn and angle selection constraints reject exactly what they name",
  "For any three points, the not-clockwise constraint is unsatisfied exactly for clockwise triples, not-counter-clockwise exactly for counter-clockwise ones, "
  "not-acute exactly when the angle at the middle point is acute and not-obtuse exactly when it is obtuse, all within the "
  "library's tolerance. Degenerate (collinear, right-angled or coincident) triples satisfy both constraints of the pair concerned, and every triple satisfies at least one of each pair.",
  ["inputs"], "every three points of the plane (real coordinates), every variable naming",
  "Each constraint is tried on two or three fixed triangles with vertices on the axes.", [K, GE],
  [("negated geometric predicates", K + ": NotClockwiseConstraint, NotCounterClockwiseConstraint, NotObtuseConstraint, NotAcuteConstraint")])
# ------------------------------------------------------------------ clusters
p("C15", "Cluster intersection keeps exactly the constraints both clusters imply",
  "The intersection of any two clusters is a cluster over shared points only whose implied distances and angles are exactly those implied by both, and there "
  "is none exactly when no distance or angle is implied by both. It does not depend on the order of the two clusters, and neither of "
  "them is changed.",
  ["inputs"], "every pair of rigid, hedgehog and balloon clusters with any overlap of their points",
  "Tests intersect three fixed clusters; most overlap patterns and all reversed hedgehog/balloon overlaps are unexplored.", [CL],
  [("double dispatch on cluster kinds", CL + ": Cluster.intersection, intersect_rigid, intersect_hedgehog, intersect_balloon")])
p("C16", "Common constraints of clusters are exactly the shared distances and angles",
  "For any two clusters, the common distances are exactly the unordered point pairs whose distance both imply, the common angles exactly the angles both imply, each "
  "reported once, and the common constraints are their union. The answer does not depend on the order of the two clusters.",
  ["inputs"], "every pair of clusters of every kind with any overlap of their points",
  "No test asks for common constraints.", [CL, R],
  [("enumeration of shared pairs and triples", CL + ": common_constraints, common_distances, common_angles_*"), ("deduplication by equality and hash", R + ": PointRelation")])
p("C17", "A cluster's constraint counts equal the constraints it implies",
  "The number of distances, angles and constraints a cluster reports is the number it implies: every pair of points for a rigid body and none for the "
  "others; three angles per triple for rigid bodies and balloons, one per pair of arms for a hedgehog; constraints are the sum. The counts agree with the "
  "common constraints of the cluster with itself.",
  ["inputs"], "every cluster of every kind and size",
  "One test counts the distances of one four-point rigid.", [CL],
  [("binomial counts", CL + ": n_distances, n_angles, n_constraints")])
p("C18", "Distances and angles are identified by their geometry",
  "Two distances are equal exactly when they join the same two points, in either order; two angles (of three different points each) are equal exactly when they have the same vertex and the same two arms, in either "
  "order; a distance never equals an angle or anything else; classes derived from them count as the same kind. Equal relations have equal hashes, so sets of relations hold each one once.",
  ["inputs"], "every choice of distinct hashable points and every ordering of them",
  "No test constructs a relation.", [R],
  [("equality and hash", R + ": PointRelation.__hash__, Distance.__eq__, Angle.__eq__")])
p("C19", "Clusters hold exactly the given points and too-small ones are refused",
  "A cluster's points are exactly the distinct points given (for a hedgehog its centre and arms), listed once each, the hedgehog's centre first. A balloon with fewer than three distinct "
  "points, or a hedgehog with fewer than two arms distinct from its centre, is refused; everything else is accepted, and clusters never share or "
  "alter the collections they were built from.",
  ["inputs"], "every list of points with any repetitions",
  "One test checks two refusals inside one block, the second of which is never reached.", [CL],
  [("constructor checks", CL + ": Cluster.__init__, Hedgehog.__init__, Balloon.__init__, var_list")])
# ------------------------------------------------------------------ geometry
p("C20", "Tolerant comparisons are a consistent trichotomy with the stated tolerance",
  "For all finite numbers exactly one of tolerantly less, equal and greater holds, and less-or-equal is exactly the opposite of greater, greater-or-equal of less. Two numbers are tolerantly equal "
  "exactly when they differ by at most the absolute tolerance plus the relative tolerance times the magnitude of the second, with defaults 1e-8 and 1e-5, "
  "which are the class's own and which a derived class or a program may set, and any tolerances the caller gives; a number is tolerantly zero exactly when its magnitude is within the absolute tolerance.",
  ["inputs"], "all pairs of finite IEEE doubles and all tolerance arguments",
  "Tests only use equality on nearly equal values as an assertion helper; boundaries and asymmetry are never probed.", [GE],
  [("tolerance formula", GE + ": Scalar.tol_eq"), ("derived comparisons", GE + ": Scalar.tol_zero, tol_gt, tol_lt, tol_ge, tol_le, sign")])
p("C21", "Circle-circle intersection is sound and complete",
  "Every point returned lies on both circles within tolerance, at most two points are returned, and the circles' intersection points are all returned: two when they cross, one when they touch, none when they "
  "are apart, nested or concentric. Except within tolerance of touching, the set of points does not depend on which circle is given first, and it moves along when both circles are shifted.",
  ["inputs"], "every pair of circles with real centres and non-negative radii, tolerance boundaries included",
  "No test intersects circles.", [GE],
  [("radical-line construction", GE + ": cc_int")])
p("C22", "Circle-line and circle-ray intersection are sound and complete",
  "Every point returned lies on the line and on the circle within tolerance; all intersection points are returned, two when the line crosses, one when it touches, none when it misses or has no direction. For a ray, exactly the "
  "line's solutions at or ahead of its start (within tolerance) are returned.",
  ["inputs"], "every circle, point and direction with real coordinates, vertical, horizontal and reversed directions included",
  "No test intersects circles with lines or rays.", [GE],
  [("discriminant construction", GE + ": cl_int"), ("half-line filter", GE + ": cr_int")])
p("C23", "Line and ray intersections are sound and complete",
  "For two non-parallel lines the single point returned lies on both; for parallel lines (within tolerance) nothing is returned and nothing fails. With a ray in place of a line, the point is "
  "returned exactly when it lies at or ahead of that ray's start within tolerance, for each ray involved; swapping the two lines gives the same point.",
  ["inputs"], "every pair of points and non-zero directions with real coordinates, axis-parallel directions included",
  "No test intersects lines or rays; the module's own self-test functions cannot run.", [GE],
  [("parameter solution", GE + ": ll_int"), ("half-line filters", GE + ": lr_int, rr_int")])
p("C24", "Every triangle is exactly one of clockwise, counter-clockwise and flat",
  "For any three points exactly one of clockwise, counter-clockwise and flat holds, decided by the sign of the doubled signed area within the absolute tolerance. Orientation is unchanged by cyclic "
  "rotation of the points and by translating the triangle, and is flipped by swapping two points or mirroring.",
  ["inputs"], "every three points with real coordinates; exclusivity also for all finite doubles",
  "Orientation is tested on a handful of axis-aligned triangles through the selection constraints.", [GE],
  [("perpendicular dot product", GE + ": is_clockwise, is_counterclockwise, is_flat")])
p("C25", "The signed angle of three points is right, and acute and obtuse agree with it",
  "The angle at the middle of three points has the magnitude given by the two arms, lies within [-pi, pi], is negative exactly for counter-clockwise triples, changes sign when the outer points are swapped (unless flat), and is undefined exactly when an "
  "arm has no length within tolerance. Acute means smaller and obtuse greater than a right angle within tolerance, never both, and neither for undefined angles.",
  ["inputs"], "every three points with real coordinates, collinear and coincident ones included",
  "Only the acute and obtuse predicates are touched, on two right-triangle shapes.", [GE],
  [("arc-cosine of normalised dot product with orientation sign", GE + ": angle_3p, is_acute, is_obtuse")])
p("C26", "Vector arithmetic, comparison and copying are componentwise and never alias",
  "Sums, differences, products, quotients and negation of vectors, with vectors or plain numbers, are taken per component, comparisons, exact and tolerant, hold exactly when they hold for both components, and the dot product, "
  "positivity and element access follow the coordinates: a vector has exactly two elements, and iterating over it gives x and then y. Operations return new vectors and never change their operands, and a copy or a vector made from a column "
  "matrix shares no state with its source.",
  ["inputs"], "all vectors with real coordinates and all scalars",
  "Tests use a few fixed vectors; multiplication, comparison, indexing and independence of copies are not covered.", [GE],
  [("operators", GE + ": Vector")])
p("C27", "Rotation is a composing isometry; length and azimuth are polar coordinates",
  "Rotating a vector keeps its length and its dot products with equally rotated vectors, rotating by a and then by b is rotating by a + b, and rotating by 90 degrees takes (x, y) to (-y, x). A vector "
  "equals the vector of its length along the x axis rotated by its azimuth, and the azimuth lies within [-180, 180] degrees.",
  ["inputs"], "all vectors with real coordinates and all angles",
  "Tests rotate one vector by 50 and 360 degrees and walk regular polygons, all judged by closing sums.", [GE],
  [("rotation matrix, polar properties", GE + ": Vector.rotate, azimuth, length")])
p("C28", "Matrix product, transpose, identity, inverse and solve obey matrix algebra",
  "A product has entry (i, j) equal to the sum of row i times column j and is refused exactly when the sizes do not fit; transposing swaps rows and columns and twice gives the original; the identity is neutral; the inverse "
  "times the matrix is the identity and a solution satisfies its equations for every invertible matrix, while inverting a non-square matrix is refused. Sizes are "
  "judged by value for any size, the operands are never changed, and column vectors behave as 2-by-1 matrices.",
  ["inputs"], "all matrices of compatible and incompatible small shapes with real entries; size checks for any size",
  "No test multiplies, transposes, inverts or solves a matrix.", [GE],
  [("list-of-lists algebra", GE + ": Matrix.__mul__, transpose, identity, inverse, solve")])
p("C29", "Coordinate systems are right-handed frames and frame changes are exact",
  "The coordinate system built on two distinct points has its origin at the first, its first axis towards the second, and a second axis perpendicular to it, counter-clockwise and of equal length, of unit "
  "length or, when scaled, of the points' distance; coincident points give none. The change from one system to another maps the one's origin and axes exactly to the "
  "other's.",
  ["inputs"], "every pair of points, and every two such systems",
  "Only reached through four configuration equalities.", [GE],
  [("homogeneous frames", GE + ": make_hcs, make_hcs_scaled, cs_transform_matrix")])
# ------------------------------------------------------------------ configurations
p("C30", "Transforming a configuration applies the given transformation to every point",
  "Transforming a configuration by a homogeneous matrix gives a configuration with the same names in which each point is the image of the original point, for rotations, translations, scalings and "
  "any other invertible affine map. Transforming by the identity changes nothing, transforming twice equals transforming by the product, and rigid motions keep all distances and the handedness.",
  ["inputs"], "every configuration and every affine matrix with real entries",
  "Only reached through four equalities of two-point configurations.", [CF, GE],
  [("homogeneous multiplication per point", CF + ": Configuration.transform")])
p("C31", "Merging keeps this configuration and moves the other rigidly onto common points",
  "A merged configuration has the names of both; every point of the first keeps its coordinates, and the points only in the second keep, among themselves and to the common points, the distances and handedness they had there. "
  "Whenever the common points have the same shape in both, all of them overlap after the move, whichever of them coincide and in whatever order names are iterated. (Points either coincide or are apart by clearly more than the tolerance.)",
  ["inputs", "schedules"], "every pair of configurations with no, one, two or three common names, coincident points included, and every iteration order of names",
  "No test merges configurations.", [CF, GE],
  [("alignment of frames on shared points", CF + ": merge, transformation_matrix, add")])
p("C32", "A merge is reported underconstrained exactly when it is not unique",
  "A merge is reported as underconstrained when no name is common, when a single name is common and both configurations have others, or when no two common points are apart in both configurations, or when either input was "
  "already underconstrained, and otherwise is not. The merged configuration carries the same mark, so that later merges and copies still report it.",
  ["inputs", "histories"], "every pair of configurations and every chain of merges",
  "No test merges configurations or reads the mark.", [CF],
  [("underconstrained flag", CF + ": transformation_matrix, merge, copy")],
  [("underconstrained mark", "configuration came from a non-unique merge", CF + ": Configuration.underconstrained")])
p("C33", "Configurations are equal exactly when a rotation and shift maps one to the other",
  "Two configurations are equal exactly when they have the same names and some rotation and translation takes every point of one onto the equally named point of the other, within tolerance; a mirror image or a scaled copy is not equal. Equality is "
  "reflexive and symmetric, does not depend on the order in which names were given or are iterated, agrees with hashing, and comparing with any other object is simply unequal. (Points either coincide or are apart by clearly more than the tolerance.)",
  ["inputs", "schedules"], "every pair of configurations with up to three points, coincident points included, and every iteration order of names",
  "Four equalities of two-point configurations anchored at the same names; no inequality is ever tested.", [CF, GE],
  [("alignment and comparison of points", CF + ": Configuration.__eq__, makehash, transformation_matrix")])
p("C34", "Configurations are immutable values: deriving one changes no other",
  "Looking up a name gives the point it was created with; adding keeps this configuration's points and takes only the missing names from the other; selecting keeps exactly the chosen names; copying keeps points and marks. No operation "
  "changes its operands or the mapping a configuration was created from, and later changes to that mapping do not reach the configuration.",
  ["inputs", "histories"], "every pair of configurations with any overlap of names, every selection",
  "No test derives a configuration.", [CF],
  [("copied mappings", CF + ": Configuration.__init__, copy, add, select, vars, get")])

# ------------------------------------------------------------------ added later
p("C35", "Methods run on current values, and running one on request takes effect",
  "A method in a method graph is executed only when all its inputs have values. Whenever it is executed it is given a map of exactly its inputs and outputs with the values they have in the network at that moment (for the outputs: the previous "
  "ones); the map is its own, and altering it alters nothing in the network. Executing a method on request takes in the results it has now, also if what it depends on outside the network has changed, and brings everything that depends on them up to date.",
  ["inputs", "histories"], "every method graph and every history of assignments, deferred or not, and requests to execute",
  "Tests execute nothing on request and never look at what a method was given.", [M],
  [("input map built per execution", M + ": MethodGraph._do_execute"), ("execute on request, then propagate", M + ": MethodGraph.execute"), ("contract of execute", M + ": Method.execute")])
p("C36", "Rounding a matrix rounds every element to the nearest decimal",
  "Rounding a matrix or a vector to a number of decimals (four unless told otherwise) replaces each of its elements by the nearest number with that many decimals, keeps its size and changes no other matrix; rounding it again changes nothing but "
  "elements assigned since.",
  ["inputs"], "all matrices with real elements and all numbers of decimals",
  "No test rounds a matrix.", [GE],
  [("element-wise rounding", GE + ": Matrix.round")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
