# property -> (oracle, why tests cannot settle it)
TEXT = {
"C01": ("After every single edit, `vertices`, `edges`, `has_vertex/edge/bi_edge/any_edge`, `get`, `str`/`repr` are compared with a reference digraph kept as plain sets by the harness, for all names known or not (a free name stands for every other one). Refused edits must raise and change nothing.",
        "the history, its aliasing (which names are equal) and values are symbolic"),
"C02": ("`outgoing_vertices`, `ingoing_vertices`, `outgoing_edges`, `ingoing_edges` of every vertex against the reference digraph: each neighbour once, the right way round, consistent with `edges`; listings stay usable while the graph is edited under them.",
        "every history and hash order; edits interleaved with iteration"),
"C03": ("copy, construction from a graph, `subgraph` (any list of names, in any form: list, tuple, set, generator, with repeats and strangers), `reverse` against the reference; afterwards any edit on either side must not show on the other.",
        "all graphs, all requests, all later edits"),
"C04": ("a returned path starts and ends as asked, follows edges and repeats no vertex; one is returned exactly when the transitive closure (computed by the harness) says so. Asked repeatedly with edits in between, so results remembered across edits show.",
        "all digraphs up to 4 vertices, long graphs of eleven shapes, all pairs"),
"C05": ("`connected`, `connected_via_outgoing/ingoing`, `connected_subsets` against the transitive closure; each vertex in exactly one component.",
        "as C04"),
"C06": ("the network is evaluated by the harness in topological order with the same uninterpreted functions; after propagation every output must equal its method's value on the current inputs, whenever all inputs have values; nothing else may change.",
        "every method behaviour (uninterpreted), every wiring in bounds, values None / falsy / equal / custom types included"),
"C07": ("two runs of the same network: assignments in different order, deferred or not, propagated in between or not, and methods added late; final values must be equal and equal to the evaluation.",
        "every interleaving within the bounds"),
"C08": ("a snapshot of everything observable is taken before an operation that must be refused (cycle, second determination, unknown names, determined variable) or that fails midway; after it raised, the snapshot must be unchanged and later propagation must give the same values.",
        "every method offered to every network in bounds"),
"C09": ("after removing a variable or a method: exactly the documented consequences (the methods reading or writing it go, others and their values stay), and later propagation matches the evaluation of what is left.",
        "every removal from every network in bounds"),
"C10": ("Add, Sub, Set, Assign methods on symbolic integers, reals, strings of opaque operands (an operation that records its operands and order).",
        "values symbolic; operand order visible"),
"C11": ("multi-valued inputs: outputs must be exactly the multiset of results over the cartesian product in the documented order, for values that are opaque, equal, falsy, collections themselves; result tuples of 0 to 2.",
        "numbers of values, equality patterns and evaluation symbolic"),
"C12": ("after every edit: `constraints`, `variables`, `get_constraints_on`, `_on_any`, `_on_all` ... against a reference incidence list.",
        "every history and query in bounds"),
"C13": ("`satisfied(mapping)` of a function constraint equals the (uninterpreted) predicate applied to the mapped points in the constraint's order, evaluated once per point; mapping untouched; all built-in selection kinds usable in a constraint graph.",
        "predicate, aliasing and values symbolic"),
"C14": ("clockwise / counter-clockwise / flat and their negations by the sign of the signed area; obtuse / acute by the sign of the dot product; inputs within the tolerance bands excluded.",
        "all real points"),
"C15": ("the cluster returned must imply exactly the distances and angles implied by both (by the harness's enumeration of distances of rigid, distances ratios and angles of scalable and radial clusters): kind and points; symmetric.",
        "every kind and overlap up to the sizes in bounds"),
"C16": ("`common_distances/angles/constraints` against intersections of the enumerated sets, by geometric identity.",
        "as C15"),
"C17": ("`num_distances/num_angles/num_constraints` against the length of the enumerated sets (small) and the closed formulas (sizes to 2000).",
        "all sizes in bounds, aliasing"),
"C18": ("distances equal regardless of order; angles equal up to swapping the outer points, never otherwise; hash consistent; different from other objects.",
        "all aliasing patterns and hash orders"),
"C19": ("points of the cluster are exactly those given, repeated ones once, from any kind of collection; too-small ones raise; clusters built from one collection do not share it.",
        "all aliasing patterns, collection kinds"),
"C20": ("exactly one of tol_lt, tol_eq, tol_gt; tol_lte/gte are their unions; symmetric; equality formula `|a-b| <= max(rel*max(|a|,|b|), abs)`; default tolerances used when not given; no state.",
        "all pairs of finite doubles (FP theory) and of reals"),
"C21": ("soundness: each returned point is on both circles within tolerance, at most two, different. Completeness: a symbolic point on both circles must be among those returned. Tangent and concentric cases separately.",
        "all sizes within bounds"),
"C22": ("as C21 for a line and a ray; ray results lie ahead of the start; degenerate directions refused or empty.", "as C21"),
"C23": ("lines given by a symbolic meeting point: it is returned; parallel ones give none; rays only when both parameters are not negative.", "all real lines"),
"C24": ("exactly one of cw, ccw, flat; invariant under rotation of the list and shifts, exchanged by swaps and mirrors; also in doubles.", "all real / double points"),
"C25": ("cosine and sine of the returned angle against dot and cross product; sign; range; aligned arms with rounded division; acute/obtuse consistent.", "all arms"),
"C26": ("each operator componentwise; operands and results never alias; comparisons exact and tolerant in lexicographic order; `tol_*` consistent; copies independent.", "all components"),
"C27": ("rotation matrix definition, isometry, composition, inverse, full turns; quarter turns and plain angles exactly; azimuth/length as polar coordinates.", "all vectors and angles"),
"C28": ("definition of product, transpose, identity; A * inverse = I; solve; refusals by size; algebraic laws.", "all entries, sizes in bounds"),
"C29": ("origin, x axis towards second point, right-handed, unit; frame change maps the frame; inverse.", "all points"),
"C30": ("T(p) per point by the homogeneous formula; identity, composition; rigid motions keep distances and handedness; input untouched.", "all points and matrices"),
"C31": ("own points kept; others by one rigid, orientation-keeping motion that takes common points to common points; names the union.", "shapes, motions, name orders symbolic"),
"C32": ("flag equals: fewer than two different common points while the other has points that are not fixed; marks of inputs carried.", "coincidence patterns exhaustive"),
"C33": ("equal iff some rotation+shift maps one to the other within tolerance: moved ones are equal; mirrored, scaled or single-point changes beyond tolerance are not; consistent with hash and `!=`.", "motion and shapes symbolic"),
"C34": ("any derived operation, then any mutation of mappings, collections or results: every configuration still has its names, points, hash and mark.", "all overlaps, kinds of mapping"),
"C35": ("methods that look into the map they are given at every execution (its names, the values against the network's at that moment, no input missing), then empty or overwrite it; results are an uninterpreted function of inputs and of an outside value that changes before a request to execute.",
        "values, results and outside values symbolic; every building order and history in bounds"),
"C36": ("each element is within half a unit of the original and a whole multiple of the unit (floor as an integer in the solver); repeated after one element was assigned; other matrices untouched.",
        "all elements within 1000 of zero"),
}
