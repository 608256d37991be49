from .suite import prop, job, NAMES, INT, PLAIN

K = "constraint"
REAL = ("coordinates are mathematical reals (the code runs on doubles) and float constants stand for their decimal reading; "
        "math.sqrt, hypot, cos, sin, acos, atan2 and numpy.linalg.solve mean their mathematical definitions; "
        "every reported counterexample is run on the real code in doubles")


def tiers(q, t):
    return lambda tier: q if tier == "quick" else t


prop("C12",
     [job(K, "history", edits=2, plain=PLAIN), job(K, "any_incidence", names=3, constraints=2, plain=PLAIN)] + [job(K, "history", edits=3), job(K, "queries", edits=2, query=2), job(K, "any_incidence", names=3, constraints=2),
      job(K, "any_incidence", names=2, constraints=3, hashes=(1,)), job(K, "crowd"), job(K, "many_constraints", constraints=40, variables=30)],
     [job(K, "crowd", removals=2), job(K, "history", edits=4), job(K, "queries", edits=3, query=2), job(K, "any_incidence", names=3, constraints=3)],
     tiers('histories of 3 edits (variables, constraints of 1 or 2 names in every aliasing, present and absent ones) with the constraints on every name; histories of 2 edits with every query of 2 names; every incidence of 2 constraints on 3 names and 3 constraints on 2 names, any one removal, then all queries of up to 3 names',
           'histories of 4 edits; every query of 2 names after 3 edits; every incidence of 3 constraints on 3 names'),
     'longer histories; constraints on more than 3 names', [NAMES])

prop("C13",
     [job(K, "function", arity=3, plain=PLAIN), job(K, "function", arity=2, odd=True), job(K, "selection_kinds", plain=PLAIN)] + [job(K, "function", arity=n) for n in (0, 1, 2, 3)] + [job(K, "many_arguments", arities=(4, 5, 6, 9, 30)), job(K, "plus"), job(K, "selection_kinds"), job(K, "own_kind")],
     [job(K, "function", arity=n, others=2) for n in (0, 1, 2, 3)] + [job(K, "function", arity=4), job(K, "many_arguments", arities=(4, 5, 6, 7, 8, 9, 10, 15)), job(K, "plus"), job(K, "selection_kinds"), job(K, "own_kind")],
     tiers("function constraints of 0 to 3 names in every aliasing, one unrelated name in the mapping, symbolic integer values, an uninterpreted predicate; the sum constraint over integers; all built-in selection constraints and a user's own kind, put into a constraint graph",
           'as quick with 4 names and two unrelated names'),
     'more than 4 names; predicates that keep state', [NAMES])

prop("C14",
     [job(K, "turns"), job(K, "angles")],
     [job(K, "turns"), job(K, "angles")],
     tiers('any three points with real coordinates (lengths and directions of the two arms for the angle constraints)',
           'the same'),
     'rounding of doubles; angles within 1e-8 of the tolerance limit itself are checked as limits of the exact formulas', [REAL])

S = "scalar"
prop("C20",
     [job(S, "doubles", given=g) for g in ("none", "both", "relative", "absolute")] + [job(S, "reals"), job(S, "numbers"), job(S, "zero"), job(S, "stateless"), job(S, "own_tolerances")],
     [job(S, "doubles", given=g) for g in ("none", "both", "keywords", "relative", "absolute")] + [job(S, "reals"), job(S, "numbers"), job(S, "zero"), job(S, "stateless"), job(S, "own_tolerances")],
     tiers('any two finite doubles and any finite non-negative tolerances for the order of the comparisons; any two reals, plain numbers and tolerances for the formula; all ways of giving the tolerances',
           'the same with keyword arguments in doubles as well'),
     'infinities and NaN; negative tolerances; the rounding of the formula itself (decided over the reals; in doubles products and sums are abstracted by monotone axioms)', [REAL])


G = "geometry"


def same(pid, jobs, bounds="", outside="", assumptions=(REAL,)):
    prop(pid, jobs, jobs, bounds, outside, assumptions)


same("C21", [job(G, n) for n in ("circles_sound", "circles_complete", "circles_touch", "circles_nearly_touch", "circles_concentric")],
     bounds='any two circles with centres up to 100 apart and radii up to 100 (soundness); circles that touch but for up to 1e-10 (radii 0.1 to 10); any common point of two circles at most 100 from the line of centres, centres at least 1e-3 apart (completeness, both orders); touching circles; concentric circles of any radii, exactly or within 1e-9',
     outside='radii or distances beyond 100; rounding of doubles')
same("C22", [job(G, n) for n in ("line_sound", "line_complete", "ray", "line_touch", "line_nearly_touches", "no_direction")],
     bounds='any circle of radius up to 100 and line at distance up to 100, direction of length 1e-3 to 100, start anywhere up to 100 along it; lines that touch but for up to 1e-10; lines and rays without direction',
     outside='larger sizes; rounding of doubles')
same("C23", [job(G, n) for n in ("lines", "parallels", "axis_lines")],
     bounds='any two lines by meeting point, directions and parameters, all real; all parallel lines; axis-parallel lines; each of the three functions, both orders',
     outside='rounding of doubles')
same("C24", [job(G, "orientation"), job(G, "orientation_turned"), job(S, "orientation_doubles")],
     bounds='any three real points, with shifts, swaps, mirroring and turning; any three finite double points for exclusivity',
     outside="coordinates beyond 1e150 for 'one of them' in doubles")
same("C25", [job(G, "angle"), job(G, "acute_obtuse"), job(G, "aligned")],
     bounds='any two arms (length and direction) at any place; aligned and opposite arms with every division rounded by up to 2^-53',
     outside='rounding of doubles')
same("C26", [job(G, n) for n in ("arithmetic", "unary", "comparisons", "tolerant", "assigned", "copies")],
     bounds='any two vectors and scalars, all operators, plain numbers and vectors',
     outside='rounding of doubles; operands that are neither numbers nor vectors')
same("C27", [job(G, n) for n in ("rotation", "quarter_turns", "plain_angles", "polar")],
     bounds='any vector (length up to 1e6 and direction) and any angles; any vector and 32 angles given as plain numbers between -1e5 and 1e5',
     outside='rounding of doubles')
MORE = ((4, 5, 5, 6), (7, 1, 1, 7), (1, 9, 9, 2), (6, 6, 6, 6), (2, 8, 8, 1), (5, 4, 5, 4), (6, 5, 6, 5), (1, 7, 8, 1), (9, 9, 9, 1), (1, 6, 6, 9))
LONG = ((1, 9), (9, 1), (4, 7), (8, 3), (6, 6))
prop("C28",
     [job(G, "product", n=3), job(G, "product", shapes=MORE), job(G, "transposed", shapes=LONG), job(G, "transposed", n=3), job(G, "big"), job(G, "big_inverse"), job(G, "columns"), job(G, "mixed_numbers")] +
     [job(G, n, n=k) for n in ("inverse", "solution") for k in (1, 2, 3)],
     [job(G, "product", n=4), job(G, "product", shapes=MORE), job(G, "transposed", shapes=LONG), job(G, "transposed", n=5), job(G, "big"), job(G, "big_inverse"), job(G, "columns"), job(G, "mixed_numbers")] +
     [job(G, n, n=k) for n in ("inverse", "solution") for k in (1, 2, 3)],
     tiers('every size up to 3x3 (products, transposes), ten further pairs of sizes up to 9, five transposes up to 9; inverses and solutions up to 3x3 with any entries; sizes up to 1000 for the size checks; integers beside floats in 2x2 systems',
           'products up to 4x4, transposes up to 5x5'),
     'inverses larger than 3x3 with arbitrary entries; rounding and near-singular matrices (numpy.linalg.solve is taken as exact)', [REAL])
same("C29", [job(G, "frame"), job(G, "frame_change")],
     bounds="any two points at any distance and direction; any two frames on points at least 1e-3 apart",
     outside="rounding of doubles")

prop("C36",
     [job(G, "rounded", shapes=((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)))],
     [job(G, "rounded", shapes=((1, 5), (5, 1), (4, 4), (3, 6)))],
     tiers("matrices of seven sizes up to 3x3 and vectors with any elements within 1000 of zero; 4, 3, 2, 0 and -1 decimals, given or by default; one element changed and rounded again",
           "also 1x5, 5x1, 4x4 and 3x6"),
     "rounding of doubles, which of two equally near decimals is chosen, other numbers of decimals", [REAL])

C = "cluster"
prop("C15",
     [job(C, "intersection", first=(2, 3), second=(2, 3), plain=PLAIN), job(C, "intersection", first=(3,), second=(2, 3), derived=True)] + [job(C, "intersection", first=(0, 1, 2), second=(0, 1, 2)), job(C, "intersection", first=(3,), second=(0, 1, 2, 3, 4)),
      job(C, "intersection", first=(4,), second=(2, 3, 4)), job(C, "crowded", ask="intersection", sizes=(25, 20)), job(C, "intersection", large=((6, 6), (5, 7)))],
     [job(C, "intersection", large=((7, 8), (10, 6))), job(C, "intersection", first=(3, 4), second=(0, 1, 2, 3, 4, 5)), job(C, "intersection", first=(5,), second=(3, 4, 5))],
     tiers("every pair of clusters of 0 to 4 points (4 points with 0 or 1 left out), every kind, every overlap of names, both orders of the clusters",
           'up to 5 points each'),
     'larger clusters', [NAMES])
prop("C16",
     [job(C, "common", first=(2, 3), second=(2, 3), plain=PLAIN), job(C, "common", first=(3,), second=(2, 3), derived=True)] + [job(C, "common", first=(0, 1, 2), second=(0, 1, 2)), job(C, "common", first=(3,), second=(0, 1, 2, 3, 4)),
      job(C, "common", first=(4,), second=(2, 3, 4)), job(C, "crowded", ask="common", sizes=(14, 18)), job(C, "common", large=((6, 6), (5, 7)))],
     [job(C, "common", large=((7, 8), (10, 6))), job(C, "common", first=(3, 4), second=(0, 1, 2, 3, 4, 5)), job(C, "common", first=(5,), second=(3, 4, 5))],
     tiers('as C15, for common distances, angles and constraints',
           'up to 5 points each'),
     'larger clusters', [NAMES])
prop("C17",
     [job(C, "counts", n=4, plain=PLAIN)] + [job(C, "counts", n=5), job(C, "many")],
     [job(C, "counts", n=7), job(C, "many")],
     tiers('every list of up to 5 names in every aliasing; sizes up to 2000 for the counts',
           'every list of up to 7 names'),
     '', [NAMES])
same("C18", [job(C, "distances", plain=PLAIN), job(C, "angles", plain=PLAIN)] + [job(C, n) for n in ("distances", "angles", "strangers", "relation_points")],
     bounds='any two distances (4 names in every aliasing), any two angles (6 names), every hash order, comparison with other kinds of objects',
     outside='angles whose three points are not different', assumptions=(NAMES,))
prop("C19",
     [job(C, "building", n=3, plain=PLAIN)] + [job(C, "building", n=4), job(C, "shared_points"), job(C, "large_building", sizes=(5, 6, 8, 40))],
     [job(C, "large_building", sizes=(5, 6, 7, 8, 12, 20)), job(C, "building", n=5), job(C, "building", n=4, truth=True), job(C, "shared_points")],
     tiers('every list of up to 4 names in every aliasing given as list, tuple, set, frozenset, iterator, generator or dict view; two clusters built from one collection',
           'up to 5 names'),
     'larger clusters', [NAMES])

F = "configuration"
CO = ("any", "first two", "last two", "outer two", "all")
same("C30", [job(F, "transform", n=3, plain=PLAIN)] + [job(F, "transform", n=6), job(F, "transform_laws"), job(F, "rigid_motion"), job(F, "reuse"), job(F, "projected", n=1), job(F, "projected", n=2), job(F, "many_points", ask="transform", n=40)],
     bounds='up to 6 points, any affine matrix with any weight of magnitude 0.01 to 100; 2 points, any 3x3 matrix that gives each a weight of magnitude 0.01 or more',
     outside='points of weight nearly zero; more points')
FOUR = ("AAAB", "ABBB", "AABB", "ABAB", "AABC", "ABCC")
FIVE = ("AAABC", "ABABA", "AABBC", "ABBBB")
SIX = ("AAABBC", "ABABAA", "ABCABC", "AAAAAB")
prop("C31",
     [job(F, "merge", common=2, second=2, plain=PLAIN)] + [job(F, "merge", common=1, second=2), job(F, "merge", common=2, second=2, coinciding=("any", "all")),
      job(F, "merge", common=3, second=1, first=(0,), coinciding=CO),
      job(F, "merge", common=4, second=3, orders=2, first=(0, 2), coinciding=("any",) + FOUR),
      job(F, "merge", common=5, second=2, orders=2, coinciding=("any", "AAABC", "ABBBA"))] + [job(F, "merge_any", common=k) for k in (0, 1, 2, 3)] + [job(F, "several"), job(F, "many_points", ask="merge", n=60)],
     [job(F, "merge", common=1, second=2), job(F, "merge", common=2, second=2, coinciding=("any", "all"), orders=5),
      job(F, "merge", common=3, second=2, coinciding=CO, orders=4),
      job(F, "merge", common=4, second=2, orders=4, first=(1,), coinciding=("any",) + FOUR),
      job(F, "merge", common=4, second=4, orders=2, first=(0, 3), coinciding=("any",) + FOUR),
      job(F, "merge", common=6, second=2, orders=2, coinciding=("any",) + SIX)] + [job(F, "merge_any", common=k) for k in (0, 1, 2, 3)],
     tiers('0 to 3 common names in every iteration order, 4 and 5 in two orders; common points by distance (0 or 0.001 to 100) and direction, every pattern of coincidence of 3 and eight patterns of 4 and 5; up to 3 further points on each side; any rotation and shift between them, or any shapes at all',
           'also 6 common names, 3 with 2 more points on each side, 4 more points, arbitrary shapes with 3 common names'),
     'more names; sizes beyond 100 (shifts beyond 1000); rounding of doubles; points that nearly coincide', [REAL])
ANY3 = tuple((i, j) for i in range(3) for j in range(3))
prop("C32",
     [job(F, "mark", common=1, others=((1, 1), (0, 1)), plain=PLAIN)] + [job(F, "mark", common=k, others=ANY3) for k in (0, 1)] + [job(F, "mark", common=2, others=((0, 0), (1, 1), (0, 1))),
      job(F, "mark", common=3, others=((0, 0), (1, 1))), job(F, "chain"),
      job(F, "mark_many", orders=2, patterns=("AAAA", "AAAB", "ABBB", "AABB", "ABAB")), job(F, "many_points", ask="merge", n=60)],
     [job(F, "mark", common=k, order=True, others=ANY3) for k in (0, 1, 2, 3)] + [job(F, "chain"),
      job(F, "mark_many", patterns=("AAA", "AAB", "ABB", "ABA", "ABC")),
      job(F, "mark_many", orders=4, patterns=("AAAA",) + FOUR + ("ABCD",)),
      job(F, "mark_many", orders=2, patterns=("AAAAA", "AAAAB", "AABBB", "ABCDE") + FIVE)],
     tiers('0 to 3 common names and up to 2 further names on each side, common points at any distance from 0, marks on either input; 4 common names that coincide in five patterns in either configuration, in two orders; chains of three merges and copies',
           'every order of the names; 14 patterns of up to 5 common names'),
     'more names; longer chains', [REAL])
prop("C33",
     [job(F, "equal_moved", n=2, plain=PLAIN), job(F, "named", plain=PLAIN)] + [job(F, "equal_moved", n=1), job(F, "equal_moved", n=2, coinciding=("any", "all")), job(F, "equal_moved", n=3, coinciding=CO),
      job(F, "equal_moved", n=5, orders=2, coinciding=("any",) + FIVE), job(F, "mirrored", more=1, orders=4),
      job(F, "one_moved", how="further", more=2, orders=2), job(F, "one_moved", how="turned", more=2, orders=2), job(F, "one_moved", how="turned", more=1, orders=4),
      job(F, "threshold", n=3), job(F, "threshold", n=4), job(F, "nearly"), job(F, "several"), job(F, "equal_pair"), job(F, "equal_triple"), job(F, "mirrored"), job(F, "scaled", n=2), job(F, "scaled", n=3), job(F, "one_moved", how="further"), job(F, "one_moved", how="turned"), job(F, "named"), job(F, "many_points", ask="equal", n=12)],
     [job(F, "equal_moved", n=4, orders=4, coinciding=CO + FOUR), job(F, "equal_moved", n=6, orders=2, coinciding=("any",) + SIX),
      job(F, "equal_moved", n=5, orders=2, coinciding=("any",) + FIVE), job(F, "mirrored", more=2, orders=5),
      job(F, "one_moved", how="further", more=2, orders=5), job(F, "one_moved", how="turned", more=2, orders=5), job(F, "equal_pair"),
      job(F, "equal_triple"), job(F, "mirrored"), job(F, "scaled", n=2), job(F, "scaled", n=3), job(F, "one_moved", how="further"),
      job(F, "one_moved", how="turned"), job(F, "named")],
     tiers('up to 3 points: any configuration moved, mirrored, scaled or with one point elsewhere or off by much less than the tolerance; 5 points moved (five patterns of coincidence), 4 mirrored, up to 5 with one elsewhere; any two pairs of points; any two triangles (frame on a corner that is listed first); any two lists of up to 3 names in every aliasing; other objects',
           'four points moved in every order, six moved, five mirrored'),
     'more points; triangles compared from a corner that is not listed first, beyond moved, scaled, mirrored and single-point changes; points that nearly coincide; rounding of doubles', [REAL])
prop("C34",
     [job(F, "derived", n=2, m=2, plain=PLAIN)] + [job(F, "derived", n=2, m=2), job(F, "derived", n=4, m=2), job(F, "derived", n=2, m=4), job(F, "independent"), job(F, "many_points", ask="derived", n=40)],
     [job(F, "derived", n=3, m=3), job(F, "derived", n=5, m=2), job(F, "derived", n=4, m=3), job(F, "independent")],
     tiers('2 names each, or 4 and 2, in every overlap, any real points, every operation, selection and later change of the mappings',
           '3 names each, 5 and 2, 4 and 3'),
     'more names', [REAL])
