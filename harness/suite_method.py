from .suite import prop, job, NAMES, INT, PLAIN

M = "method"


def tiers(q, t):
    return lambda tier: q if tier == "quick" else t


UF = ("methods are uninterpreted functions of their inputs (every deterministic behaviour at once) over symbolic integers; "
      "a method that also depends on the previous value of its output, or on outside state, is not covered")
FREE = "assignments go to variables that no method determines"
HOST = "values with no usable ==, truth or hash are covered by the 'hostile' harnesses"

prop("C06",
     [job(M, "network", n=3, reused=True, sets=2), job(M, "two_graphs", steps=2)] + [job(M, "network", n=3, plain=PLAIN), job(M, "mixed", steps=2, pool=(0, 1, 2, 5), start=(0,), ops=('set', 'add', 'propagate'), plain=PLAIN)] + [job(M, "network", n=3), job(M, "network", n=4),
      job(M, "several_outputs"), job(M, "several_outputs", sets=2, declines=True),
      job(M, "network", n=3, hostile=True, sets=2), job(M, "network", n=3, declines=True, gives_none=True),
      job(M, "network", n=5, wiring="chain and skip"), job(M, "network", n=5, wiring="two sources"),
      job(M, "history", n=3, steps=2), job(M, "large_network"), job(M, "very_long", n=1100), job(M, "wide", n=20),
      job(M, "mixed", steps=3, pool=(0, 1, 5), nones=True, ops=("set", "add", "propagate")),
      job(M, "mixed", steps=2, pool=(0, 1, 2, 5), start=(0,), unset=True, nones=True, ops=("set", "add", "propagate"))],
     [job(M, "mixed", steps=4, pool=(0, 1, 5), nones=True, ops=("set", "add", "propagate")), job(M, "mixed", steps=3, pool=(0, 1, 3, 5), unset=True, nones=True, ops=("set", "add", "remove")),
      job(M, "large_network", sets=3), job(M, "history", n=3, steps=3, unset=True), job(M, "history", n=4, wiring="diamond", steps=3), job(M, "network", n=3, sets=3, method_hash=True), job(M, "network", n=4, sets=2), job(M, "network", n=4, declines=True),
      job(M, "several_outputs", sets=4), job(M, "several_outputs", declines=True, method_hash=True),
      job(M, "network", n=4, hostile=True, sets=1)] +
     [job(M, "network", n=max(w[1]), wiring=w[0], sets=3) for w in
      (("diamond", (4,)), ("double read", (4,)), ("chain and skip", (5,)), ("two sources", (5,)), ("fan", (5,)),
       ("constant", (3,)))],
     tiers("every acyclic wiring of single-output methods over 4 variables (sources included), every order of adding the methods, "
           "values present or missing, given before or after; one more assignment; chosen 5-variable wirings and "
           "multi-output shapes with up to 3 assignments; values checked after every step",
           "two to four further assignments, six named wirings up to 5 variables"),
     "larger networks; longer assignment histories", [UF, FREE, HOST])

prop("C07",
     [job(M, "batching", n=3, plain=PLAIN)] + [job(M, "batching", n=3, any_order=True), job(M, "batching", n=4, again=False),
      job(M, "batching", n=4, wiring="diamond", any_order=True), job(M, "batching", n=3, nones=True),
      job(M, "batching", n=3, hostile=True), job(M, "history", n=3, steps=2, hostile=True),
      job(M, "history", n=3, steps=3, ops=("set", "later"), wiring="pair"), job(M, "large_network", hostile=True), job(M, "wide", n=12),
      job(M, "mixed", steps=4, pool=(0, 1), ops=("set", "add")),
      job(M, "mixed", steps=3, pool=(0, 1, 2, 3), hostile=True, ops=("set", "add", "propagate", "remove method", "remove"))],
     [job(M, "mixed", steps=4, pool=(0, 1, 4), hostile=True, ops=("set", "add", "propagate")), job(M, "mixed", steps=5, pool=(0, 1), ops=("set", "add")),
      job(M, "mixed", steps=4, pool=(0, 1, 2, 3), ops=("set", "add", "propagate", "remove method", "remove")),
      job(M, "large_network", sets=3, hostile=True, method_hash=True), job(M, "history", n=3, steps=3, hostile=True), job(M, "history", n=3, steps=4, ops=("set", "later"), wiring="pair"), job(M, "batching", n=3, any_order=True, nones=True), job(M, "batching", n=4), job(M, "batching", n=4, wiring="double read", any_order=True),
      job(M, "batching", n=4, wiring="diamond", any_order=True), job(M, "batching", n=5, wiring="fan", any_order=False),
      job(M, "batching", n=3, hostile=True, declines=True)],
     tiers("every acyclic wiring over 3 variables with all steps in every order and 4 variables with methods in every order, each step "
           "deferred or immediate, then one propagation; then two more deferred assignments; every history of two steps (assignments of a fresh value, the value held, one used before or none, "
           "deferred or not; propagating; executing; declaring again) on 3 variables, three assignments on an adder",
           "as quick with missing values, every order for 4-variable diamonds, a 5-variable fan"),
     "larger networks", [UF, FREE, HOST])

prop("C08",
     [job(M, "refusal", n=3, plain=PLAIN), job(M, "absent", n=3, plain=PLAIN)] + [job(M, "refusal", n=3), job(M, "refusal", n=4, then=True), job(M, "refusal", n=3, pending=True, then=True),
      job(M, "absent", n=3), job(M, "large_refusal"), job(M, "very_long", n=1100),
      job(M, "mixed", steps=3, pool=(0, 1, 2, 3, 4, 5), ops=("set", "add", "execute"))],
     [job(M, "mixed", steps=4, pool=(0, 1, 2, 3, 4, 5), ops=("set", "add", "execute")), job(M, "mixed", steps=4, start=(0, 1), pool=(0, 1, 2, 3, 4, 5), ops=("set", "add", "remove method")), job(M, "large_refusal", method_hash=True), job(M, "refusal", n=4, then=True, reverse_outs=True), job(M, "refusal", n=4, pending=True, then=True), job(M, "refusal", n=5),
      job(M, "absent", n=4)],
     tiers("every acyclic wiring over 3 known variables plus a new one, every offered method (any inputs and outputs among them), "
           "deferred changes pending or not, then an assignment and a further method",
           "4 known variables plus a new one; outputs in either order"),
     "larger networks; several refused offers in a row", [UF, FREE])

prop("C09",
     [job(M, "removal", n=3, plain=PLAIN)] + [job(M, "removal", n=3, removals=2), job(M, "removal", n=3, pending=True), job(M, "removal", n=4, wiring="diamond"),
      job(M, "removal", n=3, hostile=True), job(M, "large_removal"), job(M, "very_long", n=1100),
      job(M, "mixed", steps=3, pool=(0, 1, 2, 3), start=(0, 1), ops=("set", "add", "remove", "remove method", "declare"))],
     [job(M, "mixed", steps=4, pool=(0, 1, 2, 3), start=(0, 1), ops=("set", "add", "remove", "remove method", "declare")), job(M, "mixed", steps=4, pool=(0, 1, 4, 5), ops=("add", "remove", "remove method", "propagate")), job(M, "large_removal", method_hash=True), job(M, "removal", n=4, removals=1), job(M, "removal", n=3, removals=2, pending=True),
      job(M, "removal", n=4, wiring="double read", removals=2), job(M, "removal", n=5, wiring="chain and skip", removals=2),
      job(M, "removal", n=3, hostile=True, removals=2, method_hash=True)],
     tiers("every acyclic wiring over 3 variables and the 4-variable diamond, every one or two removals of a variable or a method, "
           "changes pending or not, then an assignment, clearing or not, adding a method again and feeding it",
           "every wiring over 4 variables; two removals on 4- and 5-variable diamonds"),
     "larger networks; more than two removals", [UF, FREE])

prop("C10",
     [job(M, "builtin_alone", plain=PLAIN)] + [job(M, "builtin_alone"), job(M, "builtin_in_graph"), job(M, "builtin_vectors")],
     [job(M, "builtin_alone"), job(M, "builtin_in_graph"), job(M, "builtin_vectors")],
     "all four built-in methods on every presence pattern of operands (missing, None, value), names in every aliasing, integer operands and "
     "operands of an arbitrary additive type (uninterpreted + and -); two methods chained in a graph; vectors with real coordinates",
     "", [NAMES, INT])

N = None
SIZES = ((2, 2, 2), (7,), (4, 3), (3, N, 4), (N, 2, N, 3, 2), (2, 2, 2, 2), (N, N, N, N), (5, 1, 2), (3, 0, 2), (1, 1, 1, 1, 1), (N, 5, N), (2, N, N, 2), (40,), (11, 12), (1,) * 12)
MORE = ((4, 4, 4), (12,), (9, 7), (2, 2, 2, 2, 2, 2), (3, N, 3, N, 3), (N, 6, 5, N), (1, 8, 1, 3))

prop("C11",
     [job(M, "multi_in_graph", plain=PLAIN), job(M, "multi", inputs=1, values=3, results=1, fewer=True), job(M, "multi", inputs=2, values=2, results=1, fewer=True)] + [job(M, "large_multi", sizes=SIZES), job(M, "multi", inputs=2, values=2, results=1), job(M, "multi", inputs=1, values=2, results=2), job(M, "multi", inputs=3, values=1), job(M, "multi_in_graph"),
      job(M, "multi_shapes"), job(M, "sumprod")],
     [job(M, "large_multi", sizes=SIZES + MORE), job(M, "multi", inputs=2, values=3, results=1), job(M, "multi", inputs=3, values=2), job(M, "multi", inputs=2, values=2, results=3),
      job(M, "multi_in_graph", values=3), job(M, "multi_shapes"), job(M, "sumprod")],
     tiers("up to 2 inputs with up to 2 values or 3 inputs with up to 1 value, any mixture of single- and multi-valued, any evaluation function "
           "giving one result (2 results for one input); chained multi-methods in a graph; multi-values in sets, lists, tuples and frozensets, variables of derived classes",
           "up to 3 values per input, 3 inputs with 2 values"),
     "more inputs or values", ["evaluation functions are uninterpreted over symbolic integers"])

prop("C35",
     [job(M, "given", steps=2), job(M, "given", steps=2, hostile=True), job(M, "given", steps=1, declines=True), job(M, "given", steps=1, plain=PLAIN),
      job(M, "given", steps=3, shapes=("join",), hostile=True)],
     [job(M, "given", steps=3, shapes=("one", "none", "chain", "split", "twice")), job(M, "given", steps=3, shapes=("diamond", "join", "many"), hostile=True, method_hash=True),
      job(M, "given", steps=2, declines=True, hostile=True)],
     tiers("eight networks of up to 5 variables and 3 methods (without inputs, one to three inputs, one or two outputs, an input read twice), built in every order, propagated at once or at the end, values first or last, "
           "outputs with an old value or without; then every history of two steps (three on one network): assigning a value or none, at once or later, and executing any method on request after what it depends on outside the graph has changed",
           "three steps"),
     "larger networks; methods that alter the graph while they are executed", ["methods are uninterpreted functions of their inputs and of one outside value which changes only together with a request to execute"])
