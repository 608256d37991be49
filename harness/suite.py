"""Which harnesses decide which property, within which bounds."""


def job(module, name, opts=None, **params):
    return {"module": module, "name": name, "params": params, "opts": opts or {}}


NAMES = "names are opaque hashable values: only equality, hash and truth are observable; hash orders: ascending, descending, all colliding"
PLAIN = (10, 11, 12, 13)
INT = "edge and variable values are mathematical integers compared by the solver"
SPEC = {}

# harnesses over larger inputs of given shapes: what each of them adds to the bounds text
LARGE = {
    "large_edit": "one edit of any kind (thorough: all eight kinds and nine shapes) on graphs of {n} vertices of given shapes, less one edge and plus any one edge",
    "large_neighbours": "listings of graphs of {n} vertices of given shapes, varied by an edge each way",
    "large_derived": "copies and subgraphs of graphs of {n} vertices of given shapes, varied by an edge each way",
    "large_paths": "all pairs of vertices of graphs of {n} vertices of nine shapes, varied by an edge each way",
    "large_reach": "all starts and modes on graphs of {n} vertices of nine shapes, varied by an edge each way",
    "long_search": "graphs of {n} vertices of eleven shapes less any one edge, from and to the first, second, middle and last vertices",
    "very_long": "chains of {n} vertices or methods (for graphs also closed, both ways or with teeth; uncut or cut in one of three places); the depth of the stack is not limited",
    "wide": "{n} vertices or methods: everything into one, one into everything, many loops",
    "crowded": "clusters of {sizes} points with all, half or none shared",
    "many_constraints": "{constraints} constraints on {variables} names",
    "many_points": "configurations of {n} points at given places, moved or turned in any way",
    "ask_edit_ask": "asking, editing and asking again, also with an edit each of two kinds in between (removal, then addition)",
    "large_network": "seven wirings of 4 to 8 variables (chain, fan, ladder, comb, diamonds in a row, repeated reads, many inputs), built in three orders, up to one variable without value, two or three assignments, deferred or not",
    "mixed": "every history of {steps} steps ({ops}) over 4 variables with methods from a pool (chained, two inputs, closing a cycle, determining twice, without inputs), each step deferred or not",
    "large_refusal": "any single-input method offered to the seven larger wirings",
    "large_removal": "any one removal from the seven larger wirings, then every free variable assigned",
    "large_multi": "up to 40 values per input and up to 12 inputs (together up to 144 combinations), values opaque and different, evaluation keeping its operands apart, 0 to 2 results, alone and in a graph",
    "crowd": "five shapes of up to 7 constraints of up to 7 names each on 8 names, one removal (thorough: two) and re-adding, all queries of 1 and 2 names and some longer ones",
    "many_arguments": "predicates of {arities} names in four orders, in a mapping with four others",
    "large_building": "{sizes} points, some or all given repeatedly",
}


def prop(pid, quick, thorough, bounds, outside="", assumptions=()):
    text = bounds if callable(bounds) else (lambda tier: bounds)

    def jobs(tier):
        # the thorough tier runs everything the quick one does, and more
        return quick if tier == "quick" else quick + [j for j in thorough if j not in quick]

    def full(tier):
        more = {}
        for j in jobs(tier):
            if j["name"] in LARGE:
                more[j["name"]] = LARGE[j["name"]].format(**dict(j["params"], **{k: ", ".join(map(str, v)) for k, v in j["params"].items() if k in ("ops", "sizes", "shapes")}))
            elif "large" in j["params"]:
                more["large"] = "clusters of %s different points each with any number shared, centres first, last or in the middle" % (
                    " or ".join("%d and %d" % z for k in jobs(tier) for z in k["params"].get("large", ())))
        if any("plain" in j["params"] for j in jobs(tier)):
            more["plain"] = "smaller bounds with names that are ordinary objects (None, '', numbers, tuples, strings in four palettes)"
        return "; ".join([text(tier)] + list(more.values()))
    SPEC[pid] = {
        "jobs": jobs,
        "bounds": full,
        "outside": outside,
        "assumptions": list(assumptions) or ["none beyond the bounds"],
    }


from . import suite_graph, suite_method, suite_geometric       # noqa: E402,F401
