from .suite import prop, job, NAMES, INT, PLAIN

G = "graph"
SHAPES = ("chain", "ring", "star in", "star out", "tree", "two-way chain", "full", "apart", "layers")


EDITS = ("add_vertex", "remove_vertex", "add_edge", "remove_edge", "set", "add_bi_edge", "remove_bi_edge", "set_bi_edge")


LONG = SHAPES + ("ladder", "dead ends", "fan", "funnel")
TWICE = (("remove_edge", "remove_vertex"), ("add_edge", "add_vertex"))


def tiers(q, t):
    return lambda tier: q if tier == "quick" else t


prop("C01",
     [job(G, "edit_any_graph", n=3, edits=1, loops=False, plain=PLAIN), job(G, "history", edits=2, all=True, plain=PLAIN),
      job(G, "edit_any_graph", n=2, edits=1, hostile=True)] + [job(G, "history", edits=3), job(G, "edit_any_graph", n=2, edits=2),
      job(G, "edit_any_graph", n=3, edits=1, loops=False),
      job(G, "history", edits=2, all=True, hashes=(0, 1, 2)), job(G, "wide", n=40, ask="edits"), job(G, "large_edit", n=5, shapes=("star out", "two-way chain", "layers"))],
     [job(G, "large_edit", n=6, shapes=SHAPES, ops=tuple(EDITS)), job(G, "history", {"max_names": 3}, edits=4), job(G, "edit_any_graph", n=2, edits=3),
      job(G, "edit_any_graph", n=3, edits=1), job(G, "edit_any_graph", n=3, edits=2, loops=False),
      job(G, "history", edits=3, all=True, hashes=(0, 1, 2))],
     tiers("histories of 3 edits (5 kinds) and 2 edits (8 kinds) from the empty graph with names in every aliasing; "
           "2 edits on every graph over 2 vertices (loops included), 1 edit on every loop-free graph over 3; symbolic edge values, and values that cannot be compared",
           "histories of 4 edits (5 kinds, 3 names), 3 edits (8 kinds); 3 edits on every 2-vertex graph, "
           "2 on every loop-free and 1 on every 3-vertex graph"),
     "longer histories, larger graphs", [NAMES, INT])

prop("C02",
     [job(G, "neighbours_any_graph", n=3, loops=False, plain=PLAIN), job(G, "history_neighbours", edits=2, all=True, plain=PLAIN)] + [job(G, "history_neighbours", edits=3, hashes=(2,)), job(G, "neighbours_any_graph", n=2, hashes=(0, 1, 2)),
      job(G, "neighbours_any_graph", n=3, loops=False, hashes=(0, 2)), job(G, "edit_while_iterating", n=2),
      job(G, "history_neighbours", edits=2, all=True, hashes=(0, 1, 2)),
      job(G, "wide", n=40, ask="neighbours"), job(G, "large_neighbours", n=5, shapes=("star in", "star out", "two-way chain"))],
     [job(G, "large_neighbours", n=6, shapes=SHAPES), job(G, "history_neighbours", {"max_names": 3}, edits=4, hashes=(2,)), job(G, "neighbours_any_graph", n=2, edits=2),
      job(G, "neighbours_any_graph", n=3, hashes=(0, 2)), job(G, "edit_while_iterating", n=3),
      job(G, "history_neighbours", edits=3, all=True, hashes=(0, 1, 2))],
     tiers("all listings of every vertex after every history of 3 edits (5 kinds) and 2 edits (8 kinds), names in every aliasing; "
           "before and after an edit of every graph on 2 vertices (loops) and 3 vertices (no loops); editing while iterating on 2",
           "histories of 4 edits with 3 names, 3 edits (8 kinds); 2 edits on 2-vertex graphs, every 3-vertex graph with loops"),
     "longer histories, larger graphs; order within a listing", [NAMES, INT])

prop("C03",
     [job(G, "derived", n=2, ask=1, plain=PLAIN), job(G, "derived", n=2, ask=1, hostile=True), job(G, "derived", n=3, ask=0, loops=False, plain=PLAIN)] + [job(G, "derived", n=2, ask=3), job(G, "derived", n=3, ask=0, loops=False), job(G, "wide", n=40, ask="copies"), job(G, "large_derived", n=5, shapes=("ring", "two-way chain", "apart", "star out"))],
     [job(G, "large_derived", n=6, shapes=SHAPES), job(G, "derived", n=2, ask=4), job(G, "derived", n=3, ask=2, loops=False), job(G, "derived", n=3, ask=0)],
     tiers("every graph on 2 vertices (loops included) with every request of up to 3 names, present or not, repeated or not; "
           "every loop-free graph on 3 vertices; then any one edit (5 kinds) on the copy or the original",
           "requests of up to 4 names; every graph on 3 vertices"),
     "larger graphs; longer edit sequences after derivation", [NAMES, INT])

prop("C04",
     [job(G, "paths", n=3, plain=PLAIN), job(G, "ask_edit_ask", n=3, kinds=('paths',), plain=PLAIN)] + [job(G, "paths", n=3), job(G, "paths", n=4, loops=False), job(G, "paths_after_history", edits=3), job(G, "large_paths", n=6, shapes=SHAPES),
      job(G, "ask_edit_ask", n=3, kinds=("paths",)), job(G, "ask_edit_ask", n=2, loops=True, edits=2, kinds=("paths",)),
      job(G, "ask_edit_ask", n=3, edits=2, between=False, ops=TWICE, kinds=("paths",)), job(G, "long_search", n=18, ask="paths", shapes=LONG), job(G, "very_long", n=1100, ask="paths")],
     [job(G, "long_search", n=24, ask="paths", shapes=LONG), job(G, "ask_edit_ask", n=3, edits=2, ops=("add_edge", "remove_edge", "remove_vertex"), kinds=("paths",)), job(G, "large_paths", n=9, shapes=SHAPES), job(G, "paths", n=3, hashes=(0, 1, 2)), job(G, "paths", n=4),
      job(G, "paths_after_history", {"max_names": 3}, edits=4)],
     tiers("every digraph on 3 vertices with loops and on 4 vertices without, all ordered pairs of vertices; "
           "every graph made by a history of 3 edits; asking before and after an edit of every loop-free graph on 3 vertices, two edits on 2",
           "every digraph on 4 vertices with loops; histories of 4 edits; asking between two edits"),
     "graphs with more than 4 vertices; edge insertion orders other than by vertex number on 4 vertices", [NAMES])

prop("C05",
     [job(G, "reach", n=3, plain=PLAIN), job(G, "ask_edit_ask", n=3, kinds=('reach',), plain=PLAIN)] + [job(G, "reach", n=3), job(G, "reach", n=4, loops=False, hashes=(1, 2)), job(G, "reach_after_history", edits=3), job(G, "large_reach", n=6, shapes=SHAPES),
      job(G, "ask_edit_ask", n=3, kinds=("reach",)), job(G, "ask_edit_ask", n=2, loops=True, edits=2, kinds=("reach",)),
      job(G, "ask_edit_ask", n=3, edits=2, between=False, ops=TWICE, kinds=("reach",)), job(G, "long_search", n=20, ask="reach", shapes=LONG), job(G, "very_long", n=1100, ask="reach")],
     [job(G, "long_search", n=24, ask="reach", shapes=LONG), job(G, "ask_edit_ask", n=3, edits=2, ops=("add_edge", "remove_edge", "remove_vertex"), kinds=("reach",)), job(G, "large_reach", n=9, shapes=SHAPES), job(G, "reach", n=3), job(G, "reach", n=4, hashes=(0, 1, 2)),
      job(G, "reach_after_history", {"max_names": 3}, edits=4)],
     tiers("every digraph on 3 vertices with loops and on 4 without, every start vertex and direction mode, several hash orders; "
           "every graph made by a history of 3 edits; asking before and after an edit of every loop-free graph on 3 vertices, two edits on 2",
           "every digraph on 4 vertices with loops; histories of 4 edits; asking between two edits"),
     "graphs with more than 4 vertices", [NAMES])
