"""C01-C05: the directed graph."""
from .common import harness, Universe, Hostile, indices, deep_stack


class Ref(object):
    """the mathematical digraph: a set of vertices and a map of edges to values"""

    def __init__(self):
        self.V = []
        self.E = {}

    def add_vertex(self, v):
        if v not in self.V:
            self.V.append(v)

    def remove_vertex(self, v):
        if v not in self.V:
            return False
        self.V.remove(v)
        self.E = {e: x for e, x in self.E.items() if v not in e}
        return True

    def add_edge(self, v, w, x):
        self.add_vertex(v)
        self.add_vertex(w)
        self.E.setdefault((v, w), x)

    def set(self, v, w, x):
        self.add_vertex(v)
        self.add_vertex(w)
        self.E[v, w] = x

    def remove_edge(self, v, w):
        if (v, w) not in self.E:
            return False
        del self.E[v, w]
        return True

    def copy(self):
        r = Ref()
        r.V, r.E = list(self.V), dict(self.E)
        return r


BASIC = ("add_vertex", "remove_vertex", "add_edge", "remove_edge", "set")
ALL = BASIC + ("add_bi_edge", "remove_bi_edge", "set_bi_edge")


def value(ctx, name):
    """any value of an edge: a number, or an object that cannot even be compared"""
    return Hostile(ctx.int(name)) if ctx.params.get("hostile") else ctx.int(name)


def any_value(k):
    """values of any kind, in turn: nothing, zero, empty, incomparable, true, false, text"""
    return (None, 0, Hostile(k), "", True, (), 1, False)[k % 8]


def same_value(ctx, label, x, y):
    if isinstance(y, Hostile):
        ctx.check(label, x is y)
    else:
        ctx.check_same(label, x, y)


def edit(ctx, tag, g, ref, u, ops, names=None):
    """one symbolic edit on the real graph and on the reference"""
    op = ctx.pick("op" + tag, ops)

    def name(k):
        return ctx.pick("n%s%s" % (k, tag), names) if names else ctx.atom("v%s%s" % (k, tag))
    if op in ("add_vertex", "remove_vertex"):
        a = name("a")
        i = u.ix(a)
        if op == "add_vertex":
            g.add_vertex(a)
            ref.add_vertex(i)
        else:
            want = ref.remove_vertex(i)
            e = ctx.raises(g.remove_vertex, a)
            ctx.check("removing a vertex is refused exactly when it is absent", (e is None) == want)
        return
    a, b = name("a"), name("b")
    i, j = u.ix(a), u.ix(b)
    if op == "add_edge":
        x = value(ctx, "x" + tag)
        g.add_edge(a, b, x)
        ref.add_edge(i, j, x)
    elif op == "set":
        x = value(ctx, "x" + tag)
        g.set(a, b, x)
        ref.set(i, j, x)
    elif op == "remove_edge":
        want = ref.remove_edge(i, j)
        e = ctx.raises(g.remove_edge, a, b)
        ctx.check("removing an edge is refused exactly when it is absent", (e is None) == want)
    elif op == "add_bi_edge":
        x = value(ctx, "x" + tag)
        g.add_bi_edge(a, b, x)
        ref.add_edge(i, j, x)
        ref.add_edge(j, i, x)
    elif op == "set_bi_edge":
        x = value(ctx, "x" + tag)
        g.set_bi_edge(a, b, x)
        ref.set(i, j, x)
        ref.set(j, i, x)
    else:
        want = (i, j) in ref.E and (j, i) in ref.E
        if want:
            ref.remove_edge(i, j)
            ref.remove_edge(j, i)
        e = ctx.raises(g.remove_bi_edge, a, b)
        ctx.check("removing a bidirectional edge is refused exactly when it is absent", (e is None) == want)


def agree(ctx, what, g, ref, u):
    """the graph is the reference digraph"""
    ctx.check(what + ": vertices", indices(u, g.vertices()) == sorted(ref.V))
    ctx.check(what + ": edges", sorted((u.find(a), u.find(b)) for a, b in g.edges()) == sorted(ref.E))
    for i, a in enumerate(u.names):
        ctx.check(what + ": has_vertex", g.has_vertex(a) == (i in ref.V))
        for j, b in enumerate(u.names):
            h = (i, j) in ref.E
            ctx.check(what + ": has_edge", g.has_edge(a, b) == h)
            ctx.check(what + ": has_bi_edge", g.has_bi_edge(a, b) == (h and (j, i) in ref.E))
            ctx.check(what + ": has_any_edge", g.has_any_edge(a, b) == (h or (j, i) in ref.E))
            if h:
                x = g.get(a, b)
                same_value(ctx, what + ": value", x, ref.E[i, j])
                ctx.observe(i, j, x.v if isinstance(x, Hostile) else x)


def neighbours(ctx, what, g, ref, u):
    """listings of every vertex"""
    for i in ref.V:
        a = u.names[i]
        out = sorted(j for (k, j) in ref.E if k == i)
        inn = sorted(k for (k, j) in ref.E if j == i)
        ctx.check(what + ": successors", indices(u, g.outgoing_vertices(a)) == out)
        ctx.check(what + ": predecessors", indices(u, g.ingoing_vertices(a)) == inn)
        ctx.check(what + ": neighbours", indices(u, g.adjacent_vertices(a)) == sorted(set(out) | set(inn)))

        def pairs(es):
            return sorted((u.find(x), u.find(y)) for x, y in es)
        ctx.check(what + ": outgoing edges", pairs(g.outgoing_edges(a)) == [(i, j) for j in out])
        ctx.check(what + ": ingoing edges", pairs(g.ingoing_edges(a)) == [(k, i) for k in inn])
        adj = sorted(set(pairs(g.adjacent_edges(a))))
        ctx.check(what + ": adjacent edges", adj == sorted(set([(i, j) for j in out] + [(k, i) for k in inn])))


def arbitrary(ctx, names, loops=True, values=True, extra=False, only=None):
    """an arbitrary graph on the given distinct names (with extra: vertices may be absent)"""
    g = ctx.m.graph.Graph()
    ref = Ref()
    u = Universe()
    for a in names:
        u.names.append(a)
    n = len(names)
    for i, a in enumerate(names):
        if not extra or ctx.flag("has%d" % i):
            g.add_vertex(a)
            ref.add_vertex(i)
    for i in range(n):
        for j in range(n):
            if i == j and not loops or only is not None and (i, j) not in only:
                continue
            if i in ref.V and j in ref.V and ctx.flag("e%d%d" % (i, j)):
                x = value(ctx, "w%d%d" % (i, j)) if values else any_value(3 * i + j)
                g.add_edge(names[i], names[j], x)
                ref.add_edge(i, j, x)
    return g, ref, u


# ------------------------------------------------------------------ C01
class SRef(object):
    """the digraph of a history as formulas over the names in it: membership of
    any vertex or edge, and values, are conditions for the solver"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.V = lambda x: False
        self.E = lambda x, y: False
        self.W = lambda x, y: 0

    def vertex(self, a):
        ctx, V = self.ctx, self.V
        self.V = lambda x: ctx.any(ctx.eq(x, a), V(x))

    def unvertex(self, a):
        ctx, V, E = self.ctx, self.V, self.E
        self.V = lambda x: ctx.all(ctx.neg(ctx.eq(x, a)), V(x))
        self.E = lambda x, y: ctx.all(ctx.neg(ctx.eq(x, a)), ctx.neg(ctx.eq(y, a)), E(x, y))

    def edge(self, a, b, val, overwrite):
        ctx, E, W = self.ctx, self.E, self.W
        self.vertex(a)
        self.vertex(b)
        old = E(a, b)

        def at(x, y):
            return ctx.all(ctx.eq(x, a), ctx.eq(y, b))
        self.E = lambda x, y: ctx.any(at(x, y), E(x, y))
        if overwrite:
            self.W = lambda x, y: ctx.ite(at(x, y), val, W(x, y))
        else:
            self.W = lambda x, y: ctx.ite(ctx.all(at(x, y), ctx.neg(old)), val, W(x, y))

    def unedge(self, a, b):
        ctx, E = self.ctx, self.E
        self.E = lambda x, y: ctx.all(ctx.neg(ctx.all(ctx.eq(x, a), ctx.eq(y, b))), E(x, y))


def sym_edit(ctx, tag, g, r, names, ops):
    op = ctx.pick("op" + tag, ops)
    a = ctx.atom("va" + tag)
    names.append(a)
    if op == "add_vertex":
        g.add_vertex(a)
        r.vertex(a)
        return
    if op == "remove_vertex":
        e = ctx.raises(g.remove_vertex, a)
        ctx.check("removing a vertex is refused exactly when it is absent", ctx.iff(e is None, r.V(a)))
        r.unvertex(a)
        return
    b = ctx.atom("vb" + tag)
    names.append(b)
    if op == "remove_edge":
        e = ctx.raises(g.remove_edge, a, b)
        ctx.check("removing an edge is refused exactly when it is absent", ctx.iff(e is None, r.E(a, b)))
        r.unedge(a, b)
        return
    if op == "remove_bi_edge":
        e = ctx.raises(g.remove_bi_edge, a, b)
        both = ctx.all(r.E(a, b), r.E(b, a))
        ctx.check("removing a bidirectional edge is refused exactly when it is absent", ctx.iff(e is None, both))
        if ctx.decided(both):
            r.unedge(a, b)
            r.unedge(b, a)
        return
    x = ctx.int("x" + tag)
    if op in ("add_edge", "add_bi_edge"):
        getattr(g, op)(a, b, x)
        r.edge(a, b, x, False)
        if op == "add_bi_edge":
            r.edge(b, a, x, False)
    else:
        getattr(g, op)(a, b, x)
        r.edge(a, b, x, True)
        if op == "set_bi_edge":
            r.edge(b, a, x, True)


def run_history(ctx):
    ctx.hashing("hash", ctx.params.get("hashes", (0, 2)))
    g = ctx.m.graph.Graph()
    r, names = SRef(ctx), []
    for k in range(ctx.params["edits"]):
        sym_edit(ctx, str(k), g, r, names, ALL if ctx.params.get("all") else BASIC)
    u = Universe()
    for a in names:
        u.ix(a)
    return g, r, u


def listing(ctx, label, u, got, member):
    """got lists exactly the names for which member holds, each once"""
    got = list(got)
    ctx.check(label + ": repeats", len(set(u.find(a) for a in got)) == len(got) and
              all(u.find(a) >= 0 for a in got))
    ctx.forall_names(label, 1, u.names, lambda q: ctx.iff(ctx.any(*[ctx.eq(q, a) for a in got]), member(q)))


def listing2(ctx, label, u, got, member):
    got = list(got)
    ctx.check(label + ": repeats", len(set((u.find(a), u.find(b)) for a, b in got)) == len(got))
    ctx.forall_names(label, 2, u.names, lambda p, q: ctx.iff(
        ctx.any(*[ctx.all(ctx.eq(p, a), ctx.eq(q, b)) for a, b in got]), member(p, q)))


def membership(ctx, g, u, V, E):
    """membership tests agree with the listings"""
    for i, a in enumerate(u.names):
        ctx.check("has_vertex agrees", g.has_vertex(a) == (i in V))
        for j, b in enumerate(u.names):
            h, k = (i, j) in E, (j, i) in E
            ctx.check("has_edge agrees", g.has_edge(a, b) == h)
            ctx.check("has_bi_edge agrees", g.has_bi_edge(a, b) == (h and k))
            ctx.check("has_any_edge agrees", g.has_any_edge(a, b) == (h or k))


@harness(witnesses=("edge present", "no edge", "two edges"))
def history(ctx):
    """any history of edits from the empty graph, names in any aliasing"""
    g, r, u = run_history(ctx)
    vs, es = list(g.vertices()), list(g.edges())
    listing(ctx, "vertices", u, vs, r.V)
    listing2(ctx, "edges", u, es, r.E)
    for a, b in es:
        ctx.check_same("value", g.get(a, b), r.W(a, b))
        ctx.observe(u.find(a), u.find(b), g.get(a, b))
    ctx.reach("edge present" if es else "no edge")
    if len(es) > 1:
        ctx.reach("two edges")
    V, E = [u.find(a) for a in vs], [(u.find(a), u.find(b)) for a, b in es]
    membership(ctx, g, u, V, E)
    ctx.check("look-ups change nothing", sorted(u.find(a) for a in g.vertices()) == sorted(V) and
              sorted((u.find(a), u.find(b)) for a, b in g.edges()) == sorted(E))


@harness(witnesses=("loop", "two-way"))
def edit_any_graph(ctx):
    """any edit of any small graph; another graph never notices"""
    names = ctx.atoms("v", ctx.params["n"], distinct=True)
    ctx.hashing("hash", (0, 2))
    g, ref, u = arbitrary(ctx, names, loops=ctx.params.get("loops", True))
    other = ctx.m.graph.Graph()
    other.add_edge(names[0], names[1], 5)
    oref = Ref()
    oref.add_edge(0, 1, 5)
    for k in range(ctx.params["edits"]):
        edit(ctx, str(k), g, ref, u, ALL, names=names)
    if any(i == j for i, j in ref.E) or not ctx.params.get("loops", True):
        ctx.reach("loop")
    if (0, 1) in ref.E and (1, 0) in ref.E:
        ctx.reach("two-way")
    agree(ctx, "after the edits", g, ref, u)
    agree(ctx, "unrelated graph", other, oref, u)
    third = ctx.m.graph.Graph()
    ctx.check("a new graph is empty", len(third.vertices()) == 0 and len(third.edges()) == 0)


# ------------------------------------------------------------------ C02
@harness(witnesses=("has neighbours",))
def history_neighbours(ctx):
    """listings of every vertex after any history, names in any aliasing"""
    g, r, u = run_history(ctx)
    for a in u.names:
        if not g.has_vertex(a):
            continue
        out, inn, adj = g.outgoing_vertices(a), g.ingoing_vertices(a), g.adjacent_vertices(a)
        if len(adj):
            ctx.reach("has neighbours")
        listing(ctx, "successors", u, out, lambda q: r.E(a, q))
        listing(ctx, "predecessors", u, inn, lambda q: r.E(q, a))
        listing(ctx, "neighbours", u, adj, lambda q: ctx.any(r.E(a, q), r.E(q, a)))
        oe, ie, ae = list(g.outgoing_edges(a)), list(g.ingoing_edges(a)), list(g.adjacent_edges(a))
        listing2(ctx, "outgoing edges", u, oe, lambda p, q: ctx.all(ctx.eq(p, a), r.E(p, q)))
        listing2(ctx, "ingoing edges", u, ie, lambda p, q: ctx.all(ctx.eq(q, a), r.E(p, q)))
        ctx.forall_names("adjacent edges", 2, u.names, lambda p, q: ctx.iff(
            ctx.any(*[ctx.all(ctx.eq(p, x), ctx.eq(q, y)) for x, y in ae]),
            ctx.all(ctx.any(ctx.eq(p, a), ctx.eq(q, a)), r.E(p, q))))


@harness(witnesses=("in and out",))
def neighbours_any_graph(ctx):
    """listings of any small graph before and after an edit; listings are snapshots"""
    names = ctx.atoms("v", ctx.params["n"], distinct=True)
    ctx.hashing("hash", ctx.params.get("hashes", (0, 1, 2)))
    g, ref, u = arbitrary(ctx, names, values=False, loops=ctx.params.get("loops", True))
    if (0, 1) in ref.E and (1, 0) in ref.E:
        ctx.reach("in and out")
    neighbours(ctx, "built", g, ref, u)
    a = names[0]
    listings = [g.outgoing_vertices(a), g.ingoing_vertices(a), g.adjacent_vertices(a),
                g.outgoing_edges(a), g.ingoing_edges(a), g.adjacent_edges(a), g.vertices(), g.edges()]
    before = [list(x) for x in listings]
    for k in range(ctx.params.get("edits", 1)):
        edit(ctx, str(k), g, ref, u, ALL, names=names)
    for x, y in zip(listings, before):
        ctx.check("a listing is a snapshot", list(x) == y)
    neighbours(ctx, "edited", g, ref, u)


@harness(witnesses=("emptied",))
def edit_while_iterating(ctx):
    """every listing can be iterated while the graph is edited"""
    names = ctx.atoms("v", ctx.params["n"], distinct=True)
    g, ref, u = arbitrary(ctx, names, values=False)
    what = ctx.choice("what", 7)
    a = names[ctx.choice("at", len(names))]
    i = u.ix(a)
    if what == 0:
        for w in g.outgoing_vertices(a):
            g.remove_edge(a, w)
            ref.remove_edge(i, u.ix(w))
    elif what == 1:
        for w in g.ingoing_vertices(a):
            g.remove_edge(w, a)
            ref.remove_edge(u.ix(w), i)
    elif what == 2:
        for w in g.adjacent_vertices(a):
            g.remove_vertex(w)
            ref.remove_vertex(u.ix(w))
    elif what == 3:
        for v, w in g.edges():
            g.remove_edge(v, w)
            ref.remove_edge(u.ix(v), u.ix(w))
    elif what == 4:
        for v in g.vertices():
            g.remove_vertex(v)
            ref.remove_vertex(u.ix(v))
        ctx.reach("emptied")
    elif what == 5:
        for v, w in g.outgoing_edges(a):
            g.set(w, v, 7)
            ref.set(u.ix(w), u.ix(v), 7)
    else:
        for v, w in g.ingoing_edges(a):
            g.set(w, v, 7)
            ref.set(u.ix(w), u.ix(v), 7)
    agree(ctx, "after editing while iterating", g, ref, u)
    neighbours(ctx, "after editing while iterating", g, ref, u)


# ------------------------------------------------------------------ C03
@harness(witnesses=lambda p: ("isolated",) + (("missing asked", "repeated asked") if p["ask"] else ()))
def derived(ctx):
    """copies, subgraphs and reversals of any small graph, then one edit on either side"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    ctx.hashing("hash", (0, 2))
    g, ref, u = arbitrary(ctx, names, loops=ctx.params.get("loops", True))
    how = ctx.choice("how", 4)
    want = ref.copy()
    if how == 0:
        d = g.copy()
    elif how == 1:
        d = ctx.m.graph.Graph(g)
    elif how == 2:
        d = g.reverse()
        want.E = {(j, i): x for (i, j), x in ref.E.items()}
    else:
        ask = []
        for k in range(ctx.params["ask"]):
            a = ctx.atom("q%d" % k)
            if ctx.flag("asked%d" % k):
                ask.append(a)
        ix = [u.ix(a) for a in ask]
        if any(i >= n for i in ix):
            ctx.reach("missing asked")
        if len(set(ix)) < len(ix):
            ctx.reach("repeated asked")
        d = g.subgraph(list(ask))
        want.V = [i for i in ref.V if i in ix]
        want.E = {(i, j): x for (i, j), x in ref.E.items() if i in ix and j in ix}
    if any(all(i not in e for e in ref.E) for i in ref.V):
        ctx.reach("isolated")
    agree(ctx, "derived", d, want, u)
    neighbours(ctx, "derived", d, want, u)
    agree(ctx, "original", g, ref, u)
    if ctx.flag("edit original"):
        edit(ctx, "o", g, ref, u, BASIC, names=names[:2])
    else:
        edit(ctx, "d", d, want, u, BASIC, names=names[:2])
    agree(ctx, "derived after an edit", d, want, u)
    agree(ctx, "original after an edit", g, ref, u)
    neighbours(ctx, "derived after an edit", d, want, u)
    neighbours(ctx, "original after an edit", g, ref, u)


# ------------------------------------------------------------------ C04
def closure(pairs, n):
    r = [[(i, j) in pairs for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                for j in range(n):
                    if r[k][j]:
                        r[i][j] = True
    return r


_reach_cache = {}


def sym_closure(ctx, n, loops, both=False):
    """r[i][j]: condition over the edge flags that j is reachable from i in one or more steps"""
    key = (n, loops, both)
    if ctx.symbolic and key in _reach_cache:
        return _reach_cache[key]

    def e(i, j):
        if i == j and not loops:
            return False
        return ctx.flag_term("e%d%d" % (i, j))
    r = [[ctx.any(e(i, j), e(j, i)) if both else e(i, j) for j in range(n)] for i in range(n)]
    for k in range(n):
        r = [[ctx.any(r[i][j], ctx.all(r[i][k], r[k][j])) for j in range(n)] for i in range(n)]
    if ctx.symbolic:
        _reach_cache[key] = r
    return r


@harness(witnesses=("path", "no path", "cycle"))
def paths(ctx):
    """path search between every two vertices of any small graph"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    ctx.hashing("hash", ctx.params.get("hashes", (0,)))
    g, ref, u = arbitrary(ctx, names, loops=ctx.params.get("loops", True), values=False)
    r = sym_closure(ctx, n, ctx.params.get("loops", True))
    for i in range(n):
        for j in range(n):
            p = g.path(names[i], names[j])
            ctx.check("a path is found exactly when there is one", ctx.iff(len(p) > 0, r[i][j]))
            if len(p) == 0:
                ctx.reach("no path")
                ctx.check("no path gives the empty list", isinstance(p, list))
                continue
            ctx.reach("cycle" if i == j else "path")
            q = [u.find(a) for a in p]
            ctx.check("path found", len(q) >= 2)
            if len(q) < 2:
                continue
            ctx.check("starts at the start", q[0] == i)
            ctx.check("ends at the end", q[-1] == j)
            ctx.check("follows edges", all((a, b) in ref.E for a, b in zip(q, q[1:])))
            ctx.check("repeats no vertex", len(set(q[:-1])) == len(q) - 1 and
                      (i == j or j not in q[:-1]))
    agree(ctx, "searched graph", g, ref, u)


@harness(witnesses=("found",))
def paths_after_history(ctx):
    """path search after a history with removals, names in any aliasing"""
    g = ctx.m.graph.Graph()
    ref, u = Ref(), Universe()
    for k in range(ctx.params["edits"]):
        edit(ctx, str(k), g, ref, u, BASIC)
    r = closure(ref.E, len(u.names))
    for i in ref.V:
        for j in ref.V:
            p = [u.find(a) for a in g.path(u.names[i], u.names[j])]
            ctx.check("found exactly when there is one", (len(p) > 0) == r[i][j])
            if p:
                ctx.reach("found")
                ctx.check("follows edges", p[0] == i and p[-1] == j and
                          all(e in ref.E for e in zip(p, p[1:])))


# ------------------------------------------------------------------ C05
@harness(witnesses=("split", "joined"))
def reach(ctx):
    """reachability in all direction modes and components of any small graph"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    ctx.hashing("hash", ctx.params.get("hashes", (0, 1, 2)))
    g, ref, u = arbitrary(ctx, names, loops=ctx.params.get("loops", True), values=False)
    loops = ctx.params.get("loops", True)
    fwd = sym_closure(ctx, n, loops)
    both = sym_closure(ctx, n, loops, both=True)
    for i in range(n):
        a = names[i]

        def exactly(label, got, member):
            got = indices(u, got)
            ctx.check(label + ": repeats", len(set(got)) == len(got) and i not in got and -1 not in got)
            for j in range(n):
                if j != i:
                    ctx.check(label, ctx.iff(j in got, member(j)))
        f, b = lambda j: fwd[i][j], lambda j: fwd[j][i]
        exactly("either way", g.connected(a), lambda j: both[i][j])
        exactly("forwards", g.connected_via_outgoing(a), f)
        exactly("backwards", g.connected_via_ingoing(a), b)
        exactly("forwards by flags", g.connected(a, ingoing=False, outgoing=True), f)
        exactly("backwards by flags", g.connected(a, ingoing=True, outgoing=False), b)
    comps = sorted(indices(u, c) for c in g.connected_subsets())
    ctx.reach("split" if len(comps) > 1 else "joined")
    ctx.check("components partition the vertices", sorted(i for c in comps for i in c) == list(range(n)))
    for i in range(n):
        for j in range(i):
            ctx.check("joined exactly when connected",
                      ctx.iff(any(i in c and j in c for c in comps), both[i][j]))
    agree(ctx, "searched graph", g, ref, u)


@harness(witnesses=("removed",))
def reach_after_history(ctx):
    g = ctx.m.graph.Graph()
    ref, u = Ref(), Universe()
    ctx.hashing("hash", (1, 2))
    for k in range(ctx.params["edits"]):
        n = len(ref.E)
        edit(ctx, str(k), g, ref, u, BASIC)
        if len(ref.E) < n:
            ctx.reach("removed")
    n = len(u.names)
    both = closure(set(ref.E) | {(j, i) for i, j in ref.E}, n)
    fwd = closure(ref.E, n)
    for i in ref.V:
        a = u.names[i]
        ctx.check("either way", indices(u, g.connected(a)) == [j for j in range(n) if j != i and both[i][j]])
        ctx.check("forwards", indices(u, g.connected_via_outgoing(a)) ==
                  [j for j in range(n) if j != i and fwd[i][j]])
        ctx.check("backwards", indices(u, g.connected_via_ingoing(a)) ==
                  [j for j in range(n) if j != i and fwd[j][i]])
    comps = sorted(indices(u, c) for c in g.connected_subsets())
    want = sorted(set(tuple(sorted({i} | {j for j in range(n) if both[i][j]})) for i in ref.V))
    ctx.check("components", comps == [list(c) for c in want])


def ask_all(ctx, what, g, ref, u, kinds):
    """every path, or every reachable set and the components; the answers are the caller's own"""
    n = len(u.names)
    fwd = closure(ref.E, n)
    both = closure(set(ref.E) | {(j, i) for i, j in ref.E}, n)
    if "paths" in kinds:
        for i in ref.V:
            for j in ref.V:
                got = g.path(u.names[i], u.names[j])
                p = [u.find(a) for a in got]
                ctx.check(what + ": a path exactly when there is one", (len(p) > 0) == fwd[i][j])
                ctx.check(what + ": follows edges", not p or p[0] == i and p[-1] == j and all(e in ref.E for e in zip(p, p[1:])))
                del got[:]
    if "reach" in kinds:
        for i in ref.V:
            a = u.names[i]
            for label, r, f in (("either way", lambda j: both[i][j], g.connected),
                                ("forwards", lambda j: fwd[i][j], g.connected_via_outgoing),
                                ("backwards", lambda j: fwd[j][i], g.connected_via_ingoing)):
                got = f(a)
                ctx.check(what + ": " + label, indices(u, got) == [j for j in range(n) if j != i and r(j)])
                got.clear()
        got = g.connected_subsets()
        want = set(tuple(sorted({i} | {j for j in range(n) if both[i][j]})) for i in ref.V)
        ctx.check(what + ": components", sorted(tuple(indices(u, c)) for c in got) == sorted(want))


@harness(witnesses=("asked again",))
def ask_edit_ask(ctx):
    """asking, editing, asking again; answers and derived graphs in between change nothing"""
    n, kinds = ctx.params["n"], ctx.params["kinds"]
    names = ctx.atoms("v", n, distinct=True)
    ctx.hashing("hash", ctx.params.get("hashes", (0,)))
    g, ref, u = arbitrary(ctx, names, loops=ctx.params.get("loops", False), values=False)
    ask_all(ctx, "built", g, ref, u, kinds)
    ops = ctx.params.get("ops", BASIC)
    for k in range(ctx.params.get("edits", 1)):
        # ops of all edits, or of each edit in turn
        edit(ctx, str(k), g, ref, u, ops if isinstance(ops[0], str) else ops[k], names=names)
        if ctx.params.get("between", True):
            ask_all(ctx, "edited", g, ref, u, kinds)
    if not ctx.params.get("between", True):
        ask_all(ctx, "edited", g, ref, u, kinds)
    ctx.reach("asked again")
    h = g.reverse()
    back = ref.copy()
    back.E = {(j, i): x for (i, j), x in ref.E.items()}
    ask_all(ctx, "reversed", h, back, u, kinds)
    ask_all(ctx, "copied", g.copy(), ref, u, kinds)
    agree(ctx, "at the end", g, ref, u)


# ------------------------------------------------- larger graphs of given shapes
SHAPES = {
    "fan": lambda n: [(0, i) for i in range(1, n - 1)] + [(1, n - 1)],
    "funnel": lambda n: [(i, 1) for i in range(2, n)] + [(0, 2), (1, n - 1)],
    "ladder": lambda n: [e for i in range(0, n - 2, 2) for e in ((i, i + 2), (i + 1, i + 3), (i, i + 1)) if max(e) < n],
    "dead ends": lambda n: [e for i in range(0, n - 2, 2) for e in ((i, i + 1), (i, i + 2))],
    "chain": lambda n: [(i, i + 1) for i in range(n - 1)],
    "ring": lambda n: [(i, (i + 1) % n) for i in range(n)],
    "star in": lambda n: [(i, 0) for i in range(1, n)],
    "star out": lambda n: [(0, i) for i in range(1, n)],
    "tree": lambda n: [((i - 1) // 2, i) for i in range(1, n)],
    "two-way chain": lambda n: [e for i in range(n - 1) for e in ((i, i + 1), (i + 1, i))],
    "full": lambda n: [(i, j) for i in range(n) for j in range(n) if i != j],
    "apart": lambda n: [(i, i + 1) for i in range(0, n - 1, 2)],
    "layers": lambda n: [(i, j) for i in range(n) for j in range(n) if i // 2 + 1 == j // 2],
}


def shaped(ctx, scattered=True):
    """a larger graph: a shape, less any one edge, plus any one edge; vertices numbered onwards or scattered"""
    n = ctx.params["n"]
    shape = ctx.pick("shape", ctx.params["shapes"])
    names = ctx.atoms("v", n, distinct=True)
    ctx.hashing("hash", ctx.params.get("hashes", (3,)))
    order = list(range(n))
    if scattered and ctx.flag("scattered"):
        order = [(3 * i + 2) % n if n % 3 else (5 * i + 2) % n if n % 5 else n - 1 - i for i in range(n)]
    names = [names[i] for i in order]
    E = SHAPES[shape](n)
    g, ref, u = ctx.m.graph.Graph(), Ref(), Universe()
    for k in range(n):
        u.ix(names[k])
    if ctx.flag("vertices first"):
        for k in range(n):
            g.add_vertex(names[k])
            ref.add_vertex(k)
    x = ctx.int("x")
    for k, (i, j) in enumerate(E):
        w = any_value(k) if k % 3 else x + k
        g.add_edge(names[i], names[j], w)
        ref.add_edge(i, j, w)
    for k in range(n):
        g.add_vertex(names[k])
        ref.add_vertex(k)
    drop = ctx.pick("drop", [None] + list(range(len(E)))) if len(E) <= 2 * n else ctx.pick("drop", (None, 0, len(E) - 1))
    if drop is not None:
        g.remove_edge(names[E[drop][0]], names[E[drop][1]])
        ref.remove_edge(*E[drop])
    return g, ref, u, names, n


@harness(witnesses=("path", "no path"))
def large_paths(ctx):
    """a path from and to any vertex of a larger graph with any one edge more"""
    g, ref, u, names, n = shaped(ctx)
    i, j = ctx.choice("from", n), ctx.choice("to", n)
    extra = ctx.pick("extra", [None] + [(a, b) for a in (i, n // 2) for b in (j, n - 1)])
    if extra:
        g.add_edge(names[extra[0]], names[extra[1]])
        ref.add_edge(extra[0], extra[1], 1)
    r = closure(ref.E, n)
    p = [u.find(a) for a in g.path(names[i], names[j])]
    ctx.reach("path" if p else "no path")
    ctx.check("found exactly when there is one", (len(p) > 0) == r[i][j])
    if p:
        ctx.check("follows edges", p[0] == i and p[-1] == j and len(p) > 1 and all(e in ref.E for e in zip(p, p[1:])))
        ctx.check("repeats no vertex", len(set(p[:-1])) == len(p) - 1 and (i == j or j not in p[:-1]))
    ctx.check("the graph stays", sorted((u.find(a), u.find(b)) for a, b in g.edges()) == sorted(ref.E))


@harness(witnesses=("split", "joined"))
def large_reach(ctx):
    """reachability from any vertex and components of a larger graph with any one edge more"""
    g, ref, u, names, n = shaped(ctx)
    i = ctx.choice("from", n)
    j = ctx.pick("extra", [None] + list(range(n)))
    if j is not None:
        g.add_edge(names[i], names[j])
        ref.add_edge(i, j, 1)
    both = closure(set(ref.E) | {(b, a) for a, b in ref.E}, n)
    fwd = closure(ref.E, n)
    a = names[i]
    ctx.check("either way", indices(u, g.connected(a)) == [j for j in range(n) if j != i and both[i][j]])
    ctx.check("forwards", indices(u, g.connected_via_outgoing(a)) == [j for j in range(n) if j != i and fwd[i][j]])
    ctx.check("backwards", indices(u, g.connected_via_ingoing(a)) == [j for j in range(n) if j != i and fwd[j][i]])
    comps = sorted(indices(u, c) for c in g.connected_subsets())
    want = sorted(set(tuple(sorted({i} | {j for j in range(n) if both[i][j]})) for i in ref.V))
    ctx.reach("split" if len(want) > 1 else "joined")
    ctx.check("components", comps == [list(c) for c in want])


@harness(witnesses=("path", "no path", "asked"))
def long_search(ctx):
    """paths, reachability and components of a long graph, less any one edge, between vertices of it"""
    g, ref, u, names, n = shaped(ctx)
    ends = sorted(set((0, 1, n // 2, n - 2, n - 1)))
    i = ctx.pick("from", ends)
    r = closure(ref.E, n)
    both = closure(set(ref.E) | {(b, a) for a, b in ref.E}, n)
    if ctx.params["ask"] == "paths":
        j = ctx.pick("to", ends)
        p = [u.find(a) for a in g.path(names[i], names[j])]
        ctx.reach("path" if p else "no path")
        ctx.check("found exactly when there is one", (len(p) > 0) == r[i][j])
        if p:
            ctx.check("follows edges", p[0] == i and p[-1] == j and len(p) > 1 and all(e in ref.E for e in zip(p, p[1:])))
            ctx.check("repeats no vertex", len(set(p[:-1])) == len(p) - 1 and (i == j or j not in p[:-1]))
        ctx.reach("asked")
        return
    a = names[i]
    ctx.check("either way", indices(u, g.connected(a)) == [j for j in range(n) if j != i and both[i][j]])
    ctx.check("forwards", indices(u, g.connected_via_outgoing(a)) == [j for j in range(n) if j != i and r[i][j]])
    ctx.check("backwards", indices(u, g.connected_via_ingoing(a)) == [j for j in range(n) if j != i and r[j][i]])
    comps = sorted(indices(u, c) for c in g.connected_subsets())
    ctx.check("components", comps == [list(c) for c in sorted(set(tuple(sorted({i} | {j for j in range(n) if both[i][j]})) for i in ref.V))])
    for w in ("path", "no path", "asked"):
        ctx.reach(w)


@harness(witnesses=("edited",))
def large_edit(ctx):
    """any one edit of a larger graph"""
    g, ref, u, names, n = shaped(ctx, scattered=False)
    edit(ctx, "1", g, ref, u, ctx.params.get("ops", BASIC), names=names)
    ctx.reach("edited")
    agree(ctx, "after an edit", g, ref, u)


@harness(witnesses=("edited",))
def large_neighbours(ctx):
    """listings of every vertex of a larger graph, before and after any one edit"""
    g, ref, u, names, n = shaped(ctx, scattered=False)
    neighbours(ctx, "larger graph", g, ref, u)
    edit(ctx, "1", g, ref, u, BASIC, names=names)
    ctx.reach("edited")
    neighbours(ctx, "after an edit", g, ref, u)


@harness(witnesses=("derived",))
def large_derived(ctx):
    """copies, reversals and subgraphs of a larger graph"""
    g, ref, u, names, n = shaped(ctx)
    how = ctx.pick("how", ("copy", "new", "reverse", "subgraph"))
    want = ref.copy()
    if how == "copy":
        d = g.copy()
    elif how == "new":
        d = ctx.m.graph.Graph(g)
    elif how == "reverse":
        d = g.reverse()
        want.E = {(j, i): x for (i, j), x in ref.E.items()}
    else:
        ix = [k for k in range(n) if ctx.flag("ask%d" % k)]
        d = g.subgraph([names[k] for k in (ix[::-1] if ctx.flag("backwards") else ix)])
        want.V = ix
        want.E = {(i, j): x for (i, j), x in ref.E.items() if i in ix and j in ix}
    ctx.reach("derived")
    agree(ctx, "derived", d, want, u)
    agree(ctx, "original", g, ref, u)


@harness(witnesses=("path", "no path"))
def very_long(ctx):
    """graphs longer than Python's stack is deep"""
    with deep_stack():
        _very_long(ctx)


def _very_long(ctx):
    n = ctx.params["n"]
    shape = ctx.pick("shape", ("chain", "ring", "both ways", "comb"))
    cut = ctx.pick("cut", (None, 0, n // 2, n - 2))
    step = [(k, k + 1) for k in range(n - 1) if k != cut]
    E = list(step)
    if shape == "ring":
        E.append((n - 1, 0))
    elif shape == "both ways":
        E += [(b, a) for a, b in step]
    elif shape == "comb":
        E += [(k, -1 - k) for k in range(0, n, 3)]
    g = ctx.m.graph.Graph()
    if ctx.flag("backwards"):
        E.reverse()
    for k in range(n):
        g.add_vertex(k)
    for a, b in E:
        g.add_edge(a, b)
    nodes = set(g.vertices())
    out, into, any_way = {}, {}, {}
    for a, b in E:
        out.setdefault(a, []).append(b)
        into.setdefault(b, []).append(a)
    for v in nodes:
        any_way[v] = out.get(v, []) + into.get(v, [])

    def beyond(v, edges):
        seen, todo = set(), [v]
        while todo:
            for w in edges.get(todo.pop(), ()):
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return seen
    ends = (0, n // 2, n - 1)
    if ctx.params["ask"] == "paths":
        i, j = ctx.pick("from", ends), ctx.pick("to", ends)
        p = g.path(i, j)
        ctx.reach("path" if p else "no path")
        ctx.check("found exactly when there is one", (len(p) > 0) == (j in beyond(i, out)))
        if p:
            pairs = set(E)
            ctx.check("follows edges", p[0] == i and p[-1] == j and all(e in pairs for e in zip(p, p[1:])))
            ctx.check("repeats no vertex", len(set(p[:-1])) == len(p) - 1 and (i == j or j not in p[:-1]))
        return
    i = ctx.pick("from", ends)
    for what, got, edges in (("either way", g.connected(i), any_way), ("forwards", g.connected_via_outgoing(i), out),
                             ("backwards", g.connected_via_ingoing(i), into)):
        want = beyond(i, edges) - {i}
        ctx.check(what, len(got) == len(want) and set(got) == want)
    comps = [set(c) for c in g.connected_subsets()]
    todo, want = set(nodes), []
    while todo:
        c = beyond(min(todo), any_way) | {min(todo)}
        want.append(c)
        todo -= c
    ctx.check("components", len(comps) == len(want) and all(c in want for c in comps))
    ctx.reach("path")
    ctx.reach("no path")


def wide_graph(ctx, n):
    """a graph of many vertices, numbered from below zero, with dense parts"""
    shape = ctx.pick("shape", ("star out", "star in", "star both ways", "dense", "ring with loops"))
    V = list(range(-1, n - 1))
    hub = V[ctx.pick("hub", (0, n // 2, n - 1))]
    if shape == "dense":
        E = [(V[i], V[(i + k) % n]) for i in range(n) for k in (1, 2, 3, 5, 8, n - 1)]
    elif shape == "ring with loops":
        E = [(V[i], V[(i + k) % n]) for i in range(n) for k in (0, 1)]
    else:
        E = [(hub, v) for v in V if v != hub] if shape != "star in" else []
        E += [(v, hub) for v in V if v != hub] if shape != "star out" else []
    g, ref = ctx.m.graph.Graph(), Ref()
    if ctx.flag("vertices first"):
        for v in V:
            g.add_vertex(v)
            ref.add_vertex(v)
    for k, (a, b) in enumerate(E):
        x = any_value(k)
        g.add_edge(a, b, x)
        ref.add_edge(a, b, x)
    return g, ref, V, hub


def wide_agree(ctx, what, g, ref, V):
    ctx.check(what + ": vertices", sorted(g.vertices()) == sorted(ref.V))
    ctx.check(what + ": edges", sorted(g.edges()) == sorted(ref.E))
    for v in V:
        ctx.check(what + ": has_vertex", g.has_vertex(v) == (v in ref.V))
    for a, b in ref.E:
        x, y = g.get(a, b), ref.E[a, b]
        ctx.check(what + ": value", x is y if isinstance(y, Hostile) else type(x) is type(y) and x == y)
        ctx.check(what + ": has_edge", g.has_edge(a, b) and g.has_any_edge(b, a) and g.has_bi_edge(a, b) == ((b, a) in ref.E))
        if (b, a) not in ref.E:
            ctx.check(what + ": has_edge", not g.has_edge(b, a))


def wide_edit(ctx, tag, g, ref, V, hub):
    op = ctx.pick("op" + tag, ("none",) + ALL)
    # the hub and others near and far
    a = ctx.pick("a" + tag, (hub, V[1], V[-2])) if op != "none" else None
    b = ctx.pick("b" + tag, (hub, V[2], V[-1], len(V) + 5)) if op.endswith("edge") or op == "set" else None
    if op == "add_vertex":
        g.add_vertex(a)
        ref.add_vertex(a)
    elif op == "remove_vertex":
        g.remove_vertex(a)
        ref.remove_vertex(a)
    elif op in ("add_edge", "set", "add_bi_edge", "set_bi_edge"):
        x = Hostile(tag)
        getattr(g, op)(a, b, x)
        getattr(ref, "set" if "set" in op else "add_edge")(a, b, x)
        if "bi" in op:
            getattr(ref, "set" if "set" in op else "add_edge")(b, a, x)
    elif op == "remove_edge":
        want = ref.remove_edge(a, b)
        ctx.check("removing an edge is refused exactly when it is absent", (ctx.raises(g.remove_edge, a, b) is None) == want)
    elif op == "remove_bi_edge":
        want = (a, b) in ref.E and (b, a) in ref.E
        if want:
            ref.remove_edge(a, b)
            if a != b:
                ref.remove_edge(b, a)
        if a != b:
            ctx.check("removing a bidirectional edge is refused exactly when it is absent", (ctx.raises(g.remove_bi_edge, a, b) is None) == want)
        elif want:
            g.remove_edge(a, b)


@harness(witnesses=("edited",))
def wide(ctx):
    """many vertices and edges: edits, listings, copies"""
    g, ref, V, hub = wide_graph(ctx, ctx.params["n"])
    ask = ctx.params["ask"]
    ctx.reach("edited")
    if ask == "edits":
        wide_edit(ctx, "1", g, ref, V, hub)
        wide_agree(ctx, "edited", g, ref, V)
    elif ask == "neighbours":
        wide_edit(ctx, "1", g, ref, V, hub)
        for v in (hub, V[0], V[1], V[2], V[-1], V[len(V) // 2]):
            if v not in ref.V:
                continue
            out = sorted(b for a, b in ref.E if a == v)
            inn = sorted(a for a, b in ref.E if b == v)
            ctx.check("successors", sorted(g.outgoing_vertices(v)) == out)
            ctx.check("predecessors", sorted(g.ingoing_vertices(v)) == inn)
            ctx.check("neighbours", sorted(g.adjacent_vertices(v)) == sorted(set(out + inn)))
            ctx.check("outgoing edges", sorted(g.outgoing_edges(v)) == [(v, b) for b in out])
            ctx.check("ingoing edges", sorted(g.ingoing_edges(v)) == [(a, v) for a in inn])
            ctx.check("adjacent edges", set(g.adjacent_edges(v)) == set([(v, b) for b in out] + [(a, v) for a in inn]))
    else:
        how = ctx.pick("how", ("copy", "duplicate", "reverse", "half", "every other", "all but one", "all but another"))
        r = ref.copy()
        if how == "copy":
            d = ctx.m.graph.Graph(g)
        elif how == "duplicate":
            d = g.copy()
        elif how == "reverse":
            d = g.reverse()
            r.E = dict(((b, a), x) for (a, b), x in ref.E.items())
        else:
            keep = V[:len(V) // 2] if how == "half" else V[::2] if how == "every other" else [v for v in V if v != (hub if how == "all but one" else hub + 1)]
            d = g.subgraph(keep)
            r.V = [v for v in ref.V if v in keep]
            r.E = dict(((a, b), x) for (a, b), x in ref.E.items() if a in keep and b in keep)
        wide_agree(ctx, how, d, r, V)
        wide_agree(ctx, "original", g, ref, V)
        if ctx.flag("edit the original"):
            g.remove_vertex(hub)
            ref.remove_vertex(hub)
        else:
            d.remove_vertex(r.V[0])
            r.remove_vertex(r.V[0])
        wide_agree(ctx, how, d, r, V)
        wide_agree(ctx, "original", g, ref, V)
