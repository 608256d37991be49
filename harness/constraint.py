"""C12-C14: constraints and constraint graphs."""
import math

from .common import harness, Universe, Hostile
from .graph import listing


def constraint_class(ctx, own=False):
    """a constraint kind with given hash, so that no set order is left to chance"""
    base = ctx.m.constraint.FunctionConstraint

    class K(base):
        def __init__(self, k, variables, h):
            base.__init__(self, lambda *a: True, variables, "K")
            self.k, self.h = k, h

        def __hash__(self):
            return self.h

        def __eq__(self, o):
            return self is o

    class Own(K):
        """says itself which variables it has"""

        def __init__(self, k, variables, h):
            K.__init__(self, k, [object()] + list(variables)[:1], h)
            self.mine = list(variables)

        def variables(self):
            return list(self.mine)
    return Own if own else K


class CRef(object):
    """the constraint graph of a history as conditions over the names in it"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.V = lambda x: False
        self.C = {}             # constraint -> present (condition)
        self.vars = {}

    def on(self, c, x):
        return self.ctx.any(*[self.ctx.eq(x, v) for v in self.vars[c]])

    def variable(self, a):
        ctx, V = self.ctx, self.V
        self.V = lambda x: ctx.any(ctx.eq(x, a), V(x))

    def unvariable(self, a):
        ctx, V = self.ctx, self.V
        self.V = lambda x: ctx.all(ctx.neg(ctx.eq(x, a)), V(x))
        for c in self.C:
            self.C[c] = ctx.all(self.C[c], ctx.neg(self.on(c, a)))

    def constraint(self, c):
        self.C[c] = True
        for v in self.vars[c]:
            self.variable(v)

    def unconstraint(self, c):
        self.C[c] = False


def _history(ctx):
    ctx.hashing("hash", ctx.params.get("hashes", (0, 2)))
    g = ctx.m.constraint.ConstraintGraph()
    r, names, pool = CRef(ctx), [], []
    K = constraint_class(ctx)
    arities = ctx.params.get("arities", (1, 2))
    collide = ctx.params.get("collide", False)
    for k in range(ctx.params["edits"]):
        t = str(k)
        ops = ["add_variable", "rem_variable", "new", "absent"]
        for i in range(len(pool)):
            ops += ["again%d" % i, "rem%d" % i]
        op = ctx.pick("op" + t, ops)
        if op in ("add_variable", "rem_variable"):
            a = ctx.atom("v" + t)
            names.append(a)
            if op == "add_variable":
                g.add_variable(a)
                r.variable(a)
            else:
                g.rem_variable(a)
                r.unvariable(a)
        elif op in ("new", "absent"):
            n = ctx.pick("arity" + t, arities)
            vs = [ctx.atom("c%s_%d" % (t, j)) for j in range(n)]
            c = K(len(pool), vs, 100 if collide else 100 + 7 * len(pool))
            if op == "absent":
                if ctx.params.get("no_absent"):
                    ctx.assume(False)
                for v in vs:
                    v == v
                g.rem_constraint(c)
                continue
            names.extend(vs)
            pool.append(c)
            r.vars[c] = vs
            g.add_constraint(c)
            r.constraint(c)
        elif op[0] == "a":
            c = pool[int(op[5:])]
            g.add_constraint(c)
            r.constraint(c)
        else:
            c = pool[int(op[3:])]
            g.rem_constraint(c)
            r.unconstraint(c)
    u = Universe()
    for a in names:
        u.ix(a)
    return g, r, u, pool


def present(ctx, label, r, pool, got, cond):
    """got lists exactly the constraints of the pool for which cond holds, each once"""
    got = list(got)
    ctx.check(label + ": known and once each", len(set(id(c) for c in got)) == len(got) and
              all(any(c is d for d in pool) for c in got))
    for c in pool:
        ctx.check(label, ctx.iff(any(c is d for d in got), cond(c)))


def contents(ctx, what, g, r, u, pool):
    listing(ctx, what + ": variables", u, g.variables(), r.V)
    present(ctx, what + ": constraints", r, pool, g.constraints(), lambda c: r.C[c])


@harness(witnesses=("constraint present", "constraint removed with a variable"))
def history(ctx):
    """any history: contents and the constraints on every single name"""
    g, r, u, pool = _history(ctx)
    contents(ctx, "after the history", g, r, u, pool)
    cs = list(g.constraints())
    if cs:
        ctx.reach("constraint present")
    if len(cs) < len(pool):
        ctx.reach("constraint removed with a variable")
    for a in list(u.names):
        got = g.get_constraints_on(a)
        present(ctx, "constraints on a variable", r, pool, got, lambda c: ctx.all(r.C[c], r.on(c, a)))
        if isinstance(got, list):
            del got[:]
    contents(ctx, "after the queries", g, r, u, pool)
    q = ctx.atom("query")
    got = g.get_constraints_on(q)
    present(ctx, "constraints on any name", r, pool, got, lambda c: ctx.all(r.C[c], r.on(c, q)))
    ctx.check("a new constraint graph is empty", len(list(ctx.m.constraint.ConstraintGraph().variables())) == 0)
    ctx.observe(len(cs), len(list(g.variables())), [c.k for c in got])


@harness(witnesses=("some but not all",))
def queries(ctx):
    """any history: the constraints on all of, and on any of, several names"""
    g, r, u, pool = _history(ctx)
    n = ctx.params["query"]
    kind = ctx.pick("sequence", (list, tuple))
    qs = [ctx.pick("q%d" % i, u.names) if u.names and ctx.params.get("known", True) else ctx.atom("q%d" % i)
          for i in range(n)]
    before = list(qs)
    seq = kind(qs)
    al = list(g.get_constraints_on_all(seq))
    an = list(g.get_constraints_on_any(seq))
    ctx.check("the query is not changed", len(seq) == n and all(x is y for x, y in zip(seq, before)))
    present(ctx, "constraints on all", r, pool, al,
            lambda c: ctx.all(n > 0, r.C[c], *[r.on(c, q) for q in qs]))
    present(ctx, "constraints on any", r, pool, an,
            lambda c: ctx.all(r.C[c], ctx.any(*[r.on(c, q) for q in qs])))
    if an and len(al) < len(an):
        ctx.reach("some but not all")
    for x in (al, an):
        del x[:]
    contents(ctx, "after the queries", g, r, u, pool)
    ctx.observe(len(al), len(an))


@harness(witnesses=("some but not all", "variable removed"))
def any_incidence(ctx):
    """every pattern of constraints over a few variables, added in every order, then one
    removal, then every query"""
    nv, nc = ctx.params["names"], ctx.params["constraints"]
    v = ctx.atoms("v", nv, distinct=True)
    ctx.hashing("hash", ctx.params.get("hashes", (0, 1)))
    K = constraint_class(ctx)
    inc, pool = [], []
    for k in range(nc):
        mine = [i for i in range(nv) if ctx.flag("on%d_%d" % (k, i))]
        if ctx.params.get("reverse") and ctx.flag("rev%d" % k):
            mine.reverse()
        inc.append(set(mine))
        pool.append(K(k, [v[i] for i in mine], 100 + 7 * k if ctx.hash_variant != 2 else 100))
    g = ctx.m.constraint.ConstraintGraph()
    for c in pool:
        g.add_constraint(c)
    V = set(i for s in inc for i in s)
    C = set(range(nc))
    op = ctx.choice("removal", 1 + nv + nc)
    if op and op <= nv:
        g.rem_variable(v[op - 1])
        V.discard(op - 1)
        C = set(k for k in C if op - 1 not in inc[k])
        ctx.reach("variable removed")
    elif op:
        g.rem_constraint(pool[op - 1 - nv])
        C.discard(op - 1 - nv)
    ctx.check("variables", sorted(v.index(a) for a in g.variables()) == sorted(V))
    ctx.check("constraints", sorted(c.k for c in g.constraints()) == sorted(C))
    import itertools
    qs = [()] + [q for n in (1, 2, 3)[:ctx.params.get("query", 3)] for q in itertools.product(range(nv), repeat=n)]
    for q in qs:
        al = g.get_constraints_on_all([v[i] for i in q])
        an = g.get_constraints_on_any([v[i] for i in q])
        ctx.check("constraints on all", sorted(c.k for c in al) == sorted(k for k in C if q and set(q) <= inc[k]))
        ctx.check("constraints on any", sorted(c.k for c in an) == sorted(k for k in C if set(q) & inc[k]))
        if an and len(al) < len(an):
            ctx.reach("some but not all")
    for i in range(nv):
        ctx.check("constraints on one", sorted(c.k for c in g.get_constraints_on(v[i])) ==
                  sorted(k for k in C if i in inc[k]))
    ctx.observe(sorted(V), sorted(C))


CROWDS = {
    "chain": [(i, i + 1) for i in range(6)],
    "wide": [tuple(range(7)), (6,), (0, 6), (1, 2, 3), (3, 4, 5, 6), ()],
    "star": [(0, i) for i in range(1, 7)],
    "triples": [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3), (3, 4, 5), (4, 5, 6), (0, 5, 6)],
    "repeated": [(0, 1)] * 4 + [(1, 0, 1), (2, 2), (2, 2, 3, 3), (0, 2, 4, 6)],
}


@harness(witnesses=("some but not all", "variable removed"))
def crowd(ctx):
    """many names and constraints, in some orders; removals; every query of one, two or most names"""
    import itertools
    ctx.hashing("hash", (0, 1, 2))
    inc = CROWDS[ctx.pick("constraints", tuple(CROWDS))]
    v = ctx.atoms("v", 8, distinct=True)                # one more than used
    K = constraint_class(ctx, ctx.flag("own variables"))
    pool = [K(k, [v[i] for i in c], 100 + 7 * k if ctx.hash_variant != 2 else 100) for k, c in enumerate(inc)]
    g = ctx.m.constraint.ConstraintGraph()
    order = list(range(len(inc)))
    if ctx.flag("backwards"):
        order.reverse()
    for k in order:
        g.add_constraint(pool[k])
    V = set(i for c in inc for i in c)
    C = set(order)
    for step in range(ctx.params.get("removals", 1)):
        op = ctx.choice("removal%d" % step, 1 + 8 + len(inc))
        if op and op <= 8:
            g.rem_variable(v[op - 1])
            V.discard(op - 1)
            C = set(k for k in C if op - 1 not in inc[k])
            ctx.reach("variable removed")
        elif op:
            g.rem_constraint(pool[op - 9])
            C.discard(op - 9)
    if ctx.flag("constraint added again"):
        k = ctx.choice("again", len(inc))
        g.add_constraint(pool[k])
        C.add(k)
        V |= set(inc[k])
    ctx.check("variables", sorted(v.index(a) for a in g.variables()) == sorted(V))
    ctx.check("constraints", sorted(c.k for c in g.constraints()) == sorted(C))
    qs = [()] + [q for n in (1, 2) for q in itertools.product(range(8), repeat=n)] + [
        (0, 1, 2), (2, 0, 1), (6, 5, 4, 3), (1, 2, 3, 0), tuple(range(7)), (2, 2, 3, 3), (0, 1, 0, 1, 0)]
    for q in qs:
        al = g.get_constraints_on_all([v[i] for i in q])
        an = g.get_constraints_on_any([v[i] for i in q])
        ctx.check("constraints on all", sorted(c.k for c in al) == sorted(k for k in C if q and set(q) <= set(inc[k])))
        ctx.check("constraints on any", sorted(c.k for c in an) == sorted(k for k in C if set(q) & set(inc[k])))
        if an and len(al) < len(an):
            ctx.reach("some but not all")
    for i in range(8):
        ctx.check("constraints on one", sorted(c.k for c in g.get_constraints_on(v[i])) ==
                  sorted(k for k in C if i in inc[k]))
    ctx.check("after the queries", sorted(v.index(a) for a in g.variables()) == sorted(V) and
              sorted(c.k for c in g.constraints()) == sorted(C))
    ctx.observe(sorted(V), sorted(C))


@harness(witnesses=("satisfied", "unsatisfied"))
def many_arguments(ctx):
    """a predicate of many names, in the declared order, in a mapping with many others"""
    n = ctx.pick("arity", ctx.params["arities"])
    ctx.hashing("hash", (0, 1, 2))
    names = ctx.atoms("v", n + 4, distinct=True)
    vals = [ctx.int("x%d" % i) for i in range(n + 4)]
    order = ctx.pick("order", ("as named", "backwards", "shuffled", "repeated"))
    at = list(range(n))
    if order == "backwards":
        at.reverse()
    elif order == "shuffled":
        at = at[1::2] + at[::-2]
    elif order == "repeated":
        at = [i // 2 for i in at]
    m = dict(zip(names, vals))
    if ctx.flag("mapping backwards"):
        m = dict(reversed(list(m.items())))
    c = ctx.m.constraint.FunctionConstraint(lambda *a: ctx.pred("f", *a), [names[i] for i in at])
    got = c.satisfied(m)
    ctx.check("satisfied exactly when the function says so", ctx.iff(
        bool(got), ctx.rel(ctx.uf("p_f", *[vals[i] for i in at]), ">", 0)))
    ctx.reach("satisfied" if got else "unsatisfied")
    ctx.check("the mapping is not changed", len(m) == n + 4 and all(m[a] is x for a, x in zip(names, vals)))
    ctx.check("variables in order", [names.index(a) for a in c.variables()] == at)
    g = ctx.m.constraint.ConstraintGraph()
    g.add_constraint(c)
    for i, a in enumerate(names):
        ctx.check("found by its variables only", g.get_constraints_on(a) == ([c] if i in at else []))
    ctx.check("found by all variables", g.get_constraints_on_all(c.variables()) == [c])
    ctx.observe(bool(got))


# ------------------------------------------------------------------ C13
def any_value(ctx, name):
    """what a name is mapped to: a number, nothing, or an object that cannot be compared"""
    if not ctx.params.get("odd"):
        return ctx.int(name)
    kind = ctx.choice("kind " + name, 3)
    return ctx.int(name) if kind == 0 else None if kind == 1 else Hostile(ctx.int(name))


def number(x):
    return -77 if x is None else x.v if isinstance(x, Hostile) else x


@harness(witnesses=("satisfied", "unsatisfied"))
def function(ctx):
    """any predicate on any mapping"""
    n = ctx.params["arity"]
    ctx.hashing("hash", (0, 2))
    vs = [ctx.atom("v%d" % i) for i in range(n)]
    extra = [ctx.atom("other%d" % i) for i in range(ctx.params.get("others", 1))]
    u = Universe()
    mapping, val = {}, {}
    for i, a in enumerate(extra + vs):
        k = u.ix(a)
        if k not in val:
            val[k] = mapping[a] = any_value(ctx, "x%d" % i)
    calls = []

    def f(*args):
        calls.append(args)
        return ctx.pred("f", *map(number, args))
    given = {"list": list, "tuple": tuple, "generator": lambda s: (x for x in s)}[
        ctx.pick("given", ("list", "tuple", "generator"))](vs)
    c = ctx.m.constraint.FunctionConstraint(f, given)
    if isinstance(given, list):
        given.append("later")
    before = list(mapping.items())
    got = c.satisfied(mapping)
    want = ctx.uf("p_f", *[number(val[u.ix(a)]) for a in vs])
    ctx.check("satisfied exactly when the function says so", ctx.iff(bool(got), ctx.rel(want, ">", 0)))
    ctx.check("a truth value", got is True or got is False)
    ctx.reach("satisfied" if got else "unsatisfied")
    ctx.check("the mapping is not changed", len(mapping) == len(before) and
              all(a is b and x is y for (a, x), (b, y) in zip(mapping.items(), before)))
    again = c.satisfied(mapping)
    ctx.check("the same answer again", bool(again) == bool(got))
    # another mapping, no state kept
    if vs:
        m2 = dict(mapping)
        m2[vs[0]] = y = ctx.int("y")
        k = u.ix(vs[0])
        got2 = c.satisfied(m2)
        want2 = ctx.uf("p_f", *[y if u.ix(a) == k else number(val[u.ix(a)]) for a in vs])
        ctx.check("another mapping", ctx.iff(bool(got2), ctx.rel(want2, ">", 0)))
    ctx.observe(bool(got))
    ours(ctx, c, vs, u)


@harness(witnesses=("satisfied", "unsatisfied"))
def plus(ctx):
    ctx.hashing("hash", (0, 2))
    vs = [ctx.atom("v%d" % i) for i in range(3)]
    other = ctx.atom("other")
    u = Universe()
    mapping, val = {}, {}
    for i, a in enumerate([other] + vs):
        k = u.ix(a)
        if k not in val:
            val[k] = mapping[a] = ctx.int("x%d" % i)
    c = ctx.m.constraint.PlusConstraint(*vs)
    before = list(mapping.items())
    got = bool(c.satisfied(mapping))
    x, y, z = [val[u.ix(a)] for a in vs]
    ctx.check("satisfied exactly when the sum is right", ctx.iff(got, ctx.rel(x + y, "==", z)))
    ctx.check("the mapping is not changed", len(mapping) == len(before) and
              all(a is b and x is y for (a, x), (b, y) in zip(mapping.items(), before)))
    ctx.reach("satisfied" if got else "unsatisfied")
    ctx.observe(got)
    ours(ctx, c, vs, u)


def ours(ctx, c, vs, u):
    """the constraint reports its variables, afresh, and is found by them in a graph"""
    a, b = c.variables(), c.variables()
    ctx.check("variables in order", isinstance(a, list) and len(a) == len(vs) and
              all(x is y for x, y in zip(a, vs)))
    ctx.check("a fresh list", a is not b)
    a.append(None)
    del a[:1]
    ctx.check("a fresh list", len(c.variables()) == len(vs) and all(x is y for x, y in zip(c.variables(), vs)))
    g = ctx.m.constraint.ConstraintGraph()
    g.add_constraint(c)
    ctx.check("in the graph", [x for x in g.constraints()] == [c])
    for v in vs:
        ctx.check("found by each variable", g.get_constraints_on(v) == [c])
    if vs:
        ctx.check("found by all variables", g.get_constraints_on_all(list(vs)) == [c])
        ctx.check("found by any variable", g.get_constraints_on_any(list(vs)) == [c])
    q = ctx.atom("unrelated")
    ctx.check("found by its variables only", (len(g.get_constraints_on(q)) == 1) == (u.find(q) in [u.find(v) for v in vs]))
    ctx.check("its variables are in the graph", sorted(u.find(x) for x in g.variables()) ==
              sorted(set(u.find(v) for v in vs)))


KINDS = ("NotClockwiseConstraint", "NotCounterClockwiseConstraint", "NotObtuseConstraint", "NotAcuteConstraint")


@harness(witnesses=KINDS)
def selection_kinds(ctx):
    """the built-in selection constraints as constraints"""
    ctx.hashing("hash", (0, 2))
    k = ctx.pick("kind", KINDS)
    vs = [ctx.atom("v%d" % i) for i in range(3)]
    c = getattr(ctx.m.constraint, k)(*vs)
    ctx.reach(k)
    u = Universe()
    for v in vs:
        u.ix(v)
    ours(ctx, c, vs, u)


@harness(witnesses=("own",))
def own_kind(ctx):
    """a constraint class that defines variables() itself"""
    vs = [ctx.atom("v%d" % i) for i in range(2)]
    base = ctx.m.constraint.Constraint

    class Own(base):
        def variables(self):
            return list(vs)

        def satisfied(self, mapping):
            return True

        def __str__(self):
            return "Own"
    u = Universe()
    for v in vs:
        u.ix(v)
    ctx.reach("own")
    ours(ctx, Own(), vs, u)

    class Bare(base):
        def satisfied(self, mapping):
            return True

        def __str__(self):
            return "Bare"
    e = ctx.raises(Bare().variables)
    ctx.check("variables() without variables is refused", isinstance(e, NotImplementedError))


# ------------------------------------------------------------------ C14
def triple(ctx, lo=None, hi=None):
    return [(ctx.real("x%d" % i, lo, hi), ctx.real("y%d" % i, lo, hi)) for i in range(3)]


def again(ctx, m, kinds, vs, mapping, pts, want, was):
    """the same constraints asked about other points, and about the first ones again"""
    other = dict(zip(vs, [m.geometry.Vector(*p) for p in pts]))
    ctx.check("other points, asked later", tuple(bool(k.satisfied(other)) for k in kinds) == want)
    ctx.check("the same points again", all(bool(k.satisfied(mapping)) == bool(w) for k, w in zip(kinds, was)))


def area2(p):
    """doubled signed area"""
    (a, b), (c, d), (e, f) = p
    return (c - a) * (f - b) - (d - b) * (e - a)


@harness(theory="real", witnesses=("clockwise", "counter-clockwise", "flat"))
def turns(ctx):
    """both turn constraints on any triple"""
    m = ctx.m
    p = triple(ctx)
    pts = [m.geometry.Vector(x, y) for x, y in p]
    vs = ctx.atoms("v", 3, distinct=True)
    other = ctx.atom("other")
    mapping = dict(zip(vs, pts))
    kinds = m.constraint.NotClockwiseConstraint(*vs), m.constraint.NotCounterClockwiseConstraint(*vs)
    ncw, nccw = [k.satisfied(mapping) for k in kinds]
    again(ctx, m, kinds, vs, mapping, ((0.0, 0.0), (1.0, 0.0), (1.0, 1.0)), (True, False), (ncw, nccw))
    again(ctx, m, kinds, vs, mapping, ((0.0, 1.0), (1.0, 0.0), (0.0, 0.0)), (False, True), (ncw, nccw))
    A = area2(p)
    tol = 1e-8
    ctx.check("not-clockwise rejects exactly clockwise triples", ctx.iff(not ncw, ctx.lt(A, -tol)))
    ctx.check("not-counter-clockwise rejects exactly counter-clockwise triples", ctx.iff(not nccw, ctx.gt(A, tol)))
    ctx.check("at least one holds", bool(ncw) or bool(nccw))
    ctx.reach("clockwise" if not ncw else "counter-clockwise" if not nccw else "flat")
    ctx.check("points are not changed", ctx.all(*[ctx.same([q.x, q.y], list(xy)) for q, xy in zip(pts, p)]))
    ctx.observe(bool(ncw), bool(nccw))


def arms(ctx):
    """any two vectors, as (length, direction) and (length, direction turned by any angle):
    -> x1, y1, x2, y2, cosine and sine of the angle from the first to the second, lengths"""
    l1, l2 = ctx.real("l1", 0), ctx.real("l2", 0)
    c, s = ctx.unit("dir")
    k, t = ctx.unit("turn")
    return l1 * c, l1 * s, l2 * (c * k - s * t), l2 * (s * k + c * t), k, t, l1, l2


@harness(theory="real", witnesses=("acute", "obtuse", "neither"))
def angles(ctx):
    """both angle constraints on any triple"""
    m = ctx.m
    a, b, c, d, k, t, l1, l2 = arms(ctx)
    x, y = ctx.real("x"), ctx.real("y")
    V = m.geometry.Vector
    pts = [V(a + x, b + y), V(x, y), V(c + x, d + y)]
    vs = ctx.atoms("v", 3, distinct=True)
    mapping = dict(zip(vs, pts))
    kinds = m.constraint.NotObtuseConstraint(*vs), m.constraint.NotAcuteConstraint(*vs)
    no, na = [k.satisfied(mapping) for k in kinds]
    again(ctx, m, kinds, vs, mapping, ((1.0, 0.0), (0.0, 0.0), (1.0, 1.0)), (True, False), (no, na))
    again(ctx, m, kinds, vs, mapping, ((1.0, 0.0), (0.0, 0.0), (-1.0, 1.0)), (False, True), (no, na))
    ctx.reach("acute" if not na else "obtuse" if not no else "neither")
    ctx.check("at least one holds", bool(no) or bool(na))
    ctx.observe(bool(no), bool(na))
    small = ctx.any(ctx.le(l1, 1.0001e-8), ctx.le(l2, 1.0001e-8))
    if not na:
        ctx.check("not-acute rejects only acute angles", ctx.gt(k, 0))
        ctx.check("and only defined ones", ctx.all(ctx.gt(l1, 0.9999e-8), ctx.gt(l2, 0.9999e-8)))
    elif not no:
        ctx.check("not-obtuse rejects only obtuse angles", ctx.lt(k, 0))
        ctx.check("and only defined ones", ctx.all(ctx.gt(l1, 0.9999e-8), ctx.gt(l2, 0.9999e-8)))
    else:
        # within tolerance of a right angle, or undefined
        ctx.check("only right or undefined angles satisfy both",
                  ctx.any(small, ctx.all(ctx.le(k, 1e-4), ctx.ge(k, -1e-4))))


@harness(witnesses=("some but not all",))
def many_constraints(ctx):
    """many constraints on many variables, numbered from below zero"""
    n, m = ctx.params["constraints"], ctx.params["variables"]
    inc = []
    for k in range(n):
        size = (1, 2, 3, 3, 4, 2, m // 2)[k % 7]
        inc.append([(k * 7 + j * (1 + k % 3)) % m - 1 for j in range(size)])
        if k % 2:
            inc[-1].append(3)           # one variable has many
    K = constraint_class(ctx, ctx.flag("own variables"))
    pool = [K(k, inc[k], 100 + 7 * k) for k in range(n)]
    g = ctx.m.constraint.ConstraintGraph()
    for k in (reversed(range(n)) if ctx.flag("backwards") else range(n)):
        g.add_constraint(pool[k])
    V, C = set(i for c in inc for i in c), set(range(n))
    op = ctx.pick("removal", ("none", "variable", "constraint", "both"))
    if op in ("variable", "both"):
        v = ctx.pick("variable", (-1, 0, m // 2, m - 2))
        g.rem_variable(v)
        V.discard(v)
        C = set(k for k in C if v not in inc[k])
    if op in ("constraint", "both"):
        k = ctx.pick("constraint", (min(C), max(C), sorted(C)[len(C) // 2]))
        g.rem_constraint(pool[k])
        C.discard(k)
    ctx.check("variables", sorted(g.variables()) == sorted(V))
    ctx.check("constraints", sorted(c.k for c in g.constraints()) == sorted(C))
    big = [tuple(c) for c in inc if len(c) > 9]
    other = [v for v in range(-1, m - 1) if v not in big[0]]
    big += [big[0] + (other[0],), (other[-1],) + big[0], tuple(reversed(big[0])) + (other[0],), big[-1] + big[-1]]
    for q in big + [(v,) for v in range(-1, m)] + [(-1, 0), (0, m - 2), (5, 4, 3), tuple(range(-1, m - 1)), tuple(range(0, m // 2)), (3, 3)]:
        al, an = [sorted(c.k for c in f(list(q))) for f in (g.get_constraints_on_all, g.get_constraints_on_any)]
        ctx.check("constraints on all", al == sorted(k for k in C if set(q) <= set(inc[k])))
        ctx.check("constraints on any", an == sorted(k for k in C if set(q) & set(inc[k])))
        if len(q) == 1:
            ctx.check("constraints on one", sorted(c.k for c in g.get_constraints_on(q[0])) == an)
        elif len(al) < len(an):
            ctx.reach("some but not all")
