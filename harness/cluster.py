"""C15-C19: clusters and the relations they imply."""
from itertools import combinations

from .common import harness, Universe

KINDS = ("rigid", "hedgehog", "balloon")


class Derived(object):
    """clusters of kinds derived from the three"""

    def __init__(self, C):
        self.Rigid = type("Truss", (C.Rigid,), {})
        self.Hedgehog = type("Fan", (C.Hedgehog,), {})
        self.Balloon = type("Shape", (C.Balloon,), {})


def build(ctx, kind, names, c=None):
    C = ctx.m.cluster
    if ctx.params.get("derived"):
        C = Derived(C)
    if kind == "rigid":
        return C.Rigid(names)
    if kind == "balloon":
        return C.Balloon(names)
    return C.Hedgehog(c, names)


def implied(kind, pts, c):
    """distances and angles over point numbers"""
    dist, ang = set(), set()
    if kind == "rigid":
        dist = set(frozenset(p) for p in combinations(pts, 2))
    if kind in ("rigid", "balloon"):
        for t in combinations(sorted(pts), 3):
            for v in t:
                ang.add((v, frozenset(set(t) - {v})))
    if kind == "hedgehog":
        for p in combinations(sorted(set(pts) - {c}), 2):
            ang.add((c, frozenset(p)))
    return dist, ang


class Given(object):
    """one cluster over different points; what it implies, as conditions on any names"""

    def __init__(self, ctx, tag, kind, n, first):
        self.ctx, self.kind = ctx, kind
        atoms = ctx.atoms(tag, n, first)
        if not first:
            for a, b in combinations(atoms, 2):
                ctx.assume(ctx.neg(ctx.eq(a, b)))
        self.pts = atoms
        self.c = atoms[0] if kind == "hedgehog" else None
        self.cl = build(ctx, kind, atoms[1:] if kind == "hedgehog" else atoms, self.c)
        self.before = self.state()

    @classmethod
    def over(cls, ctx, kind, atoms, c):
        """a cluster over given, different names"""
        self = cls.__new__(cls)
        self.ctx, self.kind, self.pts = ctx, kind, list(atoms)
        self.c = c if kind == "hedgehog" else None
        self.cl = build(ctx, kind, [a for a in atoms if a is not self.c], self.c)
        self.before = self.state()
        return self

    def state(self):
        cl = self.cl
        s = [type(cl), objects(cl.vars), bool(cl.overconstrained)]
        if self.kind == "hedgehog":
            s += [objects(cl.x_vars), id(cl.c_var)]
        return s

    def distance(self, x, y):
        return says_distance(self.ctx, self.kind, self.pts, x, y)

    def angle(self, x, v, y):
        return says_angle(self.ctx, self.kind, self.pts, self.c, x, v, y)


def objects(names):
    return sorted(id(a) for a in names)


def member(ctx, x, names):
    return ctx.any(*[ctx.eq(x, a) for a in names])


def says_distance(ctx, kind, pts, x, y):
    if kind != "rigid":
        return False
    return ctx.all(ctx.neg(ctx.eq(x, y)), member(ctx, x, pts), member(ctx, y, pts))


def says_angle(ctx, kind, pts, c, x, v, y):
    far = ctx.all(*[ctx.neg(ctx.eq(p, q)) for p, q in ((x, v), (v, y), (x, y))])
    if kind == "hedgehog":
        return ctx.all(far, ctx.eq(v, c), member(ctx, x, pts), member(ctx, y, pts))
    return ctx.all(far, *[member(ctx, p, pts) for p in (x, v, y)])


def large_pair(ctx):
    """clusters of many different points; how many they share, and where the centres are, is free"""
    ctx.hashing("hash", (0, 1, 2))
    n, m = ctx.pick("sizes", ctx.params["large"])
    both = ctx.choice("shared", min(n, m) + 1)
    p = ctx.atoms("p", n + m - both, distinct=True)
    if ctx.flag("backwards"):
        p.reverse()
    out = []
    for tag, pts, ends in (("a", p[:n], (0, n - 1, n // 2)), ("b", p[n - both:], (0, m - 1, m // 2))):
        kind = ctx.params.get(tag) or ctx.pick("kind " + tag, KINDS)
        c = pts[ctx.pick("centre " + tag, ends)] if kind == "hedgehog" else None
        out.append(Given.over(ctx, kind, pts, c))
    return out


def pair(ctx):
    if "large" in ctx.params:
        return large_pair(ctx)
    ctx.hashing("hash", ctx.params.get("hashes", (0, 2)))
    out = []
    for tag, sizes in (("a", ctx.params["first"]), ("b", ctx.params["second"])):
        kind = ctx.params.get(tag) or ctx.pick("kind " + tag, KINDS)
        n = ctx.pick("size " + tag, sizes)
        ctx.assume(kind == "rigid" or n >= 3)
        out.append(Given(ctx, tag, kind, n, tag == "a"))
    if ctx.hash_variant:
        # a mark on one of them changes nothing
        out[0].cl.overconstrained = True
        out[0].before = out[0].state()
    return out


def numbers(u, names):
    return sorted(u.find(a) for a in names)


def state(u, cl):
    s = [type(cl).__name__, numbers(u, cl.vars), bool(cl.overconstrained)]
    if hasattr(cl, "x_vars"):
        s += [numbers(u, cl.x_vars), u.find(cl.c_var)]
    return s


def what_kind(ctx, cl):
    C = ctx.m.cluster
    return "rigid" if isinstance(cl, C.Rigid) else "hedgehog" if isinstance(cl, C.Hedgehog) else \
        "balloon" if isinstance(cl, C.Balloon) else None


@harness(witnesses=("none", "rigid", "hedgehog", "balloon"))
def intersection(ctx):
    """any two clusters on any overlap of points"""
    A, B = pair(ctx)
    seen = []
    universe = A.pts + B.pts
    for first, second in ((A, B), (B, A)):
        r = first.cl.intersection(second.cl)
        ctx.check("the clusters are not changed", A.state() == A.before and B.state() == B.before)
        kind = "none" if r is None else what_kind(ctx, r)
        ctx.reach(kind)
        seen.append(kind)
        ctx.check("a cluster or none", kind is not None)
        if kind is None:
            return
        pts, c = [], None
        if r is not None:
            pts = list(r.vars)
            c = r.c_var if kind == "hedgehog" else None
            ctx.check("points listed", objects(r.var_list()) == objects(pts))
            if kind == "hedgehog":
                ctx.check("centre and arms", objects(list(r.x_vars) + [c]) == objects(pts))
            for p in pts:
                ctx.check("over shared points only", ctx.all(member(ctx, p, A.pts), member(ctx, p, B.pts)))
            ctx.check("there is none when nothing is implied by both", ctx.any(
                *[ctx.all(A.distance(x, y), B.distance(x, y)) for x, y in combinations(A.pts, 2)] +
                [ctx.all(A.angle(x, v, y), B.angle(x, v, y)) for x, y in combinations(A.pts, 2) for v in A.pts]))
        ctx.forall_names("exactly the distances implied by both", 2, universe, lambda x, y: ctx.iff(
            says_distance(ctx, kind, pts, x, y), ctx.all(A.distance(x, y), B.distance(x, y))))
        ctx.forall_names("exactly the angles implied by both", 3, universe, lambda x, v, y: ctx.iff(
            says_angle(ctx, kind, pts, c, x, v, y) if r is not None else False,
            ctx.all(A.angle(x, v, y), B.angle(x, v, y))))
        if r is not None:
            # the result is independent of the clusters it came from
            r.vars.clear()
            if kind == "hedgehog":
                r.x_vars.clear()
            ctx.check("the clusters do not share points with the result",
                      A.state() == A.before and B.state() == B.before)
    ctx.observe(seen)


@harness(witnesses=("distances", "angles", "nothing"))
def common(ctx):
    """common distances, angles and constraints of any two clusters"""
    A, B = pair(ctx)
    R = ctx.m.relation
    universe = A.pts + B.pts

    def same_distance(p, x, y):
        return ctx.any(*[ctx.all(ctx.eq(x, a), ctx.eq(y, b)) for a, b in ((p[0], p[1]), (p[1], p[0]))])

    def same_angle(p, x, v, y):
        return ctx.all(ctx.eq(v, p[1]), same_distance((p[0], p[2]), x, y))

    def listed(D, G, what):
        D, G = [d.points for d in D], [a.points for a in G]
        for p, q in combinations(D, 2):
            ctx.check("each distance once" + what, ctx.neg(same_distance(p, *q)))
        for p, q in combinations(G, 2):
            ctx.check("each angle once" + what, ctx.neg(same_angle(p, *q)))
        ctx.forall_names("exactly the distances both imply" + what, 2, universe, lambda x, y: ctx.iff(
            ctx.any(*[same_distance(p, x, y) for p in D]), ctx.all(A.distance(x, y), B.distance(x, y))))
        ctx.forall_names("exactly the angles both imply" + what, 3, universe, lambda x, v, y: ctx.iff(
            ctx.any(*[same_angle(p, x, v, y) for p in G]), ctx.all(A.angle(x, v, y), B.angle(x, v, y))))
    for first, second in ((A, B), (B, A)):
        D, G, K = (list(f(second.cl)) for f in (first.cl.common_distances, first.cl.common_angles,
                                                first.cl.common_constraints))
        ctx.check("distances", all(isinstance(d, R.Distance) for d in D))
        ctx.check("angles", all(isinstance(a, R.Angle) for a in G))
        KD = [k for k in K if isinstance(k, R.Distance)]
        KG = [k for k in K if isinstance(k, R.Angle)]
        ctx.check("constraints are distances and angles", len(KD) + len(KG) == len(K))
        listed(D, G, "")
        listed(KD, KG, " (constraints)")
    ctx.check("the clusters are not changed", A.state() == A.before and B.state() == B.before)
    ctx.reach("distances" if D else "angles" if G else "nothing")
    if G:
        ctx.reach("angles")
    ctx.observe(len(D), len(G), len(K))


@harness(witnesses=KINDS)
def counts(ctx):
    """counts of a cluster given by any list of points, repeated ones included"""
    ctx.hashing("hash", (0, 2))
    u = Universe()
    kind = ctx.pick("kind", KINDS)
    n = ctx.pick("points", tuple(range(ctx.params["n"] + 1)))
    atoms = ctx.atoms("p", n)
    ids = [u.ix(a) for a in atoms]
    c, rest = None, atoms
    if kind == "hedgehog":
        ctx.assume(n > 0)
        c, rest = ids[0], atoms[1:]
    pts = set(ids) - {c}
    ctx.assume(kind == "rigid" or len(pts) >= (2 if kind == "hedgehog" else 3))
    cl = build(ctx, kind, list(rest), atoms[0] if atoms else None)
    dist, ang = implied(kind, pts, c)
    ctx.reach(kind)
    cl.overconstrained = ctx.flag("marked")
    tally(ctx, cl, len(dist), len(ang))
    k = cl.common_constraints(cl)
    ctx.check("agrees with the common constraints of the cluster with itself", len(k) == cl.n_constraints())
    ctx.observe(cl.n_distances(), cl.n_angles())


def tally(ctx, cl, d, a):
    ctx.check("number of distances", cl.n_distances() == d)
    ctx.check("number of angles", cl.n_angles() == a)
    ctx.check("number of constraints", cl.n_constraints() == d + a)


@harness(witnesses=KINDS)
def many(ctx):
    """large clusters"""
    kind = ctx.pick("kind", KINDS)
    n = ctx.pick("points", tuple(range(0, 70)) + (100, 127, 128, 129, 255, 256, 257, 500, 1000, 2000))
    names = list(range(n))
    arms = n - 1 if kind == "hedgehog" else n
    ctx.assume(kind == "rigid" or n >= 3)
    cl = build(ctx, kind, names[1:] if kind == "hedgehog" else names, 0)
    ctx.reach(kind)
    pairs, triples = arms * (arms - 1) // 2, n * (n - 1) * (n - 2) // 6
    tally(ctx, cl, pairs if kind == "rigid" else 0, pairs if kind == "hedgehog" else 3 * triples)
    # another one, of any kind, and the first again
    k = ctx.pick("more", (0, 1, 2, 5, 8, 10, 16, 32, 64, 100) if n < 70 else (1, 100))
    other = ctx.pick("other kind", KINDS) if k < 3 else kind
    p = n + k
    ctx.assume(other == "rigid" or p >= 3)
    names = list(range(p))
    more = build(ctx, other, names[1:] if other == "hedgehog" else names, 0)
    tally(ctx, more, p * (p - 1) // 2 if other == "rigid" else 0,
          (p - 1) * (p - 2) // 2 if other == "hedgehog" else p * (p - 1) * (p - 2) // 2)
    tally(ctx, cl, pairs if kind == "rigid" else 0, pairs if kind == "hedgehog" else 3 * triples)
    if n <= 12:
        ctx.check("agrees with the common constraints of the cluster with itself",
                  len(cl.common_constraints(cl)) == cl.n_constraints())


# ------------------------------------------------------------------ C18
class Other(object):
    def __init__(self, points):
        self.points = points


def same_points(ctx, p, q):
    """the same two points, in either order"""
    return ctx.any(ctx.all(ctx.eq(p[0], q[0]), ctx.eq(p[1], q[1])), ctx.all(ctx.eq(p[0], q[1]), ctx.eq(p[1], q[0])))


@harness(witnesses=("equal", "different"))
def distances(ctx):
    """any two distances"""
    ctx.hashing("hash")
    R = ctx.m.relation
    p = ctx.atoms("p", 4)
    d, e = R.Distance(p[0], p[1]), relation_class(ctx, R.Distance)(p[2], p[3])
    relate(ctx, d, e, same_points(ctx, p[:2], p[2:]))


@harness(witnesses=("equal", "different"))
def angles(ctx):
    """any two angles of three different points each"""
    ctx.hashing("hash", (0, 2))
    R = ctx.m.relation
    p, q = ctx.atoms("p", 3, True), ctx.atoms("q", 3)
    for a, b in combinations(q, 2):
        ctx.assume(ctx.neg(ctx.eq(a, b)))
    d, e = R.Angle(*p), relation_class(ctx, R.Angle)(*q)
    relate(ctx, d, e, ctx.all(ctx.eq(p[1], q[1]), same_points(ctx, (p[0], p[2]), (q[0], q[2]))))


def relation_class(ctx, base):
    """the class itself or one derived from it"""
    return type("Measured", (base,), {}) if ctx.flag("derived") else base


def relate(ctx, d, e, same):
    def iff(label, got):
        ctx.check(label, ctx.iff(bool(got), same))
    eq = bool(d == e)
    ctx.reach("equal" if eq else "different")
    iff("equal exactly when they are the same", eq)
    iff("equal exactly when they are the same", e == d)
    iff("unequal is the opposite", not (d != e))
    iff("unequal is the opposite", not (e != d))
    ctx.check("equal to itself", bool(d == d) and not bool(d != d))
    ctx.check("equal hashes", ctx.implies(same, hash(d) == hash(e)))
    s = set([d, e])
    iff("sets hold each once", len(s) == 1)
    ctx.check("both in the set", d in s and e in s and len(s) in (1, 2))
    iff("found in a set", e in set([d]))
    iff("lookup", {d: 1}.get(e) == 1)
    s.discard(e)
    iff("removed from a set", d not in s)
    ctx.observe(eq)


@harness(witnesses=("done",))
def strangers(ctx):
    """a distance and an angle, and anything else, are unequal"""
    ctx.hashing("hash")
    R = ctx.m.relation
    u = Universe()
    p = ctx.atoms("p", 5)
    for a in p:
        u.ix(a)
    d, a = R.Distance(p[0], p[1]), R.Angle(p[2], p[3], p[4])
    ctx.check("a distance is no angle", not (d == a) and not (a == d) and d != a and a != d)
    ctx.check("both kept in a set", len(set([d, a])) == 2)
    for r in (d, a):
        for x in (None, 0, "", p[0], tuple(r.points), list(r.points), frozenset(r.points), Other(r.points), R.Distance,
                  hash(r)):
            ctx.check("unequal to anything else", not (r == x) and r != x and not (x == r))
    ctx.reach("done")


@harness(witnesses=("done",))
def relation_points(ctx):
    """a relation keeps its own points"""
    R = ctx.m.relation
    p = ctx.atoms("p", 3, True)
    d, a = R.Distance(p[0], p[1]), R.Angle(*p)
    ctx.check("points in the given order", list(d.points) == p[:2] and list(a.points) == p)
    h = hash(d), hash(a)
    d2, a2 = R.Distance(p[1], p[0]), R.Angle(p[2], p[1], p[0])
    ctx.check("the same either way round", d == d2 and a == a2 and hash(d2) == h[0] and hash(a2) == h[1])
    ctx.check("other vertices differ", not a == R.Angle(p[1], p[0], p[2]) and not a == R.Angle(p[0], p[2], p[1]))
    ctx.reach("done")


# ------------------------------------------------------------------ C19
COLLECTIONS = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "iterator": iter,
               "generator": lambda s: (x for x in s), "keys": lambda s: dict.fromkeys(s).keys()}


@harness(witnesses=KINDS + ("refused",))
def building(ctx):
    """clusters built from any collection of any points"""
    ctx.hashing("hash", (0, 2))
    u = Universe()
    kind = ctx.pick("kind", KINDS)
    how = ctx.pick("collection", sorted(COLLECTIONS))
    n = ctx.pick("points", tuple(range(ctx.params["n"] + 1)))
    atoms = ctx.atoms("p", n)
    center = ctx.atom("centre") if kind == "hedgehog" else None
    ids = [u.ix(a) for a in atoms]
    c = u.ix(center) if kind == "hedgehog" else None
    if ctx.params.get("truth"):
        for a in atoms:
            bool(a)
    given = COLLECTIONS[how](list(atoms))
    want = set(ids) | ({c} if kind == "hedgehog" else set())
    ok = len(set(ids) - {c}) >= 2 if kind == "hedgehog" else len(want) >= 3 if kind == "balloon" else True
    try:
        cl = build(ctx, kind, given, center)
    except Exception:
        cl = None
    ctx.check("accepted exactly with enough points", (cl is not None) == ok)
    lasting = how not in ("iterator", "generator")
    if lasting:
        now = [u.find(a) for a in given]
        ctx.check("the given collection is not changed",
                  now == ids if how in ("list", "tuple") else sorted(now) == sorted(set(ids)))
    if cl is None:
        ctx.reach("refused")
        return
    ctx.reach(kind)

    def intact(cl, label):
        v = [u.find(a) for a in cl.var_list()]
        ctx.check(label, sorted(v) == sorted(want) and numbers(u, cl.vars) == sorted(want))
        if kind == "hedgehog":
            ctx.check("the centre first", v[:1] == [c])
            ctx.check("centre and arms", u.find(cl.c_var) == c and numbers(u, cl.x_vars) == sorted(set(ids) - {c}))
    intact(cl, "exactly the distinct points, once each")
    ctx.check("not overconstrained to begin with", not cl.overconstrained)
    other = build(ctx, kind, list(atoms), center)
    # changing what it was built from, and what it lists, changes nothing
    if how in ("list", "set"):
        given.clear()
        intact(cl, "independent of the given collection")
    cl.var_list().clear()
    intact(cl, "independent of the points listed")
    cl.vars.discard(cl.var_list()[0] if cl.var_list() else None)
    if kind == "hedgehog":
        cl.x_vars.clear()
    cl.overconstrained = True
    intact(other, "independent of other clusters")
    ctx.check("independent of other clusters", not other.overconstrained)
    if lasting and how not in ("list", "set"):
        third = build(ctx, kind, given, center)
        intact(third, "built again from the same collection")
    ctx.observe(sorted(want))


@harness(witnesses=KINDS)
def large_building(ctx):
    """many points, some of them given several times, the centre among them or not"""
    ctx.hashing("hash", (0, 1, 2))
    kind = ctx.pick("kind", KINDS)
    how = ctx.pick("collection", sorted(COLLECTIONS))
    n = ctx.pick("points", ctx.params["sizes"])
    names = ctx.atoms("p", n + 1, distinct=True)
    pts = names[:n]
    again = ctx.pick("given again", ("none", "all", "first", "last", "twice"))
    pts = pts + {"none": [], "all": pts, "first": pts[:1], "last": pts[-1:], "twice": pts[::2] + pts[::3]}[again]
    c = names[ctx.pick("centre", (0, n - 1, n))] if kind == "hedgehog" else None
    given = COLLECTIONS[how](list(pts))
    cl = build(ctx, kind, given, c)
    ctx.reach(kind)
    want = list(names[:n]) + ([c] if c is names[n] else [])
    ctx.check("exactly the distinct points, once each", objects(cl.var_list()) == objects(want) == objects(cl.vars))
    if kind == "hedgehog":
        ctx.check("the centre first", cl.var_list()[0] is c)
        ctx.check("centre and arms", cl.c_var is c and objects(cl.x_vars) == objects(a for a in names[:n] if a is not c))
    if how in ("list", "set"):
        ctx.check("the given collection is not changed", objects(given) == objects(pts if how == "list" else names[:n]))
        given.clear()
        ctx.check("independent of the given collection", objects(cl.var_list()) == objects(want))
    ctx.observe(len(want))


@harness(witnesses=("done",))
def shared_points(ctx):
    """two clusters built from one collection"""
    ctx.hashing("hash", (0, 2))
    u = Universe()
    p = ctx.atoms("p", 4, True)
    for a in p:
        u.ix(a)
    given = ctx.pick("collection", (list, set))(p)
    k1, k2 = ctx.pick("first", KINDS), ctx.pick("second", KINDS)
    one, two = build(ctx, k1, given, p[0]), build(ctx, k2, given, p[0])
    ctx.check("the given collection is not changed", numbers(u, given) == [0, 1, 2, 3])
    s = state(u, two)
    one.vars.clear()
    if k1 == "hedgehog":
        one.x_vars.clear()
    ctx.check("clusters do not share their points", state(u, two) == s)
    ctx.check("the given collection is not changed", numbers(u, given) == [0, 1, 2, 3])
    given.clear()
    ctx.check("independent of the given collection", state(u, two) == s)
    ctx.reach("done")


@harness(witnesses=("none", "some"))
def crowded(ctx):
    """clusters of many points, numbered from below zero"""
    n, m = ctx.params["sizes"]
    both = ctx.pick("shared", (0, 1, 2, 3, 4, min(n, m) - 1, min(n, m)))
    p = list(range(-1, n + m - both - 1))
    R = ctx.m.relation
    given = []
    for tag, pts in (("a", p[:n]), ("b", p[n - both:])):
        kind = ctx.pick("kind " + tag, KINDS)
        c = ctx.pick("centre " + tag, (pts[0], pts[-1], pts[len(pts) // 2])) if kind == "hedgehog" else None
        given.append((build(ctx, kind, [v for v in pts if v != c], c), implied(kind, pts, c), pts))
    (a, ia, pa), (b, ib, pb) = given
    dist, ang = ia[0] & ib[0], ia[1] & ib[1]
    ctx.reach("some" if dist or ang else "none")
    for x, y in ((a, b), (b, a)):
        if ctx.params["ask"] == "intersection":
            r = x.intersection(y)
            ctx.check("there is none exactly when nothing is implied by both", (r is None) == (not dist and not ang))
            if r is not None:
                kind = what_kind(ctx, r)
                ctx.check("a cluster", kind is not None)
                got = implied(kind, sorted(r.vars), r.c_var if kind == "hedgehog" else None)
                ctx.check("exactly the distances implied by both", got[0] == dist)
                ctx.check("exactly the angles implied by both", got[1] == ang)
        else:
            D, G, K = list(x.common_distances(y)), list(x.common_angles(y)), list(x.common_constraints(y))
            for what, ks in (("", D + G), (" (constraints)", K)):
                d = [frozenset(k.points) for k in ks if isinstance(k, R.Distance)]
                g = [(k.points[1], frozenset((k.points[0], k.points[2]))) for k in ks if isinstance(k, R.Angle)]
                ctx.check("each once" + what, len(set(d)) == len(d) and len(set(g)) == len(g) and len(d) + len(g) == len(ks))
                ctx.check("exactly the distances both imply" + what, set(d) == dist)
                ctx.check("exactly the angles both imply" + what, set(g) == ang)
    ctx.check("the clusters are not changed", sorted(a.vars) == pa and sorted(b.vars) == pb)
