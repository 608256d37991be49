"""C20 and C24 (doubles): tolerant comparisons."""
from decimal import Decimal
from fractions import Fraction

from .common import harness


def call(ctx, f, a, b, given, rel, ab):
    if given == "none":
        return f(a, b)
    if given == "both":
        return f(a, b, rel, ab)
    if given == "keywords":
        return f(a, b, abs_tol=ab, rel_tol=rel)
    if given == "relative":
        return f(a, b, rel_tol=rel)
    return f(a, b, abs_tol=ab)


GIVEN = ("none", "both", "keywords", "relative", "absolute")


def trichotomy(ctx, S, a, b, given, rel, ab):
    lt, eq, gt, le, ge = [bool(call(ctx, f, a, b, given, rel, ab))
                          for f in (S.tol_lt, S.tol_eq, S.tol_gt, S.tol_le, S.tol_ge)]
    ctx.check("exactly one of less, equal, greater", lt + eq + gt == 1)
    ctx.check("less or equal is not greater", le == (not gt))
    ctx.check("greater or equal is not less", ge == (not lt))
    ctx.reach("less" if lt else "equal" if eq else "greater")
    ctx.observe(lt, eq, gt, le, ge)
    return lt, eq, gt


@harness(theory="fp", witnesses=("less", "equal", "greater"), fp_sums=True)
def doubles(ctx):
    """any two finite doubles, any finite non-negative tolerances"""
    S = ctx.m.geometry.Scalar
    a, b = ctx.double("a"), ctx.double("b")
    given = ctx.params["given"]
    rel = ab = None
    if given in ("both", "keywords", "relative"):
        rel = ctx.double("rel")
        ctx.assume(ctx.ge(rel, 0.0))
    if given in ("both", "keywords", "absolute"):
        ab = ctx.double("abs")
        ctx.assume(ctx.ge(ab, 0.0))
    lt, eq, gt = trichotomy(ctx, S, a, b, given, rel, ab)
    # which way: the order itself is exact
    if lt:
        ctx.check("less", ctx.lt(a, b))
    if gt:
        ctx.check("greater", ctx.gt(a, b))


@harness(theory="real", witnesses=("less", "equal", "greater"))
def reals(ctx):
    """the formula, over the reals"""
    S = ctx.m.geometry.Scalar
    plain = ctx.pick("plain", (None, 0, 1, -2.5))
    a = ctx.real("a")
    b = ctx.real("b") if plain is None else plain
    if plain is not None and ctx.flag("first"):
        a, b = b, a
    given = ctx.pick("given", GIVEN)
    rel, ab = 1e-5, 1e-8
    if given in ("both", "keywords", "relative"):
        rel = ctx.real("rel", 0) if ctx.flag("rel given") else 0
    if given in ("both", "keywords", "absolute"):
        ab = ctx.real("abs", 0) if ctx.flag("abs given") else 0
    lt, eq, gt = trichotomy(ctx, S, a, b, given, rel, ab)
    a, b, ab, rel = ctx.num(a), ctx.num(b), ctx.num(ab), ctx.num(rel)
    d = a - b
    for sign in (1, -1):
        # |b| = sign * b where that is non-negative
        mb = sign * b
        lim = ab + rel * mb
        ctx.check("equal exactly within the tolerance", ctx.implies(
            ctx.ge(mb, 0), ctx.iff(eq, ctx.all(ctx.le(d, lim), ctx.ge(d, -lim)))))


KINDS = ((3, 4), (0, 1), (-2, 2), (10 ** 6, 10 ** 6 + 3), (True, 1), (7, Fraction(15, 2)), (Fraction(-1, 4), -1), (Decimal("0.5"), 2), (5, 5), (-3, 2.5))


@harness(theory="real", witnesses=("less", "equal", "greater"))
def numbers(ctx):
    """numbers of any kind (whole numbers, fractions, decimals), any tolerances"""
    S = ctx.m.geometry.Scalar
    a, b = ctx.pick("numbers", KINDS)
    if ctx.flag("swapped"):
        a, b = b, a
    given = ctx.pick("given", GIVEN)
    rel, ab = 1e-5, 1e-8
    if given in ("both", "keywords", "relative"):
        rel = ctx.real("rel", 0)
    if given in ("both", "keywords", "absolute"):
        ab = ctx.real("abs", 0)
    eq = bool(call(ctx, S.tol_eq, a, b, given, rel, ab))
    lim = ctx.num(ab) + ctx.num(rel) * ctx.num(abs(float(b)))
    ctx.check("equal exactly within the tolerance", ctx.iff(eq, ctx.ge(lim, ctx.num(abs(float(a) - float(b))))))
    if Decimal in (type(a), type(b)):
        return
    for name, f, want in (("tol_lt", S.tol_lt, a < b and not eq), ("tol_gt", S.tol_gt, a > b and not eq),
                          ("tol_le", S.tol_le, a < b or eq), ("tol_ge", S.tol_ge, a > b or eq)):
        ctx.check(name, bool(call(ctx, f, a, b, given, rel, ab)) == want)
    ctx.reach("equal" if eq else "less" if a < b else "greater")
    ctx.observe(eq)


@harness(theory="real", witnesses=("zero", "not zero"))
def zero(ctx):
    S = ctx.m.geometry.Scalar
    a = ctx.real("a")
    given = ctx.pick("given", ("none", "both", "keywords", "absolute"))
    ab, rel = 1e-8, 1e-5
    if given != "none":
        ab = ctx.real("abs", 0)
        rel = ctx.real("rel", 0)
    z = bool(S.tol_zero(a) if given == "none" else S.tol_zero(a, rel, ab) if given == "both" else
             S.tol_zero(a, rel_tol=rel, abs_tol=ab) if given == "keywords" else S.tol_zero(a, abs_tol=ab))
    ctx.check("zero exactly within the absolute tolerance", ctx.iff(z, ctx.all(ctx.le(a, ab), ctx.ge(a, -ab))))
    ctx.reach("zero" if z else "not zero")
    ctx.observe(z)


@harness(theory="real", witnesses=("equal", "not equal"))
def own_tolerances(ctx):
    """a derived class with tolerances of its own, next to the class itself"""
    S = ctx.m.geometry.Scalar
    rel, ab = ctx.real("rel", 0), ctx.real("abs", 0)
    which = ctx.pick("own", ("rel_tol", "abs_tol", "both"))
    own = {}
    if which != "abs_tol":
        own["rel_tol"] = rel
    if which != "rel_tol":
        own["abs_tol"] = ab
    D = type("Own", (S,), own)
    rel, ab = ctx.num(own.get("rel_tol", 1e-5)), ctx.num(own.get("abs_tol", 1e-8))
    a, b = ctx.real("a"), ctx.real("b", 0, 100)
    d = a - b

    def within(lim):
        return ctx.all(ctx.le(d, lim), ctx.ge(d, -lim))
    for C, lim in ((D, ab + rel * b), (S, ctx.num(1e-8) + ctx.num(1e-5) * b), (D, ab + rel * b)):
        eq = bool(C.tol_eq(a, b))
        ctx.check("equal exactly within the class's tolerance", ctx.iff(eq, within(lim)))
    lt, gt, le, ge = [bool(f(a, b)) for f in (D.tol_lt, D.tol_gt, D.tol_le, D.tol_ge)]
    ctx.check("exactly one of less, equal, greater", lt + eq + gt == 1)
    ctx.check("less or equal is not greater", le == (not gt) and ge == (not lt))
    ctx.check("zero exactly within the class's tolerance", ctx.iff(bool(D.tol_zero(a)), ctx.all(ctx.le(a, ab), ctx.ge(a, -ab))))
    ctx.reach("equal" if eq else "not equal")


@harness(theory="real", witnesses=("done",))
def stateless(ctx):
    """tolerances given once do not stick"""
    S = ctx.m.geometry.Scalar
    a, b = ctx.real("a"), ctx.real("b", 0, 100)
    rel, ab = ctx.real("rel", 0), ctx.real("abs", 0)
    f = ctx.pick("first", ("tol_eq", "tol_zero", "tol_gt", "tol_lt", "tol_ge", "tol_le"))
    if f == "tol_zero":
        S.tol_zero(a, rel, ab)
    else:
        getattr(S, f)(a, b, rel, ab)
    d = a - b
    lim = ctx.num(1e-8) + ctx.num(1e-5) * b
    ctx.check("defaults afterwards", ctx.iff(bool(S.tol_eq(a, b)), ctx.all(ctx.le(d, lim), ctx.ge(d, -lim))))
    ctx.reach("done")


# ------------------------------------------------------------ C24 in doubles
@harness(theory="fp", witnesses=("clockwise", "counter-clockwise", "flat"), fp_sums=True)
def orientation_doubles(ctx):
    """never two of clockwise, counter-clockwise and flat; one of them unless arithmetic overflows"""
    g = ctx.m.geometry
    p = [g.Vector(ctx.double("x%d" % i), ctx.double("y%d" % i)) for i in range(3)]
    cw, ccw, fl = bool(g.is_clockwise(*p)), bool(g.is_counterclockwise(*p)), bool(g.is_flat(*p))
    ctx.check("at most one", cw + ccw + fl <= 1)
    if cw + ccw + fl == 0:
        lim = 1e150
        ctx.check("one of them", ctx.any(*[ctx.any(ctx.rel(c, ">", lim), ctx.rel(c, "<", -lim))
                                           for q in p for c in (q.x, q.y)]))
    else:
        ctx.reach("clockwise" if cw else "counter-clockwise" if ccw else "flat")
    ctx.observe(cw, ccw, fl)
