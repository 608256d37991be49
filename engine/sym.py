"""Symbolic values, path contexts and the path explorer."""
import math as _m
import builtins as _b
import random
import signal
import time
import hashlib
from fractions import Fraction

import z3

from .algebra import Algebra, ONE, const_of
from .shared import Shared, name_text, plain_name, plain_index

CUR = None      # the active path context


# ---------------------------------------------------------------- signals
class Steer(BaseException):
    """leaves the path; BaseException so that code under test cannot catch it"""


class Infeasible(Steer):
    pass


class Unsupported(Steer):
    pass


class OutOfBudget(Steer):
    pass


class PathTimeout(Steer):
    pass


def unsupported(what):
    raise Unsupported(what)


def _nn(x):
    if isinstance(x, SymReal):
        return x.nn
    return isinstance(x, (int, float)) and x >= 0


# ------------------------------------------------------------------ SymReal
class SymReal(object):
    """a real-valued rational function in normal form"""
    __slots__ = ("r", "nn")
    _is_sym_real = True

    def __init__(self, r, nn=False):
        self.r = r
        self.nn = nn        # built as a sum or product of squares: not negative

    # arithmetic
    def _other(self, o):
        if isinstance(o, SymReal):
            return o.r
        if isinstance(o, SymInt):
            return None
        if isinstance(o, (int, float, Fraction)):
            return CUR.alg.const(o)
        if hasattr(o, "dtype") and getattr(o, "shape", None) == ():
            return self._other(o.item())
        return None

    def __add__(self, o):
        r = self._other(o)
        if r is None:
            return NotImplemented
        v = mk(CUR.alg.add(self.r, r))
        if self.nn and _nn(o):
            v.nn = True
        return v
    __radd__ = __add__

    def __sub__(self, o):
        r = self._other(o)
        return NotImplemented if r is None else mk(CUR.alg.add(self.r, r, -1))

    def __rsub__(self, o):
        r = self._other(o)
        return NotImplemented if r is None else mk(CUR.alg.add(r, self.r, -1))

    def __mul__(self, o):
        r = self._other(o)
        if r is None:
            return NotImplemented
        v = mk(CUR.alg.mul(self.r, r))
        if self.r == r or self.nn and _nn(o):
            v.nn = True
        return v
    __rmul__ = __mul__

    def __truediv__(self, o):
        r = self._other(o)
        if r is None:
            return NotImplemented
        v = div(self.r, r)
        if CUR.rounding:
            v = CUR.rounded(v)
        if self.nn and _nn(o):
            v.nn = True
        return v

    def __rtruediv__(self, o):
        r = self._other(o)
        if r is None:
            return NotImplemented
        return CUR.rounded(div(r, self.r)) if CUR.rounding else div(r, self.r)

    def __neg__(self):
        return mk(CUR.alg.neg(self.r))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.nn else SymReal(CUR.alg.abs(self.r), True)

    def __pow__(self, n):
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return 1 / (self ** (-n))
            r = CUR.alg.const(1)
            for _ in range(n):
                r = CUR.alg.mul(r, self.r)
            return SymReal(r, n % 2 == 0 or self.nn)
        if n == 0.5:
            return sym_sqrt(self)
        unsupported("power %r" % (n,))

    def __rpow__(self, o):
        unsupported("symbolic exponent")

    # comparisons: decided at once, so that plain Python bools come out
    def _cmp(self, o, op):
        r = self._other(o)
        if r is None:
            if o == _m.inf:
                return op in ("<", "<=", "!=")
            return NotImplemented
        if self.nn and isinstance(o, (int, float)) and (o < 0 or o == 0 and op in ("<", ">=")):
            return op in (">", ">=", "!=")
        return CUR.decide_cmp(CUR.alg.add(self.r, r, -1), op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self._cmp(o, "==")
        return r if r is NotImplemented else not r

    def __bool__(self):
        return CUR.decide_cmp(self.r, "!=")

    def __hash__(self):
        return 0

    # numpy object-array hooks
    def sqrt(self):
        return sym_sqrt(self)

    def hypot(self, o):
        return sym_sqrt(self * self + o * o)

    def arctan2(self, o):
        return sym_atan2(self, o)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def cos(self):
        return sym_cos_sin(self)[0]

    def sin(self):
        return sym_cos_sin(self)[1]

    def arccos(self):
        return sym_acos(self)

    def is_integer(self):
        return False

    # places a real number is needed
    def __float__(self):
        unsupported("float() of a symbolic real in native code")

    def __int__(self):
        unsupported("int() of a symbolic real in native code")

    def __index__(self):
        unsupported("index from a symbolic real")

    def __round__(self, n=None):
        c = CUR.alg.rat_const(self.r)
        if c is not None:
            return real_const(round(c, n) if n is not None else round(c))
        # halves go up (Python's go to the even neighbour)
        k = 10 ** (n or 0) if (n or 0) >= 0 else Fraction(1, 10 ** -n)
        return sym_floor(self * k + Fraction(1, 2)) / k

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __trunc__(self):
        return sym_trunc(self)

    def __floordiv__(self, o):
        r = self._other(o)
        return NotImplemented if r is None else sym_floor(div(self.r, r))

    def __rfloordiv__(self, o):
        r = self._other(o)
        return NotImplemented if r is None else sym_floor(div(r, self.r))

    def __mod__(self, o):
        r = self._other(o)
        return NotImplemented if r is None else self - sym_floor(div(self.r, r)) * mk(r)

    def __rmod__(self, o):
        r = self._other(o)
        return NotImplemented if r is None else mk(r) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __format__(self, spec):
        return "<real>"

    def __repr__(self):
        return "<real>"
    __str__ = __repr__


def mk(r):
    c = CUR.alg.rat_const(r)
    if c is not None and CUR.concretise_constants:
        # keep exactness: constants stay symbolic reals with no symbols
        return SymReal(r)
    return SymReal(r)


def real_const(x):
    return SymReal(CUR.alg.const(x))


def div(a, b):
    if CUR.decide_cmp(b, "=="):
        raise ZeroDivisionError("float division by zero")
    alg = CUR.alg
    return mk(alg.mul(a, alg.inv(b)))


def is_real(x):
    return isinstance(x, SymReal)


def to_rat(x):
    return x.r if isinstance(x, SymReal) else CUR.alg.const(x)


# -------------------------------------------------------- math on SymReal
def sym_sqrt(x):
    r = to_rat(x)
    alg = CUR.alg
    c = alg.rat_const(r)
    if c is not None:
        if c < 0:
            raise ValueError("math domain error")
    elif not _nn(x) and not (alg.is_sos(r[0]) and all(alg.base_nonneg[b] or e % 2 == 0 for b, e in r[1])):
        if CUR.decide_cmp(r, "<"):
            raise ValueError("math domain error")
    return SymReal(alg.sqrt(r), True)


def sym_hypot(*xs):
    t = real_const(0)
    for x in xs:
        t = t + x * x
    return sym_sqrt(t)


PI = const_of(_m.pi)


def sym_acos(x):
    r = to_rat(x)
    alg = CUR.alg
    c = alg.rat_const(r)
    if c is not None and c in (-1, 0, 1):
        return real_const({-1: PI, 0: PI / 2, 1: 0}[c])
    if CUR.decide_cmp(alg.add(r, alg.const(1), -1), ">") or \
            CUR.decide_cmp(alg.add(r, alg.const(1)), "<"):
        raise ValueError("math domain error")
    k = ("acos", alg.key(r))
    if k not in alg.memo:
        # acos(-t) = pi - acos(t)
        kn = ("acos", alg.key(alg.neg(r)))
        if kn in alg.memo:
            return mk(alg.add(alg.const(PI), alg.var(alg.memo[kn]), -1))
        alg.memo[k] = alg.symbol("acos", "acos%d" % len(alg.kind), r)
    return mk(alg.var(alg.memo[k]))


def sym_floor(x):
    r = to_rat(x)
    alg = CUR.alg
    c = alg.rat_const(r)
    if c is not None:
        return real_const(_m.floor(c))
    num, den = r
    if not den and all(c.denominator == 1 and all(alg.kind[i] == "floor" for i, _ in m) for m, c in num.items() if m):
        # an integer and a constant
        whole = {m: c for m, c in num.items() if m}
        return mk((whole, ())) + real_const(_m.floor(num.get((), 0)))
    k = ("floor", alg.key(r))
    if k not in alg.memo:
        alg.memo[k] = alg.symbol("floor", "floor%d" % len(alg.kind), r)
    return mk(alg.var(alg.memo[k]))


def sym_trunc(x):
    if _nn(x) or x >= 0:
        return sym_floor(x)
    return -sym_floor(-x)


def sym_fmod(x, y):
    q = x / y if isinstance(x, SymReal) else real_const(x) / y
    return x - y * sym_trunc(q)


def sym_asin(x):
    return real_const(PI / 2) - sym_acos(x)


def sym_atan2(y, x):
    h = sym_hypot(y, x)
    if h == 0:
        return real_const(0)
    a = sym_acos(x / h)
    return -a if y < 0 else a


def sym_atan(x):
    return sym_atan2(x, real_const(1))


def sym_cos_sin(x):
    """(cos x, sin x) by the addition theorem over the terms of x"""
    alg = CUR.alg
    num, den = to_rat(x)
    if den:
        terms = [((num, den), 1)]
    else:
        terms = [(({m: c}, ()), 1) for m, c in sorted(num.items())]
    C, S = alg.const(1), alg.const(0)
    for (n, d), _ in terms:
        if not n:
            continue
        c, s = _cs_term(n, d)
        C, S = (alg.add(alg.mul(C, c), alg.mul(S, s), -1),
                alg.add(alg.mul(S, c), alg.mul(C, s)))
    return mk(C), mk(S)


def _cs_term(n, d):
    alg = CUR.alg
    lead = alg.plead(n)
    sign = 1
    if n[lead] < 0:
        sign, n = -1, alg.pscale(n, -1)
    if not d and len(n) == 1:
        (m, c), = n.items()
        if m == ONE:            # multiples of pi/2 exactly, others as a key
            q = c / PI * 2
            if abs(q - round(q)) < Fraction(1, 10 ** 12):
                k = int(round(q)) % 4
                return (alg.const([1, 0, -1, 0][k]), alg.const(sign * [0, 1, 0, -1][k]))
            return alg.const(_m.cos(float(c))), alg.const(sign * _m.sin(float(c)))
        if len(m) == 1 and m[0][1] == 1 and alg.kind[m[0][0]] == "acos" and \
                c.denominator == 1 and c <= 4:
            # angle = k * acos(t): cos = t, sin = sqrt(1 - t^2)
            t = alg.arg[m[0][0]]
            s = alg.sqrt(alg.add(alg.const(1), alg.mul(t, t), -1))
            C, S = alg.const(1), alg.const(0)
            for _ in range(int(c)):
                C, S = (alg.add(alg.mul(C, t), alg.mul(S, s), -1),
                        alg.add(alg.mul(S, t), alg.mul(C, s)))
            return C, (S if sign > 0 else alg.neg(S))
    k = ("cs", alg.key((n, d)))
    if k not in alg.memo:
        ci = alg.symbol("cos", "cos%d" % len(alg.kind), (n, d))
        si = alg.symbol("sin", "sin%d" % len(alg.kind), (n, d))
        alg.partner[ci], alg.partner[si] = si, ci
        alg._sq[si] = {ONE: Fraction(1), ((ci, 2),): Fraction(-1)}
        alg.memo[k] = (ci, si)
    ci, si = alg.memo[k]
    s = alg.var(si)
    return alg.var(ci), (s if sign > 0 else alg.neg(s))


# ------------------------------------------------------------------- SymInt
class SymInt(object):
    """an integer term (inputs, arithmetic, uninterpreted functions)"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _o(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        return None

    def _bin(self, o, f):
        e = self._o(o)
        return NotImplemented if e is None else SymInt(f(self.e, e))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def _cmp(self, o, f):
        e = self._o(o)
        if e is None:
            return NotImplemented
        return CUR.decide(f(self.e, e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return CUR.decide(self.e != 0)

    def __hash__(self):
        return 0

    def __float__(self):
        unsupported("float of symbolic int")

    def __index__(self):
        unsupported("index from symbolic int")

    def __int__(self):
        unsupported("int of symbolic int")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<int>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<int>"


# --------------------------------------------------------------------- Atom
class Atom(object):
    """an opaque hashable name; which other names it equals is symbolic"""
    __slots__ = ("name", "cls", "ctx")

    def __init__(self, ctx, name):
        self.ctx, self.name, self.cls = ctx, name, None

    def resolve(self):
        if self.cls is None:
            self.cls = self.ctx.resolve_atom(self)
        return self.cls

    def __hash__(self):
        return self.ctx.class_hash(self.resolve())

    def __eq__(self, o):
        if isinstance(o, Atom):
            return self.resolve() == o.resolve()
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, Atom):
            return self.resolve() != o.resolve()
        return NotImplemented

    def __bool__(self):
        return self.ctx.class_truth(self.resolve())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return self.ctx.class_text(self)
    __str__ = __repr__


class FreeName(object):
    """any name at all: only used inside conditions (universally quantified)"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


# -------------------------------------------------------------------- SymFP
RNE = z3.RNE()
F64 = z3.Float64()


class SymFP(object):
    """an IEEE double"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _o(o):
        if isinstance(o, SymFP):
            return o.e
        if isinstance(o, (int, float)):
            return z3.FPVal(float(o), F64)
        return None

    def _bin(self, o, f, swap=False):
        e = self._o(o)
        if e is None:
            return NotImplemented
        a, b = (e, self.e) if swap else (self.e, e)
        return SymFP(f(RNE, a, b))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._bin(o, z3.fpDiv, True)

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def _cmp(self, o, f):
        e = self._o(o)
        if e is None:
            return NotImplemented
        return CUR.decide(f(self.e, e))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return CUR.decide(z3.Not(z3.fpIsZero(self.e)))

    def __hash__(self):
        return 0

    def __float__(self):
        unsupported("float of symbolic double in native code")

    def __int__(self):
        unsupported("int of symbolic double")

    def __repr__(self):
        return "<double>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<double>"


SYM_NUM = (SymReal, SymFP)
SYMBOLIC = (SymReal, SymFP, SymInt)


# ------------------------------------------------------------------ stats
class Stats(object):
    FIELDS = ("paths", "infeasible", "decisions", "forks", "queries", "solver_s", "goals",
              "goals_by_normal_form", "unknown_branch", "validated", "validation_diverged")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


NSAMPLES = 40


class Ctx(Shared):
    """one symbolic path"""
    symbolic = True
    concretise_constants = False
    lift_floats = True

    def __init__(self, mods, prefix, stats, opts):
        self.m = mods
        self.prefix = prefix
        self.taken = []         # decisions taken on this path
        self.alts = []          # unexplored siblings
        self.pos = 0
        self.stats = stats
        self.opts = opts
        self.theory = opts.get("theory", "int")
        self.rounding = opts.get("rounding", False)
        self.roundings = 0
        self.alg = Algebra()
        self.z3vars = {}
        self.pc = []            # path condition (z3)
        self.pc_syms = []       # symbols in it
        self.inputs = {}        # name -> descriptor
        self.goals = []
        self.memo = {}
        self.margins = {}
        self.keep = []
        self.classes = []       # atom classes: representative list
        self.hash_variant = 0
        self.plain_names = 0
        self.falsy_class = None
        self.uf_apps = []
        self.trace = []
        self.reached = set()
        self.params = {}
        self.solver = None
        self.samples = None
        self.n_samples = opts.get("samples", NSAMPLES)
        if self.theory == "real":
            self.samples = [{} for _ in range(self.n_samples)]
            self.alive = list(range(self.n_samples))
            self.alg.sign = self.known_sign
            self.signs = {}
        else:
            # one solver object per process; a path is one push level of it
            self.solver = opts["solver"] if opts.get("solver") is not None else z3.Solver()
            self.solver.set("timeout", int(opts.get("branch_ms", 2000)))
            self.alive = None
            self.fp_memo = {}

    # ---------------------------------------------------------- plumbing
    def _record(self, val):
        self.taken.append(val)

    def _next_forced(self):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            return v
        return None

    def _check(self, *fs):
        """sat / unsat / unknown of the path condition with fs (int/fp theories)"""
        t = time.time()
        if self.theory == "fp":
            r = self._check_fp(fs)
        else:
            r = self.solver.check(*fs)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    # doubles: products are first abstracted by what IEEE arithmetic guarantees of their
    # sign, size and definedness; only what that leaves open is decided exactly
    fp_exact = False

    def _check_fp(self, fs):
        r = self.solver.check(*[self.fp_abstract(f) for f in fs])
        if r == z3.unsat or not self.fp_exact:
            return r
        m = self.fp_guess(fs)
        if m is not None:
            self.fp_model = m
            return z3.sat
        if self.fp_exact == "guess":
            return z3.unknown
        self.fp_model = None
        self.fp_solver = z3.Solver()
        self.fp_solver.set("timeout", int(self.opts.get("goal_ms", 20000)))
        self.fp_solver.add(*self.pc)
        self.fp_solver.add(*fs)
        return self.fp_solver.check()

    def model(self):
        if self.theory == "fp":
            return self.fp_model or self.fp_solver.model()
        return self.solver.model()

    def fp_guess(self, fs):
        """a model with simple inputs, found by trying (confirmed by evaluation)"""
        ins = [v for k, v in self.inputs.values() if k == "double"]
        rnd = random.Random(len(self.pc))
        for n in range(60 if self.fp_exact == "guess" else 25):
            vals = []
            for v in ins:
                x = float(rnd.randint(-3, 3))
                t = rnd.random()
                if t < 0.2:
                    x = rnd.choice((0.0, 1e-9, -1e-9, 1e-8, 1e-5, 1.0, 1e8, -1e8))
                elif t < 0.35 and vals:
                    x = rnd.choice(vals) * rnd.choice((1.0, 1.0, -1.0, 1 + 1e-6, 1 + 2e-5))
                vals.append(x)
            m = FpModel([(v, z3.FPVal(x, F64)) for v, x in zip(ins, vals)])
            if all(z3.is_true(m.eval(f)) for f in list(self.pc) + list(fs)):
                return m
        return None

    def fp_abstract(self, f):
        k = f.get_id()
        r = self.fp_memo.get(k)
        if r is not None:
            return r
        if f.num_args() == 0:
            r = f
        else:
            a = [self.fp_abstract(c) for c in f.children()]
            if f.decl().kind() == z3.Z3_OP_FPA_MUL:
                r = z3.FP("mul_%d" % len(self.fp_memo), F64)
                x, y = a[1], a[2]
                z = z3.FPVal(0.0, F64)
                fin = [z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))) for v in (x, y)]
                self.solver.add(z3.Implies(z3.And(fin), z3.Not(z3.fpIsNaN(r))))
                for p, q, pos in ((1, 1, 1), (-1, -1, 1), (1, -1, 0), (-1, 1, 0)):
                    cx = z3.fpGEQ(x, z) if p > 0 else z3.fpLEQ(x, z)
                    cy = z3.fpGEQ(y, z) if q > 0 else z3.fpLEQ(y, z)
                    cr = z3.fpGEQ(r, z) if pos else z3.fpLEQ(r, z)
                    self.solver.add(z3.Implies(z3.And(cx, cy, *fin), cr))
                big, top = z3.FPVal(3e150, F64), z3.FPVal(9.5e300, F64)
                self.solver.add(z3.Implies(z3.And([z3.fpLEQ(z3.fpAbs(v), big) for v in (x, y)]),
                                           z3.fpLEQ(z3.fpAbs(r), top)))
            elif self.opts.get("fp_sums") and f.decl().kind() in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
                r = z3.FP("sum_%d" % len(self.fp_memo), F64)
                zero = z3.FPVal(0.0, F64)
                for lim, out in ((1e150, 2e150), (2e150, 4e150), (1e301, 2e301), (3e301, 6e301), (1e302, 1e303)):
                    b, o = z3.FPVal(lim, F64), z3.FPVal(out, F64)
                    self.solver.add(z3.Implies(z3.And([z3.fpLEQ(z3.fpAbs(v), b) for v in (a[1], a[2])]),
                                               z3.fpLEQ(z3.fpAbs(r), o)))
                x = a[1]
                y = a[2] if f.decl().kind() == z3.Z3_OP_FPA_ADD else z3.fpNeg(a[2])
                self.solver.add(z3.Implies(z3.And(z3.fpIsZero(y), z3.Not(z3.fpIsNaN(x))), z3.fpEQ(r, x)),
                                z3.Implies(z3.And(z3.fpIsZero(x), z3.Not(z3.fpIsNaN(y))), z3.fpEQ(r, y)),
                                z3.Implies(z3.And(z3.fpEQ(x, z3.fpNeg(y)), z3.Not(z3.fpIsInf(x))), z3.fpIsZero(r)),
                                z3.Implies(z3.And(z3.fpGEQ(x, zero), z3.fpGEQ(y, zero)), z3.fpGEQ(r, zero)),
                                z3.Implies(z3.And(z3.fpLEQ(x, zero), z3.fpLEQ(y, zero)), z3.fpLEQ(r, zero)))
            else:
                r = f.decl()(*a)
        self.fp_memo[k] = r
        self.keep.append(f)
        return r

    def add(self, f):
        self.pc.append(f)
        if self.solver is not None:
            self.solver.add(self.fp_abstract(f) if self.theory == "fp" else f)

    def decide(self, f):
        """truth of z3 formula f on this path"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(f)
        self.stats.decisions += 1
        v = self._next_forced()
        if v is None:
            nf = z3.Not(f)
            t = self._check(f)
            fl = self._check(nf)
            if t == z3.unknown or fl == z3.unknown:
                self.stats.unknown_branch += 1
            if t == z3.unsat and fl == z3.unsat:
                raise Infeasible()
            if t != z3.unsat and fl != z3.unsat:
                self.stats.forks += 1
                self.alts.append(self.taken + [False])
                v = True
            else:
                v = t != z3.unsat
        self._record(v)
        self.add(f if v else z3.Not(f))
        self.memo[k] = v
        nf = z3.simplify(z3.Not(f))
        self.keep.append(nf)
        self.memo[nf.get_id()] = not v
        return v

    def _pick(self, n, formula=None):
        """n-ary fork; with formula(k), the alternatives the solver says are possible"""
        v = self._next_forced()
        if v is None:
            ks = range(n)
            if formula is not None:
                ks = [k for k in ks if n == 1 or self._check(formula(k)) != z3.unsat]
                if not ks:
                    raise Infeasible()
            v = ks[0]
            for k in ks[1:]:
                self.alts.append(self.taken + [k])
            if len(ks) > 1:
                self.stats.forks += 1
        self._record(v)
        if formula is not None:
            self.add(formula(v))
        return v

    # ------------------------------------------------------------ inputs
    def choice(self, name, n):
        """symbolic selector 0..n-1; every value is explored"""
        if n <= 1:
            self.inputs[name] = ("choice", 0)
            return 0
        self.stats.decisions += 1
        if self.theory == "int":
            sel = z3.Int("sel_" + name)
            k = self._pick(n, lambda j: sel == j)
        else:
            k = self._pick(n)
        self.inputs[name] = ("choice", k)
        return k

    def flag(self, name):
        return bool(self.choice(name, 2))

    def flag_term(self, name):
        """the flag of that name as a condition (not the branch taken)"""
        return z3.Int("sel_" + name) == 1

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def plain_atom(self, name, distinct=False):
        """an ordinary object as name: one there is already, or the next"""
        n = self.plain_names
        k = n if distinct else self._pick(min(n + 1, self.opts.get("max_names") or n + 1))
        if k == n:
            self.plain_names += 1
        self.inputs[name] = ("choice", k)
        return plain_name(self.hash_variant, k)

    def atom(self, name):
        if self.hash_variant >= 10:
            return self.plain_atom(name)
        a = Atom(self, name)
        self.inputs[name] = ("atom", a)
        return a

    def atoms(self, prefix, n, distinct=False):
        out = []
        for i in range(n):
            if self.hash_variant >= 10:
                out.append(self.plain_atom("%s%d" % (prefix, i), distinct))
                continue
            a = self.atom("%s%d" % (prefix, i))
            if distinct:
                if self.theory == "int":
                    me = z3.Int("name_" + a.name)
                    for c in self.classes:
                        self.add(me != z3.Int("name_" + c.name))
                self.classes.append(a)
                a.cls = len(self.classes) - 1
            out.append(a)
        return out

    def resolve_atom(self, a):
        """which class of already resolved names, or a new one"""
        self.stats.decisions += 1
        n = len(self.classes)
        limit = self.opts.get("max_names")
        hi = n if limit and n >= limit else n + 1
        if self.theory == "int":
            me = z3.Int("name_" + a.name)
            reps = [z3.Int("name_" + c.name) for c in self.classes]
            k = self._pick(hi, lambda j: me == reps[j] if j < n else
                           z3.And([me != r for r in reps] or [z3.BoolVal(True)]))
        else:
            k = self._pick(hi)
        if k == len(self.classes):
            self.classes.append(a)
        return k

    HASHES = (lambda k: k + 1,                # ascending in creation order
              lambda k: 64 - 9 * k,           # descending, spread
              lambda k: 7,                    # all collide
              lambda k: (k * 5 + 3) % 16,     # scrambled
              lambda k: (k + 1) // 2 * (5 if k % 2 else -5))

    def hashing(self, name, variants=(0, 1, 2)):
        """choose how names hash (set order, collisions) and print"""
        if self.hash_variant < 10:
            self.hash_variant = variants[self.choice(name, len(variants))]

    def plain_kind(self):
        """names are ordinary objects, if the job says so"""
        kinds = self.params.get("plain")
        if kinds:
            self.hash_variant = kinds[self.choice("name kind", len(kinds))]

    def class_hash(self, k):
        return self.HASHES[self.hash_variant](k)

    def class_text(self, a):
        """names may print alike, or differently in any order"""
        return name_text(self.hash_variant, a.resolve(), a.name)

    def class_truth(self, k):
        """any one name may be falsy (0, '' ...)"""
        if self.falsy_class is None:
            if self.decide_flag("falsy_%d" % k):
                self.falsy_class = k
        return self.falsy_class != k

    def decide_flag(self, name):
        if name in self.memo:
            return self.memo[name]
        v = bool(self._pick(2))
        self.memo[name] = v
        return v

    def int(self, name):
        e = z3.Int("in_" + name)
        self.inputs[name] = ("int", e)
        return SymInt(e)

    def uf(self, fname, *args):
        """application of an uninterpreted function to ints (a fixed but arbitrary function)"""
        if any(a is None for a in args):
            # no value: a function of the others, one for each pattern
            fname += "_" + "".join("n" if a is None else "v" for a in args)
            args = [a for a in args if a is not None]
        es = [SymInt._o(a) for a in args]
        if any(e is None for e in es):
            unsupported("uf argument %r" % (args,))
        f = z3.Function("uf_%s_%d" % (fname, len(es)), *([z3.IntSort()] * (len(es) + 1)))
        r = f(*es)
        self.uf_apps.append((fname, es, r))
        return SymInt(r)

    def pred(self, fname, *args):
        """application of an uninterpreted predicate: a Python bool, forked"""
        r = self.uf("p_" + fname, *args)
        return self.decide(r.e > 0)

    def real(self, name, lo=None, hi=None):
        i = self.alg.symbol("in", name)
        self.inputs[name] = ("real", i)
        rnd = random.Random("%s/%s" % (self.opts.get("seed", 1), name))
        l = -6.0 if lo is None else float(lo)
        h = 6.0 if hi is None else float(hi)
        if h - l > 12:
            l, h = max(l, -6.0), min(h, 6.0) if h > -6 else h
            if l >= h:
                l, h = float(lo), float(hi)
        for s in self.samples:
            t = rnd.random()
            v = rnd.uniform(l, h)
            if t < 0.45:
                v = float(round(v))
            elif t < 0.6:
                v = round(v * 2) / 2.0
            s[i] = min(max(v, l), h)
        if lo is not None and lo >= 0:
            self.alg.nonneg.add(i)
        if lo is not None:
            self.assume_cmp(self.alg.add(self.alg.var(i), self.alg.const(lo), -1), ">=")
        if hi is not None:
            self.assume_cmp(self.alg.add(self.alg.var(i), self.alg.const(hi), -1), "<=")
        return SymReal(self.alg.var(i))

    def rounded(self, v):
        """v as a double division gives it: off by a relative error of up to half a unit in the last place"""
        self.roundings += 1
        e = self.real("rounding%d" % self.roundings, -2.0 ** -53, 2.0 ** -53)
        return mk(self.alg.add(v.r, self.alg.mul(v.r, e.r)))

    def nearby(self, n):
        """inputs tried around the given ones: only these, as they are symbolic; more of them in doubles"""
        return range(1)

    def num(self, x):
        """a constant, for exact arithmetic in the oracle"""
        return x if is_real(x) else real_const(x)

    def angle(self, name):
        """any angle, in radians; only its cosine and sine are constrained"""
        i = self.alg.symbol("in", name)
        self.inputs[name] = ("angle", i)
        rnd = random.Random("%s/%s" % (self.opts.get("seed", 1), name))
        for s in self.samples:
            v = rnd.uniform(-_m.pi, _m.pi)
            if rnd.random() < 0.3:
                v = rnd.choice((-3, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3)) * _m.pi / 3
            s[i] = v
        return SymReal(self.alg.var(i))

    def cossin(self, x):
        return sym_cos_sin(x)

    def degrees(self, x):
        return x / (PI / 180)

    def radians(self, x):
        return x * (PI / 180)

    def sqrt(self, x):
        return sym_sqrt(x)

    def unit(self, name):
        """(cosine, sine) of any angle: any direction"""
        return sym_cos_sin(self.angle(name))

    def double(self, name):
        e = z3.FP("in_" + name, F64)
        self.inputs[name] = ("double", e)
        f = z3.And(z3.Not(z3.fpIsNaN(e)), z3.Not(z3.fpIsInf(e)))
        self.add(f)
        return SymFP(e)

    # --------------------------------------------- real formulas and queries
    def zvar(self, i):
        v = self.z3vars.get(i)
        if v is None:
            v = self.z3vars[i] = z3.Real("%s_%d" % (self.alg.name[i], i))
        return v

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            f = None
            for i, e in m:
                for _ in range(e):
                    f = self.zvar(i) if f is None else f * self.zvar(i)
            k = z3.RealVal(str(c))
            if f is None:
                ts.append(k)
            else:
                ts.append(f if c == 1 else k * f)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}

    def fpoly(self, p, op):
        """z3 formula  p op 0"""
        alg = self.alg
        c = alg.pconst(p)
        if c is not None:
            return z3.BoolVal({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                               "==": c == 0, "!=": c != 0}[op])
        # a non-negative common factor can only make it zero
        seen = {}
        for m in p:
            for i, e in m:
                seen.setdefault(i, []).append(m)
        for i in sorted(seen, reverse=True):
            ms = seen[i]
            if alg.kind[i] == "abs" and len(ms) == 1 and ms[0] == ((i, 1),):
                k = p[ms[0]]
                rest = {m: c for m, c in p.items() if m != ms[0]}
                a = alg.padd(rest, alg.pscale(alg.arg[i], k))
                b = alg.padd(rest, alg.pscale(alg.arg[i], -k))
                if op == "==":
                    return z3.And(self.fpoly(p, "<="), self.fpoly(p, ">="))
                if op == "!=":
                    return z3.Or(self.fpoly(p, "<"), self.fpoly(p, ">"))
                conj = (op in ("<", "<=")) == (k > 0)
                fa, fb = self.fpoly(a, op), self.fpoly(b, op)
                return z3.And(fa, fb) if conj else z3.Or(fa, fb)
            if alg.kind[i] == "sqrt" and len(ms) == 1 and ms[0] == ((i, 1),) and \
                    len(p) <= 2 and (len(p) == 1 or ONE in p):
                # k*s + r op 0  with constant r:  s op' R
                k = p[ms[0]]
                R = -p.get(ONE, Fraction(0)) / k
                o = op if k > 0 else self.FLIP[op]
                P = alg.padd(alg.arg[i], {ONE: R * R} if R else {}, -1)
                if R < 0:
                    return z3.BoolVal(o in (">", ">=", "!="))
                return self.fpoly(P, o)
        z = self.zpoly(p)
        return {"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[op]

    def frat(self, r, op):
        num, den = r
        if op in ("==", "!=") or not den:
            return self.fpoly(num, op)
        return self.fpoly(self.alg.pmul(num, self.alg.den_poly(r, odd_only=True)), op)

    def _rat_syms(self, r, out):
        for m in r[0]:
            for i, _ in m:
                self._sym_closure(i, out)
        for b, _ in r[1]:
            for m in self.alg.bases[b]:
                for i, _ in m:
                    self._sym_closure(i, out)
        return out

    def _sym_closure(self, i, out):
        if i in out:
            return
        out.add(i)
        k, a = self.alg.kind[i], self.alg.arg[i]
        if k in ("sqrt", "abs"):
            self._rat_syms((a, ()), out)
        elif k in ("acos", "floor"):
            self._rat_syms(a, out)
        elif k in ("cos", "sin"):
            out.add(self.alg.partner[i])

    def definitions(self, formulas):
        """defining constraints of every atom mentioned (transitively)"""
        alg = self.alg
        todo, done, out = list(formulas), set(), []
        byname = {}
        for i, v in self.z3vars.items():
            byname[v.decl().name()] = i
        acs = []
        seen_ast = set()
        while todo:
            f = todo.pop()
            for n in _real_names(f, seen_ast):
                i = byname.get(n)
                if i is None or i in done:
                    continue
                done.add(i)
                k = alg.kind[i]
                v = self.zvar(i)
                new = []
                if k == "sqrt":
                    new = [v >= 0, v * v == self.zpoly(alg.arg[i])]
                elif k == "abs":
                    e = self.zpoly(alg.arg[i])
                    new = [v >= 0, z3.Or(v == e, v == -e)]
                elif k in ("cos", "sin"):
                    j = alg.partner[i]
                    done.add(j)
                    w = self.zvar(j)
                    new = [v * v + w * w == 1]
                elif k == "floor":
                    num, den = alg.arg[i]
                    t = z3.Real("t_%d" % i)
                    new = [t * self.zpoly(alg.den_poly(alg.arg[i])) == self.zpoly(num) if den else t == self.zpoly(num),
                           v <= t, t < v + 1, z3.IsInt(v)]
                elif k == "acos":
                    pi = z3.RealVal(str(PI))
                    num, den = alg.arg[i]
                    t = z3.Real("t_%d" % i)
                    new = [t * self.zpoly(alg.den_poly(alg.arg[i])) == self.zpoly(num),
                           t >= -1, t <= 1, v >= 0, v <= pi,
                           z3.Implies(t >= 0, z3.And(v <= pi / 2 - t, v >= pi / 2 - pi / 2 * t)),
                           z3.Implies(t <= 0, z3.And(v >= pi / 2 - t, v <= pi / 2 - pi / 2 * t)),
                           z3.Implies(z3.And(t >= 0, t <= z3.RealVal("1/10")),
                                      v >= pi / 2 - z3.RealVal("1002/1000") * t),
                           z3.Implies(z3.And(t <= 0, t >= z3.RealVal("-1/10")),
                                      v <= pi / 2 - z3.RealVal("1002/1000") * t),
                           z3.Implies(t < 1, v > 0), z3.Implies(t > -1, v < pi)]
                    for (t2, v2) in acs:
                        new.append((t < t2) == (v > v2))
                        new.append((t == t2) == (v == v2))
                    acs.append((t, v))
                for x in new:
                    byname_update = {self.z3vars[q].decl().name(): q for q in self.z3vars}
                    byname = byname_update
                    out.append(x)
                    todo.append(x)
        return out

    # float evaluation on sample points
    def sval(self, i, s):
        v = s.get(i)
        if v is None:
            alg = self.alg
            k, a = alg.kind[i], alg.arg[i]
            try:
                if k == "sqrt":
                    v = _m.sqrt(max(self.peval(a, s), 0.0))
                elif k == "abs":
                    v = abs(self.peval(a, s))
                elif k == "cos":
                    v = _m.cos(self.reval(a, s))
                elif k == "sin":
                    v = _m.sin(self.reval(a, s))
                elif k == "floor":
                    v = float(_m.floor(self.reval(a, s)))
                elif k == "acos":
                    v = _m.acos(min(1.0, max(-1.0, self.reval(a, s))))
            except (ZeroDivisionError, OverflowError, ValueError):
                v = float("nan")
            s[i] = v
        return v

    def peval(self, p, s):
        t = 0.0
        for m, c in p.items():
            f = float(c)
            for i, e in m:
                f *= self.sval(i, s) ** e
            t += f
        return t

    def reval(self, r, s):
        v = self.peval(r[0], s)
        for b, e in r[1]:
            d = self.peval(self.alg.bases[b], s)
            if d == 0:
                return float("nan")
            v /= d ** e
        return v

    @staticmethod
    def _holds(v, op):
        return {"<": v < -1e-11, "<=": v <= 1e-13, ">": v > 1e-11, ">=": v >= -1e-13,
                "==": abs(v) <= 1e-13, "!=": abs(v) > 1e-11}[op]

    NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}

    def decide_cmp(self, r, op):
        alg = self.alg
        c = alg.rat_const(r)
        if c is not None:
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        f = z3.simplify(self.frat(r, op))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(f)
        self.stats.decisions += 1
        yes, no = [], []
        for j in self.alive:
            v = self.reval(r, self.samples[j])
            if self._holds(v, op):
                yes.append(j)
            elif self._holds(v, self.NEG[op]):
                no.append(j)
        v = self._next_forced()
        if v is None:
            t = True if yes else self.real_feasible(f)
            fl = True if no else self.real_feasible(z3.Not(f))
            if not t and not fl:
                raise Infeasible()
            if t and fl:
                self.stats.forks += 1
                self.alts.append(self.taken + [False])
                v = True
            else:
                v = t
        self._record(v)
        self.pc.append(f if v else z3.Not(f))
        self.alive = yes if v else no
        self.memo[k] = v
        g = z3.simplify(z3.Not(f))
        self.keep.append(g)
        self.memo[g.get_id()] = not v
        return v

    def known_sign(self, p):
        """1 or -1 if the path makes the polynomial non-negative or non-positive"""
        k = (self.alg.pkey(p), len(self.pc))
        if k in self.signs:
            return self.signs[k]
        up = dn = True
        for j in self.alive:
            v = self.peval(p, self.samples[j])
            up, dn = up and v > -1e-12, dn and v < 1e-12
            if not up and not dn:
                break
        r = None
        if self.pc and self.alive and up != dn:
            f = self.fpoly(p, "<" if up else ">")
            syms = set(_real_names(f, set()))
            cache = {}
            from .realsolve import _syms
            near = [g for g in self.pc if _syms(self, g, cache) & syms]
            if near:
                q, _ = self.real_query(near + [f], 250)
                if q == z3.unsat:
                    r = 1 if up else -1
        self.signs[k] = r
        return r

    # truth of a formula at a sample point: True, False or None (too close)
    def zholds(self, f, j, eps=1e-12):
        byname = getattr(self, "_byname", None)
        if byname is None or len(byname) != len(self.z3vars):
            byname = self._byname = {v.decl().name(): i for i, v in self.z3vars.items()}
        return _zholds(f, self, self.samples[j], byname, eps)

    def assume_cmp(self, r, op):
        f = z3.simplify(self.frat(r, op))
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.pc.append(f)
        self.alive = [j for j in self.alive if self._holds(self.reval(r, self.samples[j]), op)]

    def real_query(self, fs, ms):
        """z3 on a conjunction with all definitions -> (result, input values)"""
        from .realsolve import ask
        return ask(self, fs, ms)

    def real_feasible(self, f):
        r, _ = self.real_query(self.pc + [f], self.opts.get("branch_ms", 1500))
        if r == z3.unknown:
            self.stats.unknown_branch += 1
        return r != z3.unsat

    # -------------------------------------------------- harness assertions
    # conditions: Python bools or z3 formulas
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        if self.theory == "real":
            self.pc.append(cond)
            self.alive = [j for j in self.alive if self.zholds(cond, j) is True]
        else:
            self.add(cond)

    def rel(self, a, op, b=0):
        """a op b as a condition (no fork)"""
        if isinstance(a, SymFP) or isinstance(b, SymFP):
            x, y = SymFP._o(a), SymFP._o(b)
            return {"<": z3.fpLT(x, y), "<=": z3.fpLEQ(x, y), ">": z3.fpGT(x, y),
                    ">=": z3.fpGEQ(x, y), "==": z3.fpEQ(x, y)}[op]
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            x, y = SymInt._o(a), SymInt._o(b)
            f = z3.simplify({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                             "==": x == y, "!=": x != y}[op])
            return True if z3.is_true(f) else False if z3.is_false(f) else f
        if is_real(a) or is_real(b):
            r = self.alg.add(to_rat(a), to_rat(b), -1)
            f = z3.simplify(self.frat(r, op))
            if z3.is_true(f):
                return True
            if z3.is_false(f):
                return False
            return f
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def exact(self, a, op, b):
        return self.rel(a, op, b)

    def close(self, a, b, tol=1e-6):
        d = a - b
        out = []
        for lo in (False, True):
            c = self.rel(d, ">=" if lo else "<=", -tol if lo else tol)
            if not isinstance(c, bool) and self.theory == "real":
                # how to break it by more than the tolerance: easier to see on doubles
                self.margins[c.get_id()] = (c, a, d, lo, tol)
            out.append(c)
        return self.all(*out)

    def far_from(self, c):
        """ways to break a condition by a wide margin, at ordinary sizes"""
        m = self.margins.get(c.get_id())
        if m is None:
            return
        _, a, d, lo, tol = m
        for k, big in ((1000, 1e3), (30, 1e5), (3, 1e7)):
            off = self.rel(d, "<" if lo else ">", -k * tol if lo else k * tol)
            f = self.all(off, self.rel(a, "<=", big), self.rel(a, ">=", -big))
            if f is not False and f is not True:
                yield f

    def all(self, *cs):
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else True)

    def any(self, *cs):
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return z3.Or(*cs) if len(cs) > 1 else (cs[0] if cs else False)

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def name_term(self, a):
        if isinstance(a, FreeName):
            return a.e
        if not isinstance(a, Atom):
            return z3.IntVal(-1000 - plain_index(self.hash_variant, a))
        if a.cls is not None:
            a = self.classes[a.cls]
        return z3.Int("name_" + a.name)

    def eq(self, a, b):
        """equality of two names as a condition (no fork)"""
        if isinstance(a, Atom) and isinstance(b, Atom) and a.cls is not None and b.cls is not None:
            return a.cls == b.cls
        if not isinstance(a, (Atom, FreeName)) and not isinstance(b, (Atom, FreeName)):
            return a == b
        f = self.name_term(a) == self.name_term(b)
        return f

    def iff(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return a if b else z3.Not(a)
        return a == b

    def ite(self, c, a, b):
        """a number: a if c else b (no fork)"""
        if isinstance(c, bool):
            return a if c else b
        return SymInt(z3.If(c, SymInt._o(a), SymInt._o(b)))

    def forall_names(self, label, k, universe, pred):
        """assert pred for all k-tuples of names, known or not"""
        self.nfree = getattr(self, "nfree", 0) + 1
        qs = [FreeName(z3.Int("any_%d_%d" % (self.nfree, j))) for j in range(k)]
        self.check(label, pred(*qs))

    def same(self, a, b):
        """equality of values that may be symbolic, None, containers, plain"""
        if a is b:
            return True
        if isinstance(a, SYMBOLIC) or isinstance(b, SYMBOLIC):
            if a is None or b is None:
                return False
            if isinstance(a, SYMBOLIC) and isinstance(b, (SYMBOLIC, int, float)) or \
                    isinstance(b, SYMBOLIC) and isinstance(a, (int, float)):
                return self.rel(a, "==", b)
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all(*[self.same(x, y) for x, y in zip(a, b)])
        return bool(a == b)

    def check(self, label, cond):
        """assert cond on this path"""
        self.stats.goals += 1
        if cond is True:
            self.stats.goals_by_normal_form += 1
            return
        if not isinstance(cond, bool) and not z3.is_expr(cond):
            raise TypeError("condition %r of %s" % (cond, label))
        self.goals.append((label, cond))

    def hint(self, cond):
        """a fact about the inputs to be proved and then used by the assertions after it
        (ignored if it is not proved)"""
        if not isinstance(cond, bool):
            self.goals.append((None, cond))

    def decided(self, cond):
        """turn a condition into a bool, forking"""
        if isinstance(cond, bool):
            return cond
        if self.theory == "real":
            return self._decide_formula(cond)
        return self.decide(cond)

    def _decide_formula(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.stats.decisions += 1
        v = self._next_forced()
        if v is None:
            hs = set(self.zholds(f, j) for j in self.alive)
            t = True in hs or self.real_feasible(f)
            fl = False in hs or self.real_feasible(z3.Not(f))
            if not t and not fl:
                raise Infeasible()
            if t and fl:
                self.stats.forks += 1
                self.alts.append(self.taken + [False])
                v = True
            else:
                v = t
        self._record(v)
        self.pc.append(f if v else z3.Not(f))
        self.alive = [j for j in self.alive if self.zholds(f, j) is v]
        return v

    def observe(self, *vals):
        """values the concrete run must reproduce (encoding validation)"""
        self.trace.append(vals)

    # ----------------------------------------------------- end of the path
    def assignment(self, model):
        """concrete inputs from a model (int/fp) or a dict symbol->float (real)"""
        out = {}
        for name, (k, v) in self.inputs.items():
            if k == "choice":
                out[name] = ["choice", v]
            elif k == "atom":
                if v.cls is None:
                    out[name] = ["atom", -1]
                else:
                    out[name] = ["atom", v.cls]
            elif k == "int":
                out[name] = ["int", str(model.eval(v, model_completion=True).as_long())]
            elif k == "double":
                out[name] = ["double", _fp_to_float(model.eval(v, model_completion=True)).hex()]
            elif k in ("real", "angle"):
                out[name] = ["real", repr(model[v])]
        res = {"inputs": out, "hash_variant": self.hash_variant, "falsy_class": self.falsy_class}
        if self.uf_apps and model is not None and not isinstance(model, dict):
            tab = []
            for f, es, r in self.uf_apps:
                tab.append([f, [str(model.eval(e, model_completion=True).as_long()) for e in es],
                            str(model.eval(r, model_completion=True).as_long())])
            res["uf"] = tab
        return res

    def real_assignment(self, model):
        vals = {}
        for name, (k, v) in self.inputs.items():
            if k == "real":
                vals[v] = _real_to_float(model.eval(self.zvar(v), model_completion=True))
            elif k == "angle":
                cs = self.trig_of(v)
                if cs is None:
                    vals[v] = _real_to_float(model.eval(self.zvar(v), model_completion=True))
                else:
                    c, s = [_real_to_float(model.eval(self.zvar(i), model_completion=True)) for i in cs]
                    vals[v] = _m.atan2(s, c)
        return vals

    def trig_of(self, i):
        """the cosine and sine symbols of the angle symbol i, if any"""
        return self.alg.memo.get(("cs", self.alg.key(self.alg.var(i))))

    def sample_assignment(self, j):
        return {v: self.samples[j][v] for n, (k, v) in self.inputs.items() if k in ("real", "angle")}


def _znum(e, ctx, s, byname):
    k = e.decl().kind()
    if k == z3.Z3_OP_ANUM:
        return float(e.as_fraction()) if z3.is_rational_value(e) else float("nan")
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        i = byname.get(e.decl().name())
        return float("nan") if i is None else ctx.sval(i, s)
    a = [_znum(c, ctx, s, byname) for c in e.children()]
    if k == z3.Z3_OP_ADD:
        return sum(a)
    if k == z3.Z3_OP_MUL:
        t = 1.0
        for x in a:
            t *= x
        return t
    if k == z3.Z3_OP_SUB:
        return a[0] - sum(a[1:])
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_DIV:
        return a[0] / a[1] if a[1] else float("nan")
    if k == z3.Z3_OP_POWER:
        return a[0] ** a[1]
    if k == z3.Z3_OP_ITE:
        return float("nan")
    return float("nan")


def _zholds(f, ctx, s, byname, eps=1e-12):
    k = f.decl().kind()
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    if k == z3.Z3_OP_NOT:
        v = _zholds(f.arg(0), ctx, s, byname, eps)
        return None if v is None else not v
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        stop = k == z3.Z3_OP_OR
        vs = [_zholds(c, ctx, s, byname, eps) for c in f.children()]
        return stop if stop in vs else None if None in vs else not stop
    if k == z3.Z3_OP_IMPLIES:
        a, b = [_zholds(c, ctx, s, byname, eps) for c in f.children()]
        return True if a is False or b is True else False if a is True and b is False else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        if f.num_args() != 2:
            return None
        if z3.is_bool(f.arg(0)):
            a, b = [_zholds(c, ctx, s, byname, eps) for c in f.children()]
            return None if a is None or b is None else a == b
        a, b = [_znum(c, ctx, s, byname) for c in f.children()]
        d = a - b
        if not d == d:
            return None
        if abs(d) <= eps * (1.0 + abs(a) + abs(b)):
            return True if d == 0 and a == b == 0 and k == z3.Z3_OP_EQ else None
        return {z3.Z3_OP_LE: d < 0, z3.Z3_OP_LT: d < 0, z3.Z3_OP_GE: d > 0, z3.Z3_OP_GT: d > 0,
                z3.Z3_OP_EQ: False}[k]
    return None


def _real_names(f, seen):
    out = []
    todo = [f]
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x.decl().name())
        else:
            todo.extend(x.children())
    return out


class FpModel(object):
    def __init__(self, sub):
        self.sub = sub

    def eval(self, e, model_completion=True):
        return z3.simplify(z3.substitute(e, *self.sub))


def _fp_to_float(v):
    import struct
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack(">d", struct.pack(">Q", bv.as_long()))[0]


def _real_to_float(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    unsupported("model value %s" % v)
