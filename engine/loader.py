"""Loads the modules of /repo/solver from the working tree for symbolic execution.

Every load gives fresh module objects, so module- and class-level state of the
code under test never leaks from one path to the next.  The modules see proxies
for float, int, math and numpy that let symbolic values through; everything
else is the real interpreter.
"""
import builtins
import importlib.util
import math as _m
import numbers
import os
import types
import warnings

from . import sym as S

REPO = os.environ.get("VERIF_REPO", "/repo")

numbers.Real.register(S.SymReal)
numbers.Real.register(S.SymFP)
numbers.Integral.register(S.SymInt)


# ------------------------------------------------------- builtins proxies
class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, (S.SymReal, S.SymFP)):
            return x
        if isinstance(x, S.SymInt):
            return x
        r = builtins.float(x)
        if S.CUR is not None and S.CUR.theory == "real" and S.CUR.lift_floats:
            return S.real_const(r)
        return r

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, S.SymReal, S.SymFP))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, S.SymReal, S.SymFP))

    def __getattr__(cls, n):
        return getattr(builtins.float, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatProxy(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], S.SymInt):
            return a[0]
        if len(a) == 1 and isinstance(a[0], S.SymReal):
            return S.sym_trunc(a[0])
        return builtins.int(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, S.SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, S.SymInt))

    def __getattr__(cls, n):
        return getattr(builtins.int, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntProxy(metaclass=_IntMeta):
    pass


# ------------------------------------------------------------ math proxy
def _issym(x):
    return isinstance(x, S.SYMBOLIC)


def _any(xs):
    return any(isinstance(x, S.SYMBOLIC) for x in xs)


def _fp(x):
    return isinstance(x, S.SymFP)


def m_sqrt(x):
    if not _issym(x):
        return _m.sqrt(x)
    if _fp(x):
        if x < 0:
            raise ValueError("math domain error")
        import z3
        return S.SymFP(z3.fpSqrt(S.RNE, x.e))
    return S.sym_sqrt(x)


def m_fabs(x):
    return abs(x) if _issym(x) else _m.fabs(x)


def _wrap(native, symf):
    def f(*a):
        if not _any(a):
            return native(*a)
        if any(_fp(x) or isinstance(x, S.SymInt) for x in a):
            S.unsupported("math.%s" % native.__name__)
        return symf(*a)
    f.__name__ = native.__name__
    return f


def m_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if not _any((a, b, rel_tol, abs_tol)):
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return bool(d <= abs(a) * rel_tol) or bool(d <= abs(b) * rel_tol) or bool(d <= abs_tol)


def m_copysign(x, y):
    if not _any((x, y)):
        return _m.copysign(x, y)
    return abs(x) if y >= 0 else -abs(x)


def m_dist(p, q):
    if not _any(list(p) + list(q)):
        return _m.dist(p, q)
    return S.sym_hypot(*[a - b for a, b in zip(p, q)])


def m_fsum(xs):
    xs = list(xs)
    return sum(xs) if _any(xs) else _m.fsum(xs)


def m_pow(x, y):
    return x ** y if _any((x, y)) else _m.pow(x, y)


def m_finite(x):
    if _fp(x):
        import z3
        return S.CUR.decide(z3.Not(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e))))
    return True if _issym(x) else _m.isfinite(x)


def m_isnan(x):
    if _fp(x):
        import z3
        return S.CUR.decide(z3.fpIsNaN(x.e))
    return False if _issym(x) else _m.isnan(x)


def m_isinf(x):
    if _fp(x):
        import z3
        return S.CUR.decide(z3.fpIsInf(x.e))
    return False if _issym(x) else _m.isinf(x)


DEG = S.const_of(_m.pi) / 180


def m_radians(x):
    return x * DEG if isinstance(x, S.SymReal) else _m.radians(x)


def m_degrees(x):
    return x / DEG if isinstance(x, S.SymReal) else _m.degrees(x)


def make_math():
    mod = types.ModuleType("math")
    for n in dir(_m):
        if not n.startswith("__"):
            v = getattr(_m, n)
            mod.__dict__[n] = _guard(v) if callable(v) else v
    mod.sqrt, mod.fabs, mod.isclose = m_sqrt, m_fabs, m_isclose
    mod.copysign, mod.dist, mod.fsum, mod.pow = m_copysign, m_dist, m_fsum, m_pow
    mod.isfinite, mod.isnan, mod.isinf = m_finite, m_isnan, m_isinf
    mod.radians, mod.degrees = m_radians, m_degrees
    mod.floor = _wrap(_m.floor, S.sym_floor)
    mod.ceil = _wrap(_m.ceil, lambda x: -S.sym_floor(-x))
    mod.trunc = _wrap(_m.trunc, S.sym_trunc)
    mod.fmod = _wrap(_m.fmod, S.sym_fmod)
    mod.modf = _wrap(_m.modf, lambda x: (lambda t: (x - t, t))(S.sym_trunc(x)))
    mod.remainder = _wrap(_m.remainder, lambda x, y: x - y * round(x / y))
    mod.hypot = _wrap(_m.hypot, S.sym_hypot)
    mod.cos = _wrap(_m.cos, lambda x: S.sym_cos_sin(x)[0])
    mod.sin = _wrap(_m.sin, lambda x: S.sym_cos_sin(x)[1])
    mod.tan = _wrap(_m.tan, lambda x: (lambda cs: cs[1] / cs[0])(S.sym_cos_sin(x)))
    mod.acos = _wrap(_m.acos, S.sym_acos)
    mod.asin = _wrap(_m.asin, S.sym_asin)
    mod.atan = _wrap(_m.atan, S.sym_atan)
    mod.atan2 = _wrap(_m.atan2, S.sym_atan2)
    return mod


def _guard(f):
    def g(*a, **k):
        if _any(a):
            S.unsupported("math.%s on a symbolic value" % getattr(f, "__name__", f))
        return f(*a, **k)
    g.__name__ = getattr(f, "__name__", "f")
    return g


# ----------------------------------------------------------- numpy proxy
def _flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            for z in _flat(y):
                yield z
    elif hasattr(x, "dtype") and getattr(x, "shape", ()) != ():
        if x.dtype == object:
            for z in x.ravel():
                yield z
    else:
        yield x


def _hassym(*xs):
    return any(isinstance(y, S.SYMBOLIC) for x in xs for y in _flat(x))


class _Attr(types.ModuleType):
    def __init__(self, real, name):
        types.ModuleType.__init__(self, name)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def _det(rows):
    n = len(rows)
    if n == 0:
        return 1
    if n == 1:
        return rows[0][0]
    if n == 2:
        return rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]
    t = 0
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in rows[1:]]
        c = rows[0][j]
        if isinstance(c, (int, float)) and c == 0:
            continue
        t = t + (1 if j % 2 == 0 else -1) * c * _det(minor)
    return t


def _adjugate(rows):
    n = len(rows)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(rows) if k != i]
            out[j][i] = (1 if (i + j) % 2 == 0 else -1) * _det(minor)
    return out


def make_numpy():
    import numpy as np
    la = _Attr(np.linalg, "numpy.linalg")

    def _inverse(a):
        rows = [list(r) for r in np.asarray(a, dtype=object)]
        if any(len(r) != len(rows) for r in rows):
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        if len(rows) > 4:
            S.unsupported("symbolic inverse larger than 4x4")
        d = _det(rows)
        if d == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        return [[x / d for x in r] for r in _adjugate(rows)]

    def solve(a, b):
        if not _hassym(a, b):
            return np.linalg.solve(a, b)
        return np.array(_inverse(a), dtype=object).dot(np.asarray(b, dtype=object))

    def inv(a):
        if not _hassym(a):
            return np.linalg.inv(a)
        return np.array(_inverse(a), dtype=object)

    def det(a):
        if not _hassym(a):
            return np.linalg.det(a)
        return _det([list(r) for r in np.asarray(a, dtype=object)])

    def norm(x, *a, **k):
        if not _hassym(x):
            return np.linalg.norm(x, *a, **k)
        if a or k:
            S.unsupported("norm with options")
        return S.sym_hypot(*_flat(x))

    la.solve, la.inv, la.det, la.norm = solve, inv, det, norm
    m = _Attr(np, "numpy")
    m.linalg = la
    m.__path__ = []

    def two(native, f):
        def g(*a, **k):
            return f(*a, **k) if _hassym(*a) else native(*a, **k)
        g.__name__ = native.__name__
        return g

    def arr(native):
        def g(x, *a, **k):
            if _hassym(x):
                t = k.pop("dtype", a[0] if a else None)
                r = native(x, dtype=object)
                if t in (None, object, float, FloatProxy, np.float64, complex) or t in S.SYMBOLIC:
                    return r
                if t in (int, IntProxy, np.int64):
                    out = np.empty(r.shape, dtype=object)
                    for i in np.ndindex(*r.shape):
                        out[i] = IntProxy(r[i])
                    return out
                S.unsupported("array of %s" % (t,))
            return native(x, *a, **k)
        return g
    m.array, m.asarray = arr(np.array), arr(np.asarray)

    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if isinstance(a, S.SYMBOLIC + (int, float)) and isinstance(b, S.SYMBOLIC + (int, float)):
            return bool(abs(a - b) <= atol + rtol * abs(b))
        S.unsupported("isclose over arrays")

    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        return all(isclose(x, y, rtol, atol) for x, y in zip(A.ravel(), B.ravel()))
    m.isclose, m.allclose = two(np.isclose, isclose), two(np.allclose, allclose)
    m.sign = two(np.sign, lambda x: 1.0 if x > 0 else (-1.0 if x < 0 else 0.0))
    m.arctan2 = two(np.arctan2, S.sym_atan2)
    m.hypot = two(np.hypot, S.sym_hypot)
    m.radians = m.deg2rad = two(np.radians, m_radians)
    m.degrees = m.rad2deg = two(np.degrees, m_degrees)
    m.sqrt = two(np.sqrt, m_sqrt)
    m.cos = two(np.cos, lambda x: S.sym_cos_sin(x)[0])
    m.sin = two(np.sin, lambda x: S.sym_cos_sin(x)[1])
    m.arccos = two(np.arccos, S.sym_acos)
    m.abs = m.absolute = m.fabs = two(np.abs, abs)
    m.float64 = m.double = FloatProxy
    m.minimum = two(np.minimum, lambda a, b: a if a <= b else b)
    m.maximum = two(np.maximum, lambda a, b: a if a >= b else b)
    m.clip = two(np.clip, lambda x, lo, hi: lo if x < lo else (hi if x > hi else x))
    m.isfinite, m.isnan, m.isinf = two(np.isfinite, m_finite), two(np.isnan, m_isnan), two(np.isinf, m_isinf)
    return m, la


# --------------------------------------------------------- logging proxy
class _NullLogger(object):
    level = 0
    handlers = ()
    disabled = True

    def _nop(self, *a, **k):
        pass
    debug = info = warning = error = critical = exception = log = setLevel = addHandler = _nop

    def isEnabledFor(self, level):
        return False

    def getEffectiveLevel(self):
        return 50


def make_logging():
    import logging
    m = _Attr(logging, "logging")
    lg = _NullLogger()
    m.getLogger = lambda *a: lg
    m.debug = m.info = m.warning = m.error = m.critical = lg._nop
    return m


# --------------------------------------------------------------- loader
class Loader(object):
    def __init__(self, repo=REPO):
        self.repo = repo
        self.code = {}
        self.proxies = {}
        np, la = make_numpy()
        self.proxies = {"math": make_math(), "numpy": np, "numpy.linalg": la,
                        "logging": make_logging()}

    def source(self, name):
        base = os.path.join(self.repo, *name.split("."))
        for path, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(path):
                return path, pkg
        return None, None

    def compiled(self, name):
        c = self.code.get(name)
        if c is None:
            path, pkg = self.source(name)
            if path is None:
                raise ImportError("no module %s" % name)
            with open(path) as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c = self.code[name] = (compile(src, path, "exec"), path, pkg)
        return c

    def fresh(self):
        return Modules(self)


class Modules(object):
    """one isolated set of loaded modules"""

    def __init__(self, loader):
        self.loader = loader
        self.mods = {}
        b = dict(builtins.__dict__)
        b["float"] = FloatProxy
        b["int"] = IntProxy
        b["__import__"] = self._import
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        code, path, pkg = self.loader.compiled(name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        exec(code, m.__dict__)
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            full = importlib.util.resolve_name("." * level + name, globals["__package__"])
        else:
            full = name
        if full == "solver" or full.startswith("solver."):
            m = self.load(full)
            if fromlist:
                for n in fromlist:
                    if n != "*" and not hasattr(m, n) and self.loader.source(full + "." + n)[0]:
                        self.load(full + "." + n)
                return m
            return m if level else self.mods["solver"]
        p = self.loader.proxies.get(full)
        if p is not None:
            if not fromlist and "." in full:
                return self.loader.proxies[full.partition(".")[0]]
            return p
        return builtins.__import__(name, globals, locals, fromlist, level)

    # shorthands for harnesses
    @property
    def graph(self):
        return self.load("solver.graph")

    @property
    def method(self):
        return self.load("solver.method")

    @property
    def geometry(self):
        return self.load("solver.geometry")

    @property
    def constraint(self):
        return self.load("solver.geometric.constraint")

    @property
    def cluster(self):
        return self.load("solver.geometric.cluster")

    @property
    def relation(self):
        return self.load("solver.geometric.relation")

    @property
    def configuration(self):
        return self.load("solver.geometric.configuration")
