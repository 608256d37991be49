"""Small helpers shared by the harnesses."""
import sys



def harness(theory="int", witnesses=(), **opts):
    def deco(f):
        f.opts = dict(opts, theory=theory)
        f.witnesses = witnesses
        return f
    return deco


class Universe(object):
    """indexes names by ==, so that reference models work on small integers"""

    def __init__(self):
        self.names = []

    def ix(self, a):
        for i, b in enumerate(self.names):
            if a == b:
                return i
        self.names.append(a)
        return len(self.names) - 1

    def find(self, a):
        for i, b in enumerate(self.names):
            if a == b:
                return i
        return -1


def indices(u, seq):
    return sorted(u.find(a) for a in seq)


class Hostile(object):
    """a value with no usable equality, truth or hash (as arrays or points have)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _no(self, *a):
        raise ValueError("values need not be comparable")
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __len__ = _no
    __hash__ = None


class deep_stack(object):
    """enough stack for an implementation that recurses: how much there is belongs to the environment"""

    def __enter__(self):
        self.limit = sys.getrecursionlimit()
        sys.setrecursionlimit(60000)

    def __exit__(self, *a):
        sys.setrecursionlimit(self.limit)