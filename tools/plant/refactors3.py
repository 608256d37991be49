R = REFACTORS = []
GRAPH = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C12"
GEO = "C14 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34"

R.append(dict(id="graph-3", checks=GRAPH, parts=[dict(file="graph.py", head="""
from itertools import chain, product
from contextlib import suppress
""", funcs={
    "Graph.add_edge": '''
def add_edge(self, v1, v2, value=1):
    for v in (v1, v2):
        self.add_vertex(v)
    targets, sources = self._forward[v1], self._reverse[v2]
    if v2 in targets:
        return
    targets[v2] = sources[v1] = value
''',
    "Graph.remove_vertex": '''
def remove_vertex(self, vertex):
    try:
        targets = self._forward.pop(vertex)
    except KeyError:
        raise Exception("Vertex not in graph") from None
    sources = self._reverse.pop(vertex)
    for w in targets:
        with suppress(KeyError):
            del self._reverse[w][vertex]
    for u in sources:
        with suppress(KeyError):
            del self._forward[u][vertex]
''',
    "Graph.edges": '''
def edges(self):
    return list(chain.from_iterable(product((v,), ws) for v, ws in self._forward.items()))
''',
    "Graph.subgraph": '''
def subgraph(self, vertices):
    g = Graph()
    keep = dict.fromkeys(v for v in vertices if v in self._forward)
    for v in keep:
        g.add_vertex(v)
    for (v, w), value in self._valued_edges():
        if v in keep and w in keep:
            g.set(v, w, value)
    return g

def _valued_edges(self):
    for v, ws in self._forward.items():
        for w, value in ws.items():
            yield (v, w), value
''',
    "Graph.reverse": '''
def reverse(self):
    g = Graph()
    g._forward = {v: dict(ws) for v, ws in self._reverse.items()}
    g._reverse = {v: dict(ws) for v, ws in self._forward.items()}
    return g
''',
    "Graph.path": '''
def path(self, start, end):
    came_from = {}
    stack = [start]
    seen = {start}
    while stack:
        v = stack.pop()
        for w in self._forward[v]:
            if w == end:
                return self._unwind(came_from, start, v) + [w]
            if w not in seen:
                seen.add(w)
                came_from[w] = v
                stack.append(w)
    return []

@staticmethod
def _unwind(came_from, start, v):
    trail = [v]
    while v in came_from:
        v = came_from[v]
        trail.append(v)
    return trail[::-1]
''',
    "Graph.connected": '''
def connected(self, vertex, ingoing=True, outgoing=True):
    def around(x):
        if ingoing or not outgoing and not ingoing:
            pass
        if ingoing and outgoing:
            yield from self._reverse[x]
            yield from self._forward[x]
        elif ingoing:
            yield from self._reverse[x]
        else:
            yield from self._forward[x]

    found = []
    seen = {vertex}
    todo = [vertex]
    for x in todo:
        for y in around(x):
            if y in seen:
                continue
            seen.add(y)
            todo.append(y)
            found.append(y)
    return found
''',
    "Graph.connected_subsets": '''
def connected_subsets(self):
    label = {}
    for v in self._forward:
        if v not in label:
            group = frozenset([v, *self.connected(v)])
            label.update(dict.fromkeys(group, group))
    return set(label.values())
''',
})]))

R.append(dict(id="method-3", checks="C06 C07 C08 C09 C10 C11", parts=[dict(file="method.py", head="""
from collections import deque
from itertools import product
import operator
""", funcs={
    "MethodGraph.propagate": '''
def propagate(self):
    log = logging.getLogger("method")
    log.debug("Propagating changes of %s", list(self._changed))
    queue = deque(self._changed)
    while queue:
        variable = queue.popleft()
        if self._changed.pop(variable, None) is None:
            continue
        for method in self._graph.outgoing_vertices(variable):
            self._do_execute(method)
        queue.extend(v for v in self._changed if v not in queue)
''',
    "MethodGraph._do_execute": '''
def _do_execute(self, method):
    inputs = {var: self._map[var] for var in method.inputs}
    if any(value is None for value in inputs.values()):
        results = {}
    else:
        results = method.execute({**inputs, **{var: self._map[var] for var in method.outputs}})
    for var in method.outputs:
        self._store(var, results)

def _store(self, var, results):
    missing = object()
    value = results.get(var, missing)
    if value is missing:
        if self._map[var] is None:
            return
        value = None
    self._map[var] = value
    self._changed[var] = 1
''',
    "MethodGraph.add_method": '''
def add_method(self, met, prop=True):
    if met in self._methods:
        return
    self._methods[met] = 1
    for var in (*met.inputs, *met.outputs):
        self.add_variable(var)
    for var in met.inputs:
        self._graph.add_edge(var, met)
    for var in met.outputs:
        self._graph.add_edge(met, var)
    error = next(filter(None, map(self._invalid, met.outputs)), None)
    if error is not None:
        self.rem_method(met)
        raise error
    self._do_execute(met)
    if prop:
        self.propagate()

def _invalid(self, var):
    if len(self._graph.ingoing_vertices(var)) > 1:
        return MethodGraphDetermineException(f"Variable {var} determined by multiple methods")
    if self._graph.path(var, var):
        return MethodGraphCycleException(f"Cycle in graph not allowed (variable {var})")
    return None
''',
    "MethodGraph.clear": '''
def clear(self):
    for met in list(self._methods):
        self.rem_method(met)
    for var in list(self._map):
        self.rem_variable(var)
''',
    "MethodGraph.set": '''
def set(self, varname, value, prop=True):
    if varname in self._map:
        self._map.update({varname: value})
        self._changed.update({varname: 1})
        return self.propagate() if prop else None
    raise Exception("Variable not in graph")
''',
    "AddMethod.execute": '''
def execute(self, in_map):
    operands = [in_map.get(v) for v in self.inputs]
    if any(x is None for x in operands):
        return {}
    return dict.fromkeys(self.outputs, operator.add(*operands))
''',
    "SubMethod.execute": '''
def execute(self, in_map):
    (a, b), (c,) = self.inputs, self.outputs
    try:
        x, y = in_map[a], in_map[b]
    except KeyError:
        return {}
    return {} if x is None or y is None else {c: x - y}
''',
    "MultiMethod.execute": '''
def execute(self, inmap):
    options = [inmap[v] if v in self.multi_inputs else (inmap[v],) for v in self.inputs]
    values = set()
    for choice in product(*options):
        values |= set(self.multi_execute(dict(zip(self.inputs, choice))))
    return {self.outputs[0]: values}
''',
})]))

R.append(dict(id="cluster-3", checks="C15 C16 C17 C18 C19", parts=[dict(file="geometric/cluster.py", head="""
from functools import singledispatchmethod
from itertools import combinations
from math import comb
""", funcs={
    "Cluster.common_angles": '''
def common_angles(self, other):
    match other:
        case Rigid():
            return self.common_angles_rigid(other)
        case Hedgehog():
            return self.common_angles_hedgehog(other)
        case Balloon():
            return self.common_angles_balloon(other)
        case _:
            raise TypeError("Unknown other cluster type")
''',
    "Cluster.intersection": '''
def intersection(self, other):
    shared = self.vars.intersection(other.vars)
    if (n := len(shared)) < 2:
        logging.getLogger("cluster").debug(f"No intersection between {self} and {other}: {n} shared points")
        return None
    if isinstance(other, Hedgehog):
        return self.intersect_hedgehog(shared, other)
    if isinstance(other, Balloon):
        return self.intersect_balloon(shared, other)
    if isinstance(other, Rigid):
        return self.intersect_rigid(shared, other)
    raise TypeError("Intersection of unknown cluster types")
''',
    "Rigid.common_distances": '''
def common_distances(self, other):
    if isinstance(other, Rigid):
        return {Distance(*pair) for pair in combinations(self.vars & other.vars, 2)}
    return set()
''',
    "Balloon.common_angles_balloon": '''
def common_angles_balloon(self, balloon):
    angles = set()
    for triple in combinations(self.vars & balloon.vars, 3):
        for k in range(3):
            a, v, b = triple[k:] + triple[:k]
            angles |= {Angle(a, v, b)}
    return angles
''',
    "Rigid.common_angles_balloon": '''
def common_angles_balloon(self, balloon):
    return balloon.common_angles_balloon(self)
''',
    "Rigid.n_distances": '''
def n_distances(self):
    return comb(len(self.vars), 2)
''',
    "Rigid.n_angles": '''
def n_angles(self):
    return 3 * comb(len(self.vars), 3)
''',
    "Balloon.n_angles": '''
def n_angles(self):
    n = len(self.vars)
    return n * (n - 1) * (n - 2) // 2
''',
    "Hedgehog.n_angles": '''
def n_angles(self):
    return sum(range(len(self.x_vars)))
''',
})]))

R.append(dict(id="constraint-3", checks="C12 C13 C14", parts=[dict(file="geometric/constraint.py", head="""
from functools import reduce
""", funcs={
    "ConstraintGraph.get_constraints_on_all": '''
def get_constraints_on_all(self, variables):
    if not variables:
        return []
    groups = [self.get_constraints_on(v) for v in variables]
    return [c for c in groups[0] if all(c in group for group in groups[1:])]
''',
    "ConstraintGraph.get_constraints_on_any": '''
def get_constraints_on_any(self, variables):
    found = {}
    for v in variables:
        for c in self.get_constraints_on(v):
            found.setdefault(c)
    return [*found]
''',
    "ConstraintGraph.rem_variable": '''
def rem_variable(self, var_name):
    if var_name in self._variables:
        while (left := self.get_constraints_on(var_name)):
            self.rem_constraint(left[0])
        self._variables.pop(var_name)
        self._graph.remove_vertex(var_name)
    else:
        logging.getLogger("constraint").warning(f"Trying to remove variable {var_name} that isn't in graph")
''',
    "FunctionConstraint.satisfied": '''
def satisfied(self, mapping):
    arguments = tuple(map(mapping.__getitem__, self._variables))
    result = self.function(*arguments)
    return result is True
''',
    "NotObtuseConstraint.__init__": '''
def __init__(self, *corners):
    FunctionConstraint.__init__(self, self._holds, list(corners), "NotObtuseConstraint")

@staticmethod
def _holds(x, y, z):
    return False if is_obtuse(x, y, z) else True
''',
})]))

R.append(dict(id="geometry-3", checks=GEO, parts=[dict(file="geometry.py", head="""
from collections import namedtuple
from operator import ge, gt, le, lt
""", funcs={
    "Scalar.tol_eq": '''
@classmethod
def tol_eq(cls, a, b, rel_tol=None, abs_tol=None):
    rel_tol = cls.rel_tol if rel_tol is None else rel_tol
    abs_tol = cls.abs_tol if abs_tol is None else abs_tol
    x, y = float(a), float(b)
    difference = x - y
    if difference < 0:
        difference = -difference
    return difference <= abs_tol + rel_tol * abs(y)
''',
    "Scalar.tol_ge": '''
@classmethod
def tol_ge(cls, a, b, *args, **kwargs):
    if cls.tol_eq(a, b, *args, **kwargs):
        return True
    return a > b
''',
    "Vector.__lt__": '''
def __lt__(self, other):
    return self._each(lt, other)

def _each(self, relation, other):
    return all(relation(p, q) for p, q in zip((self.x, self.y), (other.x, other.y)))
''',
    "Vector.__ge__": '''
def __ge__(self, other):
    return self._each(ge, other)
''',
    "Vector.length": '''
@property
def length(self):
    return self.dot(self) ** 0.5
''',
    "Vector.rotate": '''
def rotate(self, azimuth):
    turn = math.radians(float(azimuth))
    c, s = math.cos(turn), math.sin(turn)
    turned = Matrix([[c, -s], [s, c]]) * self
    return self.__class__(*(row[0] for row in turned.elements))
''',
    "Matrix.__mul__": '''
def __mul__(self, other):
    if self.num_cols != other.num_rows:
        raise Exception('Matrix dimensions mismatch')
    rows = []
    for row in self.elements:
        out = []
        for j in range(other.num_cols):
            total = 0
            for k, a in enumerate(row):
                total += a * other.elements[k][j]
            out.append(total)
        rows.append(out)
    return Matrix(rows)
''',
    "Matrix.transpose": '''
def transpose(self):
    return Matrix([list(column) for column in zip(*self.elements)])
''',
    "cl_int": '''
def cl_int(p1, r, p2, v):
    start = p2 - p1
    squared = v.dot(v)
    cross = start.x * v.y - start.y * v.x
    gap = r ** 2 * squared - cross ** 2
    if not Scalar.tol_gt(squared, 0):
        return []
    foot = Vector(p1.x + cross * v.y / squared, p1.y - cross * v.x / squared)
    if Scalar.tol_zero(gap):
        return [foot]
    if gap < 0:
        return []
    half = math.sqrt(gap) / squared
    s = 1 if v.y > 0 else -1
    step = Vector(s * v.x * half, abs(v.y) * half)
    return [foot + step, foot - step]
''',
    "lr_int": '''
def lr_int(p1, v1, p2, v2):
    return [s for s in ll_int(p1, v1, p2, v2) if _ahead(s, p2, v2)]

def _ahead(point, start, direction):
    return Scalar.tol_ge((point - start).dot(direction), 0)
''',
    "rr_int": '''
def rr_int(p1, v1, p2, v2):
    rays = ((p1, v1), (p2, v2))
    return [s for s in ll_int(p1, v1, p2, v2) if all(_ahead(s, p, v) for p, v in rays)]
''',
    "is_flat": '''
def is_flat(p1, p2, p3):
    return not (is_clockwise(p1, p2, p3) or is_counterclockwise(p1, p2, p3))
''',
    "is_counterclockwise": '''
def is_counterclockwise(p1, p2, p3):
    return is_clockwise(p3, p2, p1)
''',
    "angle_3p": '''
def angle_3p(p1, p2, p3):
    arms = namedtuple("arms", "first second")(p1 - p2, p3 - p2)
    lengths = [arm.length for arm in arms]
    if any(Scalar.tol_zero(n) for n in lengths):
        return None
    unit = [arm / n for arm, n in zip(arms, lengths)]
    t = min(1.0, max(-1.0, unit[0].dot(unit[1])))
    sign = -1 if is_counterclockwise(p1, p2, p3) else 1
    return sign * math.acos(t)
''',
    "make_hcs": '''
def make_hcs(a, b, scale=False):
    axis = b - a
    size = axis.length
    if Scalar.tol_zero(size):
        return None
    axis = axis if scale else axis / size
    x, y = axis.x, axis.y
    columns = ((x, y, 0.0), (-y, x, 0.0), (a.x, a.y, 1.0))
    return Matrix([list(row) for row in zip(*columns)])
''',
})]))

R.append(dict(id="configuration-3", checks="C30 C31 C32 C33 C34", parts=[dict(file="geometric/configuration.py", funcs={
    "Configuration.transform": '''
def transform(self, t):
    return Configuration({v: self._image(t, p) for v, p in self.mapping.items()})

@staticmethod
def _image(t, p):
    (x,), (y,), (w,) = (t * Matrix([[p.x], [p.y], [1.0]])).elements
    return Vector(x / w, y / w)
''',
    "Configuration.add": '''
def add(self, c):
    return Configuration({**c.mapping, **self.mapping})
''',
    "Configuration.select": '''
def select(self, variables):
    return Configuration(dict((v, self.get(v)) for v in variables))
''',
    "Configuration.merge": '''
def merge(self, other):
    logging.getLogger("configuration").debug(f"Merging {len(self.mapping)} with {len(other.mapping)} points")
    t, under = self.transformation_matrix(other)
    moved = other.transform(t)
    merged = self.add(moved)
    merged.underconstrained = under
    return merged, under
''',
    "Configuration.transformation_matrix": '''
def transformation_matrix(self, other):
    shared = [v for v in self.mapping if v in other.mapping]
    marked = self.underconstrained or other.underconstrained
    if not shared:
        ends, marked = None, True
        mine = theirs = self._frame(Vector.origin())
    elif len(shared) == 1:
        marked = marked or min(len(self.mapping), len(other.mapping)) > 1
        mine, theirs = (self._frame(c.get(shared[0])) for c in (self, other))
    else:
        a, b = next((pair for pair in combinations(shared, 2) if self._apart(*pair) and other._apart(*pair)), shared[:2])
        marked = marked or not (self._apart(a, b) and other._apart(a, b))
        mine, theirs = (c._frame(c.get(a), c.get(b)) for c in (self, other))
    return cs_transform_matrix(theirs, mine), marked

def _apart(self, a, b):
    return not Scalar.tol_zero(distance_2p(self.mapping[a], self.mapping[b]))

@staticmethod
def _frame(p, q=None):
    frame = make_hcs(p, q) if q is not None else None
    return frame or make_hcs(p, p + Vector(1.0, 0.0))
''',
    "Configuration.__eq__": '''
def __eq__(self, other):
    if not isinstance(other, Configuration):
        return NotImplemented
    if self.mapping.keys() != other.mapping.keys():
        return False
    t, _ = self.transformation_matrix(other)
    moved = other.transform(t)
    return all(Scalar.tol_zero(distance_2p(moved.get(v), p)) for v, p in self.mapping.items())
''',
    "Configuration.makehash": '''
def makehash(self):
    total = 0
    for var in self.mapping:
        total += hash(var)
    self.hashvalue = hash(total)
''',
})]))
