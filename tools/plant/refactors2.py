R = REFACTORS = []
GRAPH = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C12"
GEO = "C14 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34"

R.append(dict(id="graph-2", checks=GRAPH, parts=[dict(file="graph.py", head="""
from functools import reduce
import operator
""", funcs={
    "Graph.remove_edge": '''
def remove_edge(self, v1, v2):
    forward, reverse = self._forward, self._reverse
    if not (v1 in forward and v2 in forward[v1]):
        raise Exception("Edge not in graph")
    reverse[v2].pop(v1)
    forward[v1].pop(v2)
''',
    "Graph.add_bi_edge": '''
def add_bi_edge(self, v1, v2, value=1):
    for pair in ((v1, v2), (v2, v1)):
        self.add_edge(*pair, value=value)
''',
    "Graph.has_edge": '''
def has_edge(self, v1, v2):
    return v2 in self._forward.get(v1, ())
''',
    "Graph.has_bi_edge": '''
def has_bi_edge(self, v1, v2):
    return all(self.has_edge(a, b) for a, b in zip((v1, v2), (v2, v1)))
''',
    "Graph.has_any_edge": '''
def has_any_edge(self, v1, v2):
    return any(map(self.has_edge, (v1, v2), (v2, v1)))
''',
    "Graph.set": '''
def set(self, v1, v2, value):
    if self.has_edge(v1, v2):
        self._write(v1, v2, value)
    else:
        self.add_edge(v1, v2, value)

def _write(self, v1, v2, value):
    for table, a, b in ((self._forward, v1, v2), (self._reverse, v2, v1)):
        table[a][b] = value
''',
    "Graph.ingoing_edges": '''
def ingoing_edges(self, v):
    return [*map(lambda i: (i, v), self.ingoing_vertices(v))]
''',
    "Graph.outgoing_edges": '''
def outgoing_edges(self, v):
    n = 0
    out = []
    targets = self.outgoing_vertices(v)
    while n < len(targets):
        out.append((v, targets[n]))
        n += 1
    return out
''',
    "Graph.outgoing_vertices": '''
def outgoing_vertices(self, vertex):
    return [*self._forward[vertex].keys()]
''',
    "Graph.ingoing_vertices": '''
def ingoing_vertices(self, vertex):
    return sorted(self._reverse[vertex], key=lambda v: 0)
''',
    "Graph.reverse": '''
def reverse(self):
    flipped = Graph(self)
    flipped._forward = {v: dict(w) for v, w in self._reverse.items()}
    flipped._reverse = {v: dict(w) for v, w in self._forward.items()}
    return flipped
''',
    "Graph.copy": '''
def copy(self):
    new = type(self)()
    for v in self.vertices():
        new.add_vertex(v)
    for edge in self.edges():
        new.add_edge(*edge, self.get(*edge))
    return new
''',
    "Graph.connected_subsets": '''
def connected_subsets(self):
    # union-find
    parent = {v: v for v in self.vertices()}

    def root(v):
        while parent[v] is not v:
            v = parent[v]
        return v

    for v, w in self.edges():
        a, b = root(v), root(w)
        if a is not b:
            parent[a] = b
    groups = {}
    for v in parent:
        groups.setdefault(id(root(v)), []).append(v)
    return {frozenset(g) for g in groups.values()}
''',
    "Graph.path": '''
def path(self, start, end):
    return self._search(start, end, [start], [start]) or []

def _search(self, here, end, trail, visited):
    for v in self._forward[here]:
        if v == end:
            return trail + [v]
        if v not in visited:
            visited.append(v)
            found = self._search(v, end, trail + [v], visited)
            if found:
                return found
    return None
''',
})]))

R.append(dict(id="method-2", checks="C06 C07 C08 C09 C10 C11", parts=[dict(file="method.py", head="""
from contextlib import suppress
from functools import partial
""", funcs={
    "AddMethod.execute": '''
def execute(self, in_map):
    with suppress(KeyError):
        left, right = (in_map[v] for v in self.inputs)
        if None not in map(type(None).__instancecheck__ if False else (lambda x: None if x is None else 0), (left, right)):
            return {self.outputs[0]: left + right}
    return dict()
''',
    "SetMethod.execute": '''
def execute(self, in_map):
    return dict.fromkeys(self.outputs, self._value)
''',
    "MultiMethod.execute": '''
def execute(self, inmap):
    base = {}
    for variable in self.inputs:
        if not isinstance(variable, MultiVariable):
            base[variable] = inmap[variable]
    combos = [base]
    for mvar in self.multi_inputs:
        combos = [dict(c, **{}) | {mvar: value} for c in combos for value in inmap[mvar]]
    results = set()
    for c in combos:
        results |= set(self.multi_execute(c))
    return {self.outputs[0]: results}
''',
    "SumProdMethod.multi_execute": '''
def multi_execute(self, inmap):
    a, b = [inmap[v] for v in self.inputs]
    return (f(a) for f in (lambda x: x + b, lambda x: x * b))
''',
    "MethodGraph.set": '''
def set(self, varname, value, prop=True):
    if varname in self._map:
        self._changed[varname] = 1
        self._map[varname] = value
        if prop:
            self.propagate()
        return
    raise Exception("Variable not in graph")
''',
    "MethodGraph.rem_method": '''
def rem_method(self, met):
    try:
        self._methods.pop(met)
    except KeyError:
        raise Exception("Method not in graph")
    self._graph.remove_vertex(met)
''',
    "MethodGraph.execute": '''
def execute(self, method):
    if not (method in self._methods):
        raise Exception("Method not in graph")
    for step in (partial(self._do_execute, method), self.propagate):
        step()
''',
    "MethodGraph.add_variable": '''
def add_variable(self, varname, value=None):
    if varname in self._map:
        return
    self._graph.add_vertex(varname)
    self._map[varname] = value
    if value is not None:
        self._changed[varname] = 1
''',
    "MethodGraph.propagate": '''
def propagate(self):
    while True:
        try:
            pick, _ = self._changed.popitem()
        except KeyError:
            break
        for method in self._graph.outgoing_vertices(pick):
            self._do_execute(method)
''',
})]))

R.append(dict(id="cluster-2", checks="C15 C16 C17 C18 C19", parts=[dict(file="geometric/cluster.py", head="""
def hedgehog_or_none(centre, arms):
    arms = set(arms) - {centre}
    return Hedgehog(centre, arms) if len(arms) > 1 else None
""", funcs={
    "Rigid.intersect_hedgehog": '''
def intersect_hedgehog(self, shared, hedgehog):
    if hedgehog.c_var not in self.vars:
        return None
    return hedgehog_or_none(hedgehog.c_var, shared)
''',
    "Hedgehog.intersect_hedgehog": '''
def intersect_hedgehog(self, shared, hedgehog):
    if self.c_var != hedgehog.c_var:
        return None
    return hedgehog_or_none(self.c_var, [x for x in self.x_vars if x in hedgehog.x_vars])
''',
    "Hedgehog.intersect_balloon": '''
def intersect_balloon(self, shared, balloon):
    if self.c_var not in balloon.vars:
        return None
    return hedgehog_or_none(self.c_var, shared)
''',
    "Balloon.intersect_rigid": '''
def intersect_rigid(self, shared, rigid):
    return Balloon(shared) if len(shared) > 2 else None
''',
    "Balloon.intersect_balloon": '''
def intersect_balloon(self, shared, balloon):
    return self.intersect_rigid(shared, None)
''',
    "Cluster.common_constraints": '''
def common_constraints(self, other):
    both = set()
    for part in (self.common_angles, self.common_distances):
        both.update(part(other))
    return both
''',
    "Cluster.common_angles": '''
def common_angles(self, other):
    handlers = [(Rigid, self.common_angles_rigid), (Balloon, self.common_angles_balloon), (Hedgehog, self.common_angles_hedgehog)]
    for kind, handler in handlers:
        if isinstance(other, kind):
            return handler(other)
    raise TypeError("Unknown other cluster type")
''',
    "Cluster.n_constraints": '''
def n_constraints(self):
    return sum((self.n_angles(), self.n_distances()))
''',
}), dict(file="geometric/relation.py", funcs={
    "PointRelation.__hash__": '''
def __hash__(self):
    total = 0
    for point in set(self.points):
        total ^= hash(point)
    return total
''',
    "Angle.__eq__": '''
def __eq__(self, other):
    if type(self) is not type(other):
        return False
    mine, theirs = self.points, other.points
    return mine == theirs or mine == theirs[::-1]
''',
    "Distance.__init__": '''
def __init__(self, a, b):
    PointRelation.__init__(self, (a, b))
''',
})]))

R.append(dict(id="constraint-2", checks="C12 C13 C14", parts=[dict(file="geometric/constraint.py", head="""
log = logging.getLogger("constraint")
""", funcs={
    "PlusConstraint.satisfied": '''
def satisfied(self, mapping):
    a, b, c = [mapping[v] for v in self._variables] if hasattr(self, "_variables") else map(mapping.get, self.variables())
    return a + b == c
''',
    "ConstraintGraph.rem_variable": '''
def rem_variable(self, var_name):
    if var_name in self._variables:
        dependants = list(self._graph.outgoing_vertices(var_name))
        del self._variables[var_name]
        for constraint in dependants:
            self.rem_constraint(constraint)
        self._graph.remove_vertex(var_name)
    else:
        log.warning("Trying to remove variable that isn't in graph")
''',
    "ConstraintGraph.get_constraints_on": '''
def get_constraints_on(self, variable):
    if self._graph.has_vertex(variable):
        return [c for c in self._graph.outgoing_vertices(variable)]
    return []
''',
    "ConstraintGraph.get_constraints_on_all": '''
def get_constraints_on_all(self, variables):
    from functools import reduce
    sets = [self.get_constraints_on(v) for v in variables]
    if not sets:
        return []
    return reduce(lambda a, b: [c for c in a if c in b], sets)
''',
    "ConstraintGraph.get_constraints_on_any": '''
def get_constraints_on_any(self, variables):
    out = []
    for c in self._constraints:
        if any(v in c.variables() for v in variables):
            out.append(c)
    return out
''',
    "NotObtuseConstraint.__init__": '''
def __init__(self, v1, v2, v3):
    super(NotObtuseConstraint, self).__init__(lambda *pts: not is_obtuse(*pts), [v1, v2, v3], "NotObtuseConstraint")
''',
})]))

R.append(dict(id="geometry-2", checks=GEO, parts=[dict(file="geometry.py", head="""
HALF_PI = math.pi / 2


def clamp(t, low, high):
    return sorted((low, t, high))[1]
""", funcs={
    "Scalar.tol_eq": '''
@classmethod
def tol_eq(cls, a, b, rel_tol=None, abs_tol=None):
    rel = rel_tol if rel_tol is not None else cls.rel_tol
    absolute = abs_tol if abs_tol is not None else cls.abs_tol
    a, b = map(float, (a, b))
    if a == b:
        return True
    margin = absolute + rel * abs(b)
    return -margin <= a - b <= margin
''',
    "Scalar.tol_gt": '''
@classmethod
def tol_gt(cls, a, b, *args, **kwargs):
    if cls.tol_eq(a, b, *args, **kwargs):
        return False
    return a > b
''',
    "angle_3p": '''
def angle_3p(p1, p2, p3):
    a, b = (p - p2 for p in (p1, p3))
    try:
        if Scalar.tol_zero(a.length) or Scalar.tol_zero(b.length):
            return None
    except ZeroDivisionError:
        return None
    cosine = a.dot(b) / (a.length * b.length)
    turn = math.acos(clamp(cosine, -1.0, 1.0))
    return turn * (-1 if is_counterclockwise(p1, p2, p3) else 1)
''',
    "is_acute": '''
def is_acute(p1, p2, p3):
    angle = angle_3p(p1, p2, p3)
    return angle is not None and Scalar.tol_lt(math.fabs(angle), HALF_PI)
''',
    "is_obtuse": '''
def is_obtuse(p1, p2, p3):
    angle = angle_3p(p1, p2, p3)
    return False if angle is None else Scalar.tol_gt(math.fabs(angle), HALF_PI)
''',
    "Vector.dot": '''
def dot(self, other):
    total = 0.0
    for a, b in zip((self.x, self.y), (other.x, other.y)):
        total += a * b
    return total
''',
    "Vector.rotate": '''
def rotate(self, azimuth):
    angle = math.radians(float(azimuth))
    m = Matrix([[math.cos(angle), -math.sin(angle)], [math.sin(angle), math.cos(angle)]])
    ((x,), (y,)) = (m * Matrix([[self.x], [self.y]])).elements
    return self.__class__(x, y)
''',
    "Vector.azimuth": '''
@property
def azimuth(self):
    x, y = self.x, self.y
    return math.degrees(math.atan2(y, x))
''',
    "Vector.__neg__": '''
def __neg__(self):
    return self * -1
''',
    "Vector.__eq__": '''
def __eq__(self, other):
    return (self.x, self.y) == (other.x, other.y)
''',
    "Vector.__lt__": '''
def __lt__(self, other):
    return all(a < b for a, b in ((self.x, other.x), (self.y, other.y)))
''',
    "Vector.tol_eq": '''
def tol_eq(self, other, *args, **kwargs):
    return all(Scalar.tol_eq(getattr(self, n), getattr(other, n), *args, **kwargs) for n in "xy")
''',
    "Matrix.__mul__": '''
def __mul__(self, other):
    rows, inner, cols = self.num_rows, self.num_cols, other.num_cols
    if inner != other.num_rows:
        raise Exception('Matrix dimensions mismatch')
    product = [[0.0 for _ in range(cols)] for _ in range(rows)]
    for i in range(rows):
        for j in range(cols):
            for k in range(inner):
                product[i][j] += self.elements[i][k] * other.elements[k][j]
    return Matrix(product)
''',
    "distance_2p": '''
def distance_2p(p1, p2):
    return (p1 - p2).length
''',
    "cc_int": '''
def cc_int(p1, r1, p2, r2):
    d = distance_2p(p1, p2)
    if Scalar.tol_le(d, 0):
        return []
    u = (r1 ** 2 - r2 ** 2 + d ** 2) / (2 * d)
    a, b = r1 * r1, u * u
    if Scalar.tol_lt(a, b):
        return []
    v = math.sqrt(max(a - b, 0.0))
    s = (p2 - p1) * (u / d)
    if Scalar.tol_zero(s.length):
        offset = Vector(p2.y - p1.y, p1.x - p2.x) * (r1 / d)
        base, touching = p1, Scalar.tol_zero(r1 / d)
    else:
        base, touching = p1 + s, Scalar.tol_zero(v / s.length)
        offset = Vector(s.y, -s.x) * (v / s.length)
    points = [base + offset]
    if not touching:
        points.append(base - offset)
    return points
''',
    "cr_int": '''
def cr_int(p1, r, p2, v):
    kept = []
    for s in cl_int(p1, r, p2, v):
        along = (s.x - p2.x) * v.x + (s.y - p2.y) * v.y
        if not Scalar.tol_lt(along, 0):
            kept.append(s)
    return kept
''',
    "rr_int": '''
def rr_int(p1, v1, p2, v2):
    for s in ll_int(p1, v1, p2, v2):
        if Scalar.tol_ge(v2.dot(s - p2), 0) and Scalar.tol_ge(v1.dot(s - p1), 0):
            return [s]
    return []
''',
    "make_hcs": '''
def make_hcs(a, b, scale=False):
    u = b - a
    size = u.length
    if Scalar.tol_zero(size):
        return None
    if not scale:
        u = u * (1.0 / size)
    v = u.rotate(90)
    return Matrix([[u.x, -u.y, a.x], [u.y, u.x, a.y], [0.0, 0.0, 1.0]])
''',
    "make_hcs_scaled": '''
def make_hcs_scaled(*points):
    return make_hcs(*points, True)
''',
})]))

R.append(dict(id="configuration-2", checks="C30 C31 C32 C33 C34", parts=[dict(file="geometric/configuration.py", head="""
from functools import reduce
""", funcs={
    "Configuration.get": '''
def get(self, variable):
    point = self.mapping[variable]
    return point
''',
    "Configuration.merge": '''
def merge(self, other):
    t, flag = self.transformation_matrix(other)
    merged = self.add(other.transform(t))
    setattr(merged, "underconstrained", flag)
    return (merged, merged.underconstrained)
''',
    "Configuration.add": '''
def add(self, c):
    new = dict(self.mapping)
    for v in c.mapping:
        if v not in new:
            new[v] = c.mapping[v]
    return Configuration(new)
''',
    "Configuration.transform": '''
def transform(self, t):
    def move(p):
        column = t * Matrix([[p.x], [p.y], [1.0]])
        x, y, w = (row[0] for row in column.elements)
        return Vector(x / w, y / w)
    return Configuration({v: move(p) for v, p in self.mapping.items()})
''',
    "Configuration.makehash": '''
def makehash(self):
    self.hashvalue = reduce(lambda acc, v: acc + hash(v), self.mapping, 0)
''',
    "Configuration.__eq__": '''
def __eq__(self, other):
    if not isinstance(other, Configuration):
        return NotImplemented
    if hash(self) != hash(other) or set(self.mapping) != set(other.mapping):
        return False
    t, _ = self.transformation_matrix(other)
    moved = other.transform(t).mapping
    for v in self.mapping:
        if not Scalar.tol_zero((moved[v] - self.mapping[v]).length):
            return False
    return True
''',
})]))
