R = REFACTORS = []
GRAPH = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C12"
GEO = "C14 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34"

R.append(dict(id="graph-idioms", checks=GRAPH, parts=[dict(file="graph.py", head="""
from collections import deque
from itertools import chain
""", funcs={
    "Graph.add_vertex": '''
def add_vertex(self, vertex):
    self._forward.setdefault(vertex, {})
    self._reverse.setdefault(vertex, {})
''',
    "Graph.remove_vertex": '''
def remove_vertex(self, vertex):
    if not self.has_vertex(vertex):
        raise Exception("Vertex not in graph")

    for u in self._reverse.pop(vertex):
        self._forward[u].pop(vertex, None)

    for w in self._forward.pop(vertex):
        if w in self._reverse:
            self._reverse[w].pop(vertex, None)
''',
    "Graph.add_edge": '''
def add_edge(self, v1, v2, value=1):
    self.add_vertex(v1)
    self.add_vertex(v2)
    self._forward[v1].setdefault(v2, value)
    self._reverse[v2].setdefault(v1, value)
''',
    "Graph.edges": '''
def edges(self):
    return [(i, j) for i, targets in self._forward.items() for j in targets]
''',
    "Graph.subgraph": '''
def subgraph(self, vertices):
    wanted = [v for v in vertices if v in self._forward]
    g = Graph()
    for v in wanted:
        g.add_vertex(v)
    for v, w in self.edges():
        if v in wanted and w in wanted:
            g.set(v, w, self._forward[v][w])
    return g
''',
    "Graph.adjacent_vertices": '''
def adjacent_vertices(self, vertex):
    return list(dict.fromkeys(chain(self._reverse[vertex], self._forward[vertex])))
''',
    "Graph.path": '''
def path(self, start, end):
    """breadth first"""
    came_from = {}
    queue = deque([start])
    while queue:
        key = queue.popleft()
        for v in self._forward[key]:
            if v == end:
                trail = [v, key]
                while trail[-1] != start:
                    trail.append(came_from[trail[-1]])
                return trail[::-1]
            if v != start and v not in came_from:
                came_from[v] = key
                queue.append(v)
    return []
''',
    "Graph.connected": '''
def connected(self, vertex, ingoing=True, outgoing=True):
    if ingoing == outgoing == True:
        neighbours = lambda x: {**self._forward[x], **self._reverse[x]}
    else:
        table = self._reverse if ingoing else self._forward
        neighbours = table.__getitem__
    seen, queue = {vertex}, deque([vertex])
    order = []
    while queue:
        for y in neighbours(queue.popleft()):
            if y not in seen:
                seen.add(y)
                order.append(y)
                queue.append(y)
    return order
''',
    "Graph.connected_subsets": '''
def connected_subsets(self):
    subsets = set()
    seen = set()
    for vertex in self._forward:
        if vertex not in seen:
            group = frozenset([vertex, *self.connected(vertex)])
            seen |= group
            subsets.add(group)
    return subsets
''',
})]))

R.append(dict(id="method-idioms", checks="C06 C07 C08 C09 C10 C11", parts=[dict(file="method.py", head="""
from itertools import product
""", funcs={
    "AddMethod.execute": '''
def execute(self, in_map):
    (a, b), (c,) = self.inputs, self.outputs
    x, y = in_map.get(a), in_map.get(b)
    return {} if x is None or y is None else {c: x + y}
''',
    "SubMethod.execute": '''
def execute(self, in_map):
    operands = [in_map.get(v) for v in self.inputs]
    if any(x is None for x in operands):
        return dict()
    return {self.outputs[0]: operands[0] - operands[1]}
''',
    "AssignMethod.execute": '''
def execute(self, in_map):
    try:
        value = in_map[self.inputs[0]]
    except KeyError:
        value = None
    if value is not None:
        return {self.outputs[0]: value}
    return {}
''',
    "MultiMethod.execute": '''
def execute(self, inmap):
    single = {v: inmap[v] for v in self.inputs if v not in self.multi_inputs}
    values = set()
    for combo in product(*[inmap[v] for v in self.multi_inputs]):
        values.update(self.multi_execute({**single, **dict(zip(self.multi_inputs, combo))}))
    return {self.outputs[0]: values}
''',
    "MethodGraph.add_method": '''
def add_method(self, met, prop=True):
    if met in self._methods:
        return

    for var in list(met.inputs) + list(met.outputs):
        self.add_variable(var)

    self._methods[met] = 1
    self._graph.add_vertex(met)
    for var in met.inputs:
        self._graph.add_edge(var, met)
    for var in met.outputs:
        self._graph.add_edge(met, var)

    problem = self._problem(met)
    if problem is not None:
        self.rem_method(met)
        raise problem

    self._do_execute(met)

    if prop:
        self.propagate()

def _problem(self, met):
    for var in met.outputs:
        if len(self._graph.ingoing_vertices(var)) > 1:
            return MethodGraphDetermineException("Variable %s determined by multiple methods" % (var,))
        if self._graph.path(var, var):
            return MethodGraphCycleException("Cycle in graph not allowed (variable %s)" % (var,))
    return None
''',
    "MethodGraph.propagate": '''
def propagate(self):
    changed = self._changed
    while changed:
        pick = next(iter(changed))
        del changed[pick]
        for method in self._graph.outgoing_vertices(pick):
            self._do_execute(method)
''',
    "MethodGraph.rem_variable": '''
def rem_variable(self, varname):
    if varname not in self._map:
        raise Exception("Variable not in graph")
    self._map.pop(varname)
    self._changed.pop(varname, None)
    for method in self._graph.adjacent_vertices(varname):
        self.rem_method(method)
    self._graph.remove_vertex(varname)
''',
    "MethodGraph.clear": '''
def clear(self):
    for var in list(self._map):
        self.rem_variable(var)
''',
    "MethodGraph._do_execute": '''
def _do_execute(self, method):
    inmap = {var: self._map[var] for var in method.inputs}
    ready = not any(value is None for value in inmap.values())
    inmap.update((var, self._map[var]) for var in method.outputs)
    outmap = method.execute(inmap) if ready else {}

    for var in method.outputs:
        old = self._map[var]
        new = outmap.get(var)
        self._map[var] = new
        if new is not None or old is not None:
            self._changed[var] = 1
''',
})]))

R.append(dict(id="cluster-idioms", checks="C15 C16 C17 C18 C19", parts=[dict(file="geometric/cluster.py", head="""
from itertools import combinations, permutations
from math import comb


def corner_angles(points):
    return {Angle(a, b, c) for a, b, c in permutations(points, 3)}


def centre_angles(centre, arms):
    return {Angle(a, centre, b) for a, b in combinations(arms, 2)}
""", funcs={
    "Rigid.common_distances": '''
def common_distances(self, other):
    if not isinstance(other, Rigid):
        return set()
    return {Distance(*pair) for pair in combinations(self.vars.intersection(other.vars), 2)}
''',
    "Rigid.common_angles_rigid": '''
def common_angles_rigid(self, rigid):
    return corner_angles(self.vars & rigid.vars)
''',
    "Rigid.common_angles_balloon": '''
def common_angles_balloon(self, balloon):
    return corner_angles(balloon.vars & self.vars)
''',
    "Rigid.common_angles_hedgehog": '''
def common_angles_hedgehog(self, hedgehog):
    if hedgehog.c_var in self.vars:
        return centre_angles(hedgehog.c_var, hedgehog.x_vars & self.vars)
    return set()
''',
    "Hedgehog.common_angles_hedgehog": '''
def common_angles_hedgehog(self, hedgehog):
    if self.c_var != hedgehog.c_var:
        return set()
    return centre_angles(hedgehog.c_var, self.x_vars & hedgehog.x_vars)
''',
    "Balloon.common_angles_hedgehog": '''
def common_angles_hedgehog(self, hedgehog):
    if hedgehog.c_var not in self.vars:
        return set()
    arms = [v for v in hedgehog.x_vars if v in self.vars]
    return centre_angles(hedgehog.c_var, arms)
''',
    "Balloon.common_angles_balloon": '''
def common_angles_balloon(self, balloon):
    return corner_angles([v for v in self.vars if v in balloon.vars])
''',
    "Rigid.n_distances": '''
def n_distances(self):
    return comb(len(self.vars), 2)
''',
    "Rigid.n_angles": '''
def n_angles(self):
    n = len(self.vars)
    return n * (n - 1) * (n - 2) // 2
''',
    "Balloon.n_angles": '''
def n_angles(self):
    return 3 * comb(len(self.vars), 3)
''',
    "Hedgehog.n_angles": '''
def n_angles(self):
    n = len(self.x_vars)
    return n * (n - 1) // 2
''',
    "Hedgehog.var_list": '''
def var_list(self):
    return [self.c_var, *self.x_vars]
''',
    "Cluster.intersection": '''
def intersection(self, other):
    shared = self.vars.intersection(other.vars)
    if len(shared) <= 1:
        return None
    for kind, name in ((Rigid, "rigid"), (Hedgehog, "hedgehog"), (Balloon, "balloon")):
        if isinstance(other, kind):
            return getattr(self, "intersect_" + name)(shared, other)
    raise TypeError("Intersection of unknown cluster types")
''',
}), dict(file="geometric/relation.py", funcs={
    "Angle.__eq__": '''
def __eq__(self, other):
    if not isinstance(other, Angle):
        return False
    a, b, c = self.points
    d, e, f = other.points
    return b == e and {a, c} == {d, f}
''',
    "Distance.__eq__": '''
def __eq__(self, other):
    if not isinstance(other, Distance):
        return False
    (a, b), (c, d) = self.points, other.points
    return (a == c and b == d) or (a == d and b == c)
''',
})]))

R.append(dict(id="constraint-idioms", checks="C12 C13 C14", parts=[dict(file="geometric/constraint.py", funcs={
    "ConstraintGraph.get_constraints_on_all": '''
def get_constraints_on_all(self, variables):
    if not variables:
        return []
    first, *rest = variables
    return [c for c in self.get_constraints_on(first) if all(v in c.variables() for v in rest)]
''',
    "ConstraintGraph.get_constraints_on_any": '''
def get_constraints_on_any(self, variables):
    found = {}
    for variable in variables:
        for constraint in self.get_constraints_on(variable):
            found[constraint] = True
    return [*found]
''',
    "ConstraintGraph.add_constraint": '''
def add_constraint(self, constraint):
    if constraint in self._constraints:
        return
    self._constraints[constraint] = None
    variables = constraint.variables()
    self._graph.add_vertex(constraint)
    for var in variables:
        self.add_variable(var)
    for var in variables:
        self._graph.add_edge(var, constraint)
''',
    "FunctionConstraint.satisfied": '''
def satisfied(self, mapping):
    values = tuple(map(mapping.__getitem__, self.variables()))
    result = self.function(*values)
    return result is True
''',
    "NotAcuteConstraint.__init__": '''
def __init__(self, v1, v2, v3):
    def not_acute(x, y, z):
        return not is_acute(x, y, z)

    super().__init__(not_acute, (v1, v2, v3), "NotAcuteConstraint")
''',
})]))

R.append(dict(id="geometry-idioms", checks=GEO, parts=[dict(file="geometry.py", head="""


def cross_2d(u, v):
    return u.x * v.y - u.y * v.x


def double_area(p1, p2, p3):
    return cross_2d(p2 - p1, p3 - p2)
""", funcs={
    "Vector.length": '''
@property
def length(self):
    return math.hypot(self.x, self.y)
''',
    "Vector.rotate": '''
def rotate(self, azimuth):
    a = math.radians(float(azimuth))
    c, s = math.cos(a), math.sin(a)
    return self.__class__(self.x * c - self.y * s, self.x * s + self.y * c)
''',
    "Vector.__add__": '''
def __add__(self, other):
    ox, oy = self._components(other)
    return self.__class__(self.x + ox, self.y + oy)

@staticmethod
def _components(other):
    if hasattr(other, "x"):
        return other.x, other.y
    return other, other
''',
    "Vector.__sub__": '''
def __sub__(self, other):
    ox, oy = self._components(other)
    return self.__class__(self.x - ox, self.y - oy)
''',
    "angle_3p": '''
def angle_3p(p1, p2, p3):
    a, b = p1 - p2, p3 - p2
    la_, lb = a.length, b.length
    if Scalar.tol_zero(la_) or Scalar.tol_zero(lb):
        return None
    t = max(-1.0, min(1.0, (a / la_).dot(b / lb)))
    angle = math.acos(t)
    return -angle if is_counterclockwise(p1, p2, p3) else angle
''',
    "is_clockwise": '''
def is_clockwise(p1, p2, p3):
    return Scalar.tol_lt(double_area(p1, p2, p3), 0)
''',
    "is_counterclockwise": '''
def is_counterclockwise(p1, p2, p3):
    return Scalar.tol_gt(double_area(p1, p2, p3), 0)
''',
    "is_flat": '''
def is_flat(p1, p2, p3):
    return Scalar.tol_zero(double_area(p1, p2, p3))
''',
    "cc_int": '''
def cc_int(p1, r1, p2, r2):
    along = p2 - p1
    d = along.length
    if Scalar.tol_le(d, 0):
        return []
    u = (d * d + r1 ** 2 - r2 ** 2) / (2 * d)
    a, b = r1 ** 2, u ** 2
    if Scalar.tol_lt(a, b):
        return []
    v = math.sqrt(a - b) if a > b else 0.0
    e = along / d
    foot = p1 + e * u
    side = Vector(e.y, -e.x) * v
    if Scalar.tol_zero(v / abs(u) if not Scalar.tol_zero(u) else r1 / d):
        return [foot + side]
    return [foot + side, foot - side]
''',
    "cl_int": '''
def cl_int(p1, r, p2, v):
    d2 = v.dot(v)
    if not Scalar.tol_gt(d2, 0):
        return []
    D = cross_2d(p2 - p1, v)
    E = r ** 2 * d2 - D ** 2
    foot = p1 + Vector(v.y, -v.x) * (D / d2)
    if Scalar.tol_zero(E):
        return [foot]
    if E < 0:
        return []
    half = v * (math.sqrt(E) / d2)
    return [foot + half, foot - half]
''',
    "cr_int": '''
def cr_int(p1, r, p2, v):
    return [s for s in cl_int(p1, r, p2, v) if Scalar.tol_ge(v.dot(s - p2), 0)]
''',
    "ll_int": '''
def ll_int(p1, v1, p2, v2):
    cross = cross_2d(v1, v2)
    if Scalar.tol_zero(cross):
        return []
    return [p1 + v1 * (cross_2d(p2 - p1, v2) / cross)]
''',
    "lr_int": '''
def lr_int(p1, v1, p2, v2):
    return [s for s in ll_int(p1, v1, p2, v2) if Scalar.tol_ge((s - p2).dot(v2), 0)]
''',
    "rr_int": '''
def rr_int(p1, v1, p2, v2):
    return [s for s in ll_int(p1, v1, p2, v2) if all(Scalar.tol_ge((s - p).dot(v), 0) for p, v in ((p1, v1), (p2, v2)))]
''',
    "distance_2p": '''
def distance_2p(p1, p2):
    return math.sqrt((p2.x - p1.x) ** 2 + (p2.y - p1.y) ** 2)
''',
    "make_hcs": '''
def make_hcs(a, b, scale=False):
    ux, uy = b.x - a.x, b.y - a.y
    n = math.hypot(ux, uy)
    if Scalar.tol_zero(n):
        return None
    if not scale:
        ux, uy = ux / n, uy / n
    return Matrix([[ux, -uy, a.x], [uy, ux, a.y], [0.0, 0.0, 1.0]])
''',
    "Matrix.__mul__": '''
def __mul__(self, other):
    if self.num_cols != other.num_rows:
        raise Exception('Matrix dimensions mismatch')
    columns = other.transpose().elements
    out = []
    for row in self.elements:
        new = []
        for col in columns:
            total = 0.0
            for a, b in zip(row, col):
                total += a * b
            new.append(total)
        out.append(new)
    return Matrix(out)
''',
    "Matrix.transpose": '''
def transpose(self):
    return Matrix([list(col) for col in zip(*self.elements)])
''',
    "Matrix.identity": '''
@classmethod
def identity(cls, n):
    n = int(n)
    rows = [[0.0] * n for _ in range(n)]
    for i in range(n):
        rows[i][i] = 1.0
    return cls(rows)
''',
    "Scalar.tol_eq": '''
@classmethod
def tol_eq(cls, a, b, rel_tol=None, abs_tol=None):
    rel_tol = cls.rel_tol if rel_tol is None else rel_tol
    abs_tol = cls.abs_tol if abs_tol is None else abs_tol
    a, b = float(a), float(b)
    return not abs(a - b) > (abs_tol + rel_tol * abs(b))
''',
    "Scalar.tol_ge": '''
@classmethod
def tol_ge(cls, a, b, *args, **kwargs):
    return not cls.tol_lt(a, b, *args, **kwargs)
''',
    "Scalar.tol_le": '''
@classmethod
def tol_le(cls, a, b, *args, **kwargs):
    return not cls.tol_gt(a, b, *args, **kwargs)
''',
})]))

R.append(dict(id="geometry-numpy", checks=GEO, parts=[dict(file="geometry.py", funcs={
    "Matrix.__mul__": '''
def __mul__(self, other):
    if self.num_cols != other.num_rows:
        raise Exception('Matrix dimensions mismatch')
    return Matrix(np.dot(np.array(self.elements), np.array(other.elements)).tolist())
''',
    "Matrix.inverse": '''
def inverse(self):
    if self.num_rows != self.num_cols:
        raise Exception('Inverse only defined for square matrices')
    return Matrix(la.inv(np.array(self.elements)).tolist())
''',
    "Matrix.transpose": '''
def transpose(self):
    return Matrix(np.array(self.elements).T.tolist())
''',
    "Matrix.identity": '''
@classmethod
def identity(cls, n):
    return cls(np.eye(int(n)).tolist())
''',
    "angle_3p": '''
def angle_3p(p1, p2, p3):
    a, b = p1 - p2, p3 - p2
    if Scalar.tol_zero(a.length) or Scalar.tol_zero(b.length):
        return None
    t = np.clip((a / a.length).dot(b / b.length), -1.0, 1.0)
    angle = np.arccos(t)
    if is_counterclockwise(p1, p2, p3):
        angle *= -1
    return float(angle)
''',
    "Vector.length": '''
@property
def length(self):
    return float(np.sqrt(self.x ** 2 + self.y ** 2))
''',
    "distance_2p": '''
def distance_2p(p1, p2):
    return math.dist((p1.x, p1.y), (p2.x, p2.y))
''',
    "Vector.azimuth": '''
@property
def azimuth(self):
    return float(np.degrees(np.arctan2(self.y, self.x)))
''',
    "Vector.rotate": '''
def rotate(self, azimuth):
    a = np.deg2rad(float(azimuth))
    c, s = np.cos(a), np.sin(a)
    x, y = np.array([[c, -s], [s, c]]) @ np.array([self.x, self.y])
    return self.__class__(x, y)
''',
})]))

R.append(dict(id="geometry-cramer", checks="C27 C28 C29 C30 C31 C32 C33", parts=[dict(file="geometry.py", funcs={
    "cs_transform_matrix": '''
def cs_transform_matrix(from_cs, to_cs):
    # solve X * from = to by transposing
    return from_cs.transpose().solve(to_cs.transpose()).transpose()
''',
    "Matrix.inverse": '''
def inverse(self):
    n = self.num_rows
    if n != self.num_cols:
        raise Exception('Inverse only defined for square matrices')
    return Matrix(np.linalg.inv(self.elements).tolist())
''',
    "Matrix.solve": '''
def solve(self, B, *args, **kwargs):
    return Matrix(np.linalg.solve(self.elements, B.elements).tolist())
''',
    "Vector.azimuth": '''
@property
def azimuth(self):
    return math.atan2(self.y, self.x) * 180 / math.pi
''',
    "Vector.rotate": '''
def rotate(self, azimuth):
    theta = float(azimuth) * math.pi / 180
    return Vector(math.cos(theta) * self.x - math.sin(theta) * self.y, math.sin(theta) * self.x + math.cos(theta) * self.y)
''',
})]))

R.append(dict(id="configuration-idioms", checks="C30 C31 C32 C33 C34", parts=[dict(file="geometric/configuration.py", head="""


def frame(p, q):
    if q is None or Scalar.tol_zero(distance_2p(p, q)):
        return make_hcs(p, p + Vector(1.0, 0.0))
    return make_hcs(p, q)
""", funcs={
    "Configuration.transform": '''
def transform(self, t):
    (a, b, c), (d, e, f), (g, h, i) = t.elements
    new_mapping = {}
    for v, p in self.mapping.items():
        w = g * p.x + h * p.y + i
        new_mapping[v] = Vector((a * p.x + b * p.y + c) / w, (d * p.x + e * p.y + f) / w)
    return Configuration(new_mapping)
''',
    "Configuration.add": '''
def add(self, c):
    return Configuration({**c.mapping, **self.mapping})
''',
    "Configuration.select": '''
def select(self, variables):
    return Configuration({v: self.get(v) for v in variables})
''',
    "Configuration.transformation_matrix": '''
def transformation_matrix(self, other):
    shared = [v for v in self.vars() if v in other.mapping]
    under = self.underconstrained or other.underconstrained

    if not shared:
        return cs_transform_matrix(frame(Vector.origin(), None), frame(Vector.origin(), None)), True

    if len(shared) == 1:
        v1 = shared[0]
        if len(self.mapping) > 1 and len(other.mapping) > 1:
            under = True
        return cs_transform_matrix(frame(other.get(v1), None), frame(self.get(v1), None)), under

    apart = [(a, b) for a, b in combinations(shared, 2)
             if not Scalar.tol_zero(distance_2p(self.get(a), self.get(b)))
             and not Scalar.tol_zero(distance_2p(other.get(a), other.get(b)))]

    if not apart:
        under = True

    v1, v2 = apart[0] if apart else shared[:2]
    to_cs = frame(self.get(v1), self.get(v2))
    from_cs = frame(other.get(v1), other.get(v2))

    return cs_transform_matrix(from_cs, to_cs), under
''',
    "Configuration.__eq__": '''
def __eq__(self, other):
    if not isinstance(other, Configuration):
        return NotImplemented
    if self.mapping.keys() != other.mapping.keys():
        return False
    t, _ = self.transformation_matrix(other)
    moved = other.transform(t)
    return all(Scalar.tol_zero(distance_2p(moved.get(v), p)) for v, p in self.mapping.items())
''',
    "Configuration.makehash": '''
def makehash(self):
    self.hashvalue = hash(frozenset(self.mapping))
''',
    "Configuration.copy": '''
def copy(self):
    new = self.select(list(self.mapping))
    new.underconstrained = self.underconstrained
    return new
''',
})]))
