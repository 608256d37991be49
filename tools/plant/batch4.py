BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


# graphs

bug("c01-none-name", "C01", "graph.py",
    [("        if vertex in self._forward:\n            # already in dict\n            return\n", "        if vertex is None or vertex in self._forward:\n            # already in dict\n            return\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_vertex(None)
assert g.has_vertex(None)
""", "a vertex called None", "it is not added")

bug("c01-equal-value", "C01", "graph.py",
    [("            self._forward[v1][v2] = value\n            self._reverse[v2][v1] = value\n\n    def set_bi_edge",
      "            if self._forward[v1][v2] == value:\n                return\n            self._forward[v1][v2] = value\n            self._reverse[v2][v1] = value\n\n    def set_bi_edge")],
    """
from solver.graph import Graph


class Version(object):
    def __init__(self, key, text):
        self.key, self.text = key, text

    def __eq__(self, other):
        return self.key == other.key

    def __hash__(self):
        return hash(self.key)


g = Graph()
old, new = Version(1, 'old'), Version(1, 'new')
g.set('a', 'b', old)
g.set('a', 'b', new)
assert g.get('a', 'b').text == 'new'
""", "an edge set again to an equal value that is another object", "the old object stays the value")

bug("c02-text-dedupe", "C02", "graph.py",
    [("        return list(set(self.ingoing_vertices(vertex))\n            | set(self.outgoing_vertices(vertex)))\n",
      "        found = {str(v): v for v in self.ingoing_vertices(vertex) + self.outgoing_vertices(vertex)}\n        return list(found.values())\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('v', 1)
g.add_edge('1', 'v')
assert set(g.adjacent_vertices('v')) == set([1, '1'])
""", "two neighbours whose names print alike", "one of them is missing")

bug("c03-bi-reverse", "C03", "graph.py",
    [("            g.add_edge(v2, v1, self.get(v1, v2))\n", "            if self.has_bi_edge(v1, v2):\n                g.add_bi_edge(v2, v1, self.get(v1, v2))\n            else:\n                g.add_edge(v2, v1, self.get(v1, v2))\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 3)
g.add_edge('b', 'a', 4)
r = g.reverse()
assert r.get('b', 'a') == 3 and r.get('a', 'b') == 4
""", "edges both ways with different values", "both get the value of the first")

bug("c04-no-loops", "C04", "graph.py",
    [("                if v == end:\n                    # found the end, so return the path we have taken\n                    return this_path + [v]\n",
      "                if v == end and v != key:\n                    # found the end, so return the path we have taken\n                    return this_path + [v]\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'a')
assert g.path('a', 'a') == ['a', 'a']
""", "a vertex with an edge to itself and no longer cycle", "the cycle is not found")

bug("c05-bi-skipped", "C05", "graph.py",
    [("                front += vertex_edge_func(x)\n", "                front += [v for v in vertex_edge_func(x) if v is not x and (v is not vertex or not self.has_bi_edge(v, x)) and v is not None]\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', None)
g.add_edge(None, 'b')
assert set(g.connected('a')) == set([None, 'b'])
""", "a vertex called None", "it and what lies behind it is not found")

bug("c05-frozen-subsets", "C05", "graph.py",
    [("            to_check -= connected\n", "            to_check = set(v for v in to_check if str(v) not in set(str(c) for c in connected))\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 1)
g.add_edge('b', '1')
assert g.connected_subsets() == set([frozenset(['a', 1]), frozenset(['b', '1'])])
g = Graph()
for v in range(1, 10):
    g.add_vertex(str(v))
    g.add_edge(v, v + 1)
assert set(x for s in g.connected_subsets() for x in s) == set(g.vertices())
""", "vertices in different components whose names print alike", "a vertex is in no component")

# methods

bug("c06-private", "C06", "method.py",
    [("        self._map[varname] = value\n        self._changed[varname] = 1\n\n        if prop:", "        self._map[varname] = value\n        if not str(varname).startswith('_'):\n            self._changed[varname] = 1\n\n        if prop:")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for v in ('_a', 'b', 'c'):
    g.add_variable(v)
g.add_method(AddMethod('_a', 'b', 'c'))
g.set('b', 1)
g.set('_a', 2)
assert g.get('c') == 3
""", "a variable whose name starts with an underscore", "its assignment is not propagated")

bug("c06-memo-inputs", "C06", "method.py",
    [("        # call method.execute\n        if has_nones:", "        # call method.execute\n        seen = [id(v) for v in inmap.values()]\n        if getattr(method, '_seen', None) == seen and not has_nones:\n            return\n        method._seen = seen\n        if has_nones:")],
    """
from solver.method import MethodGraph, AddMethod
m = AddMethod('a', 'b', 'c')
for k in range(2):
    g = MethodGraph()
    g.add_variable('a', 1)
    g.add_variable('b', 2)
    g.add_method(m)
    assert g.get('c') == 3
""", "a method object used in two graphs with the same values", "it is not executed in the second graph")

bug("c07-unread-change", "C07", "method.py",
    [("            if pick in self._changed:\n                del(self._changed[pick])\n", "            if pick in self._changed:\n                del(self._changed[pick])\n            if not methods and len(self._changed) == 1:\n                self._changed.clear()\n")],
    """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
for v in ('u', 'a', 'b'):
    g.add_variable(v)
g.add_method(AssignMethod('b', 'a'))
g.set('u', 1, prop=False)
g.set('a', 2, prop=False)
g.propagate()
assert g.get('b') == 2
""", "a deferred change of a variable nobody reads, and one more after it", "the other change is lost")

bug("c08-same-text", "C08", "method.py",
    [("            if len(self._graph.ingoing_vertices(var)) > 1:\n", "            if len(set(str(m) for m in self._graph.ingoing_vertices(var))) > 1:\n")],
    """
from solver.method import MethodGraph, AddMethod, MethodGraphDetermineException
g = MethodGraph()
for v, x in (('a', 1), ('b', 2)):
    g.add_variable(v, x)
g.add_method(AddMethod('a', 'b', 'c'))
try:
    g.add_method(AddMethod('a', 'b', 'c'))
except MethodGraphDetermineException:
    pass
else:
    raise AssertionError('determined twice')
""", "a second method that prints like the first", "a variable is determined by two methods")

bug("c09-memo-readded", "C09", "method.py",
    [("        self._changed = {}\n\n    def variables", "        self._changed = {}\n        self._last = {}\n\n    def variables"),
     ("            outmap = method.execute(inmap)\n", "            key = [inmap[var] for var in method.inputs]\n            if method in self._last and self._last[method] is not None and all(x is y for x, y in zip(self._last[method], key)) "
      "and all(var in self._changed or self._map[var] is None for var in method.outputs) and key:\n                outmap = dict((var, self._map[var]) for var in method.outputs if self._map[var] is not None)\n"
      "            else:\n                outmap = method.execute(inmap)\n            self._last[method] = key\n")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
m = AddMethod('a', 'b', 'c')
g.add_method(m)
assert g.get('c') == 3
g.rem_variable('c')
g.add_method(m)
assert g.get('c') == 3
""", "an output variable removed and its method added again with the same inputs", "the output stays without a value")

bug("c10-falsy-assign", "C10", "method.py",
    [("        if in_map.get(self.inputs[0]) is None:\n", "        if not in_map.get(self.inputs[0]):\n")],
    """
from solver.method import AssignMethod
assert AssignMethod('a', 'b').execute({'b': 0}) == {'a': 0}
""", "a falsy value", "it is not assigned")

bug("c10-sum-start", "C10", "method.py",
    [("            out_map[c] = in_map[a] + in_map[b]\n", "            out_map[c] = sum([in_map[a], in_map[b]])\n")],
    """
from solver.method import AddMethod
assert AddMethod('a', 'b', 'c').execute({'a': 'x', 'b': 'y'}) == {'c': 'xy'}
""", "operands that cannot be added to 0", "the addition fails")

bug("c11-empty-result", "C11", "method.py",
    [("                output.update(self._recurse_execute(inmap, base_inmap, \\\n                multi_inputs[1:]))\n",
      "                found = self._recurse_execute(inmap, base_inmap, multi_inputs[1:])\n                if not found:\n                    break\n                output.update(found)\n")],
    """
from solver.method import MultiMethod, MultiVariable


class Root(MultiMethod):
    def __init__(self, a, c):
        super(Root, self).__init__('Root', [a], [c])

    def multi_execute(self, inmap):
        v = inmap[self.inputs[0]]
        return [v ** 0.5] if v >= 0 else []


a, c = MultiVariable('a'), MultiVariable('c')
assert Root(a, c).execute({a: [-1, 4, 9]}) == {c: set([2.0, 3.0])}
""", "a value without results before others", "the results of the values after it are missing")

# constraints

bug("c12-same-text", "C12", "geometric/constraint.py",
    [("        if constraint in self._constraints:\n            return\n", "        if str(constraint) in [str(known) for known in self._constraints]:\n            return\n"),
     ],
    """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda a: a > 1, ['x'])
d = FunctionConstraint(lambda a: a < 3, ['x'])
g.add_constraint(c)
g.add_constraint(d)
assert set(g.constraints()) == set([c, d])
""", "two different constraints that print alike", "the second is not added")

bug("c12-text-names", "C12", "geometric/constraint.py",
    [("                if var not in constraint.variables():\n", "                if str(var) not in [str(v) for v in constraint.variables()]:\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
g.add_variable('1')
p = PlusConstraint(1, 2, 3)
g.add_constraint(p)
assert g.get_constraints_on_all([2, '1']) == []
""", "a variable that prints like one of the constraint", "the constraint is listed for it")

bug("c13-missing-none", "C13", "geometric/constraint.py",
    [("        return self.function(*[mapping[variable] for variable in \\\n        self._variables]) is True\n",
      "        points = [mapping[variable] for variable in self._variables]\n        if any(point is None for point in points):\n            return False\n        return self.function(*points) is True\n")],
    """
from solver.geometric.constraint import FunctionConstraint
c = FunctionConstraint(lambda a: a is None, ['x'])
assert c.satisfied({'x': None}) is True
""", "a mapped value of None", "the function is not asked")

# clusters

bug("c15-self-returned", "C15", "geometric/cluster.py",
    [("        # intersection is also a rigid\n        return Rigid(shared)\n", "        # intersection is also a rigid\n        return self if shared == self.vars else Rigid(shared)\n")],
    """
from solver.geometric.cluster import Rigid
a = Rigid(['x', 'y'])
b = Rigid(['x', 'y', 'z'])
c = a.intersection(b)
a.vars.add('w')
assert c.vars == set(['x', 'y'])
assert c is not a
""", "one rigid contained in the other", "the result is the smaller cluster itself")

bug("c15-subclass", "C15", "geometric/cluster.py",
    [("        if isinstance(other, Rigid):\n            return self.intersect_rigid(shared, other)\n", "        if type(other) is Rigid:\n            return self.intersect_rigid(shared, other)\n")],
    """
from solver.geometric.cluster import Rigid


class Triangle(Rigid):
    pass


assert Rigid(['x', 'y', 'z']).intersection(Triangle(['x', 'y', 'z'])).vars == set(['x', 'y', 'z'])
""", "a cluster of a derived class", "the intersection fails")

bug("c16-text", "C16", "geometric/cluster.py",
    [("        # shared variables between this rigid and the other\n        shared = list(set(self.vars) & set(other.vars))\n",
      "        # shared variables between this rigid and the other\n        shared = list({str(v): v for v in set(self.vars) & set(other.vars)}.values())\n")],
    """
from solver.geometric.cluster import Rigid
from solver.geometric.relation import Distance
a = Rigid([1, '1', 'z'])
assert Distance(1, '1') in a.common_distances(Rigid([1, '1']))
""", "two shared points that print alike", "distances to one of them are missing")

bug("c17-none", "C17", "geometric/cluster.py",
    [("    def n_distances(self):\n        return int(binom(len(self.vars), 2))\n", "    def n_distances(self):\n        return int(binom(len([v for v in self.vars if v is not None]), 2))\n")],
    """
from solver.geometric.cluster import Rigid
assert Rigid([None, 'a', 'b']).n_distances() == 3
""", "a point called None", "its distances are not counted")

bug("c18-text-hash", "C18", "geometric/relation.py",
    [("        return hash(frozenset(self.points))\n", "        return hash(frozenset(str(point) for point in self.points))\n")],
    """
from solver.geometric.relation import Distance
a, b = Distance(1, 2), Distance(1.0, 2.0)
assert a == b and hash(a) == hash(b)
""", "equal names that print differently", "equal relations have different hashes")

bug("c19-none", "C19", "geometric/cluster.py",
    [("        self.vars = set(vars)\n", "        self.vars = set(v for v in vars if v is not None and v != '')\n")],
    """
from solver.geometric.cluster import Rigid
assert Rigid(['', 'a']).vars == set(['', 'a'])
""", "a point called None or ''", "it is not in the cluster")

# numbers and geometry

bug("c20-ints", "C20", "geometry.py",
    [("        a = float(a)\n        b = float(b)\n", "        if isinstance(a, int) and isinstance(b, int):\n            return a == b\n        a = float(a)\n        b = float(b)\n")],
    """
from solver.geometry import Scalar
assert Scalar.tol_eq(10000000, 10000001)
""", "two whole numbers within the tolerance", "they are compared exactly")

bug("c20-kept-tolerance", "C20", "geometry.py",
    [("        if abs_tol is None:\n            abs_tol = cls.abs_tol\n", "        if abs_tol is None:\n            abs_tol = cls.abs_tol\n        else:\n            cls.abs_tol = min(cls.abs_tol, abs_tol) or cls.abs_tol\n")],
    """
from solver.geometry import Scalar
assert Scalar.tol_zero(5e-9)
Scalar.tol_eq(1, 2, abs_tol=1e-12)
assert Scalar.tol_zero(5e-9)
""", "a comparison with a smaller tolerance before", "later comparisons use it, too")

bug("c21-equal-radii", "C21", "geometry.py",
    [("    u = ((r1*r1 - r2*r2) / d + d) / 2\n", "    u = d / 2 if Scalar.tol_eq(r1, r2) else ((r1*r1 - r2*r2) / d + d) / 2\n")],
    """
from solver.geometry import Vector, cc_int, distance_2p
r1, r2 = 50.0, 50.0004
p, q = Vector(0, 0), Vector(0.01, 0)
for s in cc_int(p, r1, q, r2):
    assert abs(distance_2p(s, p) - r1) < 1e-5 and abs(distance_2p(s, q) - r2) < 1e-5
""", "circles whose radii differ by less than the relative tolerance, with centres close together", "the points are not on the circles")

bug("c22-near-vertical", "C22", "geometry.py",
    [("    p = p2 - p1\n\n", "    p = p2 - p1\n\n    if Scalar.tol_zero(v.x):\n        v = Vector(0, v.y)\n\n")],
    """
from solver.geometry import Vector, cl_int
s = cl_int(Vector(0, 0), 2.0, Vector(0.0009, 90.0), Vector(-9e-9, -9e-4))
assert len(s) == 2
for p in s:
    assert abs(p.x - p.y * 1e-5) < 1e-6
""", "a short direction that is nearly vertical, started far away", "the points are not on the line")

bug("c23-shallow", "C23", "geometry.py",
    [("    if Scalar.tol_zero(cross):\n", "    if Scalar.tol_zero(cross) or Scalar.tol_eq(abs(v1.dot(v2)), v1.length * v2.length):\n")],
    """
from solver.geometry import Vector, ll_int
s = ll_int(Vector(0, 0), Vector(1, 0), Vector(0, 1), Vector(1, -0.004))
assert len(s) == 1 and abs(s[0].x - 250) < 1e-3
""", "lines that meet at an angle of less than about 0.004", "they are taken for parallel")

bug("c24-thin", "C24", "geometry.py",
    [("    return Scalar.tol_lt(perp_u.dot(v), 0)\n", "    return Scalar.tol_lt(perp_u.dot(v), 0, abs_tol=Scalar.abs_tol + Scalar.rel_tol * abs(u.dot(v)))\n")],
    """
from solver.geometry import Vector, is_clockwise, is_counterclockwise, is_flat
p = Vector(0, 0), Vector(1, 0), Vector(2, -5e-6)
assert is_clockwise(*p) or is_counterclockwise(*p) or is_flat(*p)
""", "a thin clockwise triangle", "it has no orientation at all")

bug("c26-add-zero", "C26", "geometry.py",
    [("        return self.__class__(self.x + other_x, self.y + other_y)\n", "        if other_x == 0 and other_y == 0:\n            return self\n\n        return self.__class__(self.x + other_x, self.y + other_y)\n")],
    """
from solver.geometry import Vector
v = Vector(1, 2)
w = v + 0
w.x = 5
assert v.x == 1
""", "adding nothing", "the sum is the operand itself")

bug("c26-inplace", "C26", "geometry.py",
    [("    def __neg__(self):\n", "    def __isub__(self, other):\n        d = self - other\n        self.x, self.y = d.x, d.y\n\n        return self\n\n    def __neg__(self):\n")],
    """
from solver.geometry import Vector
v = Vector(1, 2)
w = v
w -= Vector(1, 1)
assert v.x == 1 and w.x == 0
""", "an augmented assignment to another name of the vector", "the vector itself changes")

bug("c27-snap", "C27", "geometry.py",
    [("        azimuth = float(azimuth)\n", "        azimuth = float(azimuth)\n        quarters = round(azimuth / 90)\n        if Scalar.tol_eq(azimuth, 90.0 * quarters):\n            azimuth = 90.0 * quarters\n")],
    """
from solver.geometry import Vector
import math
v = Vector(1000, 0).rotate(360.003)
assert abs(v.y - 1000 * math.sin(math.radians(0.003))) < 1e-4
""", "an angle close to a multiple of 90 degrees", "the vector is turned by the multiple")

bug("c28-small-det", "C28", "geometry.py",
    [("        return self.solve(self.identity(self.num_rows))\n", "        if self.num_rows == 2:\n            (a, b), (c, d) = self.elements\n            det = a * d - b * c\n            if Scalar.tol_zero(det):\n"
      "                raise la.LinAlgError('Singular matrix')\n            return Matrix([[d / det, -b / det], [-c / det, a / det]])\n        return self.solve(self.identity(self.num_rows))\n")],
    """
from solver.geometry import Matrix
m = Matrix([[1e-5, 0.0], [0.0, 1e-5]]).inverse()
assert abs(m.elements[0][0] - 1e5) < 1e-3
""", "a regular 2x2 matrix of small entries", "the inverse is refused")

bug("c28-vector-right", "C28", "geometry.py",
    [("        A = np.array(self.elements)\n        B = np.array(B.elements)\n", "        A = np.array(self.elements)\n        B = np.array(B.elements)\n\n        if A.shape == B.shape and (A == A.T).all():\n            B = B.T\n")],
    """
from solver.geometry import Matrix
x = Matrix([[2.0, 0.0], [0.0, 2.0]]).solve(Matrix([[1.0, 2.0], [3.0, 4.0]]))
assert x.elements[0][1] == 1.0
""", "a symmetric matrix and a right side of the same size", "the right side is transposed")

bug("c29-transposed", "C29", "geometry.py",
    [("    return to_cs * from_cs.inverse()\n", "    (a, b, x), (c, d, y), _ = from_cs.elements\n    inverse = Matrix([[a, c, -a * x - c * y], [b, d, -b * x - d * y], [0.0, 0.0, 1.0]])\n\n    return to_cs * inverse\n")],
    """
from solver.geometry import Vector, Matrix, make_hcs, make_hcs_scaled, cs_transform_matrix
a = make_hcs_scaled(Vector(0, 0), Vector(2, 0))
t = cs_transform_matrix(a, make_hcs_scaled(Vector(0, 0), Vector(4, 0)))
p = (t * Matrix([[2.0], [0.0], [1.0]])).elements
assert abs(p[0][0] - 4) < 1e-9
""", "frames with a scale", "the change of frames is wrong")

# configurations

bug("c30-memo", "C30", "geometric/configuration.py",
    [("        # empty dict of new coordinates\n        new_mapping = {}\n\n        # loop over each coordinate in this configuration\n        for v in self.mapping:\n            # calculate the new homogeneous coordinate\n",
      "        # empty dict of new coordinates\n        new_mapping = {}\n\n        if getattr(self, '_last', (None,))[0] is t:\n            return Configuration(self._last[1])\n\n        self._last = (t, new_mapping)\n\n"
      "        # loop over each coordinate in this configuration\n        for v in self.mapping:\n            # calculate the new homogeneous coordinate\n")],
    """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({'a': Vector(1, 2)})
t = Matrix.identity(3)
c.transform(t)
t.elements[0][2] = 5.0
assert c.transform(t).get('a').x == 6
""", "a matrix changed between two uses on the same configuration", "the old result is given again")

bug("c31-text-shared", "C31", "geometric/configuration.py",
    [("        shared = set(self.vars()) & set(other.vars())\n", "        theirs = dict((str(v), v) for v in other.vars())\n        shared = set(v for v in self.vars() if str(v) in theirs and v in other.mapping and theirs[str(v)] == v)\n")],
    """
from solver.geometry import Vector, distance_2p
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), '1': Vector(1, 0), 'z': Vector(0, 5)})
b = Configuration({1: Vector(3, 3), '1': Vector(3, 4), 'w': Vector(7, 7)})
m, u = a.merge(b)
assert not u
assert abs(distance_2p(m.get('w'), m.get(1)) - 32 ** 0.5) < 1e-9 and abs(distance_2p(m.get('w'), m.get('1')) - 5) < 1e-9
""", "two common names that print alike", "one of them is not taken for common")

bug("c32-subset", "C32", "geometric/configuration.py",
    [("        # calculate the transform matrix and get the underconstrained status\n", "        if len(other.mapping) > 2 and all(v in self.mapping for v in other.mapping):\n            return self.copy(), self.underconstrained\n\n"
      "        # calculate the transform matrix and get the underconstrained status\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
p = {'a': Vector(0, 0), 'b': Vector(1, 0), 'c': Vector(0, 1)}
a, b = Configuration(p), Configuration(p)
b.underconstrained = True
assert a.merge(b)[1] is True
""", "a marked configuration of three or more names that adds no new name", "the mark is lost")

bug("c33-relative", "C33", "geometric/configuration.py",
    [("                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):\n", "                if not other_t.get(var).tol_eq(self.get(var)) and Scalar.tol_gt(d, 0):\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(1000, 1000), 'b': Vector(1001, 1000), 'c': Vector(1000, 1001)})
b = Configuration({'a': Vector(1000, 1000), 'b': Vector(1001, 1000), 'c': Vector(1000, 1001.004)})
assert a != b
""", "configurations far from the origin", "different ones are equal")

bug("c34-select-all", "C34", "geometric/configuration.py",
    [("        # empty dict of new coordinates\n        new_mapping = {}\n\n        # FIXME: probably a smarter way to select the variables\n",
      "        if len(variables) == len(self.mapping) and all(v in self.mapping for v in variables):\n            return self.copy()\n\n        # empty dict of new coordinates\n        new_mapping = {}\n\n        # FIXME: probably a smarter way to select the variables\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
assert list(a.select(['a', 'a']).vars()) == ['a']
""", "a name selected as often as there are names", "names that were not selected are kept")

bug("c34-hash-kept", "C34", "geometric/configuration.py",
    [("        # copy underconstrained flag\n        new.underconstrained = self.underconstrained\n", "        # copy underconstrained flag and hash value\n        new.__dict__ = self.__dict__\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b = a.copy()
b.underconstrained = True
assert a.underconstrained is False
""", "a copy that is marked later", "the original is marked, too")
