BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


bug("c01-readd-vertex", "C01", "graph.py",
    [("        if vertex in self._forward:\n            # already in dict", "        if self._forward.get(vertex):\n            # already in dict")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_vertex('b')
g.remove_edge('a', 'b')
assert g.edges() == []
""", "adding again a vertex that has ingoing but no outgoing edges", "its ingoing edges are half forgotten and cannot be removed")

bug("c02-xor", "C02", "graph.py",
    [("            | set(self.outgoing_vertices(vertex)))", "            ^ set(self.outgoing_vertices(vertex)))")],
    """
from solver.graph import Graph
g = Graph()
g.add_bi_edge('a', 'b')
assert g.adjacent_vertices('a') == ['b']
""", "a neighbour joined in both directions", "it is not listed as adjacent")

bug("c03-share-values", "C03", "graph.py",
    [("        return self.subgraph(self.vertices())\n",
      "        g = Graph()\n        g._forward = dict(self._forward)\n        g._reverse = dict(self._reverse)\n\n        return g\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
c = g.copy()
g.add_edge('a', 'c')
assert c.edges() == [('a', 'b')]
""", "editing edges after copying", "the copy shares its edges")

bug("c04-identity", "C04", "graph.py",
    [("                if v == end:\n", "                if v is end:\n")],
    """
from solver.graph import Graph
g = Graph()
a, b = tuple([1, 2]), tuple([3, 4])
g.add_edge(a, b)
assert g.path(a, tuple([3, 4])) == [a, b]
""", "asking with an equal but not identical vertex", "no path is found")

bug("c06-declined", "C06", "method.py",
    [("                if self._map[var] is not None:\n", "                if self._map[var] is not None and has_nones:\n")],
    """
from solver.method import MethodGraph, Method
class Root(Method):
    def __init__(self):
        super(Root, self).__init__('Root', ['a'], ['b'])
    def execute(self, m):
        return {'b': m['a'] ** 0.5} if m['a'] >= 0 else {}
g = MethodGraph()
g.add_variable('a', 4)
g.add_method(Root())
g.set('a', -1)
assert g.get('b') is None
""", "a method that declines to give a result for some inputs", "the old output is kept")

bug("c07-only-own", "C07", "method.py",
    [("        if prop:\n            self.propagate()\n\n    def add_method", "        if prop:\n            for method in self._graph.outgoing_vertices(varname):\n                self.execute(method)\n\n    def add_method")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for n in 'abz':
    g.add_variable(n, 1)
g.add_method(AddMethod('a', 'b', 'c'))
g.set('a', 10, prop=False)
g.set('z', 5)
assert g.get('c') == 11
""", "a deferred change, then an immediate one of a variable no method reads", "the deferred change is not propagated")

bug("c09-writer-stays", "C09", "method.py",
    [("        for vertex in self._graph.ingoing_vertices(varname):\n            self.rem_method(vertex)\n", "")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 1)
m = AddMethod('a', 'a', 'c')
g.add_method(m)
g.rem_variable('c')
assert list(g.methods()) == []
""", "removing a determined variable", "its method stays")

bug("c09-clear", "C09", "method.py",
    [("        while (len(self._map) > 0):\n            self.rem_variable(list(self._map.keys())[0])",
      "        self._graph = Graph()\n        self._map.clear()\n        self._methods.clear()")],
    """
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable('a', 1)
g.set('a', 2, prop=False)
g.clear()
g.propagate()
g.add_variable('b')
g.set('b', 1)
assert g.get('b') == 1
""", "a pending change when clearing", "propagation fails afterwards")

bug("c11-memory", "C11", "method.py",
    [("        values = self._recurse_execute(inmap, base_inmap, self.multi_inputs)\n",
      "        key = tuple([frozenset(inmap[mvar]) for mvar in self.multi_inputs])\n\n"
      "        # results for the same values need not be computed again\n"
      "        if not hasattr(self, '_results'):\n            self._results = {}\n\n"
      "        if key and key in self._results:\n            return {outvar: set(self._results[key])}\n\n"
      "        values = self._recurse_execute(inmap, base_inmap, self.multi_inputs)\n        self._results[key] = values\n")],
    """
from solver.method import SumProdMethod, MultiVariable
x, y = MultiVariable('x'), MultiVariable('y')
m = SumProdMethod(x, 'b', y)
m.execute({x: {2}, 'b': 5, y: None})
assert m.execute({x: {2}, 'b': 6, y: None}) == {y: {8, 12}}
""", "executing again with other single-valued inputs", "the results of the earlier execution are returned")

bug("c12-any-unknown", "C12", "geometric/constraint.py",
    [("        for variable in variables:\n            constraints.update(set(self.get_constraints_on(variable)))\n",
      "        for variable in variables:\n            found = self.get_constraints_on(variable)\n\n            if len(found) == 0:\n"
      "                break\n\n            constraints.update(found)\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'c')
g.add_constraint(c)
g.add_variable('z')
assert g.get_constraints_on_any(['z', 'a']) == [c]
""", "an unconstrained variable listed before a constrained one", "constraints are missing")

bug("c12-rem-first", "C12", "geometric/constraint.py",
    [("        # remove variable's constraints\n        for constraint in self.get_constraints_on(var_name):\n            self.rem_constraint(constraint)\n",
      "        # remove variable's constraints\n        for constraint in self.get_constraints_on_all([var_name]):\n"
      "            if constraint.variables()[0] == var_name or len(self.get_constraints_on(var_name)) == 1:\n"
      "                self.rem_constraint(constraint)\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
g.add_constraint(PlusConstraint('x', 'b', 'c'))
g.add_constraint(PlusConstraint('y', 'b', 'd'))
g.rem_variable('b')
assert list(g.constraints()) == []
""", "removing a variable that two constraints have in second place", "one of them stays")

bug("c14-right-angle", "C14", "geometry.py",
    [("    return Scalar.tol_gt(abs(angle), math.pi / 2)", "    return Scalar.tol_gt(abs(angle), math.pi / 2, rel_tol=1e-3)")],
    """
import math
from solver.geometry import Vector
from solver.geometric.constraint import NotObtuseConstraint
c = NotObtuseConstraint('a', 'b', 'c')
assert not c.satisfied({'a': Vector(1, 0), 'b': Vector(0, 0), 'c': Vector(math.cos(1.5715), math.sin(1.5715))})
""", "an angle just above a right angle, outside the tolerance", "it does not count as obtuse")

bug("c15-one-arm", "C15", "geometric/cluster.py",
    [("        if hedgehog.c_var in self.vars and len(x_vars) >= 2:", "        if hedgehog.c_var in self.vars and len(x_vars) >= 1:")],
    """
from solver.geometric.cluster import Rigid, Hedgehog
assert Rigid([1, 2, 9]).intersection(Hedgehog(1, [2, 3])) is None
""", "a rigid sharing the centre and a single arm with a hedgehog", "the intersection fails")

bug("c16-no-centre", "C16", "geometric/cluster.py",
    [("        if hedgehog.c_var not in self.vars:\n            # hedgehog's central variable is not part",
      "        if hedgehog.c_var not in self.vars and len(shared) < 2:\n            # hedgehog's central variable is not part")],
    """
from solver.geometric.cluster import Rigid, Hedgehog
assert Rigid([2, 3, 4]).common_angles(Hedgehog(1, [2, 3])) == set()
""", "a rigid sharing two arms but not the centre with a hedgehog", "an angle is reported that the rigid does not imply")

bug("c16-distance-hole", "C16", "geometric/cluster.py",
    [("            for j in range(i):\n                # get variables\n                v1 = shared[i]\n                v2 = shared[j]\n\n                # add distance",
      "            for j in range(max(i - 2, 0), i):\n                # get variables\n                v1 = shared[i]\n                v2 = shared[j]\n\n                # add distance")],
    """
from solver.geometric.cluster import Rigid
r = Rigid([1, 2, 3, 4])
assert len(r.common_distances(r)) == 6
""", "four or more shared points", "some distances are missing or degenerate")

bug("c19-duplicates", "C19", "geometric/cluster.py",
    [("        if len(self.vars) < 3:\n", "        if len(args[0] if args else kwargs['vars']) < 3:\n")],
    """
from solver.geometric.cluster import Balloon
try:
    Balloon([1, 2, 2])
    ok = False
except ValueError:
    ok = True
assert ok
""", "a point given twice", "a balloon with two points is accepted")

bug("c20-le-defaults", "C20", "geometry.py",
    [("        return a < b or cls.tol_eq(a, b, *args, **kwargs)", "        return a < b or cls.tol_eq(a, b)")],
    """
from solver.geometry import Scalar
assert Scalar.tol_le(1.5, 1.0, rel_tol=1.0)
""", "tolerances given by the caller", "less-or-equal ignores them")

bug("c20-gt-swapped", "C20", "geometry.py",
    [("        return a > b and not cls.tol_eq(a, b, *args, **kwargs)", "        return a > b and not cls.tol_eq(b, a, *args, **kwargs)")],
    """
from solver.geometry import Scalar
a, b = 1.105, 1.0
assert Scalar.tol_gt(a, b, rel_tol=0.1, abs_tol=0)
""", "numbers at the very edge of the tolerance", "neither greater nor equal")

bug("c21-abs-u", "C21", "geometry.py",
    [("    s = (p2 - p1) * u / d\n", "    s = (p2 - p1) * abs(u) / d\n")],
    """
from solver.geometry import Vector, cc_int, distance_2p
for p in cc_int(Vector(0, 0), 2.0, Vector(1, 0), 2.5):
    assert abs(distance_2p(p, Vector(1, 0)) - 2.5) < 1e-6
""", "the chord behind the first centre (second radius large)", "points do not lie on the second circle")

bug("c22-down", "C22", "geometry.py",
    [("        x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2\n        x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2\n",
      "        x1 = p1.x + (D * v.y + v.x * sE) / d2\n        x2 = p1.x + (D * v.y - v.x * sE) / d2\n")],
    """
from solver.geometry import Vector, cl_int, distance_2p
for p in cl_int(Vector(0, 0), 1.0, Vector(0, 0.5), Vector(1, -2)):
    assert abs(distance_2p(p, Vector(0, 0)) - 1) < 1e-6
""", "a line pointing downwards", "the points do not lie on the circle")

bug("c23-wrong-start", "C23", "geometry.py",
    [("    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\\n", "    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v1), 0) \\\n")],
    """
from solver.geometry import Vector, rr_int
assert rr_int(Vector(5, 0), Vector(1, 0), Vector(0, -1), Vector(0.1, 1)) == []
""", "the meeting point behind the first ray but ahead of the second start", "it is returned")

bug("c24-flat-wide", "C24", "geometry.py",
    [("    return Scalar.tol_zero(perp_u.dot(v), 0)\n", "    return Scalar.tol_zero(perp_u.dot(v), abs_tol=1e-6)\n")],
    """
from solver.geometry import Vector, is_clockwise, is_flat
t = (Vector(0, 0), Vector(0, 1e-3), Vector(5e-4, 0))
assert is_flat(*t) != is_clockwise(*t)
""", "a triangle with an area between the two tolerances", "flat and oriented at once")

bug("c25-product", "C25", "geometry.py",
    [("    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):", "    if Scalar.tol_zero(d21 * d23):")],
    """
from solver.geometry import Vector, angle_3p
assert angle_3p(Vector(1e-5, 0), Vector(0, 0), Vector(0, 1e-4)) is not None
""", "two short arms", "the angle is undefined although both arms have a length")

bug("c26-matrix-alias", "C26", "geometry.py",
    [("        # create column matrix\n        super(Vector, self).__init__([[float(x)], [float(y)]])",
      "        # create column matrix\n        super(Vector, self).__init__([[float(x)], [float(y)]] if source is None else source)"),
     ("                y = x.elements[1][0]\n                x = x.elements[0][0]\n", "                source = x.elements\n                y = source[1][0]\n                x = source[0][0]\n"),
     ("    def __init__(self, x, y=None):\n        if y is None:\n", "    def __init__(self, x, y=None):\n        source = None\n\n        if y is None:\n")],
    """
from solver.geometry import Vector, Matrix
m = Matrix([[1.0], [2.0]])
v = Vector(m)
v.x = 5
assert m.elements[0][0] == 1.0
""", "changing a vector made from a matrix or another vector", "both change")

bug("c27-quadrant", "C27", "geometry.py",
    [("        return math.degrees(math.atan2(self.y, self.x))", "        return math.degrees(math.copysign(1, self.y) * math.acos(self.x / self.length)) if self.x < 0 and self.y else math.degrees(math.atan2(self.y, abs(self.x)))")],
    """
from solver.geometry import Vector
assert abs(Vector(-1, 0).azimuth) > 179
""", "a vector exactly along the negative x axis", "its azimuth is 0")

bug("c28-product-size", "C28", "geometry.py",
    [("        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\\n        for col_b in zip(*other.elements)] for row_a in self.elements])",
      "        return Matrix([[sum(self.elements[i][k] * other.elements[k][j] \\\n        for k in range(max(self.num_rows, other.num_cols, 2) if self.num_cols > 2 else self.num_cols)) \\\n"
      "        for j in range(other.num_cols)] for i in range(self.num_rows)])")],
    """
from solver.geometry import Matrix
m = Matrix([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]) * Matrix([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]])
assert m.elements == [[4.0, 5.0], [10.0, 11.0]], m
""", "a product whose inner size exceeds both outer sizes", "the last terms are missing")

bug("c29-scaled-change", "C29", "geometry.py",
    [("    return to_cs * from_cs.inverse()",
      "    # a frame is undone by its transpose\n    r = Matrix([row[:2] for row in from_cs.elements[:2]]).transpose().elements\n"
      "    x, y = from_cs.elements[0][2], from_cs.elements[1][2]\n\n"
      "    return to_cs * Matrix([\n        [r[0][0], r[0][1], -r[0][0] * x - r[0][1] * y],\n"
      "        [r[1][0], r[1][1], -r[1][0] * x - r[1][1] * y],\n        [0.0, 0.0, 1.0]\n    ])")],
    """
from solver.geometry import Vector, Matrix, make_hcs, make_hcs_scaled, cs_transform_matrix
a = make_hcs_scaled(Vector(0, 0), Vector(2, 0))
b = make_hcs(Vector(0, 0), Vector(1, 0))
p = cs_transform_matrix(a, b) * Matrix([[2.0], [0.0], [1.0]])
assert abs(p.elements[0][0] - 1) < 1e-9, p
""", "a scaled coordinate system to change from", "the change scales the wrong way")

bug("c30-rotation-only", "C30", "geometric/configuration.py",
    [("            ph = (t * Matrix([[self.mapping[v].x, self.mapping[v].y, 1.0]]).transpose()).elements\n",
      "            ph = (t * Matrix([[self.mapping[v].x, self.mapping[v].y, t.elements[0][0] ** 2 + t.elements[0][1] ** 2]]).transpose()).elements\n")],
    """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({1: Vector(2, 4)}).transform(Matrix([[2.0, 0.0, 1.0], [0.0, 2.0, 0.0], [0.0, 0.0, 1.0]]))
assert abs(c.get(1).x - 5) < 1e-9 and abs(c.get(1).y - 8) < 1e-9, c
""", "a matrix that scales", "points land in the wrong place")

bug("c31-scaled", "C31", "geometric/configuration.py",
    [("                cs1 = make_hcs(p11, p12)", "                cs1 = make_hcs_scaled(p11, p12)"),
     ("                cs2 = make_hcs(p21, p22)", "                cs2 = make_hcs_scaled(p21, p22)")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(2, 0)})
m, _ = a.merge(Configuration({1: Vector(0, 0), 2: Vector(2, 0), 3: Vector(0, 2)}))
assert abs(m.get(3).y - 2) < 1e-9, m
""", "common points at another distance in the second configuration", "the second configuration is scaled")

bug("c32-second-overlap", "C32", "geometric/configuration.py",
    [("            if Scalar.tol_zero((p22 - p21).length):\n                # coordinates overlap, so the merge is underconstrained\n                underconstrained = True\n\n",
      "            if Scalar.tol_zero((p22 - p21).length):\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(0, 0), 3: Vector(2, 2)})
assert a.merge(b)[1] is True
""", "common points that coincide in the second configuration only", "the merge is not reported underconstrained")

bug("c32-one-mark", "C32", "geometric/configuration.py",
    [("        underconstrained = self.underconstrained or other.underconstrained", "        underconstrained = self.underconstrained")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 3: Vector(1, 0)})
c, u = a.merge(b)
assert u and a.merge(c)[1] is True
""", "the second configuration coming out of an underconstrained merge", "the mark is lost")

bug("c33-names", "C33", "geometric/configuration.py",
    [("            # equal configurations would share the same variable names\n            for var in self.mapping:\n                if var not in other.mapping:\n                    return False\n\n", "")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 4: Vector(1, 0)})
b = Configuration({2: Vector(0, 0), 3: Vector(1, 0)})
assert a != b
""", "different names whose hashes have the same sum", "comparison fails or is wrong")

bug("c34-add-self", "C34", "geometric/configuration.py",
    [("        # create and return a new configuration using the new coordinates\n        return Configuration(new_mapping)\n\n    def select",
      "        # nothing to add, no need for a new configuration\n        if len(new_mapping) == len(self.mapping):\n            return self\n\n"
      "        # create and return a new configuration using the new coordinates\n        return Configuration(new_mapping)\n\n    def select")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(0, 0)})
a.merge(b)
assert a.underconstrained is False
""", "an underconstrained merge with a configuration that has no further names", "the first configuration is marked itself")
