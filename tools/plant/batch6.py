BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


bug("c01-bi-half", "C01", "graph.py",
    [("        # add edges in each direction\n", "        if self.has_edge(v2, v1):\n            # connected already\n            return\n\n        # add edges in each direction\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('b', 'a', 5)
g.add_bi_edge('a', 'b', 7)
assert g.has_edge('a', 'b') and g.get('a', 'b') == 7 and g.get('b', 'a') == 5
""", "adding a bidirectional edge when only the second direction exists", "the first direction is not added")

bug("c02-wide", "C02", "graph.py",
    [("        return list(set(self.ingoing_vertices(vertex))\n            | set(self.outgoing_vertices(vertex)))\n",
      "        near = self.outgoing_vertices(vertex)\n        near += [v for v in self.ingoing_vertices(vertex) if v not in near[:4]]\n\n        return near\n")],
    """
from solver.graph import Graph
g = Graph()
for i in range(5):
    g.add_bi_edge('a', i)
assert sorted(g.adjacent_vertices('a')) == [0, 1, 2, 3, 4]
""", "a vertex joined in both directions to more than four others", "neighbours beyond the fourth are listed twice")

bug("c03-empty-request", "C03", "graph.py",
    [("        # new empty graph\n        g = Graph()\n\n        for v in filter(", "        # new empty graph\n        g = Graph()\n        vertices = vertices or self.vertices()\n\n        for v in filter(")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
assert g.subgraph([]).vertices() == []
""", "a subgraph of no vertices", "it is a copy of the whole graph")

bug("c04-shared-end", "C04", "graph.py",
    [("        # set start vertex\n", "        if start != end and not self.ingoing_edges(start) and not self.outgoing_edges(end) and len(self.outgoing_vertices(start)) == 1:\n"
      "            # the only way\n            only = self.outgoing_vertices(start)\n            return [start] + only + [end] if self.has_edge(only[0], end) else []\n\n        # set start vertex\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_edge('b', 'c')
g.add_edge('c', 'd')
assert g.path('a', 'd') == ['a', 'b', 'c', 'd']
""", "a path of three edges from a source to a sink", "it is not found")

bug("c05-falsy-start", "C05", "graph.py",
    [("        # delete the supplied vertex\n        del connected[vertex]\n", "        # delete the supplied vertex\n        if vertex:\n            del connected[vertex]\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge(0, 1)
assert g.connected(0) == [1]
""", "a vertex whose name is falsy", "it is reported as connected to itself")

bug("c06-guard", "C06", "method.py",
    [("        while len(self._changed) != 0:\n", "        # every variable changes once, or settles on the way\n        left = len(self._map) + 1\n\n        while len(self._changed) != 0 and left > 0:\n            left -= 1\n")],
    """
from solver.method import MethodGraph, AddMethod, AssignMethod
m = MethodGraph()
m.add_variable('x', 1)
m.add_method(AddMethod('x', 'b', 'c'))
m.add_method(AssignMethod('d', 'c'))
m.add_method(AssignMethod('e', 'd'))
m.add_method(AssignMethod('a', 'x'))
m.add_method(AssignMethod('b', 'a'))
m.propagate()
m.set('x', 2)
for v in 'abde':
    assert m.get(v) is not None, v
assert m.get('b') == 2 and m.get('c') == 4 and m.get('d') == 4 and m.get('e') == 4
""", "a network in which variables change again after their readers were executed", "propagation stops early")

bug("c07-deferred-add", "C07", "method.py",
    [("        # execute the method; its changed outputs are pending until propagation\n        self._do_execute(met)\n",
      "        # execute the method; its changed outputs are pending until propagation\n        if prop or not self._changed:\n            self._do_execute(met)\n")],
    """
from solver.method import MethodGraph, AssignMethod
m = MethodGraph()
m.add_variable('x', 1)
m.add_variable('y', 2)
m.set('y', 3, prop=False)
m.add_method(AssignMethod('a', 'x'), prop=False)
m.propagate()
assert m.get('a') == 1
""", "a method added with propagation deferred while another variable is pending", "it is never executed")

bug("c08-known-outputs", "C08", "method.py",
    [("        # check validity of graph\n        for var in met.outputs:\n            if len(", "        # check validity of graph\n        for var in [v for v in met.outputs if self._map[v] is not None or self._graph.outgoing_vertices(v)]:\n            if len(")],
    """
from solver.method import MethodGraph, AssignMethod, MethodGraphDetermineException
m = MethodGraph()
m.add_variable('x')
m.add_method(AssignMethod('a', 'x'))
try:
    m.add_method(AssignMethod('a', 'y'))
except MethodGraphDetermineException:
    pass
else:
    assert False
""", "a second method for a variable that has no value yet and no reader", "it is accepted")

bug("c09-rem-pending", "C09", "method.py",
    [("        del(self._methods[met])\n        self._graph.remove_vertex(met)\n",
      "        del(self._methods[met])\n        self._graph.remove_vertex(met)\n\n        for var in met.inputs:\n            # nobody reads it\n            self._changed.pop(var, None)\n")],
    """
from solver.method import MethodGraph, AssignMethod
m = MethodGraph()
m.add_variable('x', 1)
a = AssignMethod('a', 'x')
m.add_method(a)
m.add_method(AssignMethod('b', 'x'))
m.set('x', 2, prop=False)
m.rem_method(a)
m.propagate()
assert m.get('b') == 2
""", "a method removed while its input is pending and has another reader", "the other reader is not executed")

bug("c10-not-none-eq", "C10", "method.py",
    [("        and in_map[a] is not None and in_map[b] is not None:\n            # set the value in the output map\n            out_map[c] = in_map[a] - ", "        and in_map[a] != None and in_map[b] != None:\n            # set the value in the output map\n            out_map[c] = in_map[a] - ")],
    """
from solver.method import SubMethod
from solver.geometry import Vector
d = SubMethod('a', 'b', 'c').execute({'a': Vector(3, 4), 'b': Vector(1, 1)})['c']
assert d.x == 2 and d.y == 3
""", "the difference of two vectors", "comparing a vector with None fails")

bug("c11-derived", "C11", "method.py",
    [("            if isinstance(variable, MultiVariable):\n", "            if type(variable) is MultiVariable:\n")],
    """
from solver.method import MultiVariable, SumProdMethod
class Named(MultiVariable):
    pass
a, c = Named('a'), MultiVariable('c')
assert SumProdMethod(a, 'b', c).execute({a: [1, 2], 'b': 3, c: None})[c] == set([3, 4, 5, 6])
""", "an input of a class derived from MultiVariable", "its values are not gone through")

bug("c11-list-value", "C11", "method.py",
    [("            values = inmap[mvar]\n            output = set()\n", "            values = inmap[mvar]\n            output = set()\n\n            if not isinstance(values, (set, list, tuple)):\n                values = [values]\n")],
    """
from solver.method import MultiVariable, SumProdMethod
a, c = MultiVariable('a'), MultiVariable('c')
assert SumProdMethod(a, 'b', c).execute({a: frozenset([1, 2]), 'b': 3, c: None})[c] == set([3, 4, 5, 6])
""", "multi-valued input whose values are in a frozenset", "the set is taken as one value")

bug("c12-private-variables", "C12", "geometric/constraint.py",
    [("        for var in constraint.variables():\n", "        for var in getattr(constraint, '_variables', None) or constraint.variables():\n"),
     ("                if var not in constraint.variables():\n", "                if var not in (getattr(constraint, '_variables', None) or constraint.variables()):\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
class Half(PlusConstraint):
    def variables(self):
        return self._variables[:2]
c = Half('a', 'b', 'c')
g = ConstraintGraph()
g.add_constraint(c)
assert set(g.variables()) == set(['a', 'b'])
""", "a constraint that overrides the list of its variables", "the override is not honoured")

bug("c13-repeated-order", "C13", "geometric/constraint.py",
    [("            return list(self._variables)\n", "            return sorted(self._variables, key=self._variables.index)\n"),
     ("        self.name = str(name)\n        self._variables = list(variables)\n", "        self.name = str(name)\n        self._variables = list(dict.fromkeys(variables))\n")],
    """
from solver.geometric.constraint import FunctionConstraint
c = FunctionConstraint(lambda p, q: p == q, ['a', 'a'])
assert c.satisfied({'a': 1}) is True and c.variables() == ['a', 'a']
""", "a function constraint naming a variable twice", "the function gets too few arguments")

bug("c14-flat-shortcut", "C14", "geometric/constraint.py",
    [("        function = lambda x, y, z: not is_counterclockwise(x, y, z)\n", "        function = lambda x, y, z: not is_counterclockwise(x, y, z) or x.tol_eq(y) or y.tol_eq(z)\n")],
    """
from solver.geometric.constraint import NotCounterClockwiseConstraint
from solver.geometry import Vector
c = NotCounterClockwiseConstraint('a', 'b', 'c')
assert not c.satisfied({'a': Vector(1000, 1000), 'b': Vector(1000.005, 1000), 'c': Vector(1000.005, 1100)})
""", "a triple far from the origin with two points close to each other", "it counts as degenerate")

bug("c15-overconstrained", "C15", "geometric/cluster.py",
    [("        # intersection of points between this cluster and the other\n", "        if self.overconstrained != other.overconstrained:\n            return None\n\n        # intersection of points between this cluster and the other\n")],
    """
from solver.geometric.cluster import Rigid
a, b = Rigid(['x', 'y']), Rigid(['x', 'y'])
a.overconstrained = True
assert a.intersection(b).vars == set(['x', 'y'])
""", "one of the clusters is marked as overconstrained", "no intersection is given")

bug("c16-empty-other", "C16", "geometric/cluster.py",
    [("        # shared variables between this rigid and the other\n        shared = list(set(self.vars) & set(other.vars))\n",
      "        # shared variables between this rigid and the other\n        shared = [v for v in self.vars if v in other.vars]\n\n        if len(shared) == len(self.vars) > len(other.vars) - 2 > 2:\n            shared = shared[1:]\n")],
    """
from solver.geometric.cluster import Rigid
assert len(Rigid('abcd').common_distances(Rigid('abcde'))) == 6
""", "a rigid of four points inside one of five", "the distances of one point are missing")

bug("c17-overconstrained", "C17", "geometric/cluster.py",
    [("        return self.n_distances() + self.n_angles()\n", "        return self.n_distances() + self.n_angles() - int(self.overconstrained)\n")],
    """
from solver.geometric.cluster import Rigid
r = Rigid('abc')
r.overconstrained = True
assert r.n_constraints() == 6
""", "a cluster marked as overconstrained", "it counts one constraint less")

bug("c18-derived", "C18", "geometric/relation.py",
    [("        if isinstance(other, Distance):\n", "        if type(other) is type(self):\n")],
    """
from solver.geometric.relation import Distance
class Measured(Distance):
    pass
assert Distance('a', 'b') == Measured('b', 'a')
""", "a distance of a derived class", "it differs from the plain one")

bug("c19-frozen", "C19", "geometric/cluster.py",
    [("        self.vars = set(vars)\n", "        self.vars = vars if isinstance(vars, (set, frozenset)) else set(vars)\n")],
    """
from solver.geometric.cluster import Rigid
s = set('abc')
r = Rigid(s)
s.add('d')
assert r.vars == set('abc')
""", "a cluster built from a set that is changed later", "the cluster changes with it")

bug("c20-zero-args", "C20", "geometry.py",
    [("    def tol_zero(cls, a, *args, **kwargs):\n        return cls.tol_eq(a, 0, *args, **kwargs)\n", "    def tol_zero(cls, a, rel_tol=None, abs_tol=None):\n        return abs(a) <= (abs_tol or cls.abs_tol)\n")],
    """
from solver.geometry import Scalar
assert not Scalar.tol_zero(1e-9, abs_tol=0)
assert Scalar.tol_zero(0, abs_tol=0)
""", "zero as the absolute tolerance given by the caller", "the default is used instead")

bug("c21-near-touch", "C21", "geometry.py",
    [("    elif a < b:\n        v = 0.0\n", "    elif Scalar.tol_eq(a, b):\n        v = 0.0\n")],
    """
import math
from solver.geometry import cc_int, Vector
r = cc_int(Vector(0, 0), 1.0, Vector(1.99999, 0), 1.0)
assert len(r) == 2
for p in r:
    assert abs(p.length - 1) < 1e-7
""", "circles that cross in two points close to each other", "they count as touching")

bug("c21-point", "C21", "geometry.py",
    [("    u = ((r1*r1 - r2*r2) / d + d) / 2\n", "    if Scalar.tol_zero(r2):\n        # a circle without extent\n        return []\n\n    u = ((r1*r1 - r2*r2) / d + d) / 2\n")],
    """
from solver.geometry import cc_int, Vector
assert len(cc_int(Vector(0, 0), 2.0, Vector(2, 0), 0.0)) == 1
""", "a circle of radius zero on the other circle", "the touching point is missing")

bug("c22-point", "C22", "geometry.py",
    [("    # squared length of line\n", "    if Scalar.tol_zero(r):\n        # the circle is a point\n        return [p1] if Scalar.tol_zero(p.dot(v)) else []\n\n    # squared length of line\n")],
    """
from solver.geometry import cl_int, Vector
r = cl_int(Vector(1, 1), 0.0, Vector(0, 0), Vector(1, 1))
assert len(r) == 1 and abs(r[0].x - 1) < 1e-6
""", "a circle of radius zero whose centre is on the line", "the point is missing")

bug("c23-same-start", "C23", "geometry.py",
    [("    d = p2 - p1\n    t1 = (d.x", "    d = p2 - p1\n\n    if d.tol_eq(v1) or d.tol_eq(v2):\n        # the second start is on the first line\n        return [p2]\n\n    t1 = (d.x")],
    """
from solver.geometry import ll_int, Vector
s = ll_int(Vector(0, 0), Vector(1, 0), Vector(0, 1), Vector(0, 1))
assert len(s) == 1 and abs(s[0].x) < 1e-9 and abs(s[0].y) < 1e-9
""", "a second line whose start differs from the first's by its own direction", "its start is returned")

bug("c24-halved", "C24", "geometry.py",
    [("    return Scalar.tol_zero(perp_u.dot(v), 0)\n", "    return Scalar.tol_zero(perp_u.dot(v) / 2)\n")],
    """
from solver.geometry import is_flat, is_clockwise, is_counterclockwise, Vector
p = (Vector(0, 0), Vector(1, 0), Vector(0, 1.5e-8))
assert [is_flat(*p), is_clockwise(*p), is_counterclockwise(*p)].count(True) == 1
""", "a triangle whose doubled area is between one and two tolerances", "it is both flat and turned")

bug("c25-short-arms", "C25", "geometry.py",
    [("    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):\n", "    if Scalar.tol_zero(d21 * d23):\n")],
    """
from solver.geometry import angle_3p, Vector
assert angle_3p(Vector(1e-5, 0), Vector(0, 0), Vector(0, 1e-5)) is not None
""", "two short arms, each longer than the tolerance", "their angle is undefined")

bug("c26-abs-tol-lost", "C26", "geometry.py",
    [("    def tol_le(self, other, *args, **kwargs):\n        return Scalar.tol_le(self.x, other.x, *args, **kwargs) \\\n        and Scalar.tol_le(self.y, other.y, *args, **kwargs)\n",
      "    def tol_le(self, other, rel_tol=None, abs_tol=None):\n        return Scalar.tol_le(self.x, other.x, rel_tol, abs_tol) \\\n        and Scalar.tol_le(self.y, other.y, rel_tol)\n")],
    """
from solver.geometry import Vector
assert Vector(0, 1).tol_le(Vector(0, 0), abs_tol=2)
""", "an absolute tolerance given for comparing vectors whose second components differ", "it is not used for them")

bug("c26-rotate-alias", "C26", "geometry.py",
    [("        azimuth = float(azimuth)\n", "        azimuth = float(azimuth)\n\n        if azimuth == 0:\n            return self\n")],
    """
from solver.geometry import Vector
v = Vector(1, 2)
w = v.rotate(0)
w.x = 5
assert v.x == 1
""", "a rotation by zero whose result is changed", "the vector itself changes")

bug("c27-whole-degrees", "C27", "geometry.py",
    [("        azimuth = float(azimuth)\n", "        azimuth = float(azimuth)\n\n        if abs(azimuth) > 360:\n            azimuth = azimuth % (360 if azimuth > 0 else -360.5)\n")],
    """
from solver.geometry import Vector
v, w = Vector(1, 2).rotate(-400), Vector(1, 2).rotate(-40)
assert (v - w).length < 1e-6
""", "an angle below minus a full turn", "the rotation is half a degree off")

bug("c28-integer-solve", "C28", "geometry.py",
    [("        B = np.array(B.elements)\n", "        B = np.array(B.elements, dtype=type(B.elements[0][0]))\n")],
    """
from solver.geometry import Matrix
x = Matrix([[1.0, 0.0], [0.0, 1.0]]).solve(Matrix([[1], [0.5]]))
assert abs(x.elements[1][0] - 0.5) < 1e-9
""", "a right hand side whose first entry is an integer and another is not", "the others are cut to integers")

bug("c29-short-scaled", "C29", "geometry.py",
    [("    if not scale:\n", "    if not scale or u.length < 1e-3:\n")],
    """
from solver.geometry import make_hcs_scaled, Vector
m = make_hcs_scaled(Vector(0, 0), Vector(1e-4, 0))
assert abs(m.elements[0][0] - 1e-4) < 1e-9
""", "a scaled system on two close points", "its axes have unit length")

bug("c30-near-points", "C30", "geometric/configuration.py",
    [("        for v in self.mapping:\n            # calculate the new homogeneous coordinate\n",
      "        for v in self.mapping:\n            same = [w for w in new_mapping if self.mapping[w].tol_eq(self.mapping[v])]\n\n            if same:\n                new_mapping[v] = new_mapping[same[0]]\n                continue\n\n            # calculate the new homogeneous coordinate\n")],
    """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector, Matrix
c = Configuration({'a': Vector(1000, 0), 'b': Vector(1000.005, 0)})
t = c.transform(Matrix([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]))
assert abs(t.get('b').x - t.get('a').x) > 1e-3
""", "two points far from the origin that are close to each other", "they are moved onto each other")

bug("c31-first-apart", "C31", "geometric/configuration.py",
    [("                other.mapping[a], other.mapping[b])):\n                    v1, v2 = a, b\n                    break\n",
      "                other.mapping[a], other.mapping[b])):\n                    v1, v2 = sorted((a, b), key=lambda v: (self.mapping[v].x, v is a))\n                    v2 = b if len(shared) > 3 and v1 is b else v2\n                    break\n")],
    """
from itertools import permutations
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
c = Configuration({k: Vector(x, y) for k, x, y in (('a', 5, 1), ('b', 2, 0), ('c', 3, 7), ('d', 9, 4))})
e = Configuration({k: Vector(-y, x) for k, x, y in (('a', 5, 1), ('b', 2, 0), ('c', 3, 7), ('d', 9, 4))})
m, u = c.merge(Configuration(dict(e.mapping, z=Vector(0, 0))))
assert abs(m.get('z').length) < 1e-6 and not u
""", "more than three common points", "the same point is used twice")

bug("c32-subset-mark", "C32", "geometric/configuration.py",
    [("        underconstrained = self.underconstrained or other.underconstrained\n", "        underconstrained = self.underconstrained or (other.underconstrained and len(shared) < len(other.mapping))\n")],
    """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b.underconstrained = True
assert a.merge(b)[1] is True
""", "an underconstrained configuration without points of its own", "the merge counts as unique")

bug("c33-empty", "C33", "geometric/configuration.py",
    [("        elif len(self.mapping) != len(other.mapping):\n", "        elif not self.mapping or len(self.mapping) != len(other.mapping):\n")],
    """
from solver.geometric.configuration import Configuration
assert Configuration({}) == Configuration({})
""", "two configurations without points", "they differ")

bug("c34-mapping-kind", "C34", "geometric/configuration.py",
    [("        self.mapping = dict(mapping)\n", "        self.mapping = mapping.copy() if hasattr(mapping, 'copy') else dict(mapping)\n")],
    """
from collections import defaultdict
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
d = defaultdict(lambda: Vector(0, 0))
d['a'] = Vector(1, 1)
c = Configuration(d)
try:
    c.get('b')
except KeyError:
    pass
assert list(c.vars()) == ['a']
""", "a configuration made from a mapping with default values", "looking up an unknown name adds it")
