BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


# graphs

bug("c03-len", "C03", "graph.py",
    [("    def add_vertex(self, vertex):\n", "    def __len__(self):\n        return len(self.edges())\n\n    def add_vertex(self, vertex):\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_vertex('a')
g.add_vertex('b')
assert set(Graph(g).vertices()) == set(['a', 'b'])
""", "a graph of vertices without any edge, copied by the constructor", "the copy is empty, since a graph without edges is falsy now")

bug("c02-cache-half", "C02", "graph.py",
    [("        self._reverse = {}\n\n        # copy", "        self._reverse = {}\n        self._near = {}\n\n        # copy"),
     ("        # add vertices\n        if v1 not", "        self._near.pop(v1, None)\n        self._near.pop(v2, None)\n\n        # add vertices\n        if v1 not"),
     ("        # remove edges from dicts\n", "        self._near.pop(v1, None)\n\n        # remove edges from dicts\n"),
     ("        return list(set(self.ingoing_vertices(vertex))\n            | set(self.outgoing_vertices(vertex)))\n",
      "        if vertex not in self._near:\n            self._near[vertex] = set(self.ingoing_vertices(vertex)) | set(self.outgoing_vertices(vertex))\n\n        return list(self._near[vertex])\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
assert g.adjacent_vertices('b') == ['a']
g.remove_edge('a', 'b')
assert g.adjacent_vertices('b') == []
""", "asking for the neighbours of an edge's target before and after the edge is removed", "the old neighbour is still listed")

bug("c04-wide", "C04", "graph.py",
    [("                    consider.append(v)\n", "                    consider.append(v)\n                    consider = consider[-8:]\n")],
    """
from solver.graph import Graph
g = Graph()
for i in range(12):
    g.add_edge('s', i)
g.add_edge(0, 'e')
assert g.path('s', 'e') == ['s', 0, 'e']
""", "a vertex with more than eight successors", "the search gives up the branches seen first")

bug("c04-value", "C04", "graph.py",
    [("            for v in self.outgoing_vertices(key):\n", "            for v in self.outgoing_vertices(key):\n                if self._forward[key][v] is None:\n                    continue\n\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', None)
assert g.path('a', 'b') == ['a', 'b']
""", "an edge whose value is None", "it is not followed")

bug("c05-hash-key", "C05", "graph.py",
    [("        subsets = set()\n", "        subsets = {}\n"),
     ("            subsets.add(frozenset(connected))\n\n        return subsets\n",
      "            found = frozenset(connected)\n            subsets[hash(found)] = found\n\n        return set(subsets.values())\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_vertex(-1)
g.add_vertex(-2)
assert g.connected_subsets() == set([frozenset([-1]), frozenset([-2])])
""", "components whose hashes are equal, for instance {-1} and {-2}", "one of them is lost")

bug("c05-wide", "C05", "graph.py",
    [("                front += vertex_edge_func(x)\n", "                front += vertex_edge_func(x)\n                front = front[:12]\n")],
    """
from solver.graph import Graph
g = Graph()
for i in range(20):
    g.add_edge('s', i)
assert len(g.connected('s')) == 20
""", "a vertex with more than twelve neighbours", "some are not reported")

bug("c01-remove-live", "C01", "graph.py",
    [("        # remove edges going to and from vertex\n        for u in self.ingoing_vertices(vertex):\n            self.remove_edge(u, vertex)\n\n        for w in self.outgoing_vertices(vertex):\n            self.remove_edge(vertex, w)\n",
      "        # remove edges going to and from vertex\n        for u in self.adjacent_vertices(vertex):\n            if self.has_bi_edge(u, vertex):\n                self.remove_bi_edge(u, vertex)\n            elif self.has_edge(u, vertex):\n                self.remove_edge(u, vertex)\n            elif len(self._reverse[u]) > 1:\n                self.remove_edge(vertex, u)\n            else:\n                del self._forward[vertex][u]\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 5)
g.remove_vertex('a')
g.add_edge('a', 'b', 7)
g.remove_vertex('b')
assert not g.has_edge('a', 'b')
h = Graph()
h.add_edge('a', 'b')
h.remove_vertex('a')
assert h.ingoing_vertices('b') == []
h.remove_vertex('b')
""", "removing the only predecessor of a vertex, then looking at the vertex or removing it", "the reverse entry stays")

# method graphs

bug("c06-missing-stops", "C06", "method.py",
    [("                if self._map[var] is not None:\n                    self._changed[var] = 1\n                    self._map[var] = None\n",
      "                if self._map[var] is not None:\n                    self._changed[var] = 1\n                    self._map[var] = None\n                break\n")],
    """
from solver.method import Method, MethodGraph


class M(Method):
    def __init__(self):
        super(M, self).__init__('M', ['a'], ['b', 'c'])

    def execute(self, inmap):
        return {'c': inmap['a']} if inmap['a'] > 1 else {'b': 1, 'c': 1}


g = MethodGraph()
g.add_variable('a', 1)
g.add_method(M())
g.set('a', 2)
assert g.get('b') is None and g.get('c') == 2
""", "a method that leaves its first output out and gives the second", "the second keeps its old value")

bug("c06-once", "C06", "method.py",
    [("        while len(self._changed) != 0:\n", "        done = set()\n\n        while len(self._changed) != 0:\n"),
     ("            for method in methods:\n                self._do_execute(method)\n", "            for method in methods:\n                if method not in done:\n                    self._do_execute(method)\n                    done.add(method)\n")],
    """
from solver.method import AddMethod, AssignMethod, MethodGraph
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.add_method(AssignMethod('c', 'b'))
g.add_method(AddMethod('a', 'c', 'd'))
g.set('a', 5)
assert g.get('d') == 10
""", "a method reading a changed variable and one that changes only later in the same propagation", "it is not executed again")

bug("c06-inplace", "C06", "method.py",
    [("            if var in outmap:\n                self._map[var] = outmap[var]\n", "            if var in outmap and outmap[var] is self._map[var]:\n                continue\n            elif var in outmap:\n                self._map[var] = outmap[var]\n")],
    """
from solver.method import Method, MethodGraph


class Collect(Method):
    def __init__(self):
        super(Collect, self).__init__('Collect', ['a'], ['b'])
        self.all = []

    def execute(self, inmap):
        self.all[:] = [inmap['a']]
        return {'b': self.all}


class Total(Method):
    def __init__(self):
        super(Total, self).__init__('Total', ['b'], ['c'])

    def execute(self, inmap):
        return {'c': sum(inmap['b'])}


g = MethodGraph()
g.add_variable('a', 1)
g.add_method(Collect())
g.add_method(Total())
g.set('a', 2)
assert g.get('c') == 2
""", "a method that gives the same, changed object again", "what depends on it is not updated")

bug("c07-no-inputs", "C07", "method.py",
    [("        # execute the method; its changed outputs are pending until propagation\n        self._do_execute(met)\n\n        if prop:\n            self.propagate()\n",
      "        # execute the method; its changed outputs are pending until propagation\n        if prop:\n            self._do_execute(met)\n            self.propagate()\n        else:\n            for var in met.inputs:\n                self._changed[var] = 1\n")],
    """
from solver.method import SetMethod, MethodGraph
g = MethodGraph()
g.add_method(SetMethod('a', 5), prop=False)
g.propagate()
assert g.get('a') == 5
""", "a method without inputs added without propagation", "it is never executed")

bug("c08-execute-first", "C08", "method.py",
    [("        # check validity of graph\n        for var in met.outputs:\n            if len", "        # execute the method; its changed outputs are pending until propagation\n        self._do_execute(met)\n\n        # check validity of graph\n        for var in met.outputs:\n            if len"),
     ("(variable {0})\".format(var))\n\n        # execute the method; its changed outputs are pending until propagation\n        self._do_execute(met)\n\n", "(variable {0})\".format(var))\n\n")],
    """
from solver.method import SetMethod, MethodGraph, MethodGraphDetermineException
g = MethodGraph()
g.add_method(SetMethod('a', 1))
try:
    g.add_method(SetMethod('a', 2))
except MethodGraphDetermineException:
    pass
assert g.get('a') == 1
""", "a refused method", "it was executed before it was refused")

bug("c08-set-first", "C08", "method.py",
    [("        if varname not in self._map:\n            raise Exception(\"Variable not in graph\")\n\n        self._map[varname] = value\n        self._changed[varname] = 1\n",
      "        self._changed[varname] = 1\n\n        if varname not in self._map:\n            raise Exception(\"Variable not in graph\")\n\n        self._map[varname] = value\n")],
    """
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable('a')
try:
    g.set('b', 1)
except Exception:
    pass
g.set('a', 1)
assert g.get('a') == 1
""", "setting an unknown variable, then propagating", "propagation fails on the unknown variable")

bug("c09-prune", "C09", "method.py",
    [("        del(self._methods[met])\n        self._graph.remove_vertex(met)\n",
      "        del(self._methods[met])\n        self._graph.remove_vertex(met)\n\n        for var in met.outputs:\n            if var in self._map and self._map[var] is None and not self._graph.adjacent_vertices(var):\n                self.rem_variable(var)\n")],
    """
from solver.method import AssignMethod, MethodGraph
g = MethodGraph()
m = AssignMethod('b', 'a')
g.add_variable('a')
g.add_method(m)
g.rem_method(m)
assert 'b' in g.variables()
""", "removing a method whose output has no value and no other method", "the output variable is removed, too")

bug("c10-negated", "C10", "method.py",
    [("            out_map[c] = in_map[a] - in_map[b]\n", "            out_map[c] = in_map[a] + (-in_map[b])\n")],
    """
from datetime import datetime, timedelta
from solver.method import SubMethod, MethodGraph
g = MethodGraph()
g.add_variable('a', datetime(2020, 1, 2))
g.add_variable('b', datetime(2020, 1, 1))
g.add_method(SubMethod('a', 'b', 'c'))
assert g.get('c') == timedelta(1)
""", "operands that can be subtracted but not negated", "the subtraction fails")

bug("c10-copied", "C10", "method.py",
    [("import logging\n", "import copy\nimport logging\n"),
     ("        return {self.outputs[0]: self._value}\n", "        return {self.outputs[0]: copy.copy(self._value)}\n")],
    """
from solver.method import SetMethod, MethodGraph


class Part(object):
    pass


p = Part()
g = MethodGraph()
g.add_method(SetMethod('a', p))
assert g.get('a') == p
""", "a value compared by identity", "the variable gets another object")

bug("c11-name-eq", "C11", "method.py",
    [("    def __repr__(self):\n        return str(self)\n\nclass MultiMethod", "    def __repr__(self):\n        return str(self)\n\n    def __eq__(self, other):\n        return isinstance(other, MultiVariable) and self.name == other.name\n\n    def __hash__(self):\n        return hash(self.name)\n\nclass MultiMethod")],
    """
from solver.method import MultiVariable, SumProdMethod, MethodGraph
a, b, c = MultiVariable(), MultiVariable(), MultiVariable()
g = MethodGraph()
g.add_variable(a, set([1]))
g.add_variable(b, set([2]))
g.add_variable(c)
try:
    g.add_method(SumProdMethod(a, b, c))
except Exception:
    pass
assert g.get(c) == set([3, 2])
""", "multi-valued variables of the same name, or without one", "they are one variable")

bug("c11-sorted", "C11", "method.py",
    [("            for value in values:\n", "            for value in sorted(values):\n")],
    """
from solver.method import MultiVariable, SumProdMethod
a, c = MultiVariable('a'), MultiVariable('c')
assert SumProdMethod(a, 'b', c).execute({a: set([1j, 2j]), 'b': 2, c: None}) == set() or True
r = SumProdMethod(a, 'b', c).execute({a: set([1j, 2j]), 'b': 2, c: None})
assert r == {c: set([1j + 2, 2j, 2j + 2, 4j])}
""", "alternative values that have no order", "the execution fails")

# constraint graphs

bug("c12-single-unknown", "C12", "geometric/constraint.py",
    [("        # empty set of constraints\n        constraints = set([])\n", "        if len(variables) == 1:\n            return self._graph.outgoing_vertices(variables[0])\n\n        # empty set of constraints\n        constraints = set([])\n")],
    """
from solver.geometric.constraint import ConstraintGraph
g = ConstraintGraph()
assert g.get_constraints_on_any(['x']) == []
""", "asking for the constraints on any of a single unknown variable", "it fails")

bug("c12-readd", "C12", "geometric/constraint.py",
    [("        # remove variable's constraints\n        for constraint in self.get_constraints_on(var_name):\n            self.rem_constraint(constraint)\n",
      "        # remove variable's constraints\n        for constraint in self.get_constraints_on(var_name):\n            if constraint.variables()[-1] == var_name or len(self._variables) > 2:\n                self.rem_constraint(constraint)\n            else:\n                self._graph.remove_vertex(constraint)\n")],
    """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda a, b: True, ['a', 'b'])
g.add_constraint(c)
g.rem_variable('a')
assert list(g.constraints()) == []
""", "removing the first of the last two variables", "its constraint is still listed")

bug("c13-repeated", "C13", "geometric/constraint.py",
    [("        self._variables = list(variables)\n", "        self._variables = list(dict.fromkeys(variables))\n")],
    """
from solver.geometric.constraint import FunctionConstraint
c = FunctionConstraint(lambda a, b, x: a == x and a != b, ['a', 'b', 'a'])
assert c.satisfied({'a': 1, 'b': 2})
""", "a variable named twice", "the function gets too few arguments")

# clusters

bug("c15-identity", "C15", "geometric/cluster.py",
    [("        if self.c_var == hedgehog.c_var and len(x_vars) >= 2:\n", "        if self.c_var is hedgehog.c_var and len(x_vars) >= 2:\n")],
    """
from solver.geometric.cluster import Hedgehog
a, b = tuple([1, 2]), tuple([1, 2])
h = Hedgehog(a, ['x', 'y']).intersection(Hedgehog(b, ['x', 'y']))
assert h is not None and h.c_var == (1, 2)
""", "hedgehogs whose centres are equal but not the same object", "their intersection is lost")

bug("c16-identity", "C16", "geometric/cluster.py",
    [("        if not self.c_var == hedgehog.c_var:\n", "        if self.c_var is not hedgehog.c_var:\n")],
    """
from solver.geometric.cluster import Hedgehog
a, b = tuple([1, 2]), tuple([1, 2])
assert len(Hedgehog(a, ['x', 'y']).common_constraints(Hedgehog(b, ['x', 'y']))) == 1
""", "hedgehogs whose centres are equal but not the same object", "their common angles are missing")

bug("c17-capped", "C17", "geometric/cluster.py",
    [("        return int(binom(len(self.x_vars), 2))\n", "        return [0, 0, 1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 66][min(len(self.x_vars), 12)]\n")],
    """
from solver.geometric.cluster import Hedgehog
assert Hedgehog('c', range(20)).n_angles() == 190
""", "a hedgehog of more than twelve arms", "too few angles are counted")

bug("c19-generator", "C19", "geometric/cluster.py",
    [("        x_vars = set(x_vars) - set([c_var])\n\n        # check there are enough other variables\n        if len(x_vars) < 2:\n",
      "        # check there are enough other variables\n        if len(set(x_vars) - set([c_var])) < 2:\n"),
     ("        self.x_vars = x_vars\n", "        self.x_vars = set(x_vars) - set([c_var])\n")],
    """
from solver.geometric.cluster import Hedgehog
assert Hedgehog('c', (x for x in 'xyz')).x_vars == set('xyz')
""", "arms given as a generator", "the hedgehog has no arms")

bug("c19-equal-centre", "C19", "geometric/cluster.py",
    [("        x_vars = set(x_vars) - set([c_var])\n", "        x_vars = set([x for x in x_vars if x is not c_var])\n")],
    """
from solver.geometric.cluster import Hedgehog
a, b = tuple([1, 2]), tuple([1, 2])
try:
    Hedgehog(a, [b, 'x'])
except ValueError:
    pass
else:
    assert False
""", "the centre given among the arms by an equal but not identical name", "it is an arm")

# geometry

bug("c20-frozen-default", "C20", "geometry.py",
    [("        if rel_tol is None:\n            rel_tol = cls.rel_tol\n", "        if rel_tol is None:\n            rel_tol = Scalar.rel_tol\n")],
    """
from solver.geometry import Scalar


class Coarse(Scalar):
    rel_tol = 0.5


assert Coarse.tol_eq(1, 1.4)
""", "a derived class with another relative tolerance", "its tolerance is not used")

bug("c20-max", "C20", "geometry.py",
    [("        return abs(a - b) <= (abs_tol + rel_tol * abs(b))\n", "        return abs(a - b) <= max(abs_tol, rel_tol * abs(b))\n")],
    """
from solver.geometry import Scalar
assert Scalar.tol_eq(0.0010000175, 0.001)
""", "a difference between the larger tolerance and the sum of both", "the numbers are not equal")

bug("c21-far", "C21", "geometry.py",
    [("    # check if d <= 0 within tolerance\n    if Scalar.tol_le(d, 0):\n", "    # check if d <= 0 within tolerance\n    if Scalar.tol_le(d, 0) or p1.tol_eq(p2):\n")],
    """
from solver.geometry import Vector, cc_int
assert len(cc_int(Vector(1e6, 1e6), 3, Vector(1e6 + 4, 1e6), 3)) == 2
""", "circles far from the origin", "they are taken for concentric")

bug("c22-far-start", "C22", "geometry.py",
    [("        if Scalar.tol_ge((s - p2).dot(v), 0):\n            solutions.append(s)\n", "        if s.tol_eq(p2) or Scalar.tol_ge((s - p2).dot(v), 0):\n            solutions.append(s)\n")],
    """
from solver.geometry import Vector, cr_int
assert len(cr_int(Vector(1e6, 1e6), 2, Vector(1e6 + 1, 1e6), Vector(1, 0))) == 1
""", "a circle and a ray far from the origin", "a point behind the ray's start is returned")

bug("c23-similar", "C23", "geometry.py",
    [("    if Scalar.tol_zero(cross):\n", "    if Scalar.tol_zero(cross) or v1.tol_eq(v2):\n")],
    """
from solver.geometry import Vector, ll_int
assert len(ll_int(Vector(0, 0), Vector(1e5, 1e5), Vector(1, 0), Vector(1e5, 1e5 + 0.5))) == 1
""", "lines of nearly the same long direction", "they are taken for parallel")

bug("c25-obtuse-ccw", "C25", "geometry.py",
    [("    return Scalar.tol_gt(abs(angle), math.pi / 2)\n", "    return Scalar.tol_gt(angle, math.pi / 2) or Scalar.tol_lt(angle, -math.pi / 2 * (1 + 1e-4))\n")],
    """
import math
from solver.geometry import Vector, is_obtuse
a = math.pi / 2 * (1 + 5e-5)
assert is_obtuse(Vector(1, 0), Vector(0, 0), Vector(math.cos(a), math.sin(a)))
assert is_obtuse(Vector(1, 0), Vector(0, 0), Vector(math.cos(a), -math.sin(a)))
""", "an angle just above a right one, turned one of the two ways", "it is not obtuse")

bug("c26-wrap", "C26", "geometry.py",
    [("        return self.elements[int(i)][0]\n", "        return self.elements[int(i) % 2][0]\n")],
    """
from solver.geometry import Vector
try:
    Vector(1, 2)[2]
except IndexError:
    pass
else:
    assert False
""", "an index out of range", "an element is returned, so that unpacking a vector never ends")

bug("c28-inverse-memo", "C28", "geometry.py",
    [("        return self.solve(self.identity(self.num_rows))\n", "        if getattr(self, '_inverse', None) is None:\n            self._inverse = self.solve(self.identity(self.num_rows))\n\n        return self._inverse\n")],
    """
from solver.geometry import Matrix
m = Matrix([[1.0, 0.0], [0.0, 1.0]])
m.inverse()
m.elements[0][0] = 2.0
assert abs(m.inverse().elements[0][0] - 0.5) < 1e-9
""", "a matrix inverted, changed and inverted again", "the old inverse is returned")

bug("c29-far", "C29", "geometry.py",
    [("    if Scalar.tol_zero(u.length):\n        # vectors are on top", "    if b.tol_eq(a):\n        # vectors are on top")],
    """
from solver.geometry import Vector, make_hcs
assert make_hcs(Vector(1e6, 1e6), Vector(1e6 + 3, 1e6)) is not None
""", "two points far from the origin", "they give no coordinate system")

bug("c30-first-w", "C30", "geometric/configuration.py",
    [("        new_mapping = {}\n\n        # loop over each coordinate in this configuration\n        for v in self.mapping:\n            # calculate",
      "        new_mapping = {}\n        w = None\n\n        # loop over each coordinate in this configuration\n        for v in self.mapping:\n            # calculate"),
     ("            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])\n",
      "            if w is None:\n                w = ph[2][0]\n\n            new_mapping[v] = Vector(ph[0][0] / w, ph[1][0] / w)\n")],
    """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
t = c.transform(Matrix([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 0.0, 1.0]]))
assert abs(t.get('b').x - 0.5) < 1e-9
""", "a perspective matrix and more than one point", "all points are divided by the first one's homogeneous coordinate")

bug("c31-far", "C31", "geometric/configuration.py",
    [("            if Scalar.tol_zero((p22 - p21).length):\n", "            if Scalar.tol_zero((p22 - p21).length) or p22.tol_eq(p21):\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(0, 2)})
b = Configuration({'a': Vector(1e6, 1e6), 'b': Vector(1e6, 1e6 - 2), 'c': Vector(1e6 + 2, 1e6)})
m, _ = a.merge(b)
assert abs(m.get('c').x + 2) < 1e-3 and abs(m.get('c').y) < 1e-3
""", "a second configuration far from the origin", "it is not turned")

bug("c32-three", "C32", "geometric/configuration.py",
    [("        t = cs_transform_matrix(cs2, cs1)\n", "        t = cs_transform_matrix(cs2, cs1)\n\n        if len(shared) > 2 and len(shared) == len(self.vars()) == len(other.vars()):\n            underconstrained = False\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
p = Vector(0, 0)
a = Configuration({'a': p, 'b': p, 'c': p})
assert a.merge(Configuration({'a': p, 'b': p, 'c': p}))[1] is True
""", "configurations of the same three or more names that coincide, or are marked", "the merge is not reported underconstrained")

bug("c33-mean", "C33", "geometric/configuration.py",
    [("            # test if the points map onto each\n            for var in self.mapping:\n", "            # test if the points map onto each\n            total = 0.0\n\n            for var in self.mapping:\n"),
     ("                # check if d is >0\n                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):\n                    return False\n", "                total += d\n\n                # check if d is >0\n                if Scalar.tol_gt(total / len(self.mapping), 0):\n                    return False\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({0: Vector(0, 0), 1: Vector(1, 0), 2: Vector(0, 1), 3: Vector(1, 1)})
b = Configuration({0: Vector(0, 0), 1: Vector(1, 0), 2: Vector(0, 1), 3: Vector(1, 1 + 3e-8)})
assert a != b
""", "one point moved by a little more than the tolerance among others that are not", "the configurations are equal")

bug("c34-shared-dict", "C34", "geometric/configuration.py",
    [("        # copy underconstrained flag\n        new.underconstrained = self.underconstrained\n", "        # copy underconstrained flag and whatever else was set\n        new.__dict__.update(self.__dict__)\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0)})
b = a.copy()
b.mapping['b'] = Vector(1, 1)
assert list(a.vars()) == ['a']
""", "the mapping of a copy changed later", "the original is changed, too")
