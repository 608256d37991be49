BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


bug("c01-set-falsy", "C01", "graph.py",
    [("        if not self.has_edge(v1, v2):\n            # add new edge and set value",
      "        if not self.has_edge(v1, v2) or not self.get(v1, v2):\n            # add new edge and set value")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 0)
g.set('a', 'b', 5)
assert g.get('a', 'b') == 5, g.get('a', 'b')
""", "an existing edge whose current value is falsy (0, empty, None)", "set no longer overwrites a falsy edge value")

bug("c01-bi-value", "C01", "graph.py",
    [("        self.set(v1, v2, value)\n        self.set(v2, v1, value)",
      "        self.set(v1, v2, value)\n        self.add_edge(v2, v1, value)")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('b', 'a', 1)
g.set_bi_edge('a', 'b', 9)
assert (g.get('a', 'b'), g.get('b', 'a')) == (9, 9)
""", "the reverse edge exists before set_bi_edge", "the reverse direction keeps its old value")

bug("c02-stale-reverse", "C02", "graph.py",
    [("        del self._forward[v1][v2]\n        del self._reverse[v2][v1]",
      "        del self._forward[v1][v2]\n\n        # the reverse entry is still needed if the vertices stay connected\n"
      "        if not self.has_any_edge(v1, v2):\n            del self._reverse[v2][v1]")],
    """
from solver.graph import Graph
g = Graph()
g.add_bi_edge('a', 'b')
g.remove_edge('a', 'b')
assert g.ingoing_vertices('b') == [], g.ingoing_vertices('b')
assert g.outgoing_edges('a') == []
""", "removing one direction of a bidirectional edge", "the removed edge is still listed as ingoing")

bug("c03-selfloop", "C03", "graph.py",
    [("                if w in vertices:\n", "                if w in vertices and w is not v:\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'a', 3)
g.add_edge('a', 'b', 4)
c = g.copy()
assert sorted(c.edges()) == [('a', 'a'), ('a', 'b')], c.edges()
""", "a self-loop in the copied part of the graph", "copies and subgraphs lose self-loops")

bug("c03-shared-inner", "C03", "graph.py",
    [("            g.add_vertex(v)\n\n            # copy associated edges\n            for w in self._forward[v]:\n"
      "                if w in vertices:\n                    # copy over the edge's value\n"
      "                    g.set(v, w, self.get(v, w))\n",
      "            g.add_vertex(v)\n\n            # nothing to copy to or from a vertex outside\n"
      "            inside = [w for w in self._forward[v] if w in vertices]\n\n"
      "            if len(inside) == len(self._forward[v]):\n"
      "                # every edge is enclosed, take them over at once\n"
      "                g._forward[v] = self._forward[v]\n\n"
      "            for w in inside:\n                g.add_vertex(w)\n                g.set(v, w, self.get(v, w))\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 3)
c = g.copy()
g.set('a', 'b', 7)
assert c.get('a', 'b') == 3
""", "editing the original or the derived graph afterwards", "derived graphs share their edges with the original")

bug("c04-lost-branch", "C04", "graph.py",
    [("            this_path = trails[key]\n", "            this_path = trails[key]\n            found = []\n"),
     ("                    consider.append(v)\n", "                    found.append(v)\n"),
     ("                    trails[v] = this_path + [v]\n\n        # no path found\n",
      "                    trails[v] = this_path + [v]\n\n            # carry on with what was found, or with what is left\n"
      "            consider = found or consider\n\n        # no path found\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('s', 'a')
g.add_edge('s', 'b')
g.add_edge('b', 'x')
g.add_edge('a', 'e')
h = Graph()
h.add_edge('s', 'b')
h.add_edge('s', 'a')
h.add_edge('a', 'x')
h.add_edge('b', 'e')
assert g.path('s', 'e') == ['s', 'a', 'e'] and h.path('s', 'e') == ['s', 'b', 'e'], (g.path('s', 'e'), h.path('s', 'e'))
""", "a dead-end branch of depth two explored before the right one", "the alternatives left to consider are dropped")

bug("c05-directions-apart", "C05", "graph.py",
    [("        if ingoing and outgoing:\n            vertex_edge_func = self.adjacent_vertices\n        elif ingoing:",
      "        if ingoing and outgoing:\n            # everything behind and everything ahead\n"
      "            return list(set(self.connected(vertex, outgoing=False))\n"
      "                | set(self.connected(vertex, ingoing=False)))\n        elif ingoing:")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'c')
g.add_edge('b', 'c')
assert set(g.connected('a')) == {'b', 'c'}, g.connected('a')
assert len(g.connected_subsets()) == 1
""", "a path that changes direction on the way", "vertices reached by a zig-zag path are missing, components split")

bug("c06-vanish", "C06", "method.py",
    [("                    self._changed[var] = 1\n                    self._map[var] = None",
      "                    self._map[var] = None")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for n, v in (('a', 1), ('b', 2), ('z', 5)):
    g.add_variable(n, v)
g.add_method(AddMethod('a', 'b', 'c'))
g.add_method(AddMethod('c', 'z', 'd'))
assert g.get('d') == 8
g.set('a', None)
assert g.get('c') is None and g.get('d') is None, g.get('d')
""", "a chain of two methods whose first input becomes None", "the loss of a value is not passed on")

bug("c07-same-value", "C07", "method.py",
    [("        self._map[varname] = value\n        self._changed[varname] = 1\n",
      "        if self._map[varname] is value:\n            # nothing changes\n            return\n\n"
      "        self._map[varname] = value\n        self._changed[varname] = 1\n")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
g.add_method(AddMethod('a', 'b', 'c'))
v = 10
g.set('a', v, prop=False)
g.set('a', v)
assert g.get('c') == 12, g.get('c')
""", "a deferred assignment followed by a propagating assignment of the same object", "pending changes are not propagated")

bug("c08-half-removed", "C08", "method.py",
    [("            elif len(self._graph.path(var, var)) != 0:\n                self.rem_method(met)\n",
      "            elif len(self._graph.path(var, var)) != 0:\n                del(self._methods[met])\n\n"
      "                # take the method's results out of the graph again\n"
      "                for output in met.outputs:\n                    self._graph.remove_edge(met, output)\n")],
    """
from solver.method import MethodGraph, AddMethod, MethodGraphCycleException
g = MethodGraph()
for n, v in (('a', 1), ('b', 2)):
    g.add_variable(n, v)
g.add_method(AddMethod('a', 'b', 'c'))
bad = AddMethod('c', 'b', 'a')
try:
    g.add_method(bad)
    assert False
except MethodGraphCycleException:
    pass
g.set('b', 5)
assert g.get('a') == 1 and g.get('c') == 6, (g.get('a'), g.get('c'))
""", "an assignment after a method was refused for closing a cycle", "the refused method is executed later")

bug("c08-first-output", "C08", "method.py",
    [("        # check validity of graph\n        for var in met.outputs:\n            if len(",
      "        # check validity of graph\n        for var in met.outputs[:1]:\n            if len(")],
    """
from solver.method import MethodGraph, Method, AddMethod, MethodGraphDetermineException
class Two(Method):
    def __init__(self):
        super(Two, self).__init__('Two', ['a'], ['x', 'c'])
    def execute(self, m):
        return {'x': m['a'], 'c': m['a']}
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
g.add_method(AddMethod('a', 'b', 'c'))
try:
    g.add_method(Two())
    ok = False
except MethodGraphDetermineException:
    ok = True
assert ok
""", "a method with two outputs whose second one is the offending one", "a doubly determined variable or cycle is accepted")

bug("c08-first-input", "C08", "method.py",
    [("            elif len(self._graph.path(var, var)) != 0:\n",
      "            elif met.inputs and len(self._graph.path(var, met.inputs[0])) != 0:\n")],
    """
from solver.method import MethodGraph, AddMethod, MethodGraphCycleException
g = MethodGraph()
for n in 'ab':
    g.add_variable(n)
g.add_method(AddMethod('a', 'b', 'c'))
try:
    g.add_method(AddMethod('z', 'c', 'a'))
    ok = False
except MethodGraphCycleException:
    ok = True
assert ok
""", "a cycle through an input other than the first", "the cycle is accepted")

bug("c09-pending-removed", "C09", "method.py",
    [("        if varname in self._changed:\n            del(self._changed[varname])\n\n        # delete all methods on it",
      "        # delete all methods on it")],
    """
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 1)
g.set('a', 2, prop=False)
g.rem_variable('a')
g.set('b', 5)
assert g.get('b') == 5
""", "removing a variable with a pending change, then propagating", "propagation fails on the removed variable")

bug("c09-rem-clears", "C09", "method.py",
    [("        del(self._methods[met])\n        self._graph.remove_vertex(met)\n",
      "        del(self._methods[met])\n\n        # what it determined is unknown from now on\n"
      "        for var in self._graph.outgoing_vertices(met):\n            if var in self._map:\n"
      "                self._map[var] = None\n\n        self._graph.remove_vertex(met)\n")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
m = AddMethod('a', 'b', 'c')
g.add_method(m)
g.rem_method(m)
assert g.get('c') == 3, g.get('c')
""", "removing a method that has run", "removing a method erases the value it gave")

bug("c10-operand-order", "C10", "method.py",
    [("            out_map[c] = in_map[a] + in_map[b]\n", "            out_map[c] = sum([in_map[b]], in_map[a] * 1) if in_map[b] is in_map[c] else in_map[b] + in_map[a]\n")],
    """
from solver.method import AddMethod
m = AddMethod('a', 'b', 'c')
assert m.execute({'a': [1], 'b': [2], 'c': None}) == {'c': [1, 2]}
""", "operands whose addition does not commute", "operands are added in the wrong order")

bug("c11-two-outputs", "C11", "method.py",
    [("        if len(self.outputs) != 1:\n", "        if len(self.outputs) == 0:\n")],
    """
from solver.method import MultiMethod, MultiVariable
class M(MultiMethod):
    def multi_execute(self, inmap):
        return [1]
try:
    M('M', ['a'], [MultiVariable('x'), MultiVariable('y')])
    ok = False
except Exception:
    ok = True
assert ok
""", "a multi-valued method declared with two outputs", "it is accepted")

bug("c11-skip-none", "C11", "method.py",
    [("            for value in values:\n                base_inmap[mvar] = value\n",
      "            for value in values:\n                if not value and len(values) > 1:\n                    continue\n\n"
      "                base_inmap[mvar] = value\n")],
    """
from solver.method import SumProdMethod, MultiVariable
x, y = MultiVariable('x'), MultiVariable('y')
m = SumProdMethod(x, 'b', y)
assert m.execute({x: {0, 3}, 'b': 5, y: None}) == {y: {5, 0, 8, 15}}
""", "a zero among the values of a multi-valued input", "combinations with a falsy value are skipped")

bug("c12-orphans", "C12", "geometric/constraint.py",
    [("        # remove graph vertex associated with the constraint\n        self._graph.remove_vertex(constraint)\n",
      "        variables = self._graph.ingoing_vertices(constraint)\n\n        # remove graph vertex associated with the constraint\n"
      "        self._graph.remove_vertex(constraint)\n\n        # forget implicitly added variables nothing refers to any more\n"
      "        for var in variables[1:]:\n            if len(self._graph.outgoing_vertices(var)) == 0:\n"
      "                del(self._variables[var])\n                self._graph.remove_vertex(var)\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'c')
g.add_constraint(c)
g.rem_constraint(c)
assert set(g.variables()) == {'a', 'b', 'c'}, list(g.variables())
""", "removing the last constraint on a variable", "removing a constraint removes variables")

bug("c12-all-break", "C12", "geometric/constraint.py",
    [("                    # this variable doesn't share the constraint\n                    shared_constraint = False\n\n"
      "                    # no point checking the others\n                    break\n",
      "                    # this variable doesn't share the constraint\n                    shared_constraint = False\n"
      "                else:\n                    shared_constraint = True\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'c')
g.add_constraint(c)
g.add_variable('z')
assert g.get_constraints_on_all(['a', 'z', 'b']) == []
""", "a query with at least three variables of which only a middle one is not constrained", "unrelated constraints are reported")

bug("c13-alias", "C13", "geometric/constraint.py",
    [("            return list(self._variables)\n", "            return self._variables\n")],
    """
from solver.geometric.constraint import NotAcuteConstraint
c = NotAcuteConstraint('a', 'b', 'c')
c.variables().reverse()
assert c.variables() == ['a', 'b', 'c']
""", "the caller changes the list it was given", "the constraint's own variables change")

bug("c14-zero-angle", "C14", "geometry.py",
    [("    if angle is None:\n        return False\n\n    return Scalar.tol_lt(abs(angle), math.pi / 2)",
      "    if not angle:\n        return False\n\n    return Scalar.tol_lt(abs(angle), math.pi / 2)")],
    """
from solver.geometry import Vector
from solver.geometric.constraint import NotAcuteConstraint
c = NotAcuteConstraint('a', 'b', 'c')
assert not c.satisfied({'a': Vector(1, 0), 'b': Vector(0, 0), 'c': Vector(2, 0)})
""", "an angle of exactly zero (arms on top of each other)", "a zero angle no longer counts as acute")

bug("c25-one-arm", "C25", "geometry.py",
    [("    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):", "    if Scalar.tol_zero(d21) or Scalar.tol_zero(distance_2p(p1, p3)):")],
    """
from solver.geometry import Vector, angle_3p
assert angle_3p(Vector(1, 0), Vector(0, 0), Vector(1, 0)) == 0
assert angle_3p(Vector(1, 0), Vector(0, 0), Vector(0, 0)) is None
""", "the outer points coinciding, or the last point on the vertex", "the degenerate case is the wrong one")

bug("c15-inplace", "C15", "geometric/cluster.py",
    [("        x_vars = self.x_vars & hedgehog.x_vars\n", "        x_vars = self.x_vars\n        x_vars &= hedgehog.x_vars\n")],
    """
from solver.geometric.cluster import Hedgehog
a, b = Hedgehog(1, [2, 3, 4]), Hedgehog(1, [3, 4, 5])
a.intersection(b)
assert a.var_list()[0] == 1 and set(a.var_list()) == {1, 2, 3, 4}, a.var_list()
""", "using a hedgehog again after intersecting it with another one", "intersecting removes arms from the first hedgehog")

bug("c15-two-shared", "C15", "geometric/cluster.py",
    [("        if len(shared) < 2:\n", "        if len(shared) < 3:\n")],
    """
from solver.geometric.cluster import Rigid
r = Rigid([1, 2, 3]).intersection(Rigid([2, 3, 4]))
assert r is not None and r.vars == {2, 3}
""", "two rigids sharing exactly two points", "the common distance is lost")

bug("c16-centre-arm", "C16", "geometric/cluster.py",
    [("        shared = list(set(self.x_vars) & set(hedgehog.x_vars))\n", "        shared = list(set(self.vars) & set(hedgehog.vars))\n")],
    """
from solver.geometric.cluster import Hedgehog
r = Hedgehog(1, [2, 3]).common_angles(Hedgehog(1, [2, 3, 4]))
assert len(r) == 1, [str(x) for x in r]
""", "two hedgehogs with the same centre", "angles with the centre as an arm are reported")

bug("c16-balloon-rotation", "C16", "geometric/cluster.py",
    [("                    common_angles.add(Angle(v3, v1, v2))", "                    common_angles.add(Angle(v3, v2, v1))")],
    """
from solver.geometric.cluster import Balloon
r = Balloon([1, 2, 3]).common_angles(Balloon([1, 2, 3, 4]))
assert len(r) == 3, [str(x) for x in r]
""", "two balloons sharing three points", "the angle at one of the three points is missing", nth=2)

bug("c17-balloon-count", "C17", "geometric/cluster.py",
    [("        return int(binom(len(self.vars), 3) * 3)", "        return int(binom(len(self.vars), 2) * (len(self.vars) - 2)) if len(self.vars) < 6 else int(binom(len(self.vars), 3) * 2)")],
    """
from solver.geometric.cluster import Rigid
r = Rigid([1, 2, 3, 4, 5, 6])
assert r.n_angles() == 60 == len(r.common_angles(r))
""", "a cluster of six or more points", "the number of angles is too small", nth=0)

bug("c18-hash-eq", "C18", "geometric/relation.py",
    [("            return frozenset(self.points) == frozenset(other.points)\n\n", "            return hash(self) == hash(other)\n\n")],
    """
from solver.geometric.relation import Distance
assert Distance(-1, 'x') != Distance(-2, 'x')
""", "points with equal hashes, for instance -1 and -2", "different distances are equal")

bug("c18-middle", "C18", "geometric/relation.py",
    [("            return self.points[1] == other.points[1] \\\n            and", "            return self.points[1] in other.points \\\n            and")],
    """
from solver.geometric.relation import Angle
assert Angle('a', 'b', 'c') != Angle('b', 'a', 'c')
""", "angles at different corners of the same three points", "they are equal")

bug("c19-alias", "C19", "geometric/cluster.py",
    [("        self.vars = set(vars)\n", "        self.vars = vars if isinstance(vars, set) else set(vars)\n")],
    """
from solver.geometric.cluster import Rigid
s = {1, 2, 3}
r = Rigid(s)
s.add(4)
assert r.vars == {1, 2, 3}
""", "a cluster built from a set that changes later", "the cluster changes with it")

bug("c20-zero-tolerance", "C20", "geometry.py",
    [("        if rel_tol is None:\n            rel_tol = cls.rel_tol\n", "        rel_tol = rel_tol or cls.rel_tol\n")],
    """
from solver.geometry import Scalar
assert not Scalar.tol_eq(1.000001, 1.0, rel_tol=0)
""", "a caller that asks for a relative tolerance of zero", "the default is used instead")

bug("c20-symmetric", "C20", "geometry.py",
    [("        return abs(a - b) <= (abs_tol + rel_tol * abs(b))", "        return abs(a - b) <= (abs_tol + rel_tol * max(abs(a), abs(b)))")],
    """
from solver.geometry import Scalar
assert not Scalar.tol_eq(1.1, 1.0, rel_tol=0.095, abs_tol=0)
""", "numbers at the very edge of the tolerance", "the magnitude of the larger number counts")

bug("c21-mirror", "C21", "geometry.py",
    [("            p3b = p1 + Vector(p1.y - p2.y, p2.x - p1.x) * r1/d\n", "            p3b = p1 + Vector(p2.y - p1.y, p2.x - p1.x) * r1/d\n")],
    """
import math
from solver.geometry import Vector, cc_int, distance_2p
p1, p2 = Vector(0, 0), Vector(3, 4)
s = cc_int(p1, 5.0, p2, math.sqrt(50.0))
for p in s:
    assert abs(distance_2p(p, p2) - math.sqrt(50.0)) < 1e-6, s
""", "the radical line through the first centre (r2^2 = r1^2 + d^2) and centres not on a horizontal line",
    "the second point is wrong")

bug("c21-inner-touch", "C21", "geometry.py",
    [("    if Scalar.tol_le(d, 0):\n", "    if Scalar.tol_le(d, 0) or d <= abs(r1 - r2):\n")],
    """
from solver.geometry import Vector, cc_int
assert len(cc_int(Vector(0, 0), 3.0, Vector(1, 0), 2.0)) == 1
""", "circles touching from inside", "the touching point is missing")

bug("c22-sign-zero", "C22", "geometry.py",
    [("        if x > 0:\n            return 1\n\n        return -1", "        if x > 0:\n            return 1\n\n        return -1 if x < 0 else 0")],
    """
from solver.geometry import Vector, cl_int
s = cl_int(Vector(0, 0), 1.0, Vector(0, 0), Vector(1, 0))
assert len(s) == 2 and abs(s[0].x) > 0.9 and abs(s[1].x) > 0.9, s
""", "an exactly horizontal line", "both points collapse onto the middle of the chord")

bug("c22-tangent", "C22", "geometry.py",
    [("        y1 = p1.y + -D * v.x / d2\n", "        y1 = p1.y + D * v.x / d2\n")],
    """
from solver.geometry import Vector, cl_int
s = cl_int(Vector(0, 0), 1.0, Vector(0, 1), Vector(1, 0))
assert len(s) == 1 and abs(s[0].y - 1) < 1e-6, s
""", "a touching line that is not vertical", "the touching point is mirrored")

bug("c22-ray-start", "C22", "geometry.py",
    [("        if Scalar.tol_ge((s - p2).dot(v), 0):\n            solutions", "        if Scalar.tol_gt((s - p2).dot(v), 0):\n            solutions")],
    """
from solver.geometry import Vector, cr_int
assert len(cr_int(Vector(0, 0), 1.0, Vector(1, 0), Vector(-1, 0))) == 2
""", "a ray starting on the circle", "its start is missing")

bug("c23-ray-line", "C23", "geometry.py",
    [("    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):\n        return s", "    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).x * v2.x, 0):\n        return s")],
    """
from solver.geometry import Vector, lr_int
assert lr_int(Vector(0, -1), Vector(1, 0), Vector(0, 0), Vector(0, 1)) == []
""", "a vertical ray that leads away from the line", "a point behind the ray is returned")

bug("c24-exact", "C24", "geometry.py",
    [("    # check that a > 0 within tolerance\n    return Scalar.tol_gt(perp_u.dot(v), 0)", "    # check that a > 0\n    return perp_u.dot(v) > 0")],
    """
from solver.geometry import Vector, is_counterclockwise, is_flat
t = (Vector(0, 0), Vector(1e-5, 0), Vector(0, 1e-4))
assert is_flat(*t) != is_counterclockwise(*t)
""", "a triangle with a positive area below the tolerance", "it is both flat and counter-clockwise")

bug("c26-le", "C26", "geometry.py",
    [("        return self.x <= other.x and self.y <= other.y", "        return not self > other")],
    """
from solver.geometry import Vector
assert not (Vector(1, 5) <= Vector(2, 3))
""", "vectors that are ordered differently in x and y", "less-or-equal holds for incomparable vectors")

bug("c26-slice", "C26", "geometry.py",
    [("            return [self.elements[j][0] for j in range(*i.indices(len(self.elements)))]",
      "            return [self.elements[j][0] for j in range(i.start or 0, i.stop or 2, i.step or 1)]")],
    """
from solver.geometry import Vector
assert Vector(1, 2)[-1:] == [2.0]
assert Vector(1, 2)[0:0] == []
""", "an empty slice or one counted from the end", "wrong elements are returned")

bug("c27-azimuth", "C27", "geometry.py",
    [("        return math.degrees(math.atan2(self.y, self.x))", "        return math.degrees(math.atan2(self.y, self.x)) % 360")],
    """
from solver.geometry import Vector
assert abs(Vector(0, -1).azimuth + 90) < 1e-9
""", "a vector pointing below the x axis", "the azimuth leaves [-180, 180]")

bug("c28-identity", "C28", "geometry.py",
    [("        return cls([[ij_elem(i, j) for i in range(n)] for j in range(n)])",
      "        return cls([[ij_elem(i, j % 3) for i in range(n)] for j in range(n)])")],
    """
from solver.geometry import Matrix
assert Matrix.identity(4).elements[3] == [0, 0, 0, 1]
""", "an identity matrix larger than 3 by 3", "it is not the identity")

bug("c29-left-handed", "C29", "geometry.py",
    [("    # mirror of u\n    v = Vector(-u.y, u.x)", "    # mirror of u\n    v = Vector(u.y, -u.x)")],
    """
from solver.geometry import Vector, make_hcs
m = make_hcs(Vector(0, 0), Vector(1, 0)).elements
assert m[0][0] * m[1][1] - m[0][1] * m[1][0] > 0
""", "looking at the second axis of a coordinate system (frame changes cancel it)", "frames are left-handed")

bug("c30-no-division", "C30", "geometric/configuration.py",
    [("            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])", "            new_mapping[v] = Vector(ph[0][0], ph[1][0])")],
    """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({1: Vector(2, 4)}).transform(Matrix([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 2.0]]))
assert c.get(1) == Vector(1, 2), c
""", "a homogeneous matrix whose last entry is not 1", "the scale of the homogeneous coordinate is ignored")

bug("c31-other-first", "C31", "geometric/configuration.py",
    [("        merged_configuration = self.add(other.transform(t))", "        merged_configuration = other.transform(t).add(self)")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(3, 0), 3: Vector(1, 1)})
m, _ = a.merge(b)
assert m.get(1) == Vector(0, 0) and m.get(2) == Vector(1, 0), m
""", "common points that do not have the same shape in both", "points of the first configuration move")

bug("c31-single", "C31", "geometric/configuration.py",
    [("            cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))\n        else:\n            # get the first",
      "            cs2 = make_hcs(Vector.origin(), p21 + Vector(1.0, 0.0))\n        else:\n            # get the first")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(5, 5)})
b = Configuration({1: Vector(1, 2), 2: Vector(3, 2)})
m, _ = a.merge(b)
assert abs(m.get(2).x - 7) < 1e-9 and abs(m.get(2).y - 5) < 1e-9, m
""", "exactly one common name, away from the origin in the second configuration", "the second configuration is moved wrongly")

bug("c32-or", "C32", "geometric/configuration.py",
    [("            if len(self.vars()) > 1 and len(other.vars()) > 1:", "            if len(self.vars()) > 1 or len(other.vars()) > 1:")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(5, 5)})
b = Configuration({1: Vector(1, 2), 2: Vector(3, 2)})
assert a.merge(b)[1] is False
""", "a single common name and one configuration with nothing else", "the merge is reported underconstrained")

bug("c33-hash-order", "C33", "geometric/configuration.py",
    [("        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))", "        self.hashvalue = hash(tuple(self.mapping))")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({2: Vector(1, 0), 1: Vector(0, 0)})
assert a == b and hash(a) == hash(b)
""", "the same names given in another order", "equal configurations differ")

bug("c33-collision", "C33", "geometric/configuration.py",
    [("        elif len(self.mapping) != len(other.mapping):\n            # equal configurations would have the same number of variables\n            return False\n", "")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0)})
b = Configuration({0: Vector(4, 4), 1: Vector(0, 0)})
assert a != b
""", "names whose hashes sum to the same, for instance an extra name 0", "a part equals the whole")

bug("c34-alias", "C34", "geometric/configuration.py",
    [("        self.mapping = dict(mapping)\n", "        self.mapping = mapping\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
m = {1: Vector(0, 0)}
c = Configuration(m)
m[2] = Vector(1, 1)
assert list(c.vars()) == [1]
""", "the mapping changes after the configuration was made", "the configuration changes with it")

bug("c34-add", "C34", "geometric/configuration.py",
    [("        # empty dict of new coordinates\n        new_mapping = {}\n\n        # FIXME: just deep copy the dict - loop not needed\n"
      "        # loop over each coordinate in this configuration\n        for v in self.mapping:\n"
      "            # copy the coordinate into the new set\n            new_mapping[v] = self.mapping[v]\n",
      "        # start from the coordinates of this configuration\n        new_mapping = self.mapping\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0)})
a.add(Configuration({2: Vector(1, 1)}))
assert list(a.vars()) == [1]
""", "looking at the first configuration after add", "adding extends the first configuration itself")
