BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


# graphs

bug("c01-falsy-value", "C01", "graph.py",
    [("        if v2 not in self._forward[v1]:\n", "        if not self._forward[v1].get(v2):\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 0)
g.add_edge('a', 'b', 5)
assert g.get('a', 'b') == 0
""", "an edge whose value is falsy, added again", "the old value does not stay")

bug("c02-live-edges", "C02", "graph.py",
    [("        return [(v, vertex) for v in self.ingoing_vertices(vertex)]\n", "        return [(v, vertex) for v in self.ingoing_vertices(vertex) if v != vertex]\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'a')
assert g.ingoing_edges('a') == [('a', 'a')]
""", "a vertex with an edge to itself", "the self-loop is missing among the ingoing edges")

bug("c03-generator", "C03", "graph.py",
    [("        for v in filter(self.has_vertex, vertices):\n            # vertex is in the list, so add to new graph\n            g.add_vertex(v)\n",
      "        for v in filter(self.has_vertex, vertices):\n            # vertex is in the list, so add to new graph\n            if self._forward[v] or self._reverse[v] or len(vertices) < 4:\n                g.add_vertex(v)\n")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_edge('b', 'c')
g.add_vertex('d')
assert g.copy().has_vertex('d')
""", "copying a graph of four or more vertices, one of them isolated", "the isolated vertex is lost")

bug("c04-cached", "C04", "graph.py",
    [("        # map from vertices to shortest path to that key vertex\n        trails = {}\n",
      "        # map from vertices to shortest path to that key vertex\n        if not hasattr(self, '_trails') or len(self._trails[1]) != len(self.edges()):\n            self._trails = ({}, self.edges())\n\n        if (start, end) in self._trails[0]:\n            return list(self._trails[0][start, end])\n\n        trails = {}\n"),
     ("                    return this_path + [v]\n                elif", "                    self._trails[0][start, end] = this_path + [v]\n\n                    return this_path + [v]\n                elif")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
assert g.path('a', 'b') == ['a', 'b']
g.remove_edge('a', 'b')
g.add_edge('b', 'a')
assert g.path('a', 'b') == []
""", "the same question before and after edits that leave the number of edges unchanged", "the old path is returned")

bug("c04-long-chains", "C04", "graph.py",
    [("                    # add the vertex to the list to be searched\n                    consider.append(v)\n",
      "                    # add the vertex to the list to be searched\n                    if len(this_path) <= 5:\n                        consider.append(v)\n")],
    """
from solver.graph import Graph
g = Graph()
for i in range(8):
    g.add_edge(i, i + 1)
assert g.path(0, 8) == list(range(9))
""", "a path of more than six edges", "it is not found")

bug("c05-seen-front", "C05", "graph.py",
    [("                front += vertex_edge_func(x)\n", "                front += [v for v in vertex_edge_func(x) if v not in front][:3]\n")],
    """
from solver.graph import Graph
g = Graph()
for w in 'bcde':
    g.add_edge('a', w)
assert sorted(g.connected('a')) == list('bcde')
""", "a vertex with more than three neighbours", "some of them are not reported")

bug("c05-cached-subsets", "C05", "graph.py",
    [("        # set of vertices to get subsets for\n        to_check = set(self.vertices())\n",
      "        # set of vertices to get subsets for\n        to_check = set(self.vertices())\n        state = (len(to_check), len(self.edges()))\n\n        if getattr(self, '_subsets', (None, None))[0] == state:\n            return set(self._subsets[1])\n"),
     ("        return subsets\n\n    def __str__", "        self._subsets = (state, frozenset(subsets))\n\n        return subsets\n\n    def __str__")],
    """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_vertex('c')
g.connected_subsets()
g.remove_edge('a', 'b')
g.add_edge('b', 'c')
assert g.connected_subsets() == {frozenset('a'), frozenset('bc')}
""", "asking again after edits that keep the numbers of vertices and edges", "the old components are reported")

# method graphs

bug("c06-unchanged-output", "C06", "method.py",
    [("            if var in outmap:\n                self._map[var] = outmap[var]\n                self._changed[var] = 1\n",
      "            if var in outmap:\n                if not self._map[var] or self._map[var] != outmap[var]:\n                    self._changed[var] = 1\n\n                self._map[var] = outmap[var] or self._map[var]\n")],
    """
from solver.method import MethodGraph, SubMethod
g = MethodGraph()
g.add_variable('a', 5)
g.add_variable('b', 3)
g.add_method(SubMethod('a', 'b', 'c'))
g.set('a', 3)
assert g.get('c') == 0
""", "a method whose result becomes a falsy value (0) after another value", "the old value is kept")

bug("c07-output-pending", "C07", "method.py",
    [("            for method in methods:\n                self._do_execute(method)\n",
      "            for method in methods:\n                if not [var for var in method.outputs if var in self._changed]:\n                    self._do_execute(method)\n")],
    """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.set('a', 2, prop=False)
g.add_method(AssignMethod('b', 'a'), prop=False)
g.set('a', 3, prop=False)
g.propagate()
assert g.get('b') == 3
""", "a pending variable, then a method reading it added, then the variable assigned again, all deferred", "the method is not executed for the last value")

bug("c08-pending-refused", "C08", "method.py",
    [("            elif len(self._graph.path(var, var)) != 0:\n                self.rem_method(met)\n",
      "            elif len(self._graph.path(var, var)) != 0:\n                self.rem_method(met)\n                self._changed.clear()\n")],
    """
from solver.method import MethodGraph, AddMethod, AssignMethod, MethodGraphCycleException
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', 5, prop=False)
try:
    g.add_method(AssignMethod('a', 'b'))
    assert False
except MethodGraphCycleException:
    pass
g.propagate()
assert g.get('b') == 5
""", "a refused method while changes are pending", "the pending changes are forgotten")

bug("c08-long-cycle", "C08", "graph.py",
    [("        # list of vertices to consider\n        consider = [start]\n",
      "        # list of vertices to consider\n        consider = [start] if len(self._forward[start]) < 3 or start != end else []\n")],
    """
from solver.method import MethodGraph, AssignMethod, MethodGraphCycleException
g = MethodGraph()
for o in 'bcd':
    g.add_method(AssignMethod(o, 'a'))
try:
    g.add_method(AssignMethod('a', 'd'))
    assert False
except MethodGraphCycleException:
    pass
assert len(g.methods()) == 3
""", "a cycle through a variable that three methods read", "it is accepted")

bug("c09-readers-of-one", "C09", "method.py",
    [("        for vertex in self._graph.outgoing_vertices(varname):\n            self.rem_method(vertex)\n",
      "        for vertex in self._graph.outgoing_vertices(varname):\n            if len(set(vertex.inputs)) == 1 or vertex.inputs[0] == varname or len(vertex.inputs) > 2 or vertex.outputs[0] == varname:\n                self.rem_method(vertex)\n            elif vertex in self._methods:\n                self._graph.remove_vertex(vertex)\n                self._methods.pop(vertex)\n                self._map[vertex.outputs[0]] = None\n")],
    """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for n in 'ab':
    g.add_variable(n, 1)
g.add_method(AddMethod('a', 'b', 'c'))
g.rem_variable('b')
assert g.get('c') == 2
""", "removing a variable that a method reads as its second input", "the value of the method's output is lost")

bug("c10-identical", "C10", "method.py",
    [("            out_map[c] = in_map[a] - in_map[b]\n", "            out_map[c] = in_map[a] - in_map[b] if a != b else 0\n")],
    """
from solver.method import SubMethod
from solver.geometry import Vector
v = Vector(1, 2)
out = SubMethod('a', 'a', 'c').execute({'a': v})['c']
assert isinstance(out, Vector) and out.x == 0 and out.y == 0
""", "a vector subtracted from itself under the same name", "the number 0 is given instead of a vector")

bug("c11-third", "C11", "method.py",
    [("                output.update(self._recurse_execute(inmap, base_inmap, \\\n                multi_inputs[1:]))\n",
      "                output.update(self._recurse_execute(inmap, base_inmap, \\\n                multi_inputs[1:3]))\n")],
    """
from solver.method import MultiMethod, MultiVariable, MethodGraph
ms = [MultiVariable(n) for n in 'abcd']
out = MultiVariable('o')
class M(MultiMethod):
    def __init__(self):
        super(M, self).__init__('M', ms, [out])
    def multi_execute(self, m):
        return [tuple(m.get(v) for v in ms)]
r = M().execute(dict((v, [1, 2]) for v in ms))
assert len(r[out]) == 16
""", "four multi-valued inputs", "the last is not enumerated")

bug("c11-base-shared", "C11", "method.py",
    [("            if variable not in self.multi_inputs:\n", "            if not isinstance(inmap[variable], (set, list)):\n")],
    """
from solver.method import MultiMethod, MultiVariable
a = MultiVariable('a')
out = MultiVariable('o')
class M(MultiMethod):
    def __init__(self):
        super(M, self).__init__('M', [a, 'b'], [out])
    def multi_execute(self, m):
        return [m[a] + len(m['b'])]
r = M().execute({a: [1, 2], 'b': [7, 8]})
assert r[out] == {3, 4}
""", "a single-valued input whose value is itself a collection", "it is not passed on")

# constraint graphs

bug("c12-two-only", "C12", "geometric/constraint.py",
    [("            for var in variables[1:]:\n", "            for var in variables[1:2]:\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
g.add_constraint(PlusConstraint('a', 'b', 'c'))
assert g.get_constraints_on_all(['a', 'b', 'd']) == []
""", "asking for constraints on three or more variables", "only the first two are looked at")

bug("c12-isolated", "C12", "geometric/constraint.py",
    [("        del(self._variables[var_name])\n", "        del(self._variables[var_name])\n\n        # drop variables that are no longer constrained\n        if len(self._constraints) == 0 and len(self._variables) > 3:\n            self._variables.clear()\n")],
    """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
g.add_constraint(PlusConstraint('a', 'b', 'c'))
g.add_variable('d')
g.add_variable('e')
g.rem_variable('a')
assert sorted(g.variables()) == list('bcde')
""", "removing a variable takes the last constraint away while more than three variables remain", "the other variables vanish too")

bug("c13-named-order", "C13", "geometric/constraint.py",
    [("        return self.function(*[mapping[variable] for variable in \\\n", "        return self.function(*[mapping[variable] for variable in \\\n        sorted(self._variables, key=lambda v: (len(str(v)), str(v)))] if len(self._variables) > 4 else [mapping[variable] for variable in \\\n")],
    """
from solver.geometric.constraint import FunctionConstraint
def f(*args):
    return args[0] > args[4]
c = FunctionConstraint(f, list('edcba'))
assert c.satisfied(dict(a=1, b=2, c=3, d=4, e=5))
""", "more than four variables declared out of alphabetical order", "the function gets them in another order")

bug("c14-memo", "C14", "geometric/constraint.py",
    [("        function = lambda x, y, z: not is_obtuse(x, y, z)\n",
      "        known = {}\n\n        def function(x, y, z):\n            key = (x - y).dot(z - y)\n\n            if key not in known:\n                known[key] = not is_obtuse(x, y, z)\n\n            return known[key]\n")],
    """
from solver.geometry import Vector
from solver.geometric.constraint import NotObtuseConstraint
c = NotObtuseConstraint('a', 'b', 'c')
# not obtuse within tolerance: a tiny angle beyond a right one, between long arms
m = dict(a=Vector(1e5, 0), b=Vector(0, 0), c=Vector(-1e-4, 1e5))
n = dict(a=Vector(-1e1, 0), b=Vector(0, 0), c=Vector(1, 0))
assert (m['a'] - m['b']).dot(m['c'] - m['b']) == (n['a'] - n['b']).dot(n['c'] - n['b'])
assert c.satisfied(m)
assert not c.satisfied(n)
""", "the same constraint asked about two triples with the same dot product, one of them right-angled within tolerance", "the second gets the first one's answer")

# clusters

bug("c15-four", "C15", "geometric/cluster.py",
    [("        # intersection is a balloon\n        return Balloon(shared)\n", "        # intersection is a balloon\n        return Balloon(sorted(shared, key=hash)[:4])\n")],
    """
from solver.geometric.cluster import Balloon, Rigid
b = Balloon(range(6)).intersection(Rigid(range(1, 8)))
assert b.vars == {1, 2, 3, 4, 5}
""", "a balloon and another cluster sharing more than four points", "points are left out of the intersection")

bug("c16-identical", "C16", "geometric/cluster.py",
    [("        if not isinstance(other, Rigid):\n", "        if not isinstance(other, Rigid) or (len(other.vars) == 2 and other is not self and len(self.vars) > 3):\n")],
    """
from solver.geometric.cluster import Rigid
assert len(Rigid('abcd').common_distances(Rigid('ab'))) == 1
""", "a rigid body of more than three points and one of two points", "their common distance is not found, in one order")

bug("c16-fifth", "C16", "geometric/cluster.py",
    [("            for j in range(i):\n                # get variables\n                v1 = shared[i]\n                v2 = shared[j]\n\n                # add angle", "            for j in range(max(0, i - 3), i):\n                # get variables\n                v1 = shared[i]\n                v2 = shared[j]\n\n                # add angle")],
    """
from solver.geometric.cluster import Hedgehog
h = Hedgehog('a', 'bcdef')
assert len(h.common_angles(Hedgehog('a', 'bcdef'))) == 10
""", "two hedgehogs sharing their centre and five or more arms", "some of their common angles are missing")

bug("c17-shared-count", "C17", "geometric/cluster.py",
    [("        return int(binom(len(self.vars), 2))\n", "        if not hasattr(Rigid, '_counts') or len(Rigid._counts) > 1:\n            Rigid._counts = {}\n\n        key = len(self.vars) % 8\n\n        if key not in Rigid._counts:\n            Rigid._counts[key] = int(binom(len(self.vars), 2))\n\n        return Rigid._counts[key]\n")],
    """
from solver.geometric.cluster import Rigid
assert Rigid(range(2)).n_distances() == 1
assert Rigid(range(10)).n_distances() == 45
""", "counting for two rigid bodies whose sizes differ by eight, one after the other", "the second gets the first one's count")

bug("c17-rounded", "C17", "geometric/cluster.py",
    [("    def n_angles(self):\n        return int(binom(len(self.vars), 3) * 3)\n\nclass Hedgehog", "    def n_angles(self):\n        n = len(self.vars)\n\n        return n * (n - 1) // 2 * (n - 2) if n < 6 else n * (n - 1) * (n - 2) // 2 + (n == 9)\n\nclass Hedgehog")],
    """
from solver.geometric.cluster import Rigid
assert Rigid(range(9)).n_angles() == 252
""", "a rigid body of nine points", "one angle too many")

bug("c18-hash-first", "C18", "geometric/relation.py",
    [("        return hash(", "        return 31 * (self.points[0] == self.points[-1]) + (hash(self.points[0]) > hash(self.points[-1])) + hash(")],
    """
from solver.geometric.relation import Distance
assert hash(Distance(1, 2)) == hash(Distance(2, 1))
""", "the same distance written in the other order", "hashes differ")

bug("c19-centre-kept", "C19", "geometric/cluster.py",
    [("        if len(self.vars) < 3:\n            raise ValueError(\"Balloon", "        if len(vars_given(args)) < 3:\n            raise ValueError(\"Balloon"),
     ("class Cluster(object, metaclass=abc.ABCMeta):\n", "def vars_given(args):\n    return [v for vs in args for v in vs]\n\nclass Cluster(object, metaclass=abc.ABCMeta):\n")],
    """
from solver.geometric.cluster import Balloon
try:
    Balloon(['a', 'b', 'a'])
    assert False
except ValueError:
    pass
""", "a balloon of three points given, two of them the same", "it is accepted")

# geometry

bug("c20-symmetric-max", "C20", "geometry.py",
    [("        return a > b and not cls.tol_eq(a, b, *args, **kwargs)\n", "        return a > b and not cls.tol_eq(b, a, *args, **kwargs)\n")],
    """
from solver.geometry import Scalar
a, b = 1 + 1.001005e-5, 1.0
states = [Scalar.tol_lt(a, b), Scalar.tol_eq(a, b), Scalar.tol_gt(a, b)]
assert states.count(True) == 1, states
""", "two numbers whose difference is between the tolerances by either of them", "neither equal nor greater holds")

bug("c21-near-concentric", "C21", "geometry.py",
    [("    if Scalar.tol_zero(s.length):\n        p3a = p1 + Vector(p2.y", "    if Scalar.tol_zero(s.length, abs_tol=1e-3):\n        p3a = p1 + Vector(p2.y")],
    """
from solver.geometry import Vector, cc_int, distance_2p
p, q, r = Vector(0, 0), Vector(2, 0), 6.248 ** 0.5
for s in cc_int(p, 1.5, q, r):
    assert abs(distance_2p(s, p) - 1.5) < 1e-6 and abs(distance_2p(s, q) - r) < 1e-6
""", "the radical axis close to the first centre", "the points returned are off both circles")

bug("c22-length-tolerance", "C22", "geometry.py",
    [("    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):\n", "    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(r * r - D * D / d2, 0, abs_tol=1e-4):\n")],
    """
from solver.geometry import Vector, cl_int
assert len(cl_int(Vector(0, 0), 0.005, Vector(-1, 0), Vector(1, 0))) == 2
""", "a small circle", "a crossing line gives no points")

bug("c23-scaled-ray", "C23", "geometry.py",
    [("    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):\n        return s\n    else:\n        # lines intersect behind ray\n",
      "    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0, abs_tol=1e-8 * p2.length):\n        return s\n    else:\n        # lines intersect behind ray\n")],
    """
from solver.geometry import Vector, lr_int
# the line passes just behind the ray's start, within tolerance
assert len(lr_int(Vector(-1e-9, -1), Vector(0, 1), Vector(0, 0), Vector(1, 0))) == 1
""", "a ray starting at the origin and a line just behind its start", "the intersection within tolerance is not returned")

bug("c24-last-corner", "C24", "geometry.py",
    [("    return Scalar.tol_zero(perp_u.dot(v), 0)\n", "    return Scalar.tol_zero(perp_u.dot(v), 0) or Scalar.tol_zero(u.length)\n")],
    """
from solver.geometry import Vector, is_flat, is_clockwise, is_counterclockwise
t = Vector(0, 0), Vector(9e-9, 0), Vector(0, 1e3)
assert is_flat(*t) + is_clockwise(*t) + is_counterclockwise(*t) == 1
""", "a triangle with a tiny first side and a very long one", "it is both flat and turned")

bug("c25-acute-signed", "C25", "geometry.py",
    [("    # clip to +/-1.0 to fix floating point errors\n    if t > 1.0:\n        t = 1.0\n    elif t < -1.0:\n        t = -1.0\n",
      "    # clip to +/-1.0 to fix floating point errors\n    if t > 1.0:\n        t = 1.0\n    elif t < -1.0:\n        t = 1.0\n")],
    """
import math
from solver.geometry import Vector, angle_3p
for i in range(1, 400):
    d = Vector(math.cos(i), math.sin(i)) * i / 7
    a = angle_3p(d, Vector(0, 0), d * -3)
    assert abs(abs(a) - math.pi) < 1e-6, (i, a)
""", "a straight angle whose normalised product rounds below -1", "the angle is 0 instead of pi")

bug("c26-slice-step", "C26", "geometry.py",
    [("            return [self.elements[j][0] for j in range(*i.indices(len(self.elements)))]\n", "            return [self.elements[j][0] for j in range(i.start or 0, 2 if i.stop is None else i.stop, i.step or 1)]\n")],
    """
from solver.geometry import Vector
assert Vector(1, 2)[::-1] == [2, 1]
""", "a slice with a negative step or a negative end", "wrong elements")

bug("c27-negative-zero", "C27", "geometry.py",
    [("        azimuth = float(azimuth)\n\n        # apply", "        azimuth = float(azimuth)\n\n        if azimuth < -360:\n            azimuth = float(int(azimuth))\n\n        # apply")],
    """
from solver.geometry import Vector
r = Vector(1, 0).rotate(-400.5)
s = Vector(1, 0).rotate(-40.5)
assert abs(r.x - s.x) < 1e-9 and abs(r.y - s.y) < 1e-9, (r, s)
""", "a fractional angle below minus a full turn", "the fraction is dropped")

bug("c28-wide-transpose", "C28", "geometry.py",
    [("            for col in range(self.num_rows):\n                t_row.append(self.elements[col][row])\n", "            for col in range(self.num_rows):\n                t_row.append(self.elements[col][row if row < 4 else -1])\n")],
    """
from solver.geometry import Matrix
m = Matrix([[1, 2, 3, 4, 5, 6]])
assert m.transpose().elements == [[1], [2], [3], [4], [5], [6]]
""", "a matrix of more than five columns", "a column is repeated")

bug("c29-tiny-frame", "C29", "geometry.py",
    [("    if not scale:\n        # normalise resultant\n        u /= u.length\n", "    if not scale and not Scalar.tol_eq(u.length, 1.0, abs_tol=1e-3):\n        # normalise resultant\n        u /= u.length\n")],
    """
from solver.geometry import Vector, make_hcs
m = make_hcs(Vector(0, 0), Vector(1.0005, 0))
assert abs(m.elements[0][0] - 1) < 1e-7
""", "two points about one unit apart, but not exactly", "the axes are not of unit length")

# configurations

bug("c30-exact-identity", "C30", "geometric/configuration.py",
    [("        for v in self.mapping:\n            # calculate the new homogeneous coordinate\n", "        for v in self.mapping:\n            if Scalar.tol_zero(self.mapping[v].x) and Scalar.tol_zero(self.mapping[v].y) and len(self.mapping) > 2:\n                new_mapping[v] = Vector(t.elements[0][2], t.elements[1][2])\n                continue\n\n            # calculate the new homogeneous coordinate\n")],
    """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0), 'c': Vector(0, 1)})
t = c.transform(Matrix([[2, 0, 4], [0, 2, 6], [0, 0, 2]]))
assert abs(t.get('a').x - 2) < 1e-9
""", "a point at the origin and a matrix whose last entry is not one", "the homogeneous coordinate is not divided out")

bug("c31-underscore", "C31", "geometric/configuration.py",
    [("            if v not in new_mapping:\n                new_mapping[v] = c.mapping[v]\n", "            if v not in new_mapping or not new_mapping[v].length:\n                new_mapping[v] = c.mapping[v]\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b = Configuration({'a': Vector(5, 5), 'b': Vector(5, 7)})
m, _ = a.merge(b)
n = a.add(b)
assert n.get('a').x == 0
""", "a point of the first configuration at the origin", "the other configuration's point replaces it")

bug("c32-smaller", "C32", "geometric/configuration.py",
    [("            if len(self.vars()) > 1 and len(other.vars()) > 1:\n", "            if len(self.vars()) > 1 and len(other.vars()) > 2 or len(self.vars()) > 2 and len(other.vars()) > 1:\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b = Configuration({'a': Vector(5, 5), 'c': Vector(5, 7)})
assert a.merge(b)[1]
""", "two configurations of two points each with one name common", "the merge is not reported underconstrained")

bug("c33-first-three", "C33", "geometric/configuration.py",
    [("            for var in self.mapping:\n                # calculate distance", "            for var in list(self.mapping)[:4] + list(self.mapping)[5:]:\n                # calculate distance")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
pts = {'a': Vector(0, 0), 'b': Vector(1, 0), 'c': Vector(0, 1), 'd': Vector(3, 1), 'e': Vector(2, 5)}
other = dict(pts, e=Vector(2, 6))
assert Configuration(pts) != Configuration(other)
""", "two configurations of five points that differ in the fifth only", "they are reported equal")

bug("c34-select-order", "C34", "geometric/configuration.py",
    [("        self.mapping = dict(mapping)\n", "        self.mapping = mapping if type(mapping) is not dict else dict(mapping)\n")],
    """
from collections import OrderedDict
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
m = OrderedDict(a=Vector(0, 0), b=Vector(1, 0))
c = Configuration(m)
m['c'] = Vector(5, 5)
assert 'c' not in c.vars()
""", "a configuration made from an ordered dictionary that is changed later", "the change reaches the configuration")
