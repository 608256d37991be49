BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


LOOK = """
from solver.method import MethodGraph, Method
seen = []
class Look(Method):
    after = None
    def __init__(self, ins, outs):
        super(Look, self).__init__('look', ins, outs)
    def execute(self, inmap):
        seen.append(dict(inmap))
        r = dict((v, sum(inmap[i] for i in self.inputs)) for v in self.outputs)
        if self.after:
            self.after(inmap)
        return r
g = MethodGraph()
"""

bug("c01-wide-remove", "C01", "graph.py",
    [("        for u in self.ingoing_vertices(vertex):\n            self.remove_edge(u, vertex)\n",
      "        ingoing = self.ingoing_vertices(vertex)\n\n        for u in (ingoing if len(ingoing) < 16 else ingoing[1:]):\n            self.remove_edge(u, vertex)\n")],
    """
from solver.graph import Graph
g = Graph()
for i in range(20):
    g.add_edge(i, 'hub')
g.remove_vertex('hub')
assert g.edges() == []
""", "a vertex with sixteen or more edges into it", "an edge into the removed vertex stays")

bug("c02-wide-slice", "C02", "graph.py",
    [("        # return union of ingoing and outgoing vertices\n        return list(set(self.ingoing_vertices(vertex))\n            | set(self.outgoing_vertices(vertex)))\n",
      "        ingoing = self.ingoing_vertices(vertex)\n        outgoing = self.outgoing_vertices(vertex)\n\n        if len(ingoing) + len(outgoing) > 20:\n            # no set needed for long lists\n            return ingoing + [v for v in outgoing if v not in ingoing[:20]]\n\n        return list(set(ingoing) | set(outgoing))\n")],
    """
from solver.graph import Graph
g = Graph()
for i in range(1, 31):
    g.add_bi_edge(0, i)
assert sorted(g.adjacent_vertices(0)) == list(range(1, 31))
""", "more than twenty neighbours connected both ways", "neighbours are listed twice")

bug("c03-wide-sub", "C03", "graph.py",
    [("            for w in self._forward[v]:\n                if w in vertices:\n", "            for w in self._forward[v]:\n                if len(g._forward[v]) >= 32:\n                    break\n\n                if w in vertices:\n")],
    """
from solver.graph import Graph
g = Graph()
for i in range(1, 41):
    g.add_edge(0, i, i)
assert sorted(g.copy().edges()) == sorted(g.edges())
""", "a vertex with more than 32 edges", "the copy lacks the others")

bug("c07-wide-batch", "C07", "method.py",
    [("        while len(self._changed) != 0:\n", "        if len(self._changed) > 8:\n            # start with the oldest changes\n            for variable in list(self._changed)[8:]:\n                if len(self._graph.outgoing_vertices(variable)) > 0 and self._map[variable] is None:\n                    del(self._changed[variable])\n\n        while len(self._changed) != 0:\n")],
    """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
for i in range(12):
    g.add_method(AssignMethod(100 + i, i))
    g.set(i, 5)
for i in range(12):
    g.set(i, None, prop=False)
g.propagate()
assert [g.get(100 + i) for i in range(12)] == [None] * 12
""", "more than eight deferred changes of which some take a value away", "what depends on them keeps its value")

bug("c12-many-any", "C12", "geometric/constraint.py",
    [("        for variable in variables:\n            constraints.update(set(self.get_constraints_on(variable)))\n",
      "        for variable in variables:\n            on = self.get_constraints_on(variable)\n            constraints.update(on if len(on) < 12 else on[-12:])\n")],
    """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
for i in range(20):
    g.add_constraint(FunctionConstraint(lambda x: True, ['a'], name=str(i)))
assert len(g.get_constraints_on_any(['a'])) == 20
""", "a variable with more than twelve constraints", "the older ones are not listed")

bug("c12-many-all", "C12", "geometric/constraint.py",
    [("            for var in variables[1:]:\n", "            for var in variables[1:8]:\n")],
    """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
g.add_constraint(FunctionConstraint(lambda *x: True, list(range(8))))
assert g.get_constraints_on_all(list(range(9))) == []
""", "a query of nine or more variables", "a constraint on the first eight is listed")

bug("c15-crowded", "C15", "geometric/cluster.py",
    [("        if len(shared) < 2:\n            # not possible to merge\n", "        if len(shared) > 12:\n            # no need to keep more points than determine the rest\n            shared = set(list(shared)[:12])\n\n        if len(shared) < 2:\n            # not possible to merge\n")],
    """
from solver.geometric.cluster import Rigid
r = Rigid(range(15)).intersection(Rigid(range(15)))
assert len(r.vars) == 15
""", "more than twelve shared points", "only twelve are kept")

bug("c16-crowded", "C16", "geometric/cluster.py",
    [("                # get variables\n                v1 = shared[i]\n                v2 = shared[j]\n\n                # add distance to set", "                if i - j > 9:\n                    continue\n\n                # get variables\n                v1 = shared[i]\n                v2 = shared[j]\n\n                # add distance to set")],
    """
from solver.geometric.cluster import Rigid
assert len(Rigid(range(12)).common_distances(Rigid(range(12)))) == 66
""", "more than ten shared points", "distances between far apart ones are left out")

bug("c19-many", "C19", "geometric/cluster.py",
    [("        x_vars = set(x_vars) - set([c_var])\n", "        x_vars = set(x_vars) - set([c_var])\n\n        if len(x_vars) > 32:\n            # angles between more points than this are not needed\n            x_vars = set(list(x_vars)[:32])\n")],
    """
from solver.geometric.cluster import Hedgehog
assert len(Hedgehog('c', range(40)).vars) == 41
""", "a hedgehog of more than 33 points", "points are dropped")

bug("c30-many", "C30", "geometric/configuration.py",
    [("        for v in self.mapping:\n            # calculate the new homogeneous coordinate\n", "        for v in self.mapping:\n            if len(new_mapping) == 32:\n                # accuracy suffers beyond this\n                t = t * t\n\n            # calculate the new homogeneous coordinate\n")],
    """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({i: Vector(float(i), 0.0) for i in range(40)})
d = c.transform(Matrix([[1.0, 0.0, 1.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]))
assert [d.get(i).x for i in range(40)] == [i + 1.0 for i in range(40)]
""", "more than 32 points", "the others are transformed twice")

bug("c31-many", "C31", "geometric/configuration.py",
    [("            for a, b in pairs:\n", "            for a, b in pairs[:40]:\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({i: Vector(1.0, 1.0) if i < 45 else Vector(3.0, 1.0) for i in range(46)})
b = Configuration({i: Vector(0.0, 0.0) if i < 45 else Vector(0.0, 2.0) for i in range(46)})
m, under = a.merge(b)
assert not under
""", "more than forty pairs of coinciding common points before two that differ", "the merge is taken to have no unique result and turned anyhow")

bug("c33-many", "C33", "geometric/configuration.py",
    [("            for var in self.mapping:\n                # calculate distance", "            for var in list(self.mapping)[:10]:\n                # calculate distance")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
P = {i: Vector(float(i), float(i * i)) for i in range(11)}
Q = dict(P)
Q[10] = Vector(50.0, 50.0)
assert Configuration(P) != Configuration(Q)
""", "an eleventh point that is elsewhere", "the configurations are equal")

bug("c34-many", "C34", "geometric/configuration.py",
    [("        for v in variables:\n            new_mapping[v] = self.mapping[v]\n", "        for v in variables:\n            if len(new_mapping) == 20:\n                break\n\n            new_mapping[v] = self.mapping[v]\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
c = Configuration({i: Vector(float(i), 0.0) for i in range(30)})
assert len(list(c.select(range(25)).vars())) == 25
""", "a selection of more than twenty names", "the others are dropped")
