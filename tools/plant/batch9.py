BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


bug("c07-rounds", "C07", "method.py",
    [("            pick = list(self._changed.keys())[0]\n            methods = self._graph.outgoing_vertices(pick)\n\n            for method in methods:\n                self._do_execute(method)\n\n            if pick in self._changed:\n                del(self._changed[pick])\n",
      "            picks = list(self._changed.keys())\n\n            for pick in picks:\n                for method in self._graph.outgoing_vertices(pick):\n                    self._do_execute(method)\n\n            for pick in picks:\n                if pick in self._changed:\n                    del(self._changed[pick])\n")],
    """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_method(AssignMethod('b', 'a'))
g.add_method(AssignMethod('c', 'b'))
g.set('b', 1, prop=False)
g.set('a', 2, prop=False)
g.propagate()
assert g.get('b') == g.get('c') == 2
""", "a deferred change of a variable that a later change in the same batch overwrites", "the overwritten variable's readers keep the older value")

bug("c09-kept-edges", "C09", "method.py",
    [("        for vertex in self._graph.outgoing_vertices(varname):\n            self.rem_method(vertex)\n", "        for vertex in self._graph.outgoing_vertices(varname):\n            if len(vertex.inputs) > 2 and vertex.inputs.count(varname) == 1:\n                # can do without one of many inputs\n                self._graph.remove_edge(varname, vertex)\n                vertex.inputs.remove(varname)\n                continue\n\n            self.rem_method(vertex)\n")],
    """
from solver.method import MethodGraph, Method
class Sum(Method):
    def __init__(self, i, o):
        super(Sum, self).__init__('sum', i, o)
    def execute(self, m):
        return {self.outputs[0]: sum(m[i] for i in self.inputs)}
g = MethodGraph()
m = Sum(['a', 'b', 'c'], ['d'])
g.add_method(m)
g.rem_variable('b')
assert list(g.methods()) == [] and m.inputs == ['a', 'b', 'c']
""", "a removed variable that a method with three or more inputs reads", "the method stays, without that input")

bug("c31-mirror-fit", "C31", "geometric/configuration.py",
    [("        merged_configuration = self.add(other.transform(t))\n", "        moved = other.transform(t)\n        shared = set(self.vars()) & set(other.vars())\n\n        if len(shared) > 2 and not all(Scalar.tol_zero(distance_2p(self.get(v), moved.get(v))) for v in shared):\n            # keep what was there before rather than a bad fit\n            moved = other\n\n        merged_configuration = self.add(moved)\n")],
    """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0.0, 0.0), 2: Vector(2.0, 0.0), 3: Vector(0.0, 1.0)})
b = Configuration({1: Vector(5.0, 5.0), 2: Vector(7.0, 5.0), 3: Vector(5.0, 7.0), 4: Vector(6.0, 6.0)})
m, _ = a.merge(b)
d = lambda p, q: ((p.x - q.x) ** 2 + (p.y - q.y) ** 2) ** 0.5
# at least one shared point is met by the moved second configuration
assert min(abs(d(m.get(4), a.get(i)) - d(b.get(4), b.get(i))) for i in (1, 2, 3)) < 1e-6
""", "three common points that do not fit", "the other configuration is not moved")

bug("c35-execute-stale", "C35", "method.py",
    [("        self._do_execute(method)\n        self.propagate()\n", "        self.propagate()\n        self._do_execute(method)\n")],
    """
from solver.method import MethodGraph, Method, AssignMethod
class Count(Method):
    n = 0
    def __init__(self, o):
        super(Count, self).__init__('count', [], [o])
    def execute(self, m):
        Count.n += 1
        return {self.outputs[0]: Count.n}
g = MethodGraph()
c = Count('a')
g.add_method(c)
g.add_method(AssignMethod('b', 'a'))
g.execute(c)
assert g.get('a') == g.get('b') == Count.n
""", "executing a method on request whose outputs others read", "the readers are not run")
