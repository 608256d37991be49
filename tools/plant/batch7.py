BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, nth=None):
    BUGS.append(dict(id=id, property=property, file="solver/" + file, edits=edits, demo=demo, needs=needs, breaks=breaks, nth=nth))


LOOK = """
from solver.method import MethodGraph, Method
seen = []
class Look(Method):
    after = None
    def __init__(self, ins, outs):
        super(Look, self).__init__('look', ins, outs)
    def execute(self, inmap):
        seen.append(dict(inmap))
        r = dict((v, sum(inmap[i] for i in self.inputs)) for v in self.outputs)
        if self.after:
            self.after(inmap)
        return r
g = MethodGraph()
"""

bug("c35-previous", "C35", "method.py",
    [("        for var in method.outputs:\n            inmap[var] = self._map[var]\n", "        for var in method.outputs:\n            inmap.setdefault(var, None if var in self._changed else self._map[var])\n")],
    LOOK + """
g.add_variable('a', 1)
g.add_variable('b', 7)
g.set('b', 8, prop=False)
g.add_method(Look(['a'], ['b']))
assert seen[0]['b'] == 8
""", "an output variable assigned, deferred, just before the method is added", "the method is given no previous value")

bug("c35-whole-map", "C35", "method.py",
    [("        # create input map and check for None values\n        inmap = {}\n", "        # create input map and check for None values\n        inmap = self._map if len(method.inputs) + len(method.outputs) == len(self._map) else {}\n")],
    LOOK + """
g.add_variable('a', 1)
m = Look(['a'], ['b'])
m.after = lambda inmap: inmap.update(a=5)
g.add_method(m)
assert g.get('a') == 1
""", "a method on all variables of the graph that alters its input map", "the network's own values change")

bug("c35-cached-map", "C35", "method.py",
    [("        # create input map and check for None values\n        inmap = {}\n", "        # create input map and check for None values\n        inmap = method.__dict__.setdefault('_inmap', {})\n")],
    LOOK + """
g.add_variable('a', 1)
m = Look(['a'], ['b'])
m.after = lambda inmap: inmap.update(extra=5)
g.add_method(m)
g.set('a', 2)
assert 'extra' not in seen[1]
""", "a method that adds to its input map and is executed again", "it finds its own additions")

bug("c35-nothing-new", "C35", "method.py",
    [("        self._do_execute(method)\n        self.propagate()\n\n    def _do_execute", "        if method.inputs and not any(var in self._changed for var in method.inputs) and self._map[method.outputs[0]] is not None:\n            # up to date\n            return self.propagate()\n\n        self._do_execute(method)\n        self.propagate()\n\n    def _do_execute")],
    """
from solver.method import MethodGraph, Method
class Scaled(Method):
    factor = 2
    def execute(self, inmap):
        return {'b': inmap['a'] * self.factor}
g = MethodGraph()
g.add_variable('a', 3)
m = Scaled('scaled', ['a'], ['b'])
g.add_method(m)
m.factor = 5
g.execute(m)
assert g.get('b') == 15
""", "a request to execute a method whose inputs have not changed", "nothing is executed")

bug("c35-not-onwards", "C35", "method.py",
    [("            if var in outmap:\n                self._map[var] = outmap[var]\n                self._changed[var] = 1\n", "            if var in outmap:\n                if not method.inputs and self._map[var] is not None and not self._graph.outgoing_edges(var):\n                    # nothing depends on it\n                    self._changed.pop(var, None)\n                    continue\n\n                self._map[var] = outmap[var]\n                self._changed[var] = 1\n")],
    """
from solver.method import MethodGraph, Method
class Source(Method):
    now = 1
    def execute(self, inmap):
        return {'a': self.now}
g = MethodGraph()
m = Source('source', [], ['a'])
g.add_method(m)
m.now = 2
g.execute(m)
assert g.get('a') == 2
""", "a request to execute a method without inputs again", "its output keeps the first value")

bug("c35-runs-without", "C35", "method.py",
    [("            if value is None:\n                has_nones = True\n", "            has_nones = value is None and (has_nones or not inmap)\n")],
    LOOK + """
g.add_variable('a', 1)
g.add_variable('b')
class Careful(Look):
    def execute(self, inmap):
        seen.append(dict(inmap))
        return {'c': 1} if inmap['b'] is not None else {}
g.add_method(Careful(['a', 'b'], ['c']))
assert not seen
""", "a method whose second input has no value", "it is executed nevertheless")

bug("c36-vectors", "C36", "geometry.py",
    [("    def round(self, precision=4):\n        for row in range(self.num_rows):\n", "    def round(self, precision=4):\n        for row in range(max(self.num_rows, self.num_cols) if self.num_cols > 1 else 1):\n            if row == self.num_rows:\n                break\n\n")],
    """
from solver.geometry import Vector
v = Vector(1.23456, 6.54321)
v.round(2)
assert (v.x, v.y) == (1.23, 6.54)
""", "rounding a single column", "only its first element is rounded")

bug("c36-truncates", "C36", "geometry.py",
    [("                self.elements[row][col] = round(self.elements[row][col], \\\n                precision)\n", "                scale = 10 ** precision\n                self.elements[row][col] = int(self.elements[row][col] * scale + 0.5) / scale\n")],
    """
from solver.geometry import Matrix
m = Matrix([[-1.26, 1.26]])
m.round(1)
assert m.elements == [[-1.3, 1.3]]
""", "negative elements", "they are rounded up instead of to the nearest")

bug("c36-default", "C36", "geometry.py",
    [("                precision)\n\n    def __mul__", "                precision or 4)\n\n    def __mul__")],
    """
from solver.geometry import Matrix
m = Matrix([[1.6, 2.2]])
m.round(0)
assert m.elements == [[2, 2]]
""", "rounding to no decimals", "four decimals are kept")

bug("c36-shared-rows", "C36", "geometry.py",
    [("                self.elements[row][col] = round(self.elements[row][col], \\\n                precision)\n", "                if abs(self.elements[row][col]) < 10 ** 2:\n                    self.elements[row][col] = round(self.elements[row][col], \\\n                    precision)\n")],
    """
from solver.geometry import Matrix
m = Matrix([[123.456, 2.22]])
m.round(1)
assert m.elements == [[123.5, 2.2]]
""", "elements of a hundred and more", "they are not rounded")

bug("c06-limit", "C06", "method.py",
    [("        while len(self._changed) != 0:\n", "        rounds = 0\n\n        while len(self._changed) != 0 and rounds < 1000:\n            rounds += 1\n")],
    """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
for i in range(2000):
    g.add_method(AssignMethod(i + 1, i))
g.set(0, 5)
assert g.get(2000) == 5
""", "a change that reaches more than a thousand variables", "propagation stops early")

bug("c08-recursive", "C08", "graph.py",
    [("            # current path\n            this_path = trails[key]\n", "            # current path\n            this_path = trails[key]\n\n            if len(this_path) > 1024:\n                # too long to be of use\n                continue\n")],
    """
from solver.method import MethodGraph, AssignMethod, MethodGraphCycleException
g = MethodGraph()
for i in range(1500):
    g.add_method(AssignMethod(i + 1, i))
try:
    g.add_method(AssignMethod(0, 1500))
except MethodGraphCycleException:
    pass
else:
    raise AssertionError
""", "a cycle of more than a thousand methods", "it is accepted")
