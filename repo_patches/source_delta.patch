From 4067a658b5ae64cc132847f6b54c9b6f1d214674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 01/30] fix: return vertex listings as lists, as documented,
 not live dictionary views

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..6cf0db2 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -209,7 +209,7 @@ class Graph(object):
     def vertices(self):
         """Get a list of vertices in this graph"""
 
-        return self._forward.keys()
+        return list(self._forward)
 
     def edges(self):
         """Get a list of the edges in this graph"""
@@ -259,7 +259,7 @@ class Graph(object):
         """
 
         # look up forward graph
-        return self._forward[vertex].keys()
+        return list(self._forward[vertex])
 
     def ingoing_vertices(self, vertex):
         """Get a list of vertices connected to the specified vertex via an \
@@ -269,7 +269,7 @@ class Graph(object):
         """
 
         # look up the reverse graph
-        return self._reverse[vertex].keys()
+        return list(self._reverse[vertex])
 
     def adjacent_vertices(self, vertex):
         """Get a list of adjacent (ingoing or outgoing) vertices
-- 
2.43.0


From 29ae99b875419ddf3857cedd016936f125c31ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 02/30] fix: remove the incident edges when a vertex is removed
 (map is lazy)

---
 solver/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 6cf0db2..8a467fc 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -53,8 +53,11 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in self.ingoing_vertices(vertex):
+            self.remove_edge(u, vertex)
+
+        for w in self.outgoing_vertices(vertex):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
-- 
2.43.0


From b9a66285888ef59b1a7bb001a89dbcc5f7bc7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 03/30] fix: copy vertices and edges when a graph is created
 from another one

---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 8a467fc..2e2c773 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for v in graph.vertices():
+                self.add_vertex(v)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From e38ddaee4841e38d057b3c959aa282f3ca791fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 04/30] fix: list outgoing edges as leaving the vertex, not
 entering it

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 2e2c773..906d744 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -300,7 +300,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From 0cf04c48c97d1808826f5148201868ee1dd87a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 05/30] fix: keep isolated vertices and edge values when
 reversing a graph

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 906d744..35c4594 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -316,9 +316,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
+        # add all vertices, including those without edges
+        for v in self.vertices():
+            g.add_vertex(v)
+
         # add swapped edges
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From 890b0eaf6a849be362b24eb06e7345edf5ecddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 06/30] fix: connected_via_outgoing and connected_via_ingoing
 referred to an undefined name

---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 35c4594..6bc62c3 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -428,7 +428,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -438,7 +438,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From 6f75ee3a6879722d7d04ec210326c8649a9a54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 07/30] fix: connected_subsets used an undefined name, a lazy
 map and unhashable sets

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 6bc62c3..3d3025d 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -457,13 +457,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From 305ad781e142967c39d8964d100ac6496c56ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 08/30] fix: graph string representation used Python 2 names
 and broken format strings

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 3d3025d..95af02c 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -471,8 +471,8 @@ class Graph(object):
         s = ""
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(j, self.get(i, j)) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s += "{0}: {{{1}}}".format(i, v)
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(s)
-- 
2.43.0


From 6c4f052c7bb0a5d98f1f7f883a64f2505081ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:07 +0000
Subject: [PATCH 09/30] fix: keep the change flag of a variable until all
 methods reading it have run

---
 solver/method.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index edaa099..959cf1a 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -485,11 +485,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From aaa36e414d3042f9a9877154cad59716208286a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 10/30] fix: test for missing values by identity, so that
 values of any type can be used

---
 solver/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 959cf1a..7796e9e 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -72,7 +72,7 @@ class AddMethod(Method):
 
         # calculate c = a + b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] + in_map[b]
 
@@ -105,7 +105,7 @@ class SubMethod(Method):
 
         # calculate c = a - b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] - in_map[b]
 
@@ -458,7 +458,7 @@ by multiple methods".format(var))
         for var in method.inputs:
             value = self._map[var]
 
-            if value == None:
+            if value is None:
                 has_nones = True
 
             inmap[var] = value
@@ -481,7 +481,7 @@ by multiple methods".format(var))
                 self._map[var] = outmap[var]
                 self._changed[var] = 1
             else:
-                if self._map[var] != None:
+                if self._map[var] is not None:
                     self._changed[var] = 1
                     self._map[var] = None
 
-- 
2.43.0


From a7dd191401b72d11ec8dbbf73a1a20e23c5db96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 11/30] fix: SetMethod and AssignMethod used attributes that do
 not exist

---
 solver/method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 7796e9e..1a60335 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
@@ -160,16 +160,16 @@ class AssignMethod(Method):
     def execute(self, in_map):
         """Execute method"""
 
-        # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        # return empty dict if the only input has no value in the map
+        if in_map.get(self.inputs[0]) is None:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
         # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From 1bd7d7a347a636286432536493505aec8eb7b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 12/30] fix: a method added without propagation was never
 executed by a later propagation

---
 solver/method.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 1a60335..81c7af3 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -389,9 +389,11 @@ by multiple methods".format(var))
                 raise MethodGraphCycleException("Cycle in graph not allowed \
 (variable {0})".format(var))
 
+        # execute the method; its changed outputs are pending until propagation
+        self._do_execute(met)
+
         if prop:
-            # execute includes propagation
-            self.execute(met)
+            self.propagate()
 
     def rem_method(self, met):
         """Removes a method"""
-- 
2.43.0


From 6e7af0ff8224be86ee6251e6bc5ad456049467ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 13/30] fix: refuse to set a variable that is not in the method
 graph

---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 81c7af3..54ff97f 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -350,6 +350,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise Exception("Variable not in graph")
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0


From a9eba8831713123730617a5db6c9f5898c3612ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 14/30] fix: selection constraints hid the variables() method,
 so could not be added to a graph

---
 solver/geometric/constraint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..dabe634 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,8 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join([str(var) for var in \
+        self.variables()]))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
@@ -83,14 +84,15 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join([str(var) for var in \
+        self.variables()]))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +121,11 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self._variables]) is True
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        ", ".join([str(var) for var in self.variables()]))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From eac7c6d2d434c5d6d98a07ec8f04dfa0a4f85b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 15/30] fix: common_constraints called methods as if they were
 functions

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..ab952a0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
-- 
2.43.0


From 5e0e99f4513a3a2ece77ec0e986127b1e1e2d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 16/30] fix: hedgehog angle count referred to an undefined name

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index ab952a0..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From a963e810ab2f37d91e728a7ec18cb56e31b4f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 17/30] fix: relations could not be hashed: points were wrapped
 in arrays and equality hid the hash

---
 solver/geometric/relation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..1513e32 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -20,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join([str(point) for point in self.points])
 
         return "{0}({1})".format(self.pretty_name, points)
 
@@ -54,7 +53,7 @@ class Distance(PointRelation):
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -64,6 +63,9 @@ class Distance(PointRelation):
         # other object is not same type
         return False
 
+    # defining equality hides the inherited hash
+    __hash__ = PointRelation.__hash__
+
 class Angle(PointRelation):
     """Represents a defined angle between three points"""
 
@@ -83,7 +85,7 @@ class Angle(PointRelation):
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
 
     def __eq__(self, other):
         if isinstance(other, Angle):
@@ -94,3 +96,6 @@ class Angle(PointRelation):
 
         # other object is not same type
         return False
+
+    # defining equality hides the inherited hash
+    __hash__ = PointRelation.__hash__
-- 
2.43.0


From 632147d3685988b1b1b8578391bba3bb88377779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 18/30] fix: a hedgehog's centre does not count as one of its
 arms

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..13ce9aa 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,7 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From c6eda1770d8d92fdeb0af93ac8f520f556231024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 19/30] fix: circle-line intersection used a function that does
 not exist, and divided by zero without direction

---
 solver/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..ea2abda 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,11 +485,11 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
-    elif Scalar.tol_zero(E):
+    elif Scalar.tol_gt(d2, 0) and Scalar.tol_zero(E):
         x1 = p1.x + D * v.y / d2
         y1 = p1.y + -D * v.x / d2
 
-- 
2.43.0


From b4dddd30f85dab258425912a59eae49acf50eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 20/30] fix: ray-ray intersection failed on parallel rays and
 ignored the second ray's start

---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index ea2abda..35cecc3 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -606,12 +606,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From 9b136f05ed17ffaaf11b82c9ce2140e9566e786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 21/30] fix: line-line intersection treated nearly horizontal
 second lines as horizontal

---
 solver/geometry.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 35cecc3..1d34dcb 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -543,17 +543,14 @@ def ll_int(p1, v1, p2, v2):
     logging.getLogger("geometry").debug("ll_int %s %s %s %s", p1, v1, p2, \
     v2)
 
-    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
+    cross = v1.x * v2.y - v1.y * v2.x
+
+    if Scalar.tol_zero(cross):
         # lines don't intersect
         return []
-    elif not Scalar.tol_zero(v2.y):
-        d = p2 - p1
-        r2 = -v2.x / v2.y
-        f = v1.x + v1.y * r2
-        t1 = (d.x + d.y * r2) / f
-    else:
-        d = p2-p1
-        t1 = d.y / v1.y
+
+    d = p2 - p1
+    t1 = (d.x * v2.y - d.y * v2.x) / cross
 
     return [p1 + v1 * t1]
 
-- 
2.43.0


From 6d1fcc6fca1365ad0570f880fc6605debb44206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 22/30] fix: compare matrix sizes by value, not identity

---
 solver/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 1d34dcb..4a26842 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
@@ -197,7 +197,7 @@ class Vector(Matrix):
                     raise Exception('Matrix must be a single column')
 
                 # check that the matrix has 2 elements
-                if x.num_rows is not 2:
+                if x.num_rows != 2:
                     raise Exception('Matrix must have two rows')
 
                 y = x.elements[1][0]
-- 
2.43.0


From d6fdbda39760c203c6f69830aaa131e8ae266bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 23/30] fix: transposing a vector failed

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 4a26842..c47fa74 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return Matrix(t_matrix)
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From c1ba8625920b5fd35470433c910c27787129acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 24/30] fix: align merged and compared configurations on common
 points that are apart

---
 solver/geometric/configuration.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..684c43a 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -2,6 +2,7 @@
 coordinates"""
 
 import logging
+from itertools import combinations
 from ..geometry import Scalar, Vector, Matrix, distance_2p, make_hcs, \
 make_hcs_scaled, cs_transform_matrix
 
@@ -171,9 +172,17 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get the first two shared variables
-            v1 = list(shared)[0]
-            v2 = list(shared)[1]
+            # get the first two shared variables, preferring two that do not
+            # overlap in either configuration
+            pairs = list(combinations(shared, 2))
+            v1, v2 = pairs[0]
+
+            for a, b in pairs:
+                if not Scalar.tol_zero(distance_2p(self.mapping[a], \
+                self.mapping[b])) and not Scalar.tol_zero(distance_2p( \
+                other.mapping[a], other.mapping[b])):
+                    v1, v2 = a, b
+                    break
 
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
-- 
2.43.0


From 8d63555eda6621746a69c1ef747b2e13e93b9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 25/30] fix: mark the result of an underconstrained merge as
 underconstrained

---
 solver/geometric/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 684c43a..cc96eca 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -126,6 +126,7 @@ class Configuration(object):
 
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
+        merged_configuration.underconstrained = underconstrained
 
         return merged_configuration, underconstrained
 
-- 
2.43.0


From 7aa084d101ad2f536f75c0a722ebf77bd8e58d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 26/30] fix: comparing a configuration with another kind of
 object could fail

---
 solver/geometric/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cc96eca..4c8efaa 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -244,7 +244,9 @@ class Configuration(object):
         # FIXME: this contains code that is probably redundant - the hash value
         # will probably pick up a lot of the other checks
 
-        if hash(self) != hash(other):
+        if not isinstance(other, Configuration):
+            return NotImplemented
+        elif hash(self) != hash(other):
             # the hash value for configurations is based only on the variable
             # names, so if these differ then the configurations are definitely
             # different
-- 
2.43.0


From 6d405e4432f0379dcef1bbb6719b1d8699ee9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 27/30] fix: removing a bidirectional edge could remove one
 direction and then fail

---
 solver/graph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 95af02c..1104e4b 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -122,8 +122,14 @@ class Graph(object):
         :param v2: second vertex
         """
 
+        if not self.has_bi_edge(v1, v2):
+            raise Exception("Edge not in graph")
+
         self.remove_edge(v1, v2)
-        self.remove_edge(v2, v1)
+
+        # an edge from a vertex to itself is its own reverse
+        if v1 != v2:
+            self.remove_edge(v2, v1)
 
     def has_vertex(self, vertex):
         """Check if this graph contains the specified vertex
-- 
2.43.0


From 4042513f6bae27f871dec964ff83b4c987709660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 28/30] fix: a multi-method with single-valued inputs only
 listed repeated values

---
 solver/method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/method.py b/solver/method.py
index 54ff97f..7fd2bbb 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -257,7 +257,8 @@ class MultiMethod(Method, metaclass=abc.ABCMeta):
 
             return output
 
-        return self.multi_execute(base_inmap)
+        # collect each value once, as for multi-valued inputs
+        return set(self.multi_execute(base_inmap))
 
 class SumProdMethod(MultiMethod):
     """A MultiMethod that assigns the sum and product of its input to its output
-- 
2.43.0


From 5d98c04b7f5a1a33ece3417c4263cde2f4071ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 29/30] fix: removing a constraint without variables failed

---
 solver/geometric/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index dabe634..dedcc6f 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -286,6 +286,9 @@ class ConstraintGraph(object):
         # create entry in constraints dict
         self._constraints[constraint] = None
 
+        # create a vertex in the graph for the constraint
+        self._graph.add_vertex(constraint)
+
         # process the constraint's variables
         for var in constraint.variables():
             # add the variable to the graph
-- 
2.43.0


From aec08f545dc097de33f623e267cfd4f8649a6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 30/30] fix: tolerant vector comparisons did not hold per
 component

---
 solver/geometry.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index c47fa74..3ffe7a4 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -321,16 +321,20 @@ class Vector(Matrix):
         and Scalar.tol_eq(self.y, other.y, *args, **kwargs)
 
     def tol_gt(self, other, *args, **kwargs):
-        return self > other and not self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_gt(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_gt(self.y, other.y, *args, **kwargs)
 
     def tol_lt(self, other, *args, **kwargs):
-        return self < other and not self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_lt(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_lt(self.y, other.y, *args, **kwargs)
 
     def tol_ge(self, other, *args, **kwargs):
-        return self > other or self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_ge(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_ge(self.y, other.y, *args, **kwargs)
 
     def tol_le(self, other, *args, **kwargs):
-        return self < other or self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_le(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_le(self.y, other.y, *args, **kwargs)
 
     def __eq__(self, other):
         return self.x == other.x and self.y == other.y
-- 
2.43.0

