From 40aabeaaa730a1bdc0478b0bfb9ced7d19b9cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 01/44] fix: Prim compares priorities, starts from clean colors
 and its own queue

---
 src/gimpy/graph.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1d3638e..252599b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1241,10 +1241,10 @@ class Graph(object):
         self.display()
 
     def minimum_spanning_tree_prim(self, source, display = None,
-                                   q = PriorityQueue()):
+                                   q = None):
         '''
         API: minimum_spanning_tree_prim(self, source, display = None,
-                                        q = PriorityQueue())
+                                        q = None)
         Description:
         Determines a minimum spanning tree of all nodes reachable
         from source using Prim's Algorithm.
@@ -1262,12 +1262,19 @@ class Graph(object):
             display = self.attr['display']
         else:
             self.set_display_mode(display)
+        if q is None:
+            q = PriorityQueue()
         if isinstance(q, PriorityQueue):
             addToQ = q.push
             removeFromQ = q.pop
-            peek = q.peek
+            peek = q.get_priority
             isEmpty = q.isEmpty
         neighbors = self.get_neighbors
+        # colors left by an earlier algorithm must not be taken for our own
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'color', 'black')
+        for e in self.get_edge_list():
+            self.set_edge_attr(e[0], e[1], 'color', 'black')
         pred = {}
         addToQ(source)
         done = False
@@ -1282,7 +1289,7 @@ class Graph(object):
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-                    if not n in pred or new_estimate < peek(n)[0]:
+                    if not n in pred or new_estimate < peek(n):
                         pred[n] = current
                         self.set_node_attr(n, 'color', 'red')
                         self.set_node_attr(n, 'label', new_estimate)
-- 
2.43.0


From 9cbda8f450b6da83e6a82073a95cf24f9de5d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 02/44] fix: tree traversals start at the root name and use a
 queue of their own

---
 src/gimpy/tree.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 169f471..cb4bf30 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -118,7 +118,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Stack())
@@ -137,14 +137,14 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Queue())
 
-    def traverse(self, root = None, display = None, q = Stack()):
+    def traverse(self, root = None, display = None, q = None):
         '''
-        API: traverse(self, root = None, display = None, q = Stack())
+        API: traverse(self, root = None, display = None, q = None)
         Description:
             Traverses tree starting from node named root. Used strategy (BFS,
             DFS) is controlled by argument q. It is a DFS if q is Queue(), BFS
@@ -156,10 +156,12 @@ class Tree(Graph):
             root: Starting node name.
             display: Display argument.
             q: Queue data structure instance. It is either a Stack() or
-            Queue().
+            Queue(). A new Stack() is used if it is not given.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
+        if q is None:
+            q = Stack()
         if display == None:
             display = self.attr['display']
         if isinstance(q, Queue):
@@ -379,10 +381,10 @@ class BinaryTree(Tree):
             root = self.root
         self.traverse(root, display, Queue(), priority)
 
-    def traverse(self, root = None, display = None, q = Stack(),
+    def traverse(self, root = None, display = None, q = None,
                  priority = 'L'):
         '''
-        API: traverse(self, root=None, display=None, q=Stack(), priority='L',
+        API: traverse(self, root=None, display=None, q=None, priority='L',
                       order='in')
         Description:
             Traverses tree starting from node named root if root argument is
@@ -400,6 +402,8 @@ class BinaryTree(Tree):
         old_display = None
         if root == None:
             root = self.root
+        if q is None:
+            q = Stack()
         if display == None:
             display = self.attr['display']
         else:
-- 
2.43.0


From 7bdf118d0392ca2f7f3dcbc470262d255fb27714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 03/44] fix: create_cluster does not share or overwrite
 clusters

---
 src/gimpy/graph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 252599b..f4eb83e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3455,7 +3455,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 diameter = eccentricity_n
         return diameter
 
-    def create_cluster(self, node_list, cluster_attrs={}, node_attrs={}):
+    def create_cluster(self, node_list, cluster_attrs=None, node_attrs=None):
         '''
         API:
             create_cluster(self, node_list, cluster_attrs, node_attrs)
@@ -3471,8 +3471,10 @@ After installation, ensure that the PATH variable is properly set.''')
             A cluster will be created. Attributes of the nodes in the cluster
             may change.
         '''
+        cluster_attrs = copy.deepcopy(cluster_attrs or {})
+        node_attrs = copy.deepcopy(node_attrs or {})
         if 'name' in cluster_attrs:
-            if 'name' in self.cluster:
+            if cluster_attrs['name'] in self.cluster:
                 raise Exception('A cluster with name %s already exists!' %cluster_attrs['name'])
             else:
                 name = cluster_attrs['name']
@@ -3481,9 +3483,9 @@ After installation, ensure that the PATH variable is properly set.''')
             self.attr['cluster_count'] += 1
             cluster_attrs['name'] = name
         #cluster_attrs['name'] =
-        self.cluster[name] = {'node_list':node_list,
-                              'attrs':copy.deepcopy(cluster_attrs),
-                              'node_attrs':copy.deepcopy(node_attrs)}
+        self.cluster[name] = {'node_list':list(node_list),
+                              'attrs':cluster_attrs,
+                              'node_attrs':node_attrs}
 
 
 class DisjointSet(Graph):
-- 
2.43.0


From 52ead0a279b16be12db452d2332fe3d57e9b55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 04/44] fix: del_node works on undirected graphs, self loops
 and clustered nodes

---
 src/gimpy/graph.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index f4eb83e..118b3f2 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -316,19 +316,17 @@ class Graph(object):
         '''
         if name not in self.neighbors:
             raise Exception('Node %s does not exist!' %str(name))
-        for n in self.neighbors[name]:
-            del self.edge_attr[(name, n)]
-            if self.graph_type == UNDIRECTED_GRAPH:
-                self.neighbors[n].remove(name)
-            else:
-                self.in_neighbors[n].remove(name)
+        for n in list(dict.fromkeys(self.neighbors[name])):
+            self.del_edge((name, n))
         if self.graph_type is DIRECTED_GRAPH:
-            for n in self.in_neighbors[name]:
-                del self.edge_attr[(n, name)]
-                self.neighbors[n].remove(name)
+            for n in list(self.in_neighbors[name]):
+                self.del_edge((n, name))
+            del self.in_neighbors[name]
         del self.neighbors[name]
-        del self.in_neighbors[name]
         del self.nodes[name]
+        for c in self.cluster:
+            if name in self.cluster[c]['node_list']:
+                self.cluster[c]['node_list'].remove(name)
 
     def add_edge(self, name1, name2, **attr):
         '''
-- 
2.43.0


From bf7470429ba7684612eb71004f34d7089bdf26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 05/44] fix: a rejected child leaves the binary tree as it was

---
 src/gimpy/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index cb4bf30..e5a60a5 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -225,8 +225,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'R'
-        self.set_node_attr(parent, 'Rchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Rchild', n)
 
     def add_left_child(self, n, parent, **attrs):
         '''
@@ -244,8 +244,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'L'
-        self.set_node_attr(parent, 'Lchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Lchild', n)
 
     def get_right_child(self, n):
         '''
-- 
2.43.0


From cfb675ca8899b529a29bda41828d3efaaa344ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 06/44] fix: fifo_label_correcting starts from numeric infinity

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 118b3f2..a7b8952 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2245,7 +2245,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred[source] = None
         for n in self.neighbors:
             if n!=source:
-                self.get_node(n).set_attr('distance', 'inf')
+                self.get_node(n).set_attr('distance', float('inf'))
         q = [source]
         while q:
             i = q[0]
-- 
2.43.0


From d9486fca9563d6d8370bca41288afee8196f9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 07/44] fix: acyclic_shortest_path works from any source and on
 any graph history

---
 src/gimpy/graph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a7b8952..5115a54 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -942,18 +942,18 @@ class Graph(object):
         self.search(root, display = display, component = component, q = Queue())
 
     def acyclic_shortest_path(G, source, destination = None):
-        dist = {}
+        dist = {source:0}
         pred = {}
         order = []
         found = False
+        for n in G.get_node_list():
+            G.set_node_attr(n, 'disc_time', None)
         G.dfs(source, topological_order = order)
-        for j in range(len(G.get_node_list())):
-            m = order[j]
+        # order has the nodes reachable from source only
+        for m in order:
             if m == destination:
                 found = True
                 break
-            if len(G.get_in_neighbors(m)) == 0: 
-                dist[m] = 0
             for n in G.get_out_neighbors(m):
                 estimate = dist[m] + G.get_edge_attr(m ,n, "cost")
                 if n not in dist or dist[n] > estimate:
-- 
2.43.0


From 4ee868ac78f52f81ed47e285371f01e7ee54df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 08/44] fix: floyd_warshall_get_path lists each node of the
 path once

---
 src/gimpy/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 5115a54..1870534 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2151,12 +2151,15 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         if distance[(i,j)]=='infinity':
             return None
+        if i==j:
+            return [i]
         k = nextn[(i,j)]
         path = self.floyd_warshall_get_path
         if i==k:
             return [i, j]
         else:
-            return path(distance, nextn, i,k) + [k] + path(distance, nextn, k,j)
+            # k is the node just before j
+            return path(distance, nextn, i,k) + [j]
 
     def floyd_warshall_get_cycle(self, distance, nextn, element = None):
         '''
-- 
2.43.0


From 9df31a447f90e88bf770ee088d5fd5f48f60f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 09/44] fix: tarjan forgets the indices of an earlier run

---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1870534..fa27a43 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -734,6 +734,8 @@ class Graph(object):
         index = 0
         component = 0
         q = []
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'index', None)
         for n in self.get_node_list():
             if self.get_node_attr(n, 'index') is None:
                 index, component = self.strong_connect(q, n, index, component)
-- 
2.43.0


From e9dc244fe96ad9f9841d24b4d969183d7dfd7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 10/44] fix: hamiltonian calls itself, accepts a path through
 all nodes, forgets old marks

---
 src/gimpy/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index fa27a43..9dfad1a 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -899,13 +899,14 @@ class Graph(object):
         if (distance == 0):
             for i in self.get_node_list():
                 self.get_node(i).set_attr('label', '-')
+                self.get_node(i).set_attr('visited', None)
             self.display()
 
         if destination != None:
             if source == destination and distance == self.get_node_num() - 1:
                 return True
         else:
-            if distance == self.get_node_num():
+            if distance == self.get_node_num() - 1:
                 return True
 
         self.get_node(source).set_attr('visited', True)
@@ -917,8 +918,8 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.tsp(i, destination, distance+1, display = display, 
-                            pred = pred)):
+                if (self.hamiltonian(i, destination, distance+1,
+                                     display = display, pred = pred)):
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
-- 
2.43.0


From be875cf50706c9447296bdfedb199ca7eb5c4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 11/44] fix: find_feasible_flow accepts graphs without any
 demand

---
 src/gimpy/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 9dfad1a..88bca64 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1635,6 +1635,11 @@ class Graph(object):
         # establish a feasible flow in the network, to do this add nodes s and
         # t and solve a max flow problem.
         nl = self.get_node_list()
+        for i in ('s', 't'):
+            if i in self.nodes:
+                raise MultipleNodeException
+        self.add_node('s')
+        self.add_node('t')
         for i in nl:
             b_i = self.get_node(i).get_attr('demand')
             if b_i > 0:
-- 
2.43.0


From 39edd4aa4cee8b55bffb49a02c86b1b2062f41b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 12/44] fix: network simplex compares nodes by value and
 accepts any node name

---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 88bca64..8116598 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2890,8 +2890,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 depth[n] = depth[current]+1
                 q.append(n)
         for i in range(len(sequence)-1):
-            self.get_node(sequence[i]).set_attr('thread', int(sequence[i+1]))
-        self.get_node(sequence[-1]).set_attr('thread', int(sequence[0]))
+            self.get_node(sequence[i]).set_attr('thread', sequence[i+1])
+        self.get_node(sequence[-1]).set_attr('thread', sequence[0])
         for n in pred:
             self.get_node(n).set_attr('pred', pred[n])
             self.get_node(n).set_attr('depth', depth[n])
@@ -2955,7 +2955,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred = {nl[0]:None}
         for n in nl:
             self.get_node(n).set_attr('component', None)
-        component_nr = int(nl[0])
+        component_nr = nl[0]
         self.get_node(nl[0]).set_attr('component', component_nr)
         while True:
             while q:
@@ -2995,7 +2995,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     depth = {n:0}
                     pred = {n:None}
                     visited = []
-                    component_nr = int(n)
+                    component_nr = n
                     self.get_node(n).set_attr('component', component_nr)
                     flag = True
                     break
@@ -3048,7 +3048,7 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.get_node(root).set_attr('potential', 0)
         j = t.get_node(root).get_attr('thread')
-        while j is not root:
+        while j != root:
             i = t.get_node(j).get_attr('pred')
             potential_i = self.get_node(i).get_attr('potential')
             if (i,j) in self.edge_attr:
@@ -3080,7 +3080,7 @@ After installation, ensure that the PATH variable is properly set.''')
         cycle = []
         li = [k]
         lj = [j]
-        while i is not j:
+        while i != j:
             depth_i = t.get_node(i).get_attr('depth')
             depth_j = t.get_node(j).get_attr('depth')
             if depth_i > depth_j:
-- 
2.43.0


From d7850410dee0a8b1bfa255962111533df56b5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 13/44] fix: network simplex terminates on arcs of zero
 capacity

---
 src/gimpy/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8116598..5ca2760 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2701,6 +2701,9 @@ After installation, ensure that the PATH variable is properly set.''')
                 potential_i = self.get_node(e[0]).get_attr('potential')
                 potential_j = self.get_node(e[1]).get_attr('potential')
                 capacity_ij = self.edge_attr[e]['capacity']
+                if capacity_ij == 0:
+                    # cannot carry flow, hence never eligible
+                    continue
                 c_ij = self.edge_attr[e]['cost']
                 cpi_ij = c_ij - potential_i + potential_j
                 if flow_ij==0:
@@ -2726,6 +2729,9 @@ After installation, ensure that the PATH variable is properly set.''')
                 potential_i = self.get_node(e[0]).get_attr('potential')
                 potential_j = self.get_node(e[1]).get_attr('potential')
                 capacity_ij = self.edge_attr[e]['capacity']
+                if capacity_ij == 0:
+                    # cannot carry flow, hence never eligible
+                    continue
                 c_ij = self.edge_attr[e]['cost']
                 cpi_ij = c_ij - potential_i + potential_j
                 if flow_ij==0:
@@ -2762,6 +2768,9 @@ After installation, ensure that the PATH variable is properly set.''')
             potential_i = self.get_node(e[0]).get_attr('potential')
             potential_j = self.get_node(e[1]).get_attr('potential')
             capacity_ij = self.edge_attr[e]['capacity']
+            if capacity_ij == 0:
+                # cannot carry flow, hence cannot violate optimality
+                continue
             c_ij = self.edge_attr[e]['cost']
             cpi_ij = c_ij - potential_i + potential_j
             if flow_ij==0:
-- 
2.43.0


From 6d552c2ab83185ce8867a748697745cba7fbc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 14/44] fix: create removes its temporary file however it ends

---
 src/gimpy/graph.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 5ca2760..6054d29 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1723,24 +1723,22 @@ class Graph(object):
             Returns postscript representation of graph.
         '''
         tmp_fd, tmp_name = tempfile.mkstemp()
-        tmp_file = os.fdopen(tmp_fd, 'w')
-        tmp_file.write(self.to_string())
-        tmp_file.close()
         try:
-            p = subprocess.run([layout, '-T'+format, tmp_name],
-                               capture_output = True)
-        except OSError:
-            print('''Graphviz executable not found.
+            with os.fdopen(tmp_fd, 'w') as tmp_file:
+                tmp_file.write(self.to_string())
+            try:
+                p = subprocess.run([layout, '-T'+format, tmp_name],
+                                   capture_output = True)
+            except OSError:
+                print('''Graphviz executable not found.
 Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
-            return None
-
-        
-        p.check_returncode()
+                return None
+            p.check_returncode()
+        finally:
+            os.remove(tmp_name)
 
-        os.remove(tmp_name)
-            
         if p.stderr:
             print(p.stderr)
         return p.stdout
-- 
2.43.0


From d6f32092d7764f419cc9c8ea9c3689aa9a302ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 15/44] fix: display releases its temporary image however it
 ends and survives a missing Graphviz

---
 src/gimpy/graph.py | 84 +++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6054d29..167d236 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1700,6 +1700,9 @@ class Graph(object):
             format: Image format, all format supported by Dot are wellcome.
         Post:
             File will be written to disk.
+        Return:
+            Returns False if there is nothing to write because Graphviz could
+            not be started, True otherwise.
         '''
         if layout == None:
             layout = self.get_layout()
@@ -1707,8 +1710,10 @@ class Graph(object):
             file_obj.write(bytearray(self.to_string(), 'utf8'))
         else:
             out = self.create(layout, format)
-            if (out != None):
-                file_obj.write(out)
+            if out is None:
+                return False
+            file_obj.write(out)
+        return True
 
     def create(self, layout, format, **args):
         '''
@@ -1819,41 +1824,28 @@ After installation, ensure that the PATH variable is properly set.''')
         elif self.attr['display'] == 'PIL':
             if PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                im.show()
-                os.remove(tmp_name)
+                try:
+                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:
+                        drawn = self.write(tmp_file, self.get_layout(), format)
+                    if drawn:
+                        with PIL_Image.open(tmp_name) as im:
+                            im.show()
+                finally:
+                    os.remove(tmp_name)
             else:
                 print('Error: PIL not installed. Display disabled.')
                 self.attr['display'] = 'off'
         elif self.attr['display'] == 'matplotlib':
             if MATPLOTLIB_INSTALLED and PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                fig = plt.figure(1)
-                fig.canvas.mpl_connect('close_event', handle_close)
-                plt.clf()
-                plt.axis('off')
-                plt.imshow(im, interpolation='bilinear' #resample=True
-                           #extent = (0, 100, 0, 100)
-                )
-                if wait_for_click == True:
-                    plt.draw()
-                    try:
-                        if plt.waitforbuttonpress(timeout = 10000):
-                            plt.close()
-                            exit()
-                    except:
-                        exit()
-                else:
-                    plt.show(block=pause)
-                im.close()
-                os.remove(tmp_name)
+                try:
+                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:
+                        drawn = self.write(tmp_file, self.get_layout(), format)
+                    if drawn:
+                        with PIL_Image.open(tmp_name) as im:
+                            self.show_image(im, pause, wait_for_click)
+                finally:
+                    os.remove(tmp_name)
             else:
                 print('Warning: Either matplotlib or Pillow is not installed. Display disabled.')
                 self.attr['display'] = 'off'
@@ -1875,6 +1867,36 @@ After installation, ensure that the PATH variable is properly set.''')
                     n = self.get_node(n)
                 n.set_attr('color', 'black')
 
+    def show_image(self, im, pause, wait_for_click):
+        '''
+        API:
+            show_image(self, im, pause, wait_for_click)
+        Description:
+            Used by display() method. Shows image in the matplotlib window.
+            User does not need to call this method directly.
+        Input:
+            im: PIL image to show.
+            pause: See display() method.
+            wait_for_click: See display() method.
+        '''
+        fig = plt.figure(1)
+        fig.canvas.mpl_connect('close_event', handle_close)
+        plt.clf()
+        plt.axis('off')
+        plt.imshow(im, interpolation='bilinear' #resample=True
+                   #extent = (0, 100, 0, 100)
+        )
+        if wait_for_click == True:
+            plt.draw()
+            try:
+                if plt.waitforbuttonpress(timeout = 10000):
+                    plt.close()
+                    exit()
+            except:
+                exit()
+        else:
+            plt.show(block=pause)
+
     def set_display_mode(self, value):
         '''
         API:
-- 
2.43.0


From f665bc3ca56f9a3c3db2c136a54e7fd5c57c6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 16/44] fix: display in file mode resets the color of
 highlighted nodes

---
 src/gimpy/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 167d236..fb563e8 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1820,7 +1820,6 @@ After installation, ensure that the PATH variable is properly set.''')
             else:
                 with open(basename+'.'+format, "w+b") as f:
                     self.write(f, self.get_layout(), format)
-            return
         elif self.attr['display'] == 'PIL':
             if PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-- 
2.43.0


From 23cc3c6c916b4ae9a0552b32c96c0eb24c70c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 17/44] fix: a display argument applies to the call it is given
 to only

---
 src/gimpy/graph.py | 92 ++++++++++++++++++++++++++++------------------
 src/gimpy/tree.py  | 86 ++++++++++++++++---------------------------
 2 files changed, 88 insertions(+), 90 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index fb563e8..bef58cb 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -64,6 +64,7 @@ except ImportError:
     from coinor.blimpy import Stack, Queue, PriorityQueue
 import subprocess # for call()
 import io   # for StringIO()
+import contextlib # for contextmanager()
 import copy       # for deepcopy()
 import sys        # for exit()
 import random     # for seed, random, randint
@@ -824,10 +825,11 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
-        if display == None:
-            display = self.attr['display']
-        else:
-            self.set_display_mode(display)
+        if display is not None:
+            with self.display_mode(display):
+                return Graph.dfs(self, root, disc_count, finish_count,
+                                 topological_order, component, transpose,
+                                 pred = pred)
         neighbors = self.neighbors
         if self.graph_type == DIRECTED_GRAPH and transpose:
             neighbors = self.in_neighbors
@@ -891,10 +893,10 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
-        if display == None:
-            display = self.attr['display']
-        else:
-            self.set_display_mode(display)
+        if display is not None:
+            with self.display_mode(display):
+                return Graph.hamiltonian(self, source, destination, distance,
+                                         pred = pred)
 
         if (distance == 0):
             for i in self.get_node_list():
@@ -918,8 +920,7 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.hamiltonian(i, destination, distance+1,
-                                     display = display, pred = pred)):
+                if (self.hamiltonian(i, destination, distance+1, pred = pred)):
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
@@ -1011,10 +1012,10 @@ class Graph(object):
             If there is no path returns predecessor tree in dictionary form.
             See description section.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
-            self.set_display_mode(display)
+        if display is not None:
+            with self.display_mode(display):
+                return Graph.search(self, source, destination, None, component,
+                                    q, algo, reverse, **kargs)
         if algo == 'DFS':
             if q is None:
                 q = Stack()
@@ -1259,10 +1260,9 @@ class Graph(object):
         Return:
             Returns predecessor tree in dictionary format.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
-            self.set_display_mode(display)
+        if display is not None:
+            with self.display_mode(display):
+                return Graph.minimum_spanning_tree_prim(self, source, q = q)
         if q is None:
             q = PriorityQueue()
         if isinstance(q, PriorityQueue):
@@ -1317,10 +1317,11 @@ class Graph(object):
             Returns list of edges where edges are tuples in (source,sink)
             format.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
-            self.set_display_mode(display)
+        if display is not None:
+            with self.display_mode(display):
+                return Graph.minimum_spanning_tree_kruskal(
+                    self, components = components)
+        display = self.attr['display']
         if components is None:
             components = DisjointSet(display = display, layout = 'dot',
                                      optimize = False)
@@ -1363,10 +1364,9 @@ class Graph(object):
         Post:
             The 'flow' attribute of each arc gives a maximum flow.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
-            self.set_display_mode(display)
+        if display is not None:
+            with self.display_mode(display):
+                return Graph.max_flow_preflowpush(self, source, sink, algo)
         nl = self.get_node_list()
         # set excess of all nodes to 0
         for n in nl:
@@ -1381,9 +1381,8 @@ class Graph(object):
                 self.edge_attr[e]['capacity'] = INF
                 self.edge_attr[e]['label'] = 'INF/0'
         self.display()
-        self.set_display_mode('off')
-        self.search(sink, algo = 'UnweightedSPT', reverse = True)
-        self.set_display_mode(display)
+        self.search(sink, display = 'off', algo = 'UnweightedSPT',
+                    reverse = True)
         disconnect = False
         for n in nl:
             if self.get_node_attr(n, 'distance') is None:
@@ -1909,6 +1908,25 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.attr['display'] = value
 
+    @contextlib.contextmanager
+    def display_mode(self, value):
+        '''
+        API:
+            display_mode(self, value)
+        Description:
+            Context manager that sets display mode to value and restores the
+            current display mode at the end, also when an exception is raised.
+            Used by methods that have a display argument.
+        Input:
+            value: Display mode to be used in the with block.
+        '''
+        old_display = self.attr['display']
+        self.set_display_mode(value)
+        try:
+            yield
+        finally:
+            self.set_display_mode(old_display)
+
     def max_flow(self, source, sink, display = None, algo = 'DFS'):
         '''
         API: max_flow(self, source, sink, display=None)
@@ -1927,8 +1945,8 @@ After installation, ensure that the PATH variable is properly set.''')
             The 'flow" attribute of each arc gives a maximum flow.
         '''
         if display is not None:
-            old_display =  self.attr['display']
-            self.attr['display'] = display
+            with self.display_mode(display):
+                return Graph.max_flow(self, source, sink, algo = algo)
         nl = self.get_node_list()
         # set flow of all edges to 0
         for e in self.edge_attr:
@@ -2071,8 +2089,6 @@ After installation, ensure that the PATH variable is properly set.''')
                 if m == source:
                     break
                 current = m
-        if display is not None:
-            self.attr['display'] = old_display
 
     def get_negative_cycle(self):
         '''
@@ -2412,12 +2428,14 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns True when an optimal solution is found, returns
             False otherwise.
         '''
+        if display is not None and display != self.attr['display']:
+            with self.display_mode(display):
+                return Graph.network_simplex(self, display, pivot, root)
         # ==== determine an initial tree structure (T,L,U)
         # find a feasible flow
         if not self.find_feasible_flow():
             return False
         t = self.simplex_find_tree()
-        self.set_display_mode(display)
         # mark spanning tree arcs
         self.simplex_mark_st_arcs(t)
         # display initial spanning tree
@@ -3180,8 +3198,10 @@ After installation, ensure that the PATH variable is properly set.''')
                 solves minimum cost feasible flow problem using network simplex
                 agorithm with scaled pivot rule.
         '''
-        if display is None:
-            display = self.attr['display']
+        if display is not None:
+            with self.display_mode(display):
+                return Graph.min_cost_flow(self, **args)
+        display = self.attr['display']
         if 'algo' in args:
             algorithm = args['algo']
         else:
diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index e5a60a5..0f9a964 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -119,8 +119,6 @@ class Tree(Graph):
         '''
         if root == None:
             root = self.root.name
-        if display == None:
-            display = self.attr['display']
         self.traverse(root, display, Stack())
 
     def bfs(self, root = None, display = None):
@@ -138,8 +136,6 @@ class Tree(Graph):
         '''
         if root == None:
             root = self.root.name
-        if display == None:
-            display = self.attr['display']
         self.traverse(root, display, Queue())
 
     def traverse(self, root = None, display = None, q = None):
@@ -162,8 +158,9 @@ class Tree(Graph):
             root = self.root.name
         if q is None:
             q = Stack()
-        if display == None:
-            display = self.attr['display']
+        if display is not None:
+            with self.display_mode(display or 'off'):
+                return Tree.traverse(self, root, q = q)
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
@@ -174,8 +171,7 @@ class Tree(Graph):
         while not q.isEmpty():
             current = removeFromQ()
             #print current
-            if display:
-                self.display(highlight = [current])
+            self.display(highlight = [current])
             for n in self.get_children(current):
                 addToQ(n)
 
@@ -314,14 +310,11 @@ class BinaryTree(Tree):
             display: Display mode.
             root: Starting node.
         '''
-        old_display = None
+        if display is not None:
+            with self.display_mode(display or 'off'):
+                return self.print_nodes(order, priority, None, root)
         if root == None:
             root = self.root.name
-        if display == None:
-            display = self.attr['display']
-        else:
-            old_display = self.attr['display']
-            self.attr['display'] = display
         if priority == 'L':
             first_child = self.get_left_child
             second_child = self.get_right_child
@@ -331,21 +324,16 @@ class BinaryTree(Tree):
         if order == 'pre':
             print(root)
         if first_child(root) is not None:
-            if display:
-                self.display(highlight = [root])
-            self.print_nodes(order, priority, display, first_child(root))
+            self.display(highlight = [root])
+            self.print_nodes(order, priority, None, first_child(root))
         if order == 'in':
             print(root)
         if second_child(root) is not None:
-            if display:
-                self.display(highlight = [root])
-            self.print_nodes(order, priority, display, second_child(root))
+            self.display(highlight = [root])
+            self.print_nodes(order, priority, None, second_child(root))
         if order == 'post':
             print(root)
-        if display:
-            self.display(highlight = [root])
-        if old_display:
-            self.attr['display'] = old_display
+        self.display(highlight = [root])
 
     def dfs(self, root = None, display = None, priority = 'L'):
         '''
@@ -399,16 +387,13 @@ class BinaryTree(Tree):
             Acceptable arguments are 'L' and 'R'.
             order: Ineffective, will be removed.
         '''
-        old_display = None
+        if display is not None:
+            with self.display_mode(display or 'off'):
+                return self.traverse(root, None, q, priority)
         if root == None:
             root = self.root
         if q is None:
             q = Stack()
-        if display == None:
-            display = self.attr['display']
-        else:
-            old_display = self.attr['display']
-            self.attr['display'] = display
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
@@ -424,28 +409,25 @@ class BinaryTree(Tree):
         addToQ(root)
         while not q.isEmpty():
             current = removeFromQ()
-            if display:
-                self.display(highlight = [current])
+            self.display(highlight = [current])
             n = first_child(current)
             if n is not None:
                 addToQ(n)
             n = second_child(current)
             if n is not None:
                 addToQ(n)
-        if old_display:
-            self.attr['display'] = old_display
 
     def printexp(self, display = None, root = None):
+        if display is not None:
+            with self.display_mode(display or 'off'):
+                return self.printexp(None, root)
         if root == None:
             root = self.root
-        if display == None:
-            display = self.attr['display']
         if self.get_left_child(root):
-            if display:
-                self.display(highlight = [root])
+            self.display(highlight = [root])
             print('(', end=' ')
             sys.stdout.flush()
-            self.printexp(display, self.get_left_child(root))
+            self.printexp(None, self.get_left_child(root))
         if isinstance(root, Node):
             if 'label' in root.attr:
                 root_label = root.attr['label']
@@ -457,28 +439,26 @@ class BinaryTree(Tree):
                 root_label = root
         print(root_label, end=' ')
         sys.stdout.flush()
-        if display:
-                self.display(highlight = [root])
+        self.display(highlight = [root])
         if self.get_right_child(root):
-            self.printexp(display, self.get_right_child(root))
+            self.printexp(None, self.get_right_child(root))
             print(')', end=' ')
             sys.stdout.flush()
-            if display:
-                self.display(highlight = [root])
+            self.display(highlight = [root])
 
     def postordereval(self, display = None, root = None):
+        if display is not None:
+            with self.display_mode(display or 'off'):
+                return self.postordereval(None, root)
         if root == None:
             root = self.root
-        if display == None:
-            display = self.attr['display']
         opers = {'+':operator.add, '-':operator.sub, '*':operator.mul,
                  '/':operator.truediv}
         res1 = None
         res2 = None
         if self.get_left_child(root):
-            if display:
-                self.display(highlight = [root])
-            res1 = self.postordereval(display, self.get_left_child(root))
+            self.display(highlight = [root])
+            res1 = self.postordereval(None, self.get_left_child(root))
         if isinstance(root, Node):
             if 'label' in root.attr:
                 root_label = root.attr['label']
@@ -490,16 +470,14 @@ class BinaryTree(Tree):
                 root_label = root
         print(root_label, end=' ')
         sys.stdout.flush()
-        if display:
-                self.display(highlight = [root])
+        self.display(highlight = [root])
         if self.get_right_child(root):
-            res2 = self.postordereval(display, self.get_right_child(root))
+            res2 = self.postordereval(None, self.get_right_child(root))
         if res1 and res2:
             result = opers[root_label](res1 , res2)
             print('=', result)
             sys.stdout.flush()
-            if display:
-                self.display(highlight = [root])
+            self.display(highlight = [root])
             print(result, end=' ')
             sys.stdout.flush()
             return result
-- 
2.43.0


From 86591f3084243d5595a06076d25a946af6aef7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 18/44] fix: expression trees may have subtrees of value zero
 and nodes named 0

---
 src/gimpy/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 0f9a964..3fd7f6a 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -423,7 +423,7 @@ class BinaryTree(Tree):
                 return self.printexp(None, root)
         if root == None:
             root = self.root
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             self.display(highlight = [root])
             print('(', end=' ')
             sys.stdout.flush()
@@ -440,7 +440,7 @@ class BinaryTree(Tree):
         print(root_label, end=' ')
         sys.stdout.flush()
         self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             self.printexp(None, self.get_right_child(root))
             print(')', end=' ')
             sys.stdout.flush()
@@ -456,7 +456,7 @@ class BinaryTree(Tree):
                  '/':operator.truediv}
         res1 = None
         res2 = None
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             self.display(highlight = [root])
             res1 = self.postordereval(None, self.get_left_child(root))
         if isinstance(root, Node):
@@ -471,9 +471,9 @@ class BinaryTree(Tree):
         print(root_label, end=' ')
         sys.stdout.flush()
         self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             res2 = self.postordereval(None, self.get_right_child(root))
-        if res1 and res2:
+        if res1 is not None and res2 is not None:
             result = opers[root_label](res1 , res2)
             print('=', result)
             sys.stdout.flush()
-- 
2.43.0


From a2810ff94e6113471c624495ac4430f86871b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 19/44] fix: to_string lists each edge of a cluster once, also
 in undirected graphs

---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index bef58cb..d0bc0ee 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -668,7 +668,8 @@ class Graph(object):
             # process cluster edges
             for n in self.cluster[c]['node_list']:
                 for m in self.cluster[c]['node_list']:
-                    if self.check_edge(n,m):
+                    if ((n,m) in self.edge_attr and
+                        (n,m) not in processed_edges):
                         data = self.edge_to_string((n,m))
                         graph.append(data + ';\n')
                         processed_edges[(n,m)]=None
-- 
2.43.0


From d73d549e8cd607cbac87698d449564b551133be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 20/44] fix: degree queries work on default graphs and return
 degrees of directed graphs

---
 src/gimpy/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index d0bc0ee..97a1ca7 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3435,7 +3435,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type is not DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3443,6 +3443,7 @@ After installation, ensure that the PATH variable is properly set.''')
             for n in self.get_node_list():
                 degree[n] = (len(self.get_in_neighbors(n)) +
                              len(self.get_out_neighbors(n)))
+            return degree
 
     def get_in_degrees(self):
         '''
@@ -3455,7 +3456,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type is not DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3473,7 +3474,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type is not DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3493,7 +3494,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.attr['type'] is not UNDIRECTED_GRAPH:
+        if self.graph_type is not UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From 8fbb6ef48ef1b2d20cff64ca6ae8b8f1c3766c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 21/44] fix: random graphs depend on the given seed only

---
 src/gimpy/graph.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 97a1ca7..e4cc603 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3257,7 +3257,8 @@ After installation, ensure that the PATH variable is properly set.''')
         Post:
             Graph will be populated by nodes and edges.
         '''
-        random.seed(seedInput)
+        # a generator of our own, the global one is shared with everybody else
+        rng = random.Random(seedInput)
         if edge_format == None:
             edge_format = {'fontsize':10,
                            'fontcolor':'blue'}
@@ -3274,14 +3275,14 @@ After installation, ensure that the PATH variable is properly set.''')
                 self.add_node(m, **node_format)
             if degree_range is not None and density is None:
                 for m in range(numnodes):
-                    degree = random.randint(degree_range[0], degree_range[1])
+                    degree = rng.randint(degree_range[0], degree_range[1])
                     i = 0
                     while i < degree:
-                        n = random.randint(1, numnodes-1)
+                        n = rng.randint(1, numnodes-1)
                         if (((m,n) not in self.edge_attr and m != n) and
                             (parallel_allowed or (n, m) not in self.edge_attr)):
                             if length_range is not None:
-                                length = random.randint(length_range[0],
+                                length = rng.randint(length_range[0],
                                                         length_range[1])
                                 self.add_edge(m, n, cost = length, **edge_format)
                                 if add_labels:
@@ -3298,9 +3299,9 @@ After installation, ensure that the PATH variable is properly set.''')
                     for n in range(numnodes2):
                         if ((parallel_allowed or (n, m) not in self.edge_attr)
                             and m != n):
-                            if random.random() < density:
+                            if rng.random() < density:
                                 if length_range is not None:
-                                    length = random.randint(length_range[0],
+                                    length = rng.randint(length_range[0],
                                                      length_range[1])
                                     self.add_edge(m, n, cost = length,
                                                   **edge_format)
@@ -3314,14 +3315,14 @@ After installation, ensure that the PATH variable is properly set.''')
             for m in range(numnodes):
                 ''' Assigns random coordinates (between 1 and 20) to the nodes
                 '''
-                x = random.random()*scale
-                y = random.random()*scale
+                x = rng.random()*scale
+                y = rng.random()*scale
                 self.add_node(m, locationx = x, locationy = y,
                               pos = '"'+str(x) + "," + str(y)+'!"',
                               **node_format)
             if degree_range is not None and density is None:
                 for m in range(numnodes):
-                    degree = random.randint(degree_range[0], degree_range[1])
+                    degree = rng.randint(degree_range[0], degree_range[1])
                     i = 0
                     neighbors = []
                     if node_selection == 'random':
@@ -3333,7 +3334,7 @@ After installation, ensure that the PATH variable is properly set.''')
                                            0)
                             if (((m,n) not in self.edge_attr and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
-                                neighbors.append(random.randint(0, numnodes-1))
+                                neighbors.append(rng.randint(0, numnodes-1))
                                 self.add_edge(m, n, cost = int(length), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(int(length)))
@@ -3364,7 +3365,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     for n in range(numnodes2):
                         if ((parallel_allowed or (n, m) not in self.edge_attr)
                             and m != n):
-                            if random.random() < density:
+                            if rng.random() < density:
                                 if length_range is None:
                                     ''' calculates the euclidean norm and round it
                                     to an integer '''
-- 
2.43.0


From 06995c03ba581fb6a35430c2075209ea9b722e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 22/44] fix: random works without labels, without lengths and
 with random node selection

---
 src/gimpy/graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e4cc603..70d8d4f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3287,8 +3287,8 @@ After installation, ensure that the PATH variable is properly set.''')
                                 self.add_edge(m, n, cost = length, **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(length))
-                                else:
-                                    self.add_edge(m, n, **edge_format)
+                            else:
+                                self.add_edge(m, n, **edge_format)
                         i += 1
             elif density != None:
                 for m in range(numnodes):
@@ -3324,9 +3324,9 @@ After installation, ensure that the PATH variable is properly set.''')
                 for m in range(numnodes):
                     degree = rng.randint(degree_range[0], degree_range[1])
                     i = 0
-                    neighbors = []
                     if node_selection == 'random':
                         while i < degree:
+                            n = rng.randint(0, numnodes-1)
                             length = round((((self.get_node(n).get_attr('locationx') -
                                               self.get_node(m).get_attr('locationx')) ** 2 +
                                              (self.get_node(n).get_attr('locationy') -
@@ -3334,11 +3334,10 @@ After installation, ensure that the PATH variable is properly set.''')
                                            0)
                             if (((m,n) not in self.edge_attr and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
-                                neighbors.append(rng.randint(0, numnodes-1))
                                 self.add_edge(m, n, cost = int(length), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(int(length)))
-                                i += 1
+                            i += 1
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
-- 
2.43.0


From 88e10ea777e0f7790cfc207115f13192d07d1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 23/44] fix: bfs labels nodes with their breadth-first distance

---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 70d8d4f..8c9b59e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -944,7 +944,8 @@ class Graph(object):
             Nodes will have 'component' attribute that will have component
             number as value.
         '''
-        self.search(root, display = display, component = component, q = Queue())
+        self.search(root, display = display, component = component, q = Queue(),
+                    algo = 'BFS')
 
     def acyclic_shortest_path(G, source, destination = None):
         dist = {source:0}
-- 
2.43.0


From f51d73ca73351cb71ba10acca2743dce80ae6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 24/44] fix: the root of a binary tree can be deleted

---
 src/gimpy/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 3fd7f6a..4891449 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -288,7 +288,9 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
-        if self.get_node_attr(n, 'direction') == 'R':
+        if parent is None:
+            self.root = None
+        elif self.get_node_attr(n, 'direction') == 'R':
             self.set_node_attr(parent, 'Rchild', None)
         else:
             self.set_node_attr(parent, 'Lchild', None)
-- 
2.43.0


From 52aa1954324571b6dfd7f8591a0552133d678be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 25/44] fix: names and labels with commas are quoted in DOT

---
 src/gimpy/global_constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 316819c..7650a11 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -120,9 +120,9 @@ DOT2TEX_TEMPLATE = r'''
 
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
-ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,]*$', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,:\"]*[a-zA-Z0-9_,\"]+$', re.UNICODE)
-ID_RE_NUM = re.compile('^[0-9,]+$', re.UNICODE)
+ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_]*$', re.UNICODE)
+ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_:\"]*[a-zA-Z0-9_\"]+$', re.UNICODE)
+ID_RE_NUM = re.compile('^[0-9]+$', re.UNICODE)
 ID_RE_WITH_PORT = re.compile('^([^:]*):([^:]*)$', re.UNICODE)
 ID_RE_DBL_QUOTED = re.compile('^\".*\"$', re.S|re.UNICODE)
 ID_RE_HTML = re.compile('^<.*>$', re.S|re.UNICODE)
-- 
2.43.0


From edd8f2bc6a3967d3b054c6a068f43bc83da1011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 26/44] fix: names and labels that end with a newline are
 quoted in DOT

---
 src/gimpy/global_constants.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 7650a11..5b96cd4 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -120,12 +120,12 @@ DOT2TEX_TEMPLATE = r'''
 
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
-ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_]*$', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_:\"]*[a-zA-Z0-9_\"]+$', re.UNICODE)
-ID_RE_NUM = re.compile('^[0-9]+$', re.UNICODE)
-ID_RE_WITH_PORT = re.compile('^([^:]*):([^:]*)$', re.UNICODE)
-ID_RE_DBL_QUOTED = re.compile('^\".*\"$', re.S|re.UNICODE)
-ID_RE_HTML = re.compile('^<.*>$', re.S|re.UNICODE)
+ID_RE_ALPHA_NUMS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*\Z', re.UNICODE)
+ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_:\"]*[a-zA-Z0-9_\"]+\Z', re.UNICODE)
+ID_RE_NUM = re.compile(r'^[0-9]+\Z', re.UNICODE)
+ID_RE_WITH_PORT = re.compile(r'^([^:]*):([^:]*)\Z', re.UNICODE)
+ID_RE_DBL_QUOTED = re.compile(r'^\".*\"\Z', re.S|re.UNICODE)
+ID_RE_HTML = re.compile(r'^<.*>\Z', re.S|re.UNICODE)
 
 def quote_if_necessary(s):
     if isinstance(s, bool):
-- 
2.43.0


From 8cef58d48da1ae68e1d443e6a8012726d9b1231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 27/44] fix: empty names and labels are quoted in DOT

---
 src/gimpy/global_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 5b96cd4..128d1c8 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -135,7 +135,7 @@ def quote_if_necessary(s):
     if not isinstance(s, basestring):
         return s
     if not s:
-        return s
+        return '""'
     if needs_quotes(s):
         replace = {'"'  : r'\"',
                    "\n" : r'\n',
-- 
2.43.0


From 75d64fb8886c3236a45a1cc7d38d78bdcf8b505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 28/44] fix: get_negative_cycle works on graphs without nodes

---
 src/gimpy/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8c9b59e..de4e69c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2106,8 +2106,6 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns a list of nodes in the cycle if a negative cycle exists,
             returns None otherwise.
         '''
-        nl = self.get_node_list()
-        i = nl[0]
         (valid, distance, nextn) = self.floyd_warshall()
         if not valid:
             cycle = self.floyd_warshall_get_cycle(distance, nextn)
-- 
2.43.0


From b973bdffcd14e0ad553c40b8b938b794026a56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 29/44] fix: Dijkstra works in reverse direction

---
 src/gimpy/graph.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index de4e69c..f2cdc4e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1076,7 +1076,8 @@ class Graph(object):
                         self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     self.process_edge_search(current, n, pred, q, component,
-                                             algo, **kargs)
+                                             algo, reverse = reverse,
+                                             **kargs)
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'black')
                     else:
@@ -1112,9 +1113,11 @@ class Graph(object):
         if isinstance(q, PriorityQueue):
             self.get_node(node).set_attr('priority', q.get_priority(node))
 
-    def process_edge_dijkstra(self, current, neighbor, pred, q, component):
+    def process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                              reverse = False):
         '''
-        API: process_edge_dijkstra(self, current, neighbor, pred, q, component)
+        API: process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                              reverse = False)
         Description:
         Used by search() method if the algo argument is 'Dijkstra'. Processes
         edges along Dijkstra's algorithm. User does not need to call this
@@ -1125,6 +1128,7 @@ class Graph(object):
             pred: Predecessor tree.
             q: Data structure that holds nodes to be processed in a queue.
             component: component number.
+            reverse: The edge goes from neighbor to current if True.
         Post:
             'color' attribute of nodes and edges may change.
         '''
@@ -1135,8 +1139,11 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = (q.get_priority(current) +
-                        self.get_edge_attr(current, neighbor, 'cost'))
+        if reverse:
+            cost = self.get_edge_attr(neighbor, current, 'cost')
+        else:
+            cost = self.get_edge_attr(current, neighbor, 'cost')
+        new_estimate = q.get_priority(current) + cost
         if neighbor not in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1199,7 +1206,8 @@ class Graph(object):
         '''
         if algo == 'Dijkstra':
             return self.process_edge_dijkstra(current, neighbor, pred, q,
-                                              component)
+                                              component,
+                                              kargs.get('reverse', False))
         if algo == 'Prim':
             return self.process_edge_prim(current, neighbor, pred, q,
                                           component)
-- 
2.43.0


From abe63834eec779189c3a4cfed526f7e58687f766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 30/44] fix: floyd_warshall stops at the first negative cycle
 so that the cycle returned is one

Going on overwrote the predecessors with those of longer walks, and
floyd_warshall_get_cycle could return a cycle of cost zero; cycle
canceling then augmented back and forth along it for ever.
---
 src/gimpy/graph.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index f2cdc4e..2a2e88e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2177,13 +2177,11 @@ After installation, ensure that the PATH variable is properly set.''')
                     elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:
                         distance[(i,j)] = distance[(i,k)] + distance[(k,j)]
                         nextn[(i,j)] = nextn[(k,j)]
+                if distance[(i,i)] < 0:
+                    # shortest distances are not valid
+                    # graph has negative cycle, stop while nextn leads to it
+                    return (False, distance, nextn)
         # == end of compute shortest distance
-        # check if graph has negative cycles
-        for i in nl:
-            if distance[(i,i)] < 0:
-                # shortest distances are not valid
-                # graph has negative cycle
-                return (False, distance, nextn)
         return (True, distance, nextn)
 
     def floyd_warshall_get_path(self, distance, nextn, i, j):
-- 
2.43.0


From 9273540c9dba078d071056c25c74f8d459b63fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 31/44] fix: search ignores loops

A node with an edge to itself became its own predecessor.
---
 src/gimpy/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 2a2e88e..54f1cd8 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1069,7 +1069,9 @@ class Graph(object):
                 break
             self.display()
             for n in neighbors[current]:
-                if self.get_node(n).get_attr('color') != 'green':
+                # a loop leads nowhere
+                if (n != current and
+                    self.get_node(n).get_attr('color') != 'green'):
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'yellow')
                     else:
-- 
2.43.0


From 62a730393f7fa371586036d363d3501e78b05185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 32/44] fix: Prim's algorithm ignores loops

It raised TypeError or made a node its own predecessor.
---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 54f1cd8..9f05f6b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1298,7 +1298,7 @@ class Graph(object):
                 self.set_edge_attr(pred[current], current, 'color', 'green')
             self.display()
             for n in neighbors(current):
-                if self.get_node_attr(n, 'color') != 'green':
+                if n != current and self.get_node_attr(n, 'color') != 'green':
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-- 
2.43.0


From 907fefed1adb2fee2bf3e04beecaf48f425352dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 33/44] fix: floyd_warshall takes loops into account

The distance of a node from itself was the cost of its loop, and a
negative loop gave KeyError when the cycle was asked for.
---
 src/gimpy/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 9f05f6b..5b74500 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2156,13 +2156,16 @@ After installation, ensure that the PATH variable is properly set.''')
         for i in nl:
             distance[(i,i)] = 0
         for e in el:
-            distance[(e[0],e[1])] = self.get_edge_cost(e)
+            # a loop is of use only when it is a negative cycle
+            if e[0] != e[1] or self.get_edge_cost(e) < 0:
+                distance[(e[0],e[1])] = self.get_edge_cost(e)
         # == end of distance initialization
         # initialize next
         nextn = {}
         for i in nl:
             for j in nl:
-                if i==j or distance[(i,j)]=='infinity':
+                if ((i==j and distance[(i,j)] == 0) or
+                    distance[(i,j)]=='infinity'):
                     nextn[(i,j)] = None
                 else:
                     nextn[(i,j)] = i
-- 
2.43.0


From 62d371048b9975fe092a3e4ff4c2f7502adf1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 34/44] fix: preflow-push ignores loops at the source

The source became active and the algorithm pushed around its loop for
ever.
---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 5b74500..7724b8b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1410,6 +1410,8 @@ class Graph(object):
         elif algo == 'HighestLabel':
             q = PriorityQueue()
         for n in self.get_neighbors(source):
+            if n == source:
+                continue
             capacity = self.get_edge_attr(source, n, 'capacity')
             self.set_edge_attr(source, n, 'flow', capacity)
             self.set_node_attr(n, 'excess', capacity)
-- 
2.43.0


From 419eebc85ba8cd0ba2f68206b96c3d100d0c1107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 35/44] fix: depth-first search works with a priority queue

It raised TypeError because only 'depth', not 'distance', is kept.
---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 7724b8b..f268333 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1231,7 +1231,7 @@ class Graph(object):
             if algo == 'UnweightedSPT' or algo == 'BFS':
                 priority = self.get_node(current).get_attr('distance') + 1
             if algo == 'DFS':
-                priority = -self.get_node(current).get_attr('distance') - 1
+                priority = q.get_priority(current) - 1
             if current_priority is not None and priority >= current_priority:
                 return
             q.push(neighbor, priority)
-- 
2.43.0


From 8dca0785620ca04fb5295d3526c40b18fb2ded7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 36/44] fix: an automatic cluster name does not replace a
 cluster of that name

create_cluster() without a name took c0, c1, ... without checking whether
the user had given that name to a cluster already, which was lost.
---
 src/gimpy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index f268333..42103c9 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3552,6 +3552,9 @@ After installation, ensure that the PATH variable is properly set.''')
         else:
             name = 'c%d' %self.attr['cluster_count']
             self.attr['cluster_count'] += 1
+            while name in self.cluster:
+                name = 'c%d' %self.attr['cluster_count']
+                self.attr['cluster_count'] += 1
             cluster_attrs['name'] = name
         #cluster_attrs['name'] =
         self.cluster[name] = {'node_list':list(node_list),
-- 
2.43.0


From 7d3f999b2f4104e3b30409972778d03ed59e37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:16 +0000
Subject: [PATCH 37/44] fix: the dot2tex layout survives failures and can make
 ps

---
 src/gimpy/graph.py | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 42103c9..37641c0 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1801,35 +1801,39 @@ After installation, ensure that the PATH variable is properly set.''')
                 print("         Automatically changing setting")
         if self.attr['display'] == 'file':
             if self.get_layout() == 'dot2tex':
+                if format != 'pdf' and format != 'ps':
+                    print("Dot2tex only supports pdf and ps formats, falling back to pdf")
+                    format = 'pdf'
+                tex = None
+                # dot2tex works on the layout of dot
+                self.attr['layout'] = 'dot'
                 try:
                     if DOT2TEX_INSTALLED:
-                        if format != 'pdf' or format != 'ps':
-                            print("Dot2tex only supports pdf and ps formats, falling back to pdf")
-                            format = 'pdf'
-                        self.set_layout('dot')
                         tex = dot2tex.dot2tex(self.to_string(), autosize=True, texmode = 'math', template = DOT2TEX_TEMPLATE)
                     else:
                         print("Error: Dot2tex not installed.")
-                except:
+                except Exception:
                     try:
-                        self.set_layout('dot')
                         with open(basename+'.dot', "w+b") as f:
                             self.write(f, self.get_layout(), 'dot')
-                            p = subprocess.call(['dot2tex', '-t math',
-                                                 basename + '.dot'])
-                    except:
+                        tex = subprocess.check_output(['dot2tex', '-tmath',
+                                                       basename + '.dot'],
+                                                      universal_newlines = True)
+                    except Exception:
                         print("There was an error running dot2tex.")
-                with open(basename+'.tex', 'w') as f:
-                    f.write(tex)
-                try: 
-                    subprocess.call(['latex', basename])
-                    if format == 'ps':
-                        subprocess.call(['dvips', basename])
-                    elif format == 'pdf':
-                        subprocess.call(['pdflatex', basename])
-                    self.set_layout('dot2tex')
-                except:
-                    print("There was an error runing latex. Is it installed?")
+                finally:
+                    self.attr['layout'] = 'dot2tex'
+                if tex is not None:
+                    with open(basename+'.tex', 'w') as f:
+                        f.write(tex)
+                    try:
+                        subprocess.check_call(['latex', basename])
+                        if format == 'ps':
+                            subprocess.check_call(['dvips', basename])
+                        elif format == 'pdf':
+                            subprocess.check_call(['pdflatex', basename])
+                    except Exception:
+                        print("There was an error runing latex. Is it installed?")
             else:
                 with open(basename+'.'+format, "w+b") as f:
                     self.write(f, self.get_layout(), format)
-- 
2.43.0


From 6c025f41d413332500ced8ffd912c30d51bbd287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 38/44] fix: min_cost_flow removes its auxiliary nodes when it
 fails on missing data

---
 src/gimpy/graph.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 37641c0..e0f0ec0 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1653,6 +1653,29 @@ class Graph(object):
                 raise MultipleNodeException
         self.add_node('s')
         self.add_node('t')
+        try:
+            return self.send_supplies(nl)
+        finally:
+            # remove node 's' and node 't'
+            self.del_node('s')
+            self.del_node('t')
+
+    def send_supplies(self, nl):
+        '''
+        API:
+            send_supplies(self, nl)
+        Description:
+            Used by find_feasible_flow(), which adds nodes 's' and 't' before
+            the call and removes them after it. This method should not be
+            called directly by user.
+        Input:
+            nl: List of nodes other than 's' and 't'.
+        Post:
+            Keeps solution in 'flow' attribute of arcs.
+        Return:
+            Returns True if a feasible flow is found, returns False, if the
+            problem is infeasible
+        '''
         for i in nl:
             b_i = self.get_node(i).get_attr('demand')
             if b_i > 0:
@@ -1669,12 +1692,7 @@ class Graph(object):
             flow = self.get_edge_attr('s', i, 'flow')
             capacity = self.get_edge_attr('s', i, 'capacity')
             if flow != capacity:
-                self.del_node('s')
-                self.del_node('t')
                 return False
-        # remove node 's' and node 't'
-        self.del_node('s')
-        self.del_node('t')
         return True
 
     def get_layout(self):
-- 
2.43.0


From 67ee7d4275826d5ab4f7d22af8bb039f49d1687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 39/44] fix: double quotes and backslashes inside names and
 labels are escaped in DOT

A text such as a"b or "a" and "b", or one with a backslash before a quote
or at the end, gave a description that Graphviz rejects.
---
 src/gimpy/global_constants.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 128d1c8..b72f4f6 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -121,10 +121,11 @@ DOT2TEX_TEMPLATE = r'''
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
 ID_RE_ALPHA_NUMS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*\Z', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_:\"]*[a-zA-Z0-9_\"]+\Z', re.UNICODE)
+ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_:]*[a-zA-Z0-9_]+\Z', re.UNICODE)
 ID_RE_NUM = re.compile(r'^[0-9]+\Z', re.UNICODE)
 ID_RE_WITH_PORT = re.compile(r'^([^:]*):([^:]*)\Z', re.UNICODE)
-ID_RE_DBL_QUOTED = re.compile(r'^\".*\"\Z', re.S|re.UNICODE)
+ID_RE_DBL_QUOTED = re.compile(r'^"(?:[^"\\]|\\.)*"\Z', re.S|re.UNICODE)
+ODD_BACKSLASH = re.compile(r'(?<!\\)((?:\\\\)*)\\(?="|\Z)')
 ID_RE_HTML = re.compile(r'^<.*>\Z', re.S|re.UNICODE)
 
 def quote_if_necessary(s):
@@ -137,6 +138,8 @@ def quote_if_necessary(s):
     if not s:
         return '""'
     if needs_quotes(s):
+        # a backslash would take the effect of the quote that follows
+        s = ODD_BACKSLASH.sub(r'\1\\\\', s)
         replace = {'"'  : r'\"',
                    "\n" : r'\n',
                    "\r" : r'\r',
-- 
2.43.0


From d032960762e28be67c57122de8fec83214a31ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 40/44] fix: texts that only look like HTML strings are quoted
 in DOT

'<p>x|<q>' begins and ends with angle brackets but is no HTML string of DOT:
Graphviz rejected the description.
---
 src/gimpy/global_constants.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index b72f4f6..3ac96fe 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -128,6 +128,22 @@ ID_RE_DBL_QUOTED = re.compile(r'^"(?:[^"\\]|\\.)*"\Z', re.S|re.UNICODE)
 ODD_BACKSLASH = re.compile(r'(?<!\\)((?:\\\\)*)\\(?="|\Z)')
 ID_RE_HTML = re.compile(r'^<.*>\Z', re.S|re.UNICODE)
 
+def is_html(s):
+    """Checks whether a string is a dot language HTML string, in which the
+    bracket opened first is closed by the last one.
+    """
+    if not ID_RE_HTML.match(s):
+        return False
+    depth = 0
+    for i, c in enumerate(s):
+        if c == '<':
+            depth += 1
+        elif c == '>':
+            depth -= 1
+            if depth == 0 and i < len(s) - 1:
+                return False
+    return depth == 0
+
 def quote_if_necessary(s):
     if isinstance(s, bool):
         if s is True:
@@ -165,10 +181,12 @@ def needs_quotes(s):
     # need quotes.
     if s in DOT_KEYWORDS:
         return False
+    if is_html(s):
+        return False
     chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]
-    if chars and not ID_RE_DBL_QUOTED.match(s) and not ID_RE_HTML.match(s):
+    if chars and not ID_RE_DBL_QUOTED.match(s):
         return True
-    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML, ID_RE_ALPHA_NUMS_WITH_PORTS]:
+    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_ALPHA_NUMS_WITH_PORTS]:
         if test_re.match(s):
             return False
     m = ID_RE_WITH_PORT.match(s)
-- 
2.43.0


From 04a5b5221f83cb171542e9f5d95c78b8537de17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 41/44] fix: attribute values with a colon are quoted in DOT

Only nodes have ports: label=t:5 and color=red:blue are rejected by Graphviz.
Numbers such as 1e-05 given as graph attributes are quoted as well.
---
 src/gimpy/global_constants.py | 16 +++++++++++-----
 src/gimpy/graph.py            | 11 +++++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 3ac96fe..0e1bf12 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -144,7 +144,7 @@ def is_html(s):
                 return False
     return depth == 0
 
-def quote_if_necessary(s):
+def quote_if_necessary(s, ports = True):
     if isinstance(s, bool):
         if s is True:
             return 'True'
@@ -153,7 +153,7 @@ def quote_if_necessary(s):
         return s
     if not s:
         return '""'
-    if needs_quotes(s):
+    if needs_quotes(s, ports):
         # a backslash would take the effect of the quote that follows
         s = ODD_BACKSLASH.sub(r'\1\\\\', s)
         replace = {'"'  : r'\"',
@@ -165,10 +165,12 @@ def quote_if_necessary(s):
         return '"' + s + '"'
     return s
 
-def needs_quotes(s):
+def needs_quotes(s, ports = True):
     """Checks whether a string is a dot language ID.
     It will check whether the string is solely composed
-    by the characters allowed in an ID or not.
+    by the characters allowed in an ID or not. A node may be
+    followed by a port (node:port), other IDs (ports = False)
+    may not.
     If the string is one of the reserved keywords it will
     need quotes too but the user will need to add them
     manually.
@@ -186,9 +188,13 @@ def needs_quotes(s):
     chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]
     if chars and not ID_RE_DBL_QUOTED.match(s):
         return True
-    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_ALPHA_NUMS_WITH_PORTS]:
+    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED]:
         if test_re.match(s):
             return False
+    if not ports:
+        return True
+    if ID_RE_ALPHA_NUMS_WITH_PORTS.match(s):
+        return False
     m = ID_RE_WITH_PORT.match(s)
     if m:
         return needs_quotes(m.group(1)) or needs_quotes(m.group(2))
diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e0f0ec0..cc1d8f0 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -174,7 +174,8 @@ class Node(object):
             flag = True
             node.append(a)
             node.append('=')
-            node.append(quote_if_necessary(str(self.attr[a])))
+            node.append(quote_if_necessary(str(self.attr[a]),
+                                           ports = False))
             node.append(', ')
         if flag is True:
             node = node[:-1]
@@ -617,7 +618,8 @@ class Graph(object):
         for a in self.edge_attr[e]:
             edge.append(a)
             edge.append('=')
-            edge.append(quote_if_necessary(str(self.edge_attr[e][a])))
+            edge.append(quote_if_necessary(str(self.edge_attr[e][a]),
+                                           ports = False))
             edge.append(', ')
         edge = edge[:-1]
         edge.append(']')
@@ -641,7 +643,8 @@ class Graph(object):
                 continue
             val = self.attr[a]
             if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(val)) )
+                graph.append( '%s=%s' % (a, quote_if_necessary(str(val),
+                                                                ports = False)) )
             else:
                 graph.append(a)
             graph.append( ';\n' )
@@ -650,7 +653,7 @@ class Graph(object):
             graph.append('subgraph cluster_%s {\n' %c)
             for a in self.cluster[c]['attrs']:
                 if a=='label':
-                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a])+';\n')
+                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a], ports = False)+';\n')
                     continue
                 graph.append(a+'='+self.cluster[c]['attrs'][a]+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
-- 
2.43.0


From 0f2f687c36738a94377d5144706db069b80d527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 42/44] fix: names of graphs and clusters and cluster
 attributes are quoted in DOT

A graph named 'my graph', a cluster named 'left side' and cluster attributes
such as bgcolor 'light blue' gave a description that Graphviz rejects, a
numeric cluster attribute an exception.
---
 src/gimpy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index cc1d8f0..d38468b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -637,7 +637,9 @@ class Graph(object):
         '''
         graph = list()
         processed_edges = {}
-        graph.append('%s %s {\n' %(self.graph_type, self.name))
+        graph.append('%s %s {\n' %(self.graph_type,
+                                   quote_if_necessary(str(self.name),
+                                                      ports = False)))
         for a in self.attr:
             if a not in GRAPH_ATTRIBUTES:
                 continue
@@ -650,16 +652,16 @@ class Graph(object):
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-            graph.append('subgraph cluster_%s {\n' %c)
+            graph.append('subgraph %s {\n' %
+                         quote_if_necessary('cluster_%s' %c, ports = False))
             for a in self.cluster[c]['attrs']:
-                if a=='label':
-                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a], ports = False)+';\n')
-                    continue
-                graph.append(a+'='+self.cluster[c]['attrs'][a]+';\n')
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]),
+                                                      ports = False)+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.append('node [')
             for a in self.cluster[c]['node_attrs']:
-                graph.append(a+'='+self.cluster[c]['node_attrs'][a])
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a]),
+                                                      ports = False))
                 graph.append(',')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.pop()
-- 
2.43.0


From 8725583bbdaa72387e4d03c3bb169d284a3841f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 43/44] fix: a graph attribute set to None is not drawn as a
 node

---
 src/gimpy/graph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index d38468b..3a5af6e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -644,11 +644,11 @@ class Graph(object):
             if a not in GRAPH_ATTRIBUTES:
                 continue
             val = self.attr[a]
-            if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(str(val),
-                                                                ports = False)) )
-            else:
-                graph.append(a)
+            if val is None:
+                # the bare name would be a node
+                continue
+            graph.append( '%s=%s' % (a, quote_if_necessary(str(val),
+                                                           ports = False)) )
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-- 
2.43.0


From 44f8578334c325f87e3beb5438e01215d2cfc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 44/44] fix: attribute names that are no DOT identifiers are
 quoted

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 3a5af6e..64e7a37 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -172,7 +172,7 @@ class Node(object):
         flag = False
         for a in self.attr:
             flag = True
-            node.append(a)
+            node.append(quote_if_necessary(str(a), ports = False))
             node.append('=')
             node.append(quote_if_necessary(str(self.attr[a]),
                                            ports = False))
@@ -616,7 +616,7 @@ class Graph(object):
             return ''.join(edge)
         edge.append('  [')
         for a in self.edge_attr[e]:
-            edge.append(a)
+            edge.append(quote_if_necessary(str(a), ports = False))
             edge.append('=')
             edge.append(quote_if_necessary(str(self.edge_attr[e][a]),
                                            ports = False))
-- 
2.43.0

