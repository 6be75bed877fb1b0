From 772a0e1a9eb8ba7de48d35a6bdd45c78fa032621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 01/42] fix: delete_node also removes the springs attached to
 the node

---
 PyNite/FEModel3D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3fae33c..cff9b46 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -840,6 +840,7 @@ class FEModel3D():
         self.nodes.pop(node_name)
         
         # Find any elements attached to the node and remove them
+        self.springs = {name: spring for name, spring in self.springs.items() if spring.i_node.name != node_name and spring.j_node.name != node_name}
         self.members = {name: member for name, member in self.members.items() if member.i_node.name != node_name and member.j_node.name != node_name}
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
-- 
2.43.0


From 2e3927dbe60a895f39ecf2075a759f186bbd9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 02/42] fix: delete_auxnode detaches the auxiliary node from
 the members using it

---
 PyNite/FEModel3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index cff9b46..8261228 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -860,7 +860,7 @@ class FEModel3D():
 
         # Remove the auxiliary node from any members that were using it
         for member in self.members.values():
-            if member.auxNode == auxnode_name:
+            if member.auxNode is not None and member.auxNode.name == auxnode_name:
                 member.auxNode = None
         
         # Flag the model as unsolved
-- 
2.43.0


From 8f3f2119934e0e49bdb42fefff2b6f7c3e0c0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 03/42] fix: rename() no longer loses entities whose old name
 equals another one's new name

---
 PyNite/FEModel3D.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 8261228..36288a4 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2332,46 +2332,51 @@ class FEModel3D():
 
         # Rename each node in the model
         temp = self.nodes.copy()
+        self.nodes.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'N' + str(id)
-            self.nodes[new_key] = self.nodes.pop(old_key)
+            self.nodes[new_key] = temp[old_key]
             self.nodes[new_key].name = new_key
             id += 1
         
         # Rename each spring in the model
         temp = self.springs.copy()
+        self.springs.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'S' + str(id)
-            self.springs[new_key] = self.springs.pop(old_key)
+            self.springs[new_key] = temp[old_key]
             self.springs[new_key].name = new_key
             id += 1
 
         # Rename each member in the model
         temp = self.members.copy()
+        self.members.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'M' + str(id)
-            self.members[new_key] = self.members.pop(old_key)
+            self.members[new_key] = temp[old_key]
             self.members[new_key].name = new_key
             id += 1
         
         # Rename each plate in the model
         temp = self.plates.copy()
+        self.plates.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'P' + str(id)
-            self.plates[new_key] = self.plates.pop(old_key)
+            self.plates[new_key] = temp[old_key]
             self.plates[new_key].name = new_key
             id += 1
         
         # Rename each quad in the model
         temp = self.quads.copy()
+        self.quads.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'Q' + str(id)
-            self.quads[new_key] = self.quads.pop(old_key)
+            self.quads[new_key] = temp[old_key]
             self.quads[new_key].name = new_key
             id += 1
 
-- 
2.43.0


From ebfae9e22ad8176b0d26cf81c87793f09b5b0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 04/42] fix: generate meshes that have not been generated yet
 when an analysis is run

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e675f8c..d6d76b0 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -27,7 +27,7 @@ def _prepare_model(model):
     
     # Generate all meshes
     for mesh in model.meshes.values():
-        if mesh.is_generated == False:
+        if mesh.is_generated() == False:
             mesh.generate()
 
     # Activate all springs and members for all load combinations
-- 
2.43.0


From 556fefaf354d93122dd4c7564955578ffaa6ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 05/42] fix: trapezoidal member loads keep their slope when a
 member is subdivided

---
 PyNite/PhysMember.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04e3f41..fc23541 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -109,7 +109,8 @@ class PhysMember(Member3D):
                     case = dist_load[5]
 
                     # Equation describing the load as a function of x
-                    w = lambda x: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
+                    # The load's original end values are bound here, since `w1` and `w2` are modified below
+                    w = lambda x, w1=w1, w2=w2: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
 
                     # Chop up the distributed load for the sub-member
                     if x1_load > xi:
-- 
2.43.0


From 6b5daa1f20abf6eb3a265bbb7b45f55886d0c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 06/42] fix: support springs report the force they exert on the
 structure (-k times displacement) for every direction setting

---
 PyNite/Analysis.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index d6d76b0..309ea8a 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -796,41 +796,29 @@ def _calc_reactions(model, log=False, combo_tags=None):
             
             # Calculate any reactions due to active spring supports at the node
             if node.spring_DX[0] != None and node.spring_DX[2] == True:
-                sign = node.spring_DX[1]
-                k = node.spring_DX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
-                node.RxnFX[combo.name] += k*DX
+                node.RxnFX[combo.name] -= k*DX
             if node.spring_DY[0] != None and node.spring_DY[2] == True:
-                sign = node.spring_DY[1]
-                k = node.spring_DY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
-                node.RxnFY[combo.name] += k*DY
+                node.RxnFY[combo.name] -= k*DY
             if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
-                sign = node.spring_DZ[1]
-                k = node.spring_DZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
-                node.RxnFZ[combo.name] += k*DZ
+                node.RxnFZ[combo.name] -= k*DZ
             if node.spring_RX[0] != None and node.spring_RX[2] == True:
-                sign = node.spring_RX[1]
-                k = node.spring_RX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
-                node.RxnMX[combo.name] += k*RX
+                node.RxnMX[combo.name] -= k*RX
             if node.spring_RY[0] != None and node.spring_RY[2] == True:
-                sign = node.spring_RY[1]
-                k = node.spring_RY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
-                node.RxnMY[combo.name] += k*RY
+                node.RxnMY[combo.name] -= k*RY
             if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
-                sign = node.spring_RZ[1]
-                k = node.spring_RZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
-                node.RxnMZ[combo.name] += k*RZ
+                node.RxnMZ[combo.name] -= k*RZ
 
 def _check_statics(model, combo_tags=None):
     '''
-- 
2.43.0


From 635e8ff5681b092b2ff1625c28eb9798150d926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 07/42] fix: one-way support springs are judged per load
 combination and reset for every analysis

---
 PyNite/Analysis.py  | 27 +++++++++++++++++++++------
 PyNite/FEModel3D.py |  6 ++++++
 PyNite/Node3D.py    |  3 +++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 309ea8a..7296c81 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -3,6 +3,15 @@ from PyNite.LoadCombo import LoadCombo
 from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
 from numpy.linalg import solve
 
+def _activate_support_springs(model):
+    """Activates all the support springs in the model. One-way support springs may get deactivated again while a load combination is being solved.
+    """
+
+    for node in model.nodes.values():
+        for direction in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
+            spring = getattr(node, 'spring_' + direction)
+            if spring[0] is not None: spring[2] = True
+
 def _prepare_model(model):
     """Prepares a model for analysis by ensuring at least one load combination is defined, generating all meshes that have not already been generated, activating all non-linear members, and internally numbering all nodes and elements.
 
@@ -30,6 +39,9 @@ def _prepare_model(model):
         if mesh.is_generated() == False:
             mesh.generate()
 
+    # Activate all support springs
+    _activate_support_springs(model)
+
     # Activate all springs and members for all load combinations
     for spring in model.springs.values():
         for combo_name in model.load_combos.keys():
@@ -439,6 +451,9 @@ def _store_displacements(model, D1, D2, D1_indices, D2_indices, combo):
         node.RY[combo.name] = D[node.ID*6 + 4, 0]
         node.RZ[combo.name] = D[node.ID*6 + 5, 0]
 
+        # Remember which support springs were active for these displacements
+        node.springs_active[combo.name] = {direction: getattr(node, 'spring_' + direction)[2] == True for direction in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')}
+
 def _sum_displacements(model, Delta_D1, Delta_D2, D1_indices, D2_indices, combo):
     """Sums calculated displacements for a load step from the solver into the model's displacement vector `_D` and into each node object in the model.
 
@@ -795,27 +810,27 @@ def _calc_reactions(model, log=False, combo_tags=None):
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
             # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2] == True:
+            if node.spring_DX[0] != None and node.springs_active[combo.name]['DX']:
                 k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
                 node.RxnFX[combo.name] -= k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True:
+            if node.spring_DY[0] != None and node.springs_active[combo.name]['DY']:
                 k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
                 node.RxnFY[combo.name] -= k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
+            if node.spring_DZ[0] != None and node.springs_active[combo.name]['DZ']:
                 k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
                 node.RxnFZ[combo.name] -= k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True:
+            if node.spring_RX[0] != None and node.springs_active[combo.name]['RX']:
                 k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
                 node.RxnMX[combo.name] -= k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True:
+            if node.spring_RY[0] != None and node.springs_active[combo.name]['RY']:
                 k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
                 node.RxnMY[combo.name] -= k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
+            if node.spring_RZ[0] != None and node.springs_active[combo.name]['RZ']:
                 k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
                 node.RxnMZ[combo.name] -= k*RZ
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 36288a4..9593c76 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1957,6 +1957,9 @@ class FEModel3D():
                 print('')
                 print('- Analyzing load combination ' + combo.name)
 
+            # Each load combination starts out with all of its support springs active
+            Analysis._activate_support_springs(self)
+
             # Keep track of the number of iterations
             iter_count = 1
             convergence = False
@@ -2167,6 +2170,9 @@ class FEModel3D():
             # Get the partitioned global nodal force vector       
             P1, P2 = Analysis._partition(self, self.P(combo.name), D1_indices, D2_indices)
 
+            # Each load combination starts out with all of its support springs active
+            Analysis._activate_support_springs(self)
+
             # Run the P-Delta analysis for this load combination
             Analysis._PDelta_step(self, combo.name, P1, FER1, D1_indices, D2_indices, D2, log, sparse, check_stability, max_iter, True)
         
diff --git a/PyNite/Node3D.py b/PyNite/Node3D.py
index 9049619..fc3a64c 100644
--- a/PyNite/Node3D.py
+++ b/PyNite/Node3D.py
@@ -53,6 +53,9 @@ class Node3D():
         self.spring_RY = [None, None, None]
         self.spring_RZ = [None, None, None]
 
+        # Which support springs were active in each solved load combination
+        self.springs_active = {}  # {combo_name: {'DX': True or False, ...}}
+
         # Initialize all enforced displacements to `None`
         self.EnforcedDX = None
         self.EnforcedDY = None
-- 
2.43.0


From 240239bf8d23bd167b15f1dc2970366b80f43918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 08/42] fix: an analysis discards the previous solution before
 it starts

---
 PyNite/Analysis.py  | 14 ++++++++++----
 PyNite/FEModel3D.py |  6 +++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 7296c81..3e91ff6 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -19,7 +19,10 @@ def _prepare_model(model):
     :type model: FEModel3D
     """
     
-    # Reset any nodal displacements
+    # The model is not solved until the new analysis completes
+    model.solution = None
+
+    # Reset any nodal displacements and reactions
     model._D = {}
     for node in model.nodes.values():
         node.DX = {}
@@ -28,6 +31,12 @@ def _prepare_model(model):
         node.RX = {}
         node.RY = {}
         node.RZ = {}
+        node.RxnFX = {}
+        node.RxnFY = {}
+        node.RxnFZ = {}
+        node.RxnMX = {}
+        node.RxnMY = {}
+        node.RxnMZ = {}
 
     # Ensure there is at least 1 load combination to solve if the user didn't define any
     if model.load_combos == {}:
@@ -271,9 +280,6 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
 
         # Increment the P-Delta iteration count
         iter_count_PD += 1
-    
-    # Flag the model as solved
-    model.solution = 'P-Delta'
 
 def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices, D2_indices, D2, log=True, sparse=True, check_stability=False):
 
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 9593c76..5285deb 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2175,6 +2175,9 @@ class FEModel3D():
 
             # Run the P-Delta analysis for this load combination
             Analysis._PDelta_step(self, combo.name, P1, FER1, D1_indices, D2_indices, D2, log, sparse, check_stability, max_iter, True)
+
+        # Every load combination has been solved. Member end forces (and reactions) include the P-Delta effects from here on.
+        self.solution = 'P-Delta'
         
         # Calculate reactions
         Analysis._calc_reactions(self, log, combo_tags)
@@ -2183,9 +2186,6 @@ class FEModel3D():
             print('')
             print('- Analysis complete')
             print('')
-        
-        # Flag the model as solved
-        self.solution = 'P-Delta'
     
     def _not_ready_yet_analyze_pushover(self, log=False, check_stability=True, push_combo='Push', max_iter=30, tol=0.01, sparse=True, combo_tags=None):
 
-- 
2.43.0


From 0a8dd2941c4dea946b016887d70e8fb2df93c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 09/42] fix: the dense solver works for P-Delta analysis

---
 PyNite/Analysis.py  | 4 ++--
 PyNite/FEModel3D.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 3e91ff6..3f475c6 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -217,7 +217,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, True), D1_indices, D2_indices)
             else:
                 # For subsequent iterations P will be calculated based on member end displacements
-                Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+                Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             K11 = K11 + Kg11
             K12 = K12 + Kg12
@@ -322,7 +322,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
             
             # Geometric stiffness matrix
             # The `combo_name` variable in the code below is not the name of the pushover load combination. Rather it is the name of the primary combination that the pushover load will be added to. Axial loads used to develop Kg are calculated from the displacements stored in `combo_name`.
-            Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+            Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             # Calculate the stiffness reduction matrix
             Km11, Km12, Km21, Km22 = _partition(model, model.Km(combo_name, push_combo, step_num, log, sparse), D1_indices, D2_indices)
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 5285deb..803e9e7 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1608,7 +1608,7 @@ class FEModel3D():
             from scipy.sparse import lil_matrix
             Kg = lil_matrix((len(self.nodes)*6, len(self.nodes)*6))
         else:
-            Kg = zeros(len(self.nodes)*6, len(self.nodes)*6)
+            Kg = zeros((len(self.nodes)*6, len(self.nodes)*6))
         
         # Add stiffness terms for each physical member in the model
         if log: print('- Adding member geometric stiffness terms to global geometric stiffness matrix')
-- 
2.43.0


From fd485cb059ffad7ccad02d5efcc5f715cd15d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 10/42] fix: P-Delta analysis of a model whose displacements
 are all prescribed

---
 PyNite/Analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 3f475c6..9300300 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -228,7 +228,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
@@ -336,7 +336,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
-- 
2.43.0


From 124065c7473d52f51ee68250c0225ce24606fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 11/42] fix: a singular stiffness matrix is reported by the
 sparse solver too, instead of returning nan

---
 PyNite/Analysis.py  | 8 +++++++-
 PyNite/FEModel3D.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 9300300..ed5875d 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -1,6 +1,6 @@
 from math import isclose
 from PyNite.LoadCombo import LoadCombo
-from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
+from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax, isfinite
 from numpy.linalg import solve
 
 def _activate_support_springs(model):
@@ -242,6 +242,9 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                     # converted to a 2D dense array for mathematical operations.
                     Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
 
+                # The sparse solver only issues a warning (and returns `nan` values) when the matrix is singular
+                if not isfinite(Delta_D1).all(): raise ValueError('Singular matrix')
+
             except:
                 # Return out of the method if 'K' is singular and provide an error message
                 raise ValueError('The stiffness matrix is singular, which indicates that the structure is unstable.')
@@ -350,6 +353,9 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
                     # converted to a 2D dense array for mathematical operations.
                     Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
 
+                # The sparse solver only issues a warning (and returns `nan` values) when the matrix is singular
+                if not isfinite(Delta_D1).all(): raise ValueError('Singular matrix')
+
             except:
                 # Return out of the method if 'K' is singular and provide an error message
                 raise ValueError('The structure is unstable. Unable to proceed any further with analysis.')
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 803e9e7..044bdad 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -3,7 +3,7 @@ from os import rename
 import warnings
 from math import isclose
 
-from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all
+from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all, isfinite
 from numpy.linalg import solve
 
 from PyNite.Node3D import Node3D
@@ -2002,6 +2002,9 @@ class FEModel3D():
                             D1 = D1.reshape(len(D1), 1)
                         else:
                             D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+
+                        # The sparse solver only issues a warning (and returns `nan` values) when the matrix is singular
+                        if not isfinite(D1).all(): raise ValueError('Singular matrix')
                     except:
                         # Return out of the method if 'K' is singular and provide an error message
                         raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
@@ -2106,6 +2109,9 @@ class FEModel3D():
                         D1 = D1.reshape(len(D1), 1)
                     else:
                         D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+
+                    # The sparse solver only issues a warning (and returns `nan` values) when the matrix is singular
+                    if not isfinite(D1).all(): raise ValueError('Singular matrix')
                 except:
                     # Return out of the method if 'K' is singular and provide an error message
                     raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
-- 
2.43.0


From 4ee8acb2aa7df44c325621af15b93ca337d0e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 12/42] fix: P-Delta analysis of members with an axial release
 (which have no geometric stiffness to invert)

---
 PyNite/Member3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index ef7f2d7..db5993b 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -211,7 +211,7 @@ class Member3D():
         if isclose(P, 0.0):
             kg_Condensed = zeros(kg11.shape)
         else:
-            kg_Condensed = subtract(kg11, matmul(matmul(kg12, inv(kg22)), kg21))
+            kg_Condensed = subtract(kg11, matmul(matmul(kg12, pinv(kg22)), kg21))
         
         # Expand the condensed local geometric stiffness matrix
         i=0
-- 
2.43.0


From ec8462659b69d3c4ed68173c3cb2170845934b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 13/42] fix: deactivated springs and members report zero end
 forces

---
 PyNite/Member3D.py | 3 +++
 PyNite/Spring3D.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index db5993b..b85b330 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -462,6 +462,9 @@ class Member3D():
         :rtype: array
         """
         
+        # Inactive members carry no force
+        if self.active.get(combo_name) == False: return zeros((12, 1))
+
         # Calculate and return the member's local end force vector
         if self.model.solution == 'P-Delta':
             # Back-calculate the axial force on the member from the axial strain
diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 482f97d..6708d8f 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -80,6 +80,9 @@ class Spring3D():
             The name of the load combination to calculate the local end force vector for (not the load combination itself).
         '''
         
+        # Inactive springs carry no force
+        if self.active.get(combo_name) == False: return zeros((12, 1))
+
         # Calculate and return the spring's local end force vector
         return matmul(self.k(), self.d(combo_name))
 
-- 
2.43.0


From fa69e922b9b54b15c1f35ffce16c5ad1468491b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 14/42] fix: loads on deactivated members are part of the
 reactions, as they are part of the load vector

---
 PyNite/Analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index ed5875d..76ef5fc 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -665,11 +665,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                     # Sum the sub-member end forces at the node
                     for member in phys_member.sub_members.values():
                         
-                        if member.i_node == node and phys_member.active[combo.name] == True:
+                        if member.i_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
-                            member_F = member.F(combo.name)
+                            # An inactive member still passes the loads applied to it on to its nodes
+                            member_F = member.F(combo.name) if phys_member.active[combo.name] == True else member.FER(combo.name)
 
                             if node.support_DX: node.RxnFX[combo.name] += member_F[0, 0]
                             if node.support_DY: node.RxnFY[combo.name] += member_F[1, 0]
@@ -678,11 +679,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             if node.support_RY: node.RxnMY[combo.name] += member_F[4, 0]
                             if node.support_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
 
-                        elif member.j_node == node and phys_member.active[combo.name] == True:
+                        elif member.j_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
-                            member_F = member.F(combo.name)
+                            # An inactive member still passes the loads applied to it on to its nodes
+                            member_F = member.F(combo.name) if phys_member.active[combo.name] == True else member.FER(combo.name)
                         
                             if node.support_DX: node.RxnFX[combo.name] += member_F[6, 0]
                             if node.support_DY: node.RxnFY[combo.name] += member_F[7, 0]
-- 
2.43.0


From 0c64a917f54587b6b2707d67337f3994ae92258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 15/42] fix: the maximum moment includes the P-little-delta
 moments that the point and minimum queries include

---
 PyNite/BeamSegY.py | 8 ++++----
 PyNite/Member3D.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index a252f45..8f2e4c4 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -145,10 +145,10 @@ class BeamSegY(BeamSegZ):
             x2 = 0
     
         # Find the moment at each location of interest
-        M1 = self.moment(x1)
-        M2 = self.moment(x2)
-        M3 = self.moment(x3)
-        M4 = self.moment(x4)
+        M1 = self.moment(x1, P_delta)
+        M2 = self.moment(x2, P_delta)
+        M3 = self.moment(x3, P_delta)
+        M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
         return max(M1, M2, M3, M4)
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index b85b330..e6cc6ed 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1026,9 +1026,9 @@ class Member3D():
 
                 for segment in self.SegmentsZ:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
                         
             if Direction == 'My':
                 
@@ -1036,9 +1036,9 @@ class Member3D():
 
                 for segment in self.SegmentsY:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
             
             return Mmax
         
-- 
2.43.0


From ef20096e81eadc3b35036915c3c401bd7ec82f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 16/42] fix: extreme moments are found when roundoff makes a
 uniform load look slightly tapered

---
 PyNite/BeamSegY.py | 14 ++++++++++----
 PyNite/BeamSegZ.py | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 8f2e4c4..92fd601 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -1,3 +1,5 @@
+from math import copysign
+
 from PyNite.BeamSegZ import BeamSegZ
 
 # %%
@@ -132,8 +134,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula doesn't lose the root near `-c/b` to roundoff when `a` is tiny
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -178,8 +182,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula doesn't lose the root near `-c/b` to roundoff when `a` is tiny
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index dda5869..38615d7 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -4,6 +4,8 @@ Created on Mon Nov  6 20:52:31 2017
 
 @author: D. Craig Brinck, SE
 """
+from math import copysign
+
 from numpy import full, array
 
 # %%
@@ -316,8 +318,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula doesn't lose the root near `-c/b` to roundoff when `a` is tiny
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -361,8 +365,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula doesn't lose the root near `-c/b` to roundoff when `a` is tiny
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
-- 
2.43.0


From f896ac304cebd3a7c1942b1fd3930175c838e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 17/42] fix: result arrays and relative deflections of physical
 members step across their sub-members

---
 PyNite/PhysMember.py | 75 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 3 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index fc23541..7c436da 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross
+from numpy import array, dot, cross, linspace
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -417,8 +417,77 @@ class PhysMember(Member3D):
             The name of the load combination to get the results for (not the combination itself).
         """
         
-        member, x_mod = self.find_member(x)
-        return member.rel_deflection(Direction, x_mod, combo_name)
+        # Deflections of an inactive member are not reported
+        if not self.active[combo_name]: return 0
+
+        # Find the chord between the physical member's ends
+        if Direction == 'dy': index = 1
+        elif Direction == 'dz': index = 2
+        else: raise ValueError(f"Direction must be 'dy' or 'dz'. {Direction} was given.")
+        d = self.d(combo_name)
+        di, dj = d[index, 0], d[index + 6, 0]
+
+        return self.deflection(Direction, x, combo_name) - (di + (dj - di)/self.L()*x)
+
+    def shear_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the shear in the physical member. See `Member3D.shear_array` for the parameters.
+        """
+
+        if Direction not in ('Fy', 'Fz'): raise ValueError(f"Direction must be 'Fy' or 'Fz'. {Direction} was given.")
+        return self._result_array(lambda x: self.shear(Direction, x, combo_name), n_points, x_array)
+
+    def moment_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the moment in the physical member. See `Member3D.moment_array` for the parameters.
+        """
+
+        if Direction not in ('My', 'Mz'): raise ValueError(f"Direction must be 'My' or 'Mz'. {Direction} was given.")
+        return self._result_array(lambda x: self.moment(Direction, x, combo_name), n_points, x_array)
+
+    def torque_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the torque in the physical member. See `Member3D.torque_array` for the parameters.
+        """
+
+        return self._result_array(lambda x: self.torque(x, combo_name), n_points, x_array)
+
+    def axial_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the axial force in the physical member. See `Member3D.axial_array` for the parameters.
+        """
+
+        return self._result_array(lambda x: self.axial(x, combo_name), n_points, x_array)
+
+    def deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the deflection in the physical member. See `Member3D.deflection_array` for the parameters.
+        """
+
+        if Direction not in ('dx', 'dy', 'dz'): raise ValueError(f"Direction must be 'dx', 'dy' or 'dz'. {Direction} was given.")
+        return self._result_array(lambda x: self.deflection(Direction, x, combo_name), n_points, x_array)
+
+    def rel_deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the relative deflection in the physical member. See `Member3D.rel_deflection_array` for the parameters.
+        """
+
+        return self._result_array(lambda x: self.rel_deflection(Direction, x, combo_name), n_points, x_array)
+
+    def _result_array(self, result, n_points, x_array=None):
+        """
+        Evaluates a result along the physical member, stepping across its sub-members.
+        """
+
+        L = self.L()
+        if x_array is None:
+            x_array = linspace(0, L, n_points)
+        else:
+            x_array = array(x_array)
+            if (x_array < 0).any() or (x_array > L).any():
+                raise ValueError(f"All x values must be in the range 0 to {L}")
+
+        return array([x_array, [result(x) for x in x_array]])
 
     def find_member(self, x):
         """
-- 
2.43.0


From de25a512e8e3e627204b2e8aced33c3fc1209eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 18/42] fix: a subdivided physical member's end forces are
 those of its end sub-members

---
 PyNite/PhysMember.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 7c436da..a40d86f 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross, linspace
+from numpy import array, dot, cross, linspace, zeros
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -147,6 +147,19 @@ class PhysMember(Member3D):
             # Add the new sub-member to the sub-member dictionary for this physical member
             self.sub_members[name] = new_sub_member
     
+    def f(self, combo_name='Combo 1', push_combo='Push', step_num=1):
+        """
+        Returns the physical member's local end force vector: the end forces of its first and last sub-members at the physical member's ends.
+        """
+
+        sub_members = list(self.sub_members.values())
+        if len(sub_members) < 2: return super().f(combo_name, push_combo, step_num)
+
+        f = zeros((12, 1))
+        f[0:6] = sub_members[0].f(combo_name, push_combo, step_num)[0:6]
+        f[6:12] = sub_members[-1].f(combo_name, push_combo, step_num)[6:12]
+        return f
+
     def shear(self, Direction, x, combo_name='Combo 1'):
         """
         Returns the shear at a point along the member's length.
-- 
2.43.0


From fd0eadfe9757281961432ed2a47a342e59cee573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 19/42] fix: merge_duplicate_nodes returns the names of the
 removed nodes, as documented

---
 PyNite/FEModel3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 044bdad..eb8a5bb 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -828,6 +828,9 @@ class FEModel3D():
         # Flag the model as unsolved
         self.solution = None
 
+        # Return the names of the nodes that were removed
+        return remove_list
+
     def delete_node(self, node_name):
         """Removes a node from the model. All nodal loads associated with the node and elements attached to the node will also be removed.
 
-- 
2.43.0


From 289414b825a4988f9c52d86dcc84bf99c63539a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 20/42] fix: merging duplicate nodes keeps the nodal loads and
 prescribed displacements of the removed nodes

---
 PyNite/FEModel3D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index eb8a5bb..9dde3bc 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -792,6 +792,15 @@ class FEModel3D():
                     if getattr(self.nodes[node_2_name], dof) == True:
                         setattr(self.nodes[node_1_name], dof, True)
                 
+                # Merge any prescribed displacements
+                enforced_cond = ('EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ')
+                for dof in enforced_cond:
+                    if getattr(self.nodes[node_1_name], dof) is None:
+                        setattr(self.nodes[node_1_name], dof, getattr(self.nodes[node_2_name], dof))
+
+                # Merge any nodal loads
+                self.nodes[node_1_name].NodeLoads.extend(self.nodes[node_2_name].NodeLoads)
+
                 # Merge any spring supports
                 spring_cond = ('spring_DX', 'spring_DY', 'spring_DZ', 'spring_RX', 'spring_RY', 'spring_RZ')
                 for dof in spring_cond:
-- 
2.43.0


From 393b12bb68966f36230bd422129480404b6e473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 21/42] fix: merging duplicate nodes adds up their support
 springs

---
 PyNite/FEModel3D.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 9dde3bc..3199d13 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -805,7 +805,11 @@ class FEModel3D():
                 spring_cond = ('spring_DX', 'spring_DY', 'spring_DZ', 'spring_RX', 'spring_RY', 'spring_RZ')
                 for dof in spring_cond:
                     value = getattr(self.nodes[node_2_name], dof)
-                    if value != [None, None, None]:
+                    if value[0] is not None:
+                        value_1 = getattr(self.nodes[node_1_name], dof)
+                        if value_1[0] is not None and value_1[1] == value[1]:
+                            # Two springs acting in the same direction(s) at the same point act in parallel
+                            value = [float(value_1[0]) + float(value[0]), value[1], value[2]]
                         setattr(self.nodes[node_1_name], dof, value)
                 
                 # Fix the mesh labels
-- 
2.43.0


From eec924324f80c6bf223411c84ab5f245d525039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 22/42] fix: the statics check skips load combinations that
 have no tags

---
 PyNite/Analysis.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 76ef5fc..645b1e9 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -871,13 +871,7 @@ def _check_statics(model, combo_tags=None):
     statics_table.field_names = ['Load Combination', 'Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ']
 
     # Identify which load combinations to evaluate
-    if combo_tags is None:
-        combo_list = model.load_combos.values()
-    else:
-        combo_list = []
-        for combo in model.load_combos.values():
-            if any(tag in combo.combo_tags for tag in combo_tags):
-                combo_list.append(combo)
+    combo_list = _identify_combos(model, combo_tags)
 
     # Step through each load combination
     for combo in combo_list:
-- 
2.43.0


From 857adee7bd16bf80bea2fd84706b87d41de6ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 23/42] fix: load combinations own their load factors

---
 PyNite/LoadCombo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/LoadCombo.py b/PyNite/LoadCombo.py
index 2e2d0ae..42a83dd 100644
--- a/PyNite/LoadCombo.py
+++ b/PyNite/LoadCombo.py
@@ -15,7 +15,7 @@ class LoadCombo():
         
         self.name = name             # A unique user-defined name for the load combination
         self.combo_tags = combo_tags   # Used to categorize the load combination (e.g. strength or serviceability)
-        self.factors = factors       # A dictionary containing each load case name and associated load factor
+        self.factors = dict(factors) # A dictionary containing each load case name and associated load factor
     
     def AddLoadCase(self, case_name, factor):
         '''
-- 
2.43.0


From 787bf50996200b46f14e543662484bad578834df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 24/42] fix: an annulus narrower than the mesh size is meshed
 with one element across instead of dividing by zero

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 352063a..8106dbd 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -820,7 +820,7 @@ class AnnulusMesh(Mesh):
             radial = r_outer - r_inner                    # Remaining length in the radial direction to be meshed
             circumf = 2*pi*r_inner                        # Circumference of the ring at the inner radius
             b_circ = circumf/n_circ                       # Element width in the circumferential direction
-            n_rad = int(radial/min(mesh_size, 3*b_circ))  # Number of times the plate width fits in the remaining unmeshed radial direction
+            n_rad = max(int(radial/min(mesh_size, 3*b_circ)), 1)  # Number of times the plate width fits in the remaining unmeshed radial direction
             h_rad = radial/n_rad                          # Element height in the radial direction
 
             # Determine if the mesh is getting too big. If so the mesh will need to transition to a
-- 
2.43.0


From 0eae18d7c44747c87476a8f1980a022b73877eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 25/42] fix: frustrum meshes about the X and Z axes use the
 distance from their own axis

---
 PyNite/Mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 8106dbd..474be61 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1199,7 +1199,7 @@ class FrustrumMesh(AnnulusMesh):
         super().generate()
         
         Xo = self.origin[0]
-        Yo = self.origin[1]  # Not used
+        Yo = self.origin[1]
         Zo = self.origin[2]
 
         # Adjust the cooridnates of each node to make a frustrum
@@ -1207,12 +1207,14 @@ class FrustrumMesh(AnnulusMesh):
             X = node.X
             Y = node.Y
             Z = node.Z
-            r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
             if self.axis == 'Y':
+                r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
                 node.Y += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'X':
+                r = ((Y - Yo)**2 + (Z - Zo)**2)**0.5
                 node.X += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'Z':
+                r = ((X - Xo)**2 + (Y - Yo)**2)**0.5
                 node.Z += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             else:
                 raise Exception('Invalid axis specified for frustrum mesh.')
-- 
2.43.0


From b4a002ceb09b29e2ca68dc37dcbcde6958320a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 26/42] fix: cylinder meshes honor their origin, height and
 stiffness modifiers

---
 PyNite/Mesh.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 474be61..0419809 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1299,7 +1299,7 @@ class CylinderMesh(Mesh):
         n = self.num_elements  # Total number of elements in the mesh (initialized for a single ring at the moment)
 
         radius = self.radius
-        h = self.h
+        Xo, Yo, Zo = self.origin[0], self.origin[1], self.origin[2]
 
         # Set the cylinder base's local y-coordinate
         if self.axis == 'Y':
@@ -1309,6 +1309,9 @@ class CylinderMesh(Mesh):
         elif self.axis == 'Z':
              y = self.origin[2]
 
+        # Set the cylinder top's local y-coordinate
+        h = y + self.h
+
         n = int(self.start_node[1:])
         q = int(self.start_element[1:])
 
@@ -1327,11 +1330,11 @@ class CylinderMesh(Mesh):
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, y, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, 0, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, 0, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From 4236c2ed953ca73dca47a07726a61ffbbb721d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 27/42] fix: rectangle meshes no longer modify the caller's
 control point lists

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 0419809..ca1ec8c 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -438,10 +438,10 @@ class RectangleMesh(Mesh):
         self.plane = plane
 
         if x_control is None: self.x_control = []
-        else: self.x_control = x_control
+        else: self.x_control = list(x_control)
 
         if y_control is None: self.y_control = []
-        else: self.y_control = y_control
+        else: self.y_control = list(y_control)
 
         self.element_type = element_type
         self.openings = {}
-- 
2.43.0


From c63d0619964f8fd2273b4bbc0479a52a41f006c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 28/42] fix: annulus, frustrum and cylinder meshes no longer
 overwrite nodes and elements that are already in the model

---
 PyNite/Mesh.py | 76 ++++++++++++++------------------------------------
 1 file changed, 21 insertions(+), 55 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index ca1ec8c..2b7bfad 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -833,14 +833,14 @@ class AnnulusMesh(Mesh):
             # Create a mesh of nodes for the ring
             if transition == True:
                 ring = AnnulusTransRingMesh(r_inner + h_rad, r_inner, n_circ, self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod,
-                                            self.origin, self.axis, 'N' + str(n), 'Q' + str(q))
+                                            self.origin, self.axis, 'N' + str(n), 'Q' + str(q), add_to_model=False)
                 n += 3*n_circ
                 q += 4*n_circ
                 n_circ *= 3
                 self.num_quads_outer = n_circ
             else:
                 ring = AnnulusRingMesh(r_inner + h_rad, r_inner, n_circ, self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod, self.origin,
-                                       self.axis, 'N' + str(n), 'Q' + str(q))
+                                       self.axis, 'N' + str(n), 'Q' + str(q), add_to_model=False)
                 n += n_circ
                 q += n_circ
         
@@ -863,16 +863,8 @@ class AnnulusMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            elif element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
+        # Add the nodes and elements to the model, renaming any whose names are already being used
+        self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -884,11 +876,12 @@ class AnnulusRingMesh(Mesh):
     """
 
     def __init__(self, outer_radius, inner_radius, num_quads, thickness, material_name, model, kx_mod=1, ky_mod=1,
-                 origin=[0, 0, 0], axis='Y', start_node='N1', start_element='Q1'):
+                 origin=[0, 0, 0], axis='Y', start_node='N1', start_element='Q1', add_to_model=True):
 
         super().__init__(thickness, material_name, model, kx_mod, ky_mod, start_node=start_node,
                          start_element=start_element)
 
+        self.add_to_model = add_to_model  # Rings that are part of a larger mesh are added to the model by that mesh
         self.inner_radius = inner_radius
         self.outer_radius = outer_radius
         self.n = num_quads
@@ -988,16 +981,8 @@ class AnnulusRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            if element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
+        # Add the nodes and elements to the model, renaming any whose names are already being used
+        if self.add_to_model: self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -1011,7 +996,7 @@ class AnnulusTransRingMesh(Mesh):
 
     def __init__(self, outer_radius, inner_radius, num_inner_quads, thickness, material_name, model,
                  kx_mod=1, ky_mod=1, origin=[0, 0, 0], axis='Y', start_node='N1',
-                 start_element='Q1'):
+                 start_element='Q1', add_to_model=True):
         """
         Parameters
         ----------
@@ -1022,6 +1007,7 @@ class AnnulusTransRingMesh(Mesh):
         super().__init__(thickness, material_name, model, kx_mod, ky_mod, start_node=start_node,
                          start_element=start_element)
 
+        self.add_to_model = add_to_model  # Rings that are part of a larger mesh are added to the model by that mesh
         self.inner_radius = inner_radius
         self.outer_radius = (inner_radius + outer_radius)/2
         self.r3 = outer_radius
@@ -1166,15 +1152,8 @@ class AnnulusTransRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
+        # Add the nodes and elements to the model, renaming any whose names are already being used
+        if self.add_to_model: self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -1330,11 +1309,11 @@ class CylinderMesh(Mesh):
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type, add_to_model=False)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type, add_to_model=False)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type, add_to_model=False)
 
             n += num_elements
             q += num_elements
@@ -1353,15 +1332,8 @@ class CylinderMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
+        # Add the nodes and elements to the model, renaming any whose names are already being used
+        self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -1408,10 +1380,11 @@ class CylinderRingMesh(Mesh):
 
     def __init__(self, radius, height, num_elements, thickness, material_name, model, kx_mod=1, ky_mod=1,
                  origin=[0, 0, 0], axis='Y', start_node='N1', start_element='Q1',
-                 element_type='Quad'):
+                 element_type='Quad', add_to_model=True):
 
         super().__init__(thickness, material_name, model, kx_mod, ky_mod, start_node=start_node, start_element=start_element)
 
+        self.add_to_model = add_to_model  # Rings that are part of a larger mesh are added to the model by that mesh
         self.radius = radius
         self.height = height
         self.num_elements = num_elements
@@ -1536,15 +1509,8 @@ class CylinderRingMesh(Mesh):
                                                       self.nodes['N' + str(n_node + node_offset)],
                                                       self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
         
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
+        # Add the nodes and elements to the model, renaming any whose names are already being used
+        if self.add_to_model: self._rename_duplicates()
             
         # Flag the mesh as generated
         self._is_generated = True
-- 
2.43.0


From c8acaaef149d64c43726cfe73fdf86f69d3a0fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 29/42] fix: check_mesh_integrity finds meshed elements in the
 model and prints every error

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 2b7bfad..1e1902b 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1591,7 +1591,7 @@ def check_mesh_integrity(mesh, console_log=True):
     # Check that each element in the mesh is in the model
     count = 0
     for element in mesh.elements.values():
-        if element not in mesh.model.plates.values() and element.name not in mesh.model.quads.values():
+        if element not in mesh.model.plates.values() and element not in mesh.model.quads.values():
             count += 1
     
     if count != 0:
@@ -1642,6 +1642,6 @@ def check_mesh_integrity(mesh, console_log=True):
     if console_log == True:
         for error in errors:
             print(error)
-            return ''
+        return ''
     else:
         return errors
-- 
2.43.0


From 4e097c25bf644719e3ede284054278e8391dbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 30/42] fix: the plate's twisting moment uses the shear
 modulus, as its stiffness does

---
 PyNite/Plate3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index a870d03..d35d848 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -115,7 +115,7 @@ class Plate3D():
         # Calculate the constitutive matrix [Db]
         Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex, 0],
                                                 [nu_xy*Ey,    Ey,    0],
-                                                [   0,        0,     G]])
+                                                [   0,        0,     (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Db]
         return Db
-- 
2.43.0


From b72bba3f3a2e2ec762a6010ccb79f0254b171a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 31/42] fix: the reaction at a settled support that also has a
 support spring is no longer counted twice

---
 PyNite/Analysis.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 645b1e9..e566577 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -823,28 +823,29 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             elif load[0] == 'MZ' and node.support_RZ:
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
-            # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.springs_active[combo.name]['DX']:
+            # Calculate any reactions due to active spring supports at the node. At a supported degree of
+            # freedom the support's reaction above is already the total.
+            if node.spring_DX[0] != None and node.springs_active[combo.name]['DX'] and not node.support_DX:
                 k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
                 node.RxnFX[combo.name] -= k*DX
-            if node.spring_DY[0] != None and node.springs_active[combo.name]['DY']:
+            if node.spring_DY[0] != None and node.springs_active[combo.name]['DY'] and not node.support_DY:
                 k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
                 node.RxnFY[combo.name] -= k*DY
-            if node.spring_DZ[0] != None and node.springs_active[combo.name]['DZ']:
+            if node.spring_DZ[0] != None and node.springs_active[combo.name]['DZ'] and not node.support_DZ:
                 k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
                 node.RxnFZ[combo.name] -= k*DZ
-            if node.spring_RX[0] != None and node.springs_active[combo.name]['RX']:
+            if node.spring_RX[0] != None and node.springs_active[combo.name]['RX'] and not node.support_RX:
                 k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
                 node.RxnMX[combo.name] -= k*RX
-            if node.spring_RY[0] != None and node.springs_active[combo.name]['RY']:
+            if node.spring_RY[0] != None and node.springs_active[combo.name]['RY'] and not node.support_RY:
                 k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
                 node.RxnMY[combo.name] -= k*RY
-            if node.spring_RZ[0] != None and node.springs_active[combo.name]['RZ']:
+            if node.spring_RZ[0] != None and node.springs_active[combo.name]['RZ'] and not node.support_RZ:
                 k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
                 node.RxnMZ[combo.name] -= k*RZ
-- 
2.43.0


From 0d9cf128879237d9bbc1afc41c2f8e43e6b2796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 32/42] fix: delete_loads also deletes the internal forces of
 members, which are stored in their sub-members

---
 PyNite/FEModel3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3199d13..e899f89 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1255,6 +1255,9 @@ class FEModel3D():
             member.SegmentsZ = []
             member.SegmentsY = []
             member.SegmentsX = []
+
+            # The internal forces of a physical member are stored in its sub-members
+            member.sub_members = {}
         
         # Delete the plate loads
         for plate in self.plates.values():
-- 
2.43.0


From a56cd4352327470cfaca0c188c1e4872c92af6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 33/42] fix: generating a mesh again replaces its elements and
 nodes instead of duplicating them

---
 PyNite/Mesh.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 1e1902b..7eeeac3 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -29,6 +29,29 @@ class Mesh():
     def is_generated(self):
         return self._is_generated
     
+    def _discard_previous(self):
+        """Removes the elements and nodes of any previous generation of the mesh from the model, so that generating the mesh again replaces them. Nodes that other elements are attached to are kept.
+        """
+
+        # Remove the previous elements from the model
+        for element in self.elements.values():
+            if self.model.plates.get(element.name) is element: del self.model.plates[element.name]
+            if self.model.quads.get(element.name) is element: del self.model.quads[element.name]
+        
+        # Identify the nodes that are being used by something other than this mesh
+        attached = set()
+        for element in list(self.model.members.values()) + list(self.model.springs.values()):
+            attached.update((id(element.i_node), id(element.j_node)))
+        for element in list(self.model.plates.values()) + list(self.model.quads.values()):
+            attached.update((id(element.i_node), id(element.j_node), id(element.m_node), id(element.n_node)))
+        
+        # Remove the previous nodes from the model
+        for node in self.nodes.values():
+            if self.model.nodes.get(node.name) is node and id(node) not in attached: del self.model.nodes[node.name]
+        
+        self.nodes = {}
+        self.elements = {}
+
     def _rename_duplicates(self):
         """Renames any nodes or elements in the mesh that are already in the model
         """
@@ -448,6 +471,9 @@ class RectangleMesh(Mesh):
     
     def generate(self):
 
+        # Generating a mesh again replaces it
+        self._discard_previous()
+
         mesh_size = self.mesh_size
         width = self.width
         height = self.height
@@ -804,6 +830,9 @@ class AnnulusMesh(Mesh):
     
     def generate(self):
         
+        # Generating a mesh again replaces it
+        self._discard_previous()
+
         mesh_size = self.mesh_size
         r_outer = self.outer_radius
         r_inner = self.inner_radius
@@ -1269,6 +1298,9 @@ class CylinderMesh(Mesh):
     
     def generate(self):
         
+        # Generating a mesh again replaces it
+        self._discard_previous()
+
         # Get the mesh thickness and the material name
         thickness = self.thickness
         material_name = self.material_name
-- 
2.43.0


From 5b7c86137d70872ac673af1c4b8805869eb746a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 34/42] fix: member end forces follow the material the member
 was analysed with

---
 PyNite/PhysMember.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index a40d86f..034217e 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -153,7 +153,7 @@ class PhysMember(Member3D):
         """
 
         sub_members = list(self.sub_members.values())
-        if len(sub_members) < 2: return super().f(combo_name, push_combo, step_num)
+        if not sub_members: return super().f(combo_name, push_combo, step_num)
 
         f = zeros((12, 1))
         f[0:6] = sub_members[0].f(combo_name, push_combo, step_num)[0:6]
-- 
2.43.0


From 2c4d47a63c8219eb1c305b570bb68368b028ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 35/42] fix: P-little-delta deflections are solved for
 directly, their iteration could run forever

---
 PyNite/BeamSegY.py | 29 ++++++-----------------------
 PyNite/BeamSegZ.py | 30 ++++++------------------------
 2 files changed, 12 insertions(+), 47 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 92fd601..a5e8d96 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -73,35 +73,18 @@ class BeamSegY(BeamSegZ):
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
     
-        # Iteration is required to calculate P-little-delta effects
+        # P-little-delta effects make the bending moment depend on the deflection itself
         if P_delta == True:
 
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
+            # Compute the deflection without P-little-delta effects
+            delta_x = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
 
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                delta_x = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1 - P1*delta_1 + P1*delta_x)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
-
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
+            # The P-little-delta moment is `P1*(delta_x - delta_1)`. Solve for the deflection that includes its own contribution.
+            c = P1*x**2/(2*EI)
+            return (delta_x + c*delta_1)/(1 + c)
         
         # Non-P-delta solutions are not iterative
         else:
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 38615d7..36580a2 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -191,36 +191,18 @@ class BeamSegZ():
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
         
-        # Iteration is required to calculate P-little-delta effects
+        # P-little-delta effects make the bending moment depend on the deflection itself
         if P_delta == True:
 
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
+            # Compute the deflection without P-little-delta effects
+            delta_x = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
 
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                # delta_x = delta1 + theta1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                delta_x = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta_1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
+            # The P-little-delta moment is `P1*(delta_x - delta_1)`. Solve for the deflection that includes its own contribution.
+            c = P1*x**2/(2*EI)
+            return (delta_x + c*delta_1)/(1 + c)
         
         # Non-P-delta solutions are not iterative
         else:
-- 
2.43.0


From 39ffa278fc6c21ee477a31e21e1e2a5b6c50579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 36/42] fix: P-Delta axial force of a member with an axial
 release is that of its loads, not of the displacement of its released end

---
 PyNite/FEModel3D.py |  8 +-------
 PyNite/Member3D.py  | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index e899f89..f743feb 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1639,19 +1639,13 @@ class FEModel3D():
                 # Step through each sub-member in the physical member and add terms
                 for member in phys_member.sub_members.values():
 
-                    # Calculate the axial force in the member
-                    E = member.E
-                    A = member.A
-                    L = member.L()
-
                     # Calculate the axial force acting on the member
                     if first_step:
                         # For the first load step take P = 0
                         P = 0
                     else:
                         # Calculate the member axial force due to axial strain
-                        d = member.d(combo_name)
-                        P = E*A/L*(d[6, 0] - d[0, 0])
+                        P = member._axial_strain_force(combo_name)
 
                     # Get the member's global stiffness matrix
                     # Storing it as a local variable eliminates the need to rebuild it every time a term is needed
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index e6cc6ed..ef6ef4c 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -468,7 +468,7 @@ class Member3D():
         # Calculate and return the member's local end force vector
         if self.model.solution == 'P-Delta':
             # Back-calculate the axial force on the member from the axial strain
-            P = (self.d(combo_name)[6, 0] - self.d(combo_name)[0, 0])*self.A*self.E/self.L()
+            P = self._axial_strain_force(combo_name)
             return add(matmul(add(self.k(), self.kg(P)), self.d(combo_name)), self.fer(combo_name))
         elif self.model.solution == 'Pushover':
             P = self._fxj - self._fxi
@@ -476,6 +476,26 @@ class Member3D():
         else:
             return add(matmul(self.k(), self.d(combo_name)), self.fer(combo_name))
 
+#%%
+    def _axial_strain_force(self, combo_name='Combo 1'):
+        """
+        Returns the member's axial force due to its axial strain (tension = +, compression = -).
+
+        Parameters
+        ----------
+        combo_name : string
+            The name of the load combination to calculate the axial force for (not the load combination itself).
+        """
+
+        # A member with an axial release only carries the axial loads applied to it. The displacement of its released end differs from the displacement of the node.
+        if self.Releases[0]:
+            return self._fer_unc(combo_name)[0, 0]
+        elif self.Releases[6]:
+            return -self._fer_unc(combo_name)[6, 0]
+        else:
+            d = self.d(combo_name)
+            return self.E*self.A/self.L()*(d[6, 0] - d[0, 0])
+
 #%%
     def d(self, combo_name='Combo 1'):
         """
-- 
2.43.0


From 63428dab1da44e623ef133984502ab5c24601859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 37/42] fix: keep the meshes' names in step when the model is
 renamed

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index f743feb..e168f84 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2404,6 +2404,11 @@ class FEModel3D():
             self.quads[new_key] = temp[old_key]
             self.quads[new_key].name = new_key
             id += 1
+        
+        # Update the names each mesh keeps its nodes and elements under
+        for mesh in self.meshes.values():
+            mesh.nodes = {node.name: node for node in mesh.nodes.values()}
+            mesh.elements = {element.name: element for element in mesh.elements.values()}
 
     def orphaned_nodes(self):
         """
-- 
2.43.0


From 58321fcad25e3d1171c8fe1b27f776079024a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 38/42] fix: calculate the local coordinates of a quad before
 its fixed end reactions need them

---
 PyNite/Quad3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index 3e228cf..c04d82c 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -640,6 +640,9 @@ class Quad3D():
             The name of the load combination to get the consistent load vector for.
         """
         
+        # The loads depend on the element's geometry. Make sure its local coordinates are up to date.
+        self._local_coords()
+
         Hw = lambda xi, eta : 1/4*np.array([[(1 - xi)*(1 - eta), 0, 0, (1 + xi)*(1 - eta), 0, 0, (1 + xi)*(1 + eta), 0, 0, (1 - xi)*(1 + eta), 0, 0]])
 
         # Initialize the fixed end reaction vector
-- 
2.43.0


From d71bc853599b91beaaa75e535634f299890c9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 39/42] fix: report the bending moments and shears of a plate
 with the stiffness its stiffness matrix uses

---
 PyNite/Plate3D.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index d35d848..7f1ab60 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -101,15 +101,16 @@ class Plate3D():
 
     def Db(self):
         """
-        Returns the bending constitutive matrix for orthotropic materials [Db]
+        Returns the bending constitutive matrix [Db]. The stiffness modification factors apply to
+        in-plane stiffness only (see `k_b`).
         """
 
         # Get the plate thickness and other material parameters
         t = self.t
         nu_xy = self.nu
         nu_yx = self.nu
-        Ex = self.E*self.kx_mod
-        Ey = self.E*self.ky_mod
+        Ex = self.E
+        Ey = self.E
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Db]
-- 
2.43.0


From 875466b476198c8a65772da68715028526de607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 40/42] fix: rectangle meshes reach their last row and column
 of nodes in spite of accumulated roundoff

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 7eeeac3..98f8a95 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -550,7 +550,7 @@ class RectangleMesh(Mesh):
                 y += h
 
             # Generate nodes between the y control points
-            while round(y, 10) <= round(y_control[j], 10):
+            while y <= y_control[j] + h/2:
                 
                 # Count the number of rows of plates as we go
                 num_rows += 1
@@ -571,7 +571,7 @@ class RectangleMesh(Mesh):
                         x += b
 
                     # Generate nodes between the x control points
-                    while round(x, 10) <= round(x_control[i], 10):
+                    while x <= x_control[i] + b/2:
                         
                         # Count the number of columns of plates as we go
                         if y == 0:
-- 
2.43.0


From a4b0215607bf143695bcae64d5ea5c70c033a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 41/42] fix: elements in the openings of a rectangle mesh are
 found in spite of roundoff in their coordinates

---
 PyNite/Mesh.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 98f8a95..3b8595c 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -661,10 +661,11 @@ class RectangleMesh(Mesh):
             for opng in self.openings.values():
 
                 # Determine if the node falls within the boundaries of the opening
-                if (round(x, 10) > round(opng.x_left, 10)
-                and round(x, 10) < round(opng.x_left + opng.width, 10) 
-                and round(y, 10) > round(opng.y_bott, 10) 
-                and round(y, 10) < round(opng.y_bott + opng.height, 10)):
+                tol = 1e-6*mesh_size
+                if (x > opng.x_left + tol
+                and x < opng.x_left + opng.width - tol
+                and y > opng.y_bott + tol
+                and y < opng.y_bott + opng.height - tol):
 
                     # Mark the node for deletion if it's not already marked
                     if node.name not in node_del_list:
@@ -679,11 +680,9 @@ class RectangleMesh(Mesh):
 
             for opng in self.openings.values():
 
-                # Determine if the element falls within the boundaries of the opening
-                if ((round(opng.y_bott + opng.height, 10) >= round(top, 10))
-                and (round(opng.y_bott, 10) <= round(bott, 10))
-                and (round(opng.x_left, 10) <= round(left, 10))
-                and (round(opng.x_left + opng.width, 10) >= round(right, 10))):
+                # Determine if the element falls within the boundaries of the opening. The mesh has element edges along the edges of the opening, so it's enough to check the center of the element.
+                if (opng.y_bott < (bott + top)/2 < opng.y_bott + opng.height
+                and opng.x_left < (left + right)/2 < opng.x_left + opng.width):
 
                     # Mark the element for deletion if it's not already marked
                     if element.name not in element_del_list:
-- 
2.43.0


From abf54d97dda1cde204d9794fb75baf78ab4c8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 42/42] fix: control lines of a rectangle mesh within roundoff
 of its lower or left edge are duplicates of that edge

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 3b8595c..42a5a4e 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -500,7 +500,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(x_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(x_control[i], x_control[i+1]):
+            if not isclose(x_control[i], x_control[i+1], abs_tol=1e-9*mesh_size):
                 unique_list.append(x_control[i])
         unique_list.append(x_control[-1])
         x_control = unique_list
@@ -509,7 +509,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(y_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(y_control[i], y_control[i+1]):
+            if not isclose(y_control[i], y_control[i+1], abs_tol=1e-9*mesh_size):
                 unique_list.append(y_control[i])
         unique_list.append(y_control[-1])
         y_control = unique_list
-- 
2.43.0

