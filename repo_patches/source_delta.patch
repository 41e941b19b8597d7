From 352c2adf36e3eaadf989c48f12e0fb15a7d9f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:01 +0000
Subject: [PATCH 01/83] fix: petalvrp prints its missing TSP solver warning to
 stderr without importing it

---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..de9b6e6 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -21,6 +21,7 @@ from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import ceil    
 from logging import log, DEBUG
+from sys import stderr
 
 from gurobipy import Model, GRB, GurobiError, quicksum
 
-- 
2.43.0


From 7246a684ec5eb2cb30023cc0d6c73d5eea0bfc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 02/83] fix: moving the depot to index 0 permutes every row and
 column of the distances

---
 verypy/cvrp_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..3e4319a 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -385,9 +385,9 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
+        for i in range(len(D)):
             D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
+        for i in range(len(D)):
             D[i,:] = D[i,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
-- 
2.43.0


From 699395039c5e213d45ff1c90ddbfd3abbc381e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 03/83] fix: ATT distances divide by ten under the square root,
 as TSPLIB defines them

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 3e4319a..dcf9c49 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -73,7 +73,7 @@ def _geo(pt1, pt2):
 def _att(pt1,pt2):
     dx = pt1[0]-pt2[0]
     dy = pt1[1]-pt2[1]
-    r = sqrt(dx**2+dy**2)/10.0
+    r = sqrt((dx**2+dy**2)/10.0)
     t = int(r)
     return t+1 if t<r else t
 
-- 
2.43.0


From b2d719620f458aabc930be9bfb08726512a80052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 04/83] fix: EUC_2D rounds halves up, as the TSPLIB nint does,
 not to even

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index dcf9c49..ac242af 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -90,7 +90,7 @@ def calculate_D(pts, opts=None, tsplib_distances_type='EUC_2D'):
     elif tsplib_distances_type=='FLOOR_2D':
         postprocess = lambda D: np.floor(D).astype(int)
     elif tsplib_distances_type=='EUC_2D':
-        postprocess = lambda D: np.round(D).astype(int)
+        postprocess = lambda D: np.floor(D+0.5).astype(int)
     elif tsplib_distances_type=='ATT':
         pdtype = lambda v,w : _att(v, w)
     elif tsplib_distances_type=='GEO':
-- 
2.43.0


From d990adbf84cb9e476b952618310d54e850772f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 05/83] fix: read_OPT_CVRP counts the routes it reads

---
 verypy/cvrp_io.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index ac242af..49a93f7 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -145,10 +144,9 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
-    if count_k or not opt_k:
-        opt_k = count_k
-    elif opt_k!=count_k:
+    if opt_k and opt_k!=count_k:
         print("WARNING: the vehicle count in file name and solution differ", file=stderr)
+    opt_k = count_k
 
     return solution, opt_f, opt_k
          
-- 
2.43.0


From 7675c1409356b0c82b150c20be2f5ebfea4fbc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 06/83] fix: read_OPT_CVRP reads the cost line written by
 as_OPT_solution

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 49a93f7..3130c4f 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -131,7 +131,7 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    coststring = l.replace(":", " ").split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
-- 
2.43.0


From 283ad2825e8beaf629c240c7f941ff67a30e102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 07/83] fix: write_TSPLIB_file writes the demands of the
 selected nodes

---
 verypy/cvrp_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 3130c4f..7c7bac4 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -547,11 +547,11 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
-                for i in range(2,len(d)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[i-1])))
+                for ii, i in enumerate(selected_idxs[1:]):
+                    problem_file.write("%d %d\n"%(ii+2, int(d[i])))
             else:
-                for i in range(2,len(D)+1):
-                    problem_file.write("%d 1\n"%i)
+                for ii in range(1,len(selected_idxs)):
+                    problem_file.write("%d 1\n"%(ii+1))
             problem_file.write("DEPOT_SECTION\n")
             problem_file.write("1\n")
             problem_file.write("-1\n")
-- 
2.43.0


From 234a2665286495fac63e48d83a91ea3f8df9a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 08/83] fix: write_TSPLIB_file keeps fractional demands and
 limits, and CAPACITY may be real

---
 verypy/cvrp_io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 7c7bac4..881b3f0 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -229,7 +229,7 @@ def read_TSPLIB_CVRP(file_name):
                 elif 'DIMENSION' in field:
                     N = int(value)-1 # depot excluded
                 elif 'CAPACITY' in field:
-                    C = int(value)
+                    C = float(value) if "." in value else int(value)
                 elif 'EDGE_WEIGHT_TYPE' in field:
                     edge_weight_type = value.strip()
                     if edge_weight_type not in ["MAX_2D", "MAN_2D", "EXACT_2D",
@@ -508,6 +508,9 @@ def as_OPT_solution(cost, sol):
 
     return opt_str
 
+def _num_to_str(x):
+    return "%d"%x if x==int(x) else repr(float(x))
+
 def write_TSPLIB_file(tsplib_file_path, D,
                       d=None, C=None, L=None, selected_idxs=None,
                       float_to_int_precision=None):
@@ -523,11 +526,11 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("TYPE: CVRP\n")
             if C:
-                problem_file.write("CAPACITY: %d\n"%C)
+                problem_file.write("CAPACITY: %s\n"%_num_to_str(C))
             else:
                 problem_file.write("CAPACITY: %d\n"%len(D))
             if L:
-                problem_file.write("DISTANCE: %d\n"%L)
+                problem_file.write("DISTANCE: %s\n"%_num_to_str(L))
         else:    
             problem_file.write("TYPE: TSP\n")
         problem_file.write("COMMENT: temporary CVRP or TSP problem\n")
@@ -548,7 +551,7 @@ def write_TSPLIB_file(tsplib_file_path, D,
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
                 for ii, i in enumerate(selected_idxs[1:]):
-                    problem_file.write("%d %d\n"%(ii+2, int(d[i])))
+                    problem_file.write("%d %s\n"%(ii+2, _num_to_str(d[i])))
             else:
                 for ii in range(1,len(selected_idxs)):
                     problem_file.write("%d 1\n"%(ii+1))
-- 
2.43.0


From a4ae758d6702d547bd8925a2d7ad472211effd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 09/83] fix: write_TSPLIB_file without a capacity limit writes
 one that does not bind

---
 verypy/cvrp_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 881b3f0..2745e6a 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -15,7 +15,7 @@ import re
 import random
 
 from collections import namedtuple
-from math import pi, radians, cos, sin, asin, sqrt, acos, modf
+from math import pi, radians, cos, sin, asin, sqrt, acos, modf, ceil
 from itertools import groupby   
 from sys import stderr
 
@@ -528,7 +528,7 @@ def write_TSPLIB_file(tsplib_file_path, D,
             if C:
                 problem_file.write("CAPACITY: %s\n"%_num_to_str(C))
             else:
-                problem_file.write("CAPACITY: %d\n"%len(D))
+                problem_file.write("CAPACITY: %d\n"%max(len(D), ceil(sum(d)) if d else 0))
             if L:
                 problem_file.write("DISTANCE: %s\n"%_num_to_str(L))
         else:    
-- 
2.43.0


From 9c0a8b4bd7164bb0741743afb1e060d534d6e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 10/83] fix: the service time section ends at the next keyword,
 skips the depot, and comments are not keywords

---
 verypy/cvrp_io.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 2745e6a..f5e3e5e 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -416,29 +416,33 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     reading_service_time_section = False
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
-            if reading_service_time_section:
+            l = l.strip()
+            if reading_service_time_section and l and not l[0].isdigit():
+                reading_service_time_section = False
+            if reading_service_time_section and l:
                 nid, nst = l.split()
                 if "." in nst:
                     nst = float(nst)
                 else:
                     nst = int(nst)
+                if int(nid)==1:
+                    continue # the depot
                 if ST is not None and nst!=ST:
                     raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
-                    ST = nst
-            if "DISTANCE" in l:
+                ST = nst
+            if l.startswith("DISTANCE"):
                 if "." in l:
                     L = float( l.split()[-1] )
                 else:
                     L = int( l.split()[-1] )
-            if "SERVICE_TIME" in l:
+            if l.startswith("SERVICE_TIME"):
                 if "." in l:
                     ST = float( l.split()[-1] )
                 else:
                     ST = int( l.split()[-1] )
-            if "VEHICLES" in l:
+            if l.startswith("VEHICLES"):
                 K = int( l.split()[-1] )
-            if "SVC_TIME_SECTION" in l:
+            if l.startswith("SVC_TIME_SECTION"):
                 reading_service_time_section = True
                     
     return K, L, ST
-- 
2.43.0


From 50056c7b561cd2da3f64d07b442503061a48e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 11/83] fix: first_valid passes the default of next
 positionally

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..6504f31 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -62,7 +62,7 @@ def totald(sol, d):
 def first_valid(l):
     """Returns the first non-None or otherwise valid (evals to true) item from
     the list, or None if no such item exists."""
-    return next((item for item in l if item), default=None)
+    return next((item for item in l if item), None)
     
 def is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):
     """Compares a solution against the current best and returns True if the
-- 
2.43.0


From 3ecaa66fb890280de95030a3d71230b5f2b03fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 12/83] fix: OrderedDictSet.add keeps the cached key list in
 step with the set

---
 verypy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/util.py b/verypy/util.py
index 6504f31..8498c43 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -166,9 +166,9 @@ class OrderedDictSet:
         del self.ods[element]
         self.keylist = None # needs update
     def add(self, element):
-        self.ods[element] = None
-        if self.keylist:
+        if self.keylist is not None and element not in self.ods:
             self.keylist.append(element) # avoid full update
+        self.ods[element] = None
     def difference_update(self, collection):
         for element in collection:
             self.ods.pop(element, None)
-- 
2.43.0


From 1fe7e3b976942c380b4fc33094efb6cabf17b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 13/83] fix: normalize_solution ignores empty routes in a list
 of routes

---
 verypy/cvrp_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..cd70185 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -53,6 +53,7 @@ def normalize_solution(sol):
     # Already in parts
     if hasattr(sol[0], '__len__'):
         routes = [_list_trim(route, 0) for route in sol]
+        routes = [route for route in routes if route]
     else:
         #print(sol
         routes = _list_split(sol, 0)
-- 
2.43.0


From cbd77594e896880a93998d4117c9fa593a4f1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 14/83] fix: recalculate_objective ignores empty routes in a
 list of routes

---
 verypy/cvrp_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index cd70185..7bcca1c 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -209,6 +209,8 @@ def recalculate_objective(sol, D):
     if hasattr(sol[0], '__iter__'):
         # routes are separately
         for route in sol:
+            if len(route)==0:
+                continue
             f+= sum( D[route[i-1],route[i]] for i in range(1,len(route)))
             # sometimes a end or start (or both) visit to depot may be missing
             if route[0]!=0:
-- 
2.43.0


From 6c20b12f1650dbf3184f1db2844e8e7ba07c0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 15/83] fix: D2D_c no longer truncates odd or fractional
 service times on integer distances

---
 verypy/cvrp_ops.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 7bcca1c..3d91d4a 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -240,12 +240,13 @@ def D2D_c(D, st):
         raise ValueError("Service time not set")
     
     tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    halftst = D.dtype.type(st/2.0)
+    if float(tst)!=float(st) or float(halftst)!=float(st/2.0):
         D_c = D.astype('d')
-        halftst = tst/2.0
+        tst = float(st)
+        halftst = st/2.0
     else:
-        D_c = np.copy(D)    
-        halftst = int(tst/2)
+        D_c = np.copy(D)
     
     D_c[1:,1:]+=tst
     D_c[0,:]+=halftst
-- 
2.43.0


From 9e5f1e1b95c7e466aac271bfa9edd9adaa826eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 16/83] fix: lr3opt notices when the route limit multiplier
 overflows

---
 verypy/classic_heuristics/lr3opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 597eb2c..7515da7 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -344,7 +344,7 @@ def lr3opt_init(D, d, C, L,
                         lambda_at_inf = lambdas[0]==float('inf')
                     if lambdas[1] is not None:
                         lambdas[1] = lambdas[1]*2
-                        lambda_at_inf = lambda_at_inf or lambdas[0]==float('inf')
+                        lambda_at_inf = lambda_at_inf or lambdas[1]==float('inf')
                     if __debug__:
                         log(DEBUG-1, "No improving moves left, increasing lambda to l1=%.2f, l2=%.2f"%
                             ((0 if lambdas[0] is None else lambdas[0]),
-- 
2.43.0


From 66097b416f92db9937fa4700d97f9a476a0b9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 17/83] fix: lr3opt does not start from a zero route limit
 multiplier it can never raise

---
 verypy/classic_heuristics/lr3opt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 7515da7..cfc9d2b 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -292,6 +292,9 @@ def lr3opt_init(D, d, C, L,
             closest_neighbor_D = D.copy()
             np.fill_diagonal(closest_neighbor_D, max_D)
             lambdas[1] = np.average(closest_neighbor_D.min(axis=0))/(10*max_D)
+            # doubling would never get it off zero (every point has a twin)
+            if lambdas[1]==0:
+                lambdas[1] = 0.05
 
         if __debug__:
             log(DEBUG, "Start from initial solution %s (%.2f), and with l1=%.2f, l2=%.2f"%
-- 
2.43.0


From a22659caa5242d799ab8659ae6f66b7f8d3bb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 18/83] fix: Wren-Holliday stops when its refining processes
 start to cycle

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 90134a7..eda6bce 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -619,6 +619,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
         prev_iteration_sol_f = None
+        seen_iteration_routes = set()
         changed = False
         
         try:
@@ -721,6 +722,12 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                         solution_changed_between_iterations = False
                 prev_iteration_sol_f = sol_f
                 
+                # DELETE can undo what PAIR did and vice versa, do not cycle
+                iteration_routes = tuple(sorted(tuple(rd.route) for rd in routes))
+                if changed and iteration_routes in seen_iteration_routes:
+                    solution_changed_between_iterations = False
+                seen_iteration_routes.add(iteration_routes)
+                
                 if converging and (
                   (full_convergence and not changed) or
                   (not full_convergence and not deleted) or 
-- 
2.43.0


From 890d077fe0f5252a953c5b3d84ec10a251e66dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:44 +0000
Subject: [PATCH 19/83] fix: matching based savings stops when one route is
 left or no merge saves

---
 verypy/classic_heuristics/matchingvrp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 1116b11..9f6a238 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -290,6 +290,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
         while True:
             ## Step 1: Evaluate the weights and solve the weighted matching prolbem
             
+            if not savings:
+                break # no two routes left to merge
             w_ij,x_ij_keys = zip(*savings)
             valid_matchings = any( w for w in w_ij if w!=W )
             if valid_matchings==0:
@@ -308,8 +310,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break
             
             if ignore_negative_savings and best_savings<0:
-                continue # do not allow merges that would make the solution worse
-                         # (even if it would mean fewer routes)
+                break # do not allow merges that would make the solution worse
+                      # (even if it would mean fewer routes)
     
             if __debug__:
                 log(DEBUG,"Best matching joins routes %s (idx:%d) and %s (idx:%d)."%(
-- 
2.43.0


From 64a1f62c0be148d8e11e83a4610a44b38b3208a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:31 +0000
Subject: [PATCH 20/83] fix: petal stops loosening the vehicle limit once it
 has a feasible plan

---
 verypy/classic_heuristics/petalvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index de9b6e6..c40cd1b 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -867,7 +867,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint:
+                elif K_constraint and K_constraint<N-1 and not best_sol_feasible:
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-- 
2.43.0


From 05d9d673c4034513bb899fd234d1ac11b7e236a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 21/83] fix: petal checks the route limit on the route left
 after discarding customers

---
 verypy/classic_heuristics/petalvrp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index c40cd1b..2c69990 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -138,11 +138,10 @@ def _regain_feasibility(to_move, r1_delta, r2_delta, rd1_aftermove, ri1, ri2,
             if delta < new_r2_delta:
                 new_r2_delta = delta
                 best_j = j
-        to_remove_l = (r2_l+r2_delta)-(new_r2_l+new_r2_delta)
         new_route2 = new_route2[:best_j]+[to_move]+new_route2[best_j:]
         
         if (not d_excess or to_remove_d+C_EPS >= d_excess) and\
-           (not l_excess or to_remove_l+S_EPS >= l_excess):
+           (not L or new_r2_l+new_r2_delta-S_EPS <= L):
             
             # Redistributing ALWAYS increases the cost at least a little,
             #  it makes no sense to even try sometimes.
-- 
2.43.0


From 41005f6b64fd413cc614eb1a2f091dc0bbbaae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 22/83] fix: the assignment heuristic starts from at least one
 vehicle

---
 verypy/classic_heuristics/gapvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index a1f7f9a..6c513c5 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -717,14 +717,14 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     else:
         # start from the smallest K possible
         if C:
-            startK = int(ceil(sum(d)/C))
+            startK = max(1, int(ceil(sum(d)/C)))
         elif L:
             # find a lower bound by checking how many visits from the TSP
             #  tour need to add to have any chance of making this L feasible.
             _,tsp_f = solve_tsp(D, list(range(1,N)))
             shortest_depot_edges = list(D[0,1:])
             shortest_depot_edges.sort()
-            startK = int(ceil(tsp_f/L))
+            startK = max(1, int(ceil(tsp_f/L)))
             while True:
                 if tsp_f+sum(shortest_depot_edges[:startK*2])<=startK*L:
                     break
-- 
2.43.0


From faf507004efce8977da9dbd4ba50bfbbc104d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:11 +0000
Subject: [PATCH 23/83] fix: the assignment heuristic makes no more than K seed
 points

---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 6c513c5..3a0d87a 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -349,7 +349,7 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
     
     depot_x = points[0][0]
     depot_y = points[0][1]
-    for k, grouped_cone in enumerate(grouped_cones):
+    for k, grouped_cone in enumerate(grouped_cones[:K]):
         if __debug__:
             log(DEBUG-3," ===========================================")
             log(DEBUG-3," #%d %s"%(k, str(grouped_cone)))
-- 
2.43.0


From a7fc71a94ecd1c954e4b2c87e9ef1897b0225272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:56 +0000
Subject: [PATCH 24/83] fix: do_2optstar_move returns the true cost and demand
 of both routes

---
 verypy/local_search/inter_route_operators.py | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..5b8109e 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -129,11 +129,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,c]+
+                                  route2_data.fwd_l[j], r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,d]+
+                                  route2_data.rwd_l[j+1], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -164,11 +166,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,d]+
+                                  route2_data.rwd_l[j+1], r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,c]+
+                                  route2_data.fwd_l[j], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +184,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_cost, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_cost, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_cost,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_cost,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From f0e2ea55e8790c57336ca2d648cb83625f6acb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 25/83] fix: moves out of a route check that it does not exceed
 the route limit

---
 verypy/local_search/inter_route_operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 5b8109e..5c5bcf3 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -257,6 +257,10 @@ def do_1point_move(route1_data, route2_data, D, d=None,
         # capacity constraint feasibility check 
         if C and r2_d+d[to_move]-C_EPS>C:
             continue
+        
+        # without triangle inequality removing may make the route longer
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
 
         for j in range(1,len(route2)):
             insert_after = route2[j-1]
@@ -624,6 +628,10 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
                         -D[remove_after,to_move]\
                         -D[to_move,remove_before]
         
+        # without triangle inequality removing may make the route longer
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         for j in range(1,len(route2)-1):
             
             replace_after = route2[j-1]
-- 
2.43.0


From a686a29b936268f96ac91cbed07342597ce0771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 26/83] fix: two point and chain moves allow the rounding error
 on limits the others do

---
 verypy/local_search/inter_route_operators.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 5c5bcf3..9bde8c7 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -360,7 +360,8 @@ def do_2point_move(route1_data, route2_data, D, d=None,
                            +D[to_swap1,swap2_before]
                            
             # route cost constraint feasibility check 
-            if L and (r1_l+route1_delta>L or r2_l+route2_delta>L):
+            if L and (r1_l+route1_delta-S_EPS>L or
+                      r2_l+route2_delta-S_EPS>L):
                 continue
                         
             delta = route1_delta+route2_delta
@@ -639,8 +640,8 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
             replace_before = route2[j+1]
             
             # can do capacity constraint feasibility check here
-            if C and (r2_d-d[to_replace]+d[to_move]>C or
-                      r3_d+d[to_replace]>C): 
+            if C and (r2_d-d[to_replace]+d[to_move]-C_EPS>C or
+                      r3_d+d[to_replace]-C_EPS>C): 
                 continue
                             
             replace_delta = +D[replace_after,to_move]\
@@ -648,7 +649,7 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
                             -D[replace_after,to_replace]\
                             -D[to_replace,replace_before]
                             
-            if L and r2_l+replace_delta>L:
+            if L and r2_l+replace_delta-S_EPS>L:
                 continue
         
             for k in range(1,len(route3)):
@@ -660,7 +661,7 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
                                 +D[to_replace, insert_before]\
                                 -D[insert_after,insert_before]
                                 
-                if L and (r3_l+insert_delta>L):
+                if L and (r3_l+insert_delta-S_EPS>L):
                     continue
 
                 # check if this is best so far            
-- 
2.43.0


From 5ec67f4f4278a8ed87575b2330d29a3a3c805de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 27/83] fix: redistributing does not insert a customer twice
 when the first place costs too much

---
 verypy/local_search/inter_route_operators.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 9bde8c7..e54f566 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -568,13 +568,11 @@ def do_redistribute_move(redisributed_route_data,
                     continue
                 
                 #print("REMOVEME:", "succesfully inserted %d to create %s"%(to_insert, new_rd2.route))
-                ansatz_route_data[rd2_ar_idx] = new_rd2
-                total_delta+=delta
-                if total_delta+S_EPS<best_delta:
+                if total_delta+delta+S_EPS<best_delta:
+                    ansatz_route_data[rd2_ar_idx] = new_rd2
+                    total_delta+=delta
                     node_succesfully_inserted = True
-                    break
-                else:
-                    continue
+                break
                 
             if not node_succesfully_inserted:
                 all_succesfully_inserted = False
-- 
2.43.0


From 3142ac4c8e1500d56fac4f09a75c5f2575c2d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 28/83] fix: redistributing respects a required change of zero

---
 verypy/local_search/inter_route_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index e54f566..e9e7b29 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -530,7 +530,7 @@ def do_redistribute_move(redisributed_route_data,
         if redisributed_route_data.demand-C_EPS > total_d_slack:
             return [None]*(len(receiving_route_or_routes_data)+2)
         
-    if not best_delta:
+    if best_delta is None:
         # allows move that makes the overall solution cost worse
         best_delta = float("inf")
     redistribution_succesfull = False    
-- 
2.43.0


From ff55830afcd0f02457a2ce1136578028f6138b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 29/83] fix: do_3optstar_move searches the whole solution when
 given precomputed sums

---
 verypy/local_search/solution_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/solution_operators.py b/verypy/local_search/solution_operators.py
index 775a86d..37306fe 100644
--- a/verypy/local_search/solution_operators.py
+++ b/verypy/local_search/solution_operators.py
@@ -414,7 +414,6 @@ def do_3optstar_move(solution, D, demands=None,
     
     Note: due to how this is implemented, it may change the route order."""
 
-    sN = len(solution)
     best_move = None
     if best_delta is None:
         best_delta = 0
@@ -434,6 +433,7 @@ def do_3optstar_move(solution, D, demands=None,
     else:
         sol_data = solution
         solution = sol_data.sol
+    sN = len(solution)
     
     
     # cached data tables containing:
-- 
2.43.0


From fbe4095781910a394ac9b7c7707d0484f57392c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 30/83] fix: nearest neighbour seeds routes with the customer
 its option names

---
 verypy/classic_heuristics/nearest_neighbor.py       | 8 ++++----
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..0f30447 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -88,9 +88,9 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
     seed_node = None
     while True:
         if seed_mode=='farthest':
-            seed_node  = node_nearest_neighbors[0].popleft()[0]
-        elif seed_mode=='closest':
             seed_node  = node_nearest_neighbors[0].popright()[0]
+        elif seed_mode=='closest':
+            seed_node  = node_nearest_neighbors[0].popleft()[0]
         elif seed_mode=='nearest':
             nearest_distance = float('inf')
             for i in range(1,N):
@@ -118,7 +118,7 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
             
 def nearest_neighbor_init(D, d, C, L=None, 
                           emerging_route_count=1,
-                          initialize_routes_with="farthest",
+                          initialize_routes_with="closest",
                           add_only_to_end=False,
                           forbidden_nodes=None,
                           route_improvement_callback=None):
@@ -134,7 +134,7 @@ def nearest_neighbor_init(D, d, C, L=None,
     * L is the optional constraint for the maximum route length/duration/cost.
     
     * emerging_route_count sets how many routes are constructed in parallel
-    * initialize_routes_with can be "farthest" (default) or "closest", which
+    * initialize_routes_with can be "closest" (default) or "farthest", which
        selects if the unrouted node farthest from the depot or closest to the
        depot is used to initialize the emerging route. Can also be "nearest", 
        and then the route is initialized with the two unrouted nearest 
diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 496d119..5950652 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -45,7 +45,7 @@ __maintainer__ = "Jussi Rasku"
 __email__ = "jussi.rasku@gmail.com"
 __status__ = "Development"
 
-TYAGI_SEED_METHOD = "farthest"
+TYAGI_SEED_METHOD = "closest"
 
 def _calculate_penalty(sol_or_route, D, d, C):
     penalty = 0
-- 
2.43.0


From df47189a11cba54abdbaebff537b2d1d870751ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 31/83] fix: seeding routes with the nearest pair ends when all
 are served

---
 verypy/classic_heuristics/nearest_neighbor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 0f30447..c37aedb 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -105,9 +105,13 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
                         node_nearest_neighbors[i].popleft()
                     else:
                         break
+                if len(node_nearest_neighbors[i])==0:
+                    continue # is the only one not served
                 if D[i,nearest] < nearest_distance:
                     seed_node  = i
                     nearest_distance = D[i,nearest]
+            if seed_node is None:
+                raise IndexError("all nodes are served")
         else:
             raise ValueError("Only 'farthest', 'closest', and "+
                              "'nearest' route initialization "+
-- 
2.43.0


From c5c6cea59c5638e16c098416bc4ffbc681dee696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 32/83] fix: nearest neighbour keeps customers at distance zero
 in the neighbour lists

---
 verypy/classic_heuristics/nearest_neighbor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index c37aedb..1988c4f 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -168,9 +168,10 @@ def nearest_neighbor_init(D, d, C, L=None,
     N = len(D)
     node_nearest_neighbors = [None]*N
     for i in range(N):
-        node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
-        node_nearest_neighbors[i].popleft() # pop reference to self
+        # the node itself is not its neighbor (others may be at distance 0)
+        node_nearest_neighbors[i] = _PeekQueue( sorted(
+            ((j,D_ij) for j, D_ij in enumerate(D[i][:]) if j!=i),
+            key=itemgetter(1)) )
         
     # bookkeeping on the nodes that we have already served
     served = [False]*N
-- 
2.43.0


From ae74adccdd6316fcc4fc3aab273fb2b272e9433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 33/83] fix: rfcs considers serving the entire giant tour with
 one route

---
 verypy/classic_heuristics/rfcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..c4e6aa7 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -98,12 +98,14 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                 sequence_D[u_idx,v_idx] = route_cost+route_cost_constant
                 next_split[u_idx,v_idx] = v_idx
                 
+                # the entire giant tour is in this sequence
+                if v_idx==u_idx:
+                    break
+                
                 # leave out the last node of the giant tour (same as the first)
                 v_idx+=1
                 if v_idx==gtl:
                     v_idx = 0
-                if v_idx==u_idx:
-                    break
             
             # leave out the last node of the giant tour (same as the first)
             u_idx+=1
-- 
2.43.0


From 4082909aa83de2deed783a91a68122431210438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 34/83] fix: rfcs weights a route more than any saving when
 minimizing their number

---
 verypy/classic_heuristics/rfcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index c4e6aa7..73de43b 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -232,7 +232,8 @@ def route_first_cluster_second_init(D, d, C, L=None, minimize_K=False,
     if __debug__:
         log(DEBUG, "TSP tour solution %s (%.2f)"%(str(giant_tour_sol),giant_tour_l))
         
-    route_cost_constant = giant_tour_l if minimize_K else 0.0    
+    # more than what any set of routes can cost, so that fewer always wins
+    route_cost_constant = 2.0*N*np.max(D)+1.0 if minimize_K else 0.0
     return _partition_to_routes_with_cost_matrix(D, d, C, L,
                                 giant_tour_sol, route_cost_constant, 
                                 partition_tsp_opt_algo, route_tsp_opt_algo)
-- 
2.43.0


From 4d596403571bf29818e309710a56383e143ed00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 35/83] fix: the LKH wrapper keeps the start node and real
 distances of tiny tours

---
 verypy/tsp_solvers/tsp_solver_lkh.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index b83880b..8ce5565 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -39,14 +39,9 @@ def solve_tsp_lkh(D, selected_idxs,
     argument (the default accuracy is set in config.py"""
     
     if len(selected_idxs)<=3:
-        p=None
-        sol = list(sorted(selected_idxs))
+        sol = list(selected_idxs)
         sol.append(sol[0])
-        sol_f = 0
-        for n in sol:
-            if p is not None:
-                sol_f+=int(D[p,n])
-            p=n
+        sol_f = sum(D[sol[i-1],sol[i]] for i in range(1,len(sol)))
         return sol, sol_f
 
     # 1. Create a TSPLIB file
-- 
2.43.0


From 0e03bcd219ba7fdf38b09e3a48745b8989e5f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 36/83] fix: the ACOTSP wrapper keeps the start node of tiny
 tours

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index f28b6f1..58ce4d5 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -62,8 +62,7 @@ def solve_tsp_acotsp(D, selected_idxs,
     set in config.py)"""
     
     if len(selected_idxs)<=3:
-        p=None
-        sol = list(sorted(selected_idxs))
+        sol = list(selected_idxs)
         sol.append(sol[0])
         sol_f = sum(D[sol[i-1]][sol[i]] for i in range(1,len(sol)))
         return sol, sol_f
-- 
2.43.0


From 1becb3f9aff848a27f9e7c626652c2654fd659f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 37/83] fix: the ACOTSP wrapper recognizes real distances
 without np.float

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index 58ce4d5..a07f17a 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -68,7 +68,7 @@ def solve_tsp_acotsp(D, selected_idxs,
         return sol, sol_f
 
     # 1. Create a TSPLIB file
-    are_float_distances = issubclass(D.dtype.type, np.float)
+    are_float_distances = np.issubdtype(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
     with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
-- 
2.43.0


From e7630162b47f97f6cbbdd4ec4ffa54f7646e67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 38/83] fix: recursive search lists the problems of nested
 folders only once

---
 verypy/shared_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 809eddf..b514501 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -157,9 +157,9 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
 def get_a_problem_file_list(problem_paths, recursive=False):
     files_to_solve = []
     if recursive:
-        for problem_path in problem_paths:
+        for problem_path in list(problem_paths):
             for root, dirs, _ in walk(problem_path):
-                problem_paths += [path.join(root,d) for d in dirs]
+                problem_paths = problem_paths+[path.join(root,d) for d in dirs]
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
-- 
2.43.0


From 4243bccc39baa799cba803edd39652c5798d4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 39/83] fix: -D ROUND rounds the distances instead of failing

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5947bb6..5004855 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -167,7 +167,7 @@ def main(overridden_args=None):
             D = np.floor(D)
             ewt = "FLOOR_2D"
         if app_args.dist_weight_format == "ROUND":
-            D = np.int(D)
+            D = np.floor(D+0.5).astype(int)
             ewt = "EUC_2D"
             
         # Bake service time to D (if needed)
-- 
2.43.0


From 25828e600a86e851f50b27f1924c2562c628e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 40/83] fix: the command line reports on problems without a
 capacity

---
 verypy/VeRyPy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5004855..6fe22bb 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -253,7 +253,8 @@ def main(overridden_args=None):
                     tightness = (sum(d)/(C*sol_K))
                 if not bn in instance_data or sol_K<instance_data[bn][1]:
                     #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness,L,st)
+                    instance_data[bn] = (N,sol_K,C,
+                        None if tightness is None else "%.3f"%tightness,L,st)
                     
                 shared_cli.print_problem_information(
                     points, D_c, d, C, L, st, tightness,
-- 
2.43.0


From 82427abca5adc02588392d8e17f8c4531f88a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 41/83] fix: the command line collects the results of a problem
 that no algorithm solved

---
 verypy/VeRyPy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 6fe22bb..9dd249c 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -298,6 +298,9 @@ def main(overridden_args=None):
                 print_title=False
             print(problem,end="")
             if PRINT_INSTANCE_DATA:            
+                if problem not in instance_data:
+                    # no algorithm gave a solution
+                    instance_data[problem] = (None,)*6
                 print("\t",end="")
                 print("\t".join( str(e) for e in instance_data[problem] ),end="")
             for _, result in sorted(algo_results.items()):
-- 
2.43.0


From 47f77ff3cde8daa7da3614ad4d67d98b2bfa4466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 42/83] fix: the improvement of post-optimization is printed as
 percents

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 9dd249c..ca129dc 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -218,7 +218,7 @@ def main(overridden_args=None):
                         ls_sol_q = cvrp_ops.recalculate_objective(sol, D)
                     if ls_sol_q<sol_q:
                         if not app_args.minimal_output:
-                            print(" improved by %.2f%%."%(1-ls_sol_q/sol_q))
+                            print(" improved by %.2f%%."%(100.0*(1-ls_sol_q/sol_q)))
                         sol_q = ls_sol_q
                         sol_K = sol.count(0)-1
                     else:
-- 
2.43.0


From 4409d1dfc49c732a4ab5fbec032444da5fad5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 43/83] fix: the TSP command line allows for rounding of real
 valued costs

---
 verypy/shared_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index b514501..0905ec8 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -236,7 +236,8 @@ def tsp_cli(tsp_f_name, tsp_f):
         tsp_o = objf(tsp_sol,D)
         print("SOLUTION:", str(tsp_sol))
         print("COST:", tsp_o)  
-        assert(tsp_f==tsp_o)
+        # the solvers may accumulate or scale real valued distances
+        assert(abs(tsp_f-tsp_o)<=1e-3*len(tsp_sol))
     else:
         print("usage: tsp_solver_%s.py TSPLIB_file.tsp"%tsp_f_name, file=sys.stderr)
          
-- 
2.43.0


From 083e8df910c422f4f6a649df8b0f1a9e60de619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:55 +0000
Subject: [PATCH 44/83] fix: the assignment heuristic adds real service times
 to rounded seed distances

---
 verypy/classic_heuristics/gapvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 3a0d87a..8f32fdf 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -773,6 +773,8 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                     #  distances (the other half is already added to the D
                     #  prior to gapvrp_init)
                     halftst = int(st/2) if int_dists else st/2.0
+                    if not int_dists:
+                        S = S.astype('d')
                     S[:,1:] += halftst
                 D_s = np.vstack( (D_0, S) )
         
-- 
2.43.0


From f880dfc7a8be770ace87a3474a2b296f7afdd34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 45/83] fix: cheapest insertion breaks ties by order of
 generation, not by memory address

---
 verypy/classic_heuristics/cheapest_insertion.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..6e05245 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -50,6 +50,8 @@ class _EmergingRouteData:
     constructed in the same place. """
     def __init__(self, seed_customers, D, d):
         self.potential_insertions = []
+        # running number of the insertions, breaks ties in the above heap
+        self.insertion_count = 0
         if seed_customers:
             lroute = [0]+seed_customers+[0]
             self.route = dllist(lroute)
@@ -123,7 +125,11 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        # Ties are resolved in the order of generation (and not, e.g., with the
+        #  memory address, which would make the result vary call to call).
+        rd.insertion_count += 1
+        heappush( rd.potential_insertions,
+                  (sorting_key, rd.insertion_count, insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
-- 
2.43.0


From 094794f526954d037a4db7c159db46b2e8f34d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 46/83] fix: the disentangle step of Wren-Holliday reports that
 it changed the routes

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index eda6bce..5b41877 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -442,6 +442,7 @@ def disentangle_heuristic(routes,sweep,node_phis,D,C,d,L):
                     disentange_improves = et_routes[0].cost+et_routes[1].cost+S_EPS < r1l+r2l
                     
                 if len(omitted)==0 and disentange_improves:
+                    improvement_found = True
                     routes[rd1_idx] = et_routes[0]
                     routes[rd2_idx] = et_routes[1]
                     
-- 
2.43.0


From 88e2131f6099af5c85e6bf9a1679b6f2d1656004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 47/83] fix: parallel savings interrupted during a merge passes
 on a plan that visits customers once

---
 verypy/classic_heuristics/parallel_savings.py |  5 +++--
 verypy/util.py                                | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/parallel_savings.py b/verypy/classic_heuristics/parallel_savings.py
index 6b14a5f..a4cf413 100644
--- a/verypy/classic_heuristics/parallel_savings.py
+++ b/verypy/classic_heuristics/parallel_savings.py
@@ -19,7 +19,7 @@ from __future__ import division
 from builtins import range
 
 from logging import log, DEBUG
-from verypy.util import routes2sol, objf
+from verypy.util import routes2sol, interrupted_routes2sol, objf
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
 
@@ -177,7 +177,8 @@ def parallel_savings_init(D, d, C, L=None, minimize_K=False,
                 log(DEBUG-1, "Merged, resulting solution is %s (%.2f)"%
                              (str(dbg_sol), objf(dbg_sol,D)))
     except KeyboardInterrupt: # or SIGINT
-        interrupted_sol = routes2sol(routes)
+        # a merge may be underway
+        interrupted_sol = interrupted_routes2sol(routes, N)
         raise KeyboardInterrupt(interrupted_sol)
         
     return routes2sol(routes)
diff --git a/verypy/util.py b/verypy/util.py
index 8498c43..d0d505c 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -122,6 +122,22 @@ def routes2sol(routes):
                 sol += [0]
     return sol
 
+def interrupted_routes2sol(routes, N):
+    """Builds a complete solution from the routes of an interrupted search. As
+    the interrupt can arrive in the middle of an update (e.g. a route merge),
+    some customers (1..N-1) may be on many routes or on none of them. Longer
+    routes take precedence: the routes sharing customers with an already taken
+    route are left out, and the customers that are on none of the taken routes
+    are served individually."""
+    routes = [[n for n in r if n!=0] for r in routes if r]
+    served, taken = set(), []
+    for r in sorted(routes, key=len, reverse=True):
+        if r and len(set(r))==len(r) and served.isdisjoint(r):
+            served.update(r)
+            taken.append(r)
+    taken.extend( [n] for n in range(1, N) if n not in served )
+    return routes2sol(taken)
+
 def natural_sort(l): 
     """Returns elements of l sorted in a natural way (as a human would).
 
-- 
2.43.0


From 4f2c3d178ab583a7673b503d103ea09f26b5554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 48/83] fix: interrupted sequential savings passes on a
 complete plan that visits customers once

---
 verypy/classic_heuristics/sequential_savings.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/sequential_savings.py b/verypy/classic_heuristics/sequential_savings.py
index 85fb182..23aabde 100644
--- a/verypy/classic_heuristics/sequential_savings.py
+++ b/verypy/classic_heuristics/sequential_savings.py
@@ -17,7 +17,7 @@ from __future__ import print_function
 from __future__ import division
 
 from logging import log, DEBUG
-from verypy.util import objf, routes2sol
+from verypy.util import objf, sol2routes, interrupted_routes2sol
 
 from collections import deque
 
@@ -199,12 +199,11 @@ def sequential_savings_init(D, d, C, L=None, minimize_K=False,
             emerging_route_nodes = None
             
     except KeyboardInterrupt:
-        interrupted_solution = solution
+        # the emerging route may be already in the solution
+        interrupted_routes = sol2routes(solution)
         if emerging_route_nodes:
-            emerging_route_nodes.append(0)
-            interrupted_solution+=emerging_route_nodes
-        interrupted_solution+=routes2sol([n] for n in unrouted)[1:]
-        raise KeyboardInterrupt(interrupted_solution)
+            interrupted_routes.append(list(emerging_route_nodes))
+        raise KeyboardInterrupt( interrupted_routes2sol(interrupted_routes, N) )
                  
     return solution
 
-- 
2.43.0


From c57b07bea8be9441ef68346cd73c3f469bceaf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 49/83] fix: interrupted cheapest insertion passes on a
 complete and feasible plan

---
 verypy/classic_heuristics/cheapest_insertion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 6e05245..d5c6a1f 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -20,7 +20,7 @@ from collections import namedtuple
 from heapq import heappush, heappop
 from logging import log, DEBUG, WARNING
 
-from verypy.util import objf, routes2sol
+from verypy.util import objf, interrupted_routes2sol
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 
@@ -408,11 +408,11 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     
                 route_datas[route_index] = rd            
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = [0]+_EmergingRouteData.export_solution(route_datas)\
-                          +_EmergingRouteData.export_solution(complete_routes)
-        interrupted_sol.extend( routes2sol([n] for n in unrouted
-                                           if n not in interrupted_sol)[1:] )
-        raise KeyboardInterrupt(interrupted_sol)
+        # leave out the insertion that is not yet accepted
+        interrupted_routes = [[n for n in rd.route if n not in unrouted]
+                              for rd in route_datas+complete_routes]
+        raise KeyboardInterrupt( interrupted_routes2sol(interrupted_routes,
+                                                        len(D)) )
                               
     return [0]+_EmergingRouteData.export_solution(route_datas)\
               +_EmergingRouteData.export_solution(complete_routes)
-- 
2.43.0


From ec923af708464521e07acc481954f34cb8be0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 50/83] fix: interrupted nearest neighbor passes on a complete
 plan that visits customers once

---
 verypy/classic_heuristics/nearest_neighbor.py | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 1988c4f..84d0803 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -20,7 +20,7 @@ from __future__ import division
 from logging import log, DEBUG
 from operator import itemgetter
 from collections import deque
-from verypy.util import objf, without_empty_routes, is_better_sol, routes2sol
+from verypy.util import objf, without_empty_routes, is_better_sol, sol2routes, interrupted_routes2sol
 
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
@@ -298,7 +298,12 @@ def nearest_neighbor_init(D, d, C, L=None,
                 k = 0
             
     except (IndexError, KeyboardInterrupt) as e:
-        interrupted = type(e) is KeyboardInterrupt
+        if type(e) is KeyboardInterrupt:
+            # an emerging route may be already stored in the solution
+            interrupted_routes = sol2routes(sol)
+            interrupted_routes += [list(r) for r in route_nodes if r]
+            raise KeyboardInterrupt(
+                interrupted_routes2sol(interrupted_routes, N) )
             
         #TODO: modify the code so that route_improvement_callback is called
         # and search continued if a node is removed. Remember to avoid infinite
@@ -312,23 +317,12 @@ def nearest_neighbor_init(D, d, C, L=None,
                 sol.append(0)
 
                 if __debug__:
-                    if not interrupted:
-                        current_route = [0]+list(rcustomers)+[0]
-                        croute_f = objf(current_route,D)
-                        log(DEBUG-1, "Constraint violated, storing route "
-                            "#%d as %s (%.2f)"%(k,str(current_route),croute_f))                    
+                    current_route = [0]+list(rcustomers)+[0]
+                    croute_f = objf(current_route,D)
+                    log(DEBUG-1, "Constraint violated, storing route "
+                        "#%d as %s (%.2f)"%(k,str(current_route),croute_f))                    
         
-        if interrupted:
-            if sol:
-                unroutedr = [[n] for n in range(N)
-                             if (n not in sol)]
-                if sol and len(sol)>1:
-                    interrupted_sol = sol[:-1]+routes2sol( unroutedr )
-                else:
-                    interrupted_sol = routes2sol( unroutedr )
-                raise KeyboardInterrupt(interrupted_sol)
-                
-        elif len(sol)==1:
+        if len(sol)==1:
             sol = None
 
     return sol     
-- 
2.43.0


From 32f327fd32ecea72e215f664ef8f20d739f41ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 51/83] fix: an interrupt that carries no plan is not ignored
 by gaskell_savings

---
 verypy/classic_heuristics/gaskell_savings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gaskell_savings.py b/verypy/classic_heuristics/gaskell_savings.py
index 508bda8..e7e35e1 100644
--- a/verypy/classic_heuristics/gaskell_savings.py
+++ b/verypy/classic_heuristics/gaskell_savings.py
@@ -99,7 +99,7 @@ def gaskell_savings_init(D,d,C,L, minimize_K=False, savings_method="both"):
             # lambda or pi was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From 1f0187956b9188be60161253de6f81f4f6e3f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 52/83] fix: an interrupt that carries no plan is not ignored
 by suppression_savings

---
 verypy/classic_heuristics/suppression_savings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..760984f 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -137,7 +137,7 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         except KeyboardInterrupt as e: # or SIGINT
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From a70041ba66d8c83e810d35f205760d1cb8843050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 53/83] fix: an interrupt that carries no plan is not ignored
 by paessens_savings

---
 verypy/classic_heuristics/paessens_savings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/paessens_savings.py b/verypy/classic_heuristics/paessens_savings.py
index 46b60ef..b26aa0d 100644
--- a/verypy/classic_heuristics/paessens_savings.py
+++ b/verypy/classic_heuristics/paessens_savings.py
@@ -117,7 +117,7 @@ def paessens_savings_init(D,d,C,L, minimize_K=False,
             # some parameter combination was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From 03b6af261ab29902753df5a2fbcedf9eac61daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 54/83] fix: an interrupt that carries no plan is not ignored
 by mole_jameson_insertion

---
 verypy/classic_heuristics/mole_jameson_insertion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index cacc096..814c083 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -270,7 +270,7 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
             # some of the strain function insertion runs was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
            
         if sol:
             sol_f = objf(sol, D)
-- 
2.43.0


From 81593a97037e726d3191f04959c233abc4a977cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 55/83] fix: interrupted CMT two phase heuristic passes on a
 complete plan that visits customers once

---
 verypy/classic_heuristics/cmt_2phase.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index acdca43..8001d8b 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -37,7 +37,8 @@ except ImportError:
           "Relying on internal TSP solver and the results may differ from those that were published.", file=stderr)
     from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt as solve_tsp
 
-from verypy.util import is_better_sol, routes2sol, without_empty_routes, objf
+from verypy.util import is_better_sol, without_empty_routes, objf
+from verypy.util import sol2routes, interrupted_routes2sol
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 
@@ -89,6 +90,7 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
         log(DEBUG, "## Sequential route bulding phase ##")
     
     route_idx = 0
+    route = []
     
     try:
         while unrouted:
@@ -179,8 +181,9 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             total_cost += route_cost
             sol+=route
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = sol+routes2sol([n] for n in unrouted if n not in sol)
-        raise KeyboardInterrupt(interrupted_sol)
+        # the emerging route may be already in the solution
+        interrupted_routes = sol2routes(sol)+[route]
+        raise KeyboardInterrupt( interrupted_routes2sol(interrupted_routes, N) )
         
     sol+=[0]
     
@@ -396,10 +399,9 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
                                                   route_cost,      #updated cost 
                                                   route_l_updated) #cost state
     except KeyboardInterrupt: #or SIGINT
-        rs_sol, _ = _routestates2solution(routes, D)
-        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in unrouted_nodes
-                                                if n not in rs_sol)
-        raise KeyboardInterrupt(interrupted_sol)
+        interrupted_routes = [rs.route for rs in routes]
+        raise KeyboardInterrupt( interrupted_routes2sol(interrupted_routes,
+                                                        len(D)) )
     
     ## Step 4: Redo step 1 or construct the solution and exit 
     if len(unrouted_nodes)>0:
-- 
2.43.0


From 18632528dd05d4b88d2392b4ff05c9346bbac996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:49 +0000
Subject: [PATCH 56/83] fix: numpy does not replace an interrupt in CMT two
 phase heuristic with an IndexError

---
 verypy/classic_heuristics/cmt_2phase.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index 8001d8b..0dd4a48 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -58,16 +58,16 @@ def _first_seed(D, d, unrouted):
     return unrouted[0]
 
 def _farthest_seed(D, d, unrouted):
-    largest_D_0l_unrouted_idx = int(np.argmax( D[[0], unrouted] ))
+    largest_D_0l_unrouted_idx = int(np.argmax( D[[0], list(unrouted)] ))
     return unrouted[largest_D_0l_unrouted_idx]
 
 def _closest_seed(D, d, unrouted):
-    largest_D_0l_unrouted_idx = int(np.argmin( D[[0], unrouted] ))
+    largest_D_0l_unrouted_idx = int(np.argmin( D[[0], list(unrouted)] ))
     return unrouted[largest_D_0l_unrouted_idx]
 
 def _biggest_seed(D, d, unrouted):
     npd = np.array(d)
-    largest_d_unrouted_idx = int(np.argmax(npd[unrouted]))
+    largest_d_unrouted_idx = int(np.argmax(npd[list(unrouted)]))
     return unrouted[largest_d_unrouted_idx]
 
 def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
@@ -112,8 +112,9 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             
             ## Step 2: Compute savings
             
-            s_vals = (D[[0],unrouted]+lambda_multiplier*
-                      D[unrouted,[route_seed_k]]).tolist()
+            unrouted_list = list(unrouted)
+            s_vals = (D[[0],unrouted_list]+lambda_multiplier*
+                      D[unrouted_list,[route_seed_k]]).tolist()
             savings = list(zip(s_vals, unrouted))
             savings.sort()
             for best_saving, i in savings:
@@ -277,7 +278,7 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
             ## Step 2.1: Choose a (any) route to add customers to.        
         
             # some nodes may have been routed, update these
-            eps_unrouted = eps[:,unrouted_nodes]
+            eps_unrouted = eps[:,list(unrouted_nodes)]
             
             ## Step 1.2: Associate each node to a route
             # note: the assignments cannot be calculated beforehand, as we do 
-- 
2.43.0


From 2984079333164ed8ba6a8c6ff5190062d2c23a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:47 +0000
Subject: [PATCH 57/83] fix: Gillett and Miller restores the distance matrix
 when interrupted

---
 verypy/classic_heuristics/gillet_miller_sweep.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index e9a9925..837058d 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -48,12 +48,14 @@ def _shortest_path_through_nodes(D, from_node, to_node, through_nodes):
         return [from_node,to_node], D[from_node, to_node]
 
     old_path_end_distance = D[from_node, to_node]
-    D[from_node, to_node] = 0.0
-    D[to_node, from_node] = 0.0
-    route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
-    # restore original weights
-    D[from_node, to_node] = old_path_end_distance
-    D[to_node, from_node] = old_path_end_distance
+    try:
+        D[from_node, to_node] = 0.0
+        D[to_node, from_node] = 0.0
+        route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
+    finally:
+        # restore original weights (also if the TSP solver is interrupted)
+        D[from_node, to_node] = old_path_end_distance
+        D[to_node, from_node] = old_path_end_distance
     
     # contingency plan for the special case where there are nodes that overlap 
     #  the depot. Check for it and fix it with a simple swap if needed.
-- 
2.43.0


From 6fb0819d59f1101cc81dac3f90d7243425df5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:47 +0000
Subject: [PATCH 58/83] fix: Wren-Holliday interrupted during a move passes on
 a complete plan

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 5b41877..9e69233 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -32,6 +32,7 @@ from verypy.local_search.inter_route_operators import do_1point_move, do_chain_m
                                                do_insert_move,do_redistribute_move
 
 from verypy.util import objf, without_empty_routes, is_better_sol
+from verypy.util import interrupted_routes2sol
 
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
@@ -740,7 +741,11 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
             interrupted = True
             
         # return the optimized solutios
-        sol = [0]+[n for r in routes for n in r.route[1:]]
+        if interrupted:
+            # a move between two routes may be underway
+            sol = interrupted_routes2sol([r.route for r in routes], N)
+        else:
+            sol = [0]+[n for r in routes for n in r.route[1:]]
         # LS may cause empty routes
         sol = without_empty_routes(sol)
         sol_K = sol.count(0)-1
-- 
2.43.0


From a597ea25ed9093902ef897a73769e80b5798bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:47 +0000
Subject: [PATCH 59/83] fix: interrupted route-first-cluster-second passes on a
 complete and feasible plan

---
 verypy/classic_heuristics/rfcs.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 73de43b..eba8924 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -33,6 +33,7 @@ except ImportError:
 # Always use built-in TSP solver to guarantee 2 and 3-optimality of single routes.
 from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_3opt
 
+from verypy.util import objf, routes2sol
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
 
@@ -61,7 +62,6 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     # these are the dist and next tables of Floyd-Warshall algorithm
     sequence_D = np.full((N,N), np.inf)
     next_split = np.zeros((N,N), dtype='int')
-    interrupted = False
     
     try:
         ## Build the feasible sequences of nodes on the giant tour
@@ -112,7 +112,18 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx==gtl:
                 break
     except KeyboardInterrupt:
-        interrupted = True
+        # Split the giant tour greedily to feasible routes
+        routes, route_demand = [], 0.0
+        for v in giant_tour[:gtl]:
+            v_demand = d[v] if C else 0.0
+            if routes and not (C and route_demand+v_demand-C_EPS>C) and\
+               not (L and objf([0]+routes[-1]+[v,0], D)-S_EPS>L):
+                routes[-1].append(v)
+                route_demand += v_demand
+            else:
+                routes.append([v])
+                route_demand = v_demand
+        raise KeyboardInterrupt( routes2sol(routes) )
         
     # Solve using Floyd's algorithm
     #  note that we cannot use floyd_warshall from scipy.sparse.csgraph, as 
@@ -147,14 +158,10 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx+1 == gtl:
                 u_idx = -1
             route[-1] = giant_tour[u_idx+1]
-            if not interrupted:
-                route, _ = partition_tsp_opt_algo(D, route)
-            else:
-                route.append(0)
+            route, _ = partition_tsp_opt_algo(D, route)
             u_idx+=1
         
-        if not interrupted:
-            route, route_cost = route_tsp_opt_algo(D, route )
+        route, route_cost = route_tsp_opt_algo(D, route )
         
         # record the route
         sol.extend(route[1:])
@@ -168,12 +175,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             break
     
     if __debug__: 
-        if not interrupted:
-            log(DEBUG, "Partitioning result was %s, K = %d, f = %.2f"%
-                       (str(sol), sol_K, sol_f))
-    
-    if interrupted:
-        raise KeyboardInterrupt(sol)
+        log(DEBUG, "Partitioning result was %s, K = %d, f = %.2f"%
+                   (str(sol), sol_K, sol_f))
     
     return sol
 
-- 
2.43.0


From f72b94257ee075681d9f1e428bfe9b9b1b94e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:47 +0000
Subject: [PATCH 60/83] fix: interrupted matching based savings passes on a
 complete plan

---
 verypy/classic_heuristics/matchingvrp.py | 36 +++++++++++++++---------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 9f6a238..3f6f7dd 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -146,6 +146,12 @@ def _calculate_savings(rs1,rs2,demand_cache,tsp_cache,W,D,d,C,L,solve_tsp):
         -s1s2_len
     return s
 
+def _get_greedy_tsp_sol(nodes, cache, D):
+    if not nodes in cache:
+        greedy_routing = [0]+[n for n in nodes if n!=0]+[0]
+        cache[nodes] = (greedy_routing, objf(greedy_routing, D))
+    return cache[nodes]
+
 def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     """ This is not the part of the main algorithm proper but a greedy fallback 
     the procedure relies on in case of an interrupt. It simply uses the 
@@ -172,7 +178,7 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             nodes_ij = nodes_i.union(nodes_j)
             
             if nodes_ij not in tsp_cache:
-                greedy_routing = [0]+list(nodes_ij)+[0]
+                greedy_routing = [0]+[n for n in nodes_ij if n!=0]+[0]
                 greedy_f = objf(greedy_routing, D)
                 if not L or greedy_f-S_EPS<L:
                     # remember for the next stage
@@ -198,11 +204,11 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             # get nodes, TSP chain, demand, and lenght for both routes
             nodes_i = route_sets[route_i]
             nodes_j = route_sets[route_j]
-            chain_i = tsp_cache[nodes_i][0][1:-1]
-            l_i = tsp_cache[nodes_i][1]
+            route_i_nodes, l_i = _get_greedy_tsp_sol(nodes_i, tsp_cache, D)
+            chain_i = route_i_nodes[1:-1]
             d_i = _get_demand(nodes_i, demand_cache, d)        
-            chain_j = tsp_cache[nodes_j][0][1:-1]
-            l_j = tsp_cache[nodes_j][1]
+            route_j_nodes, l_j = _get_greedy_tsp_sol(nodes_j, tsp_cache, D)
+            chain_j = route_j_nodes[1:-1]
             d_j = _get_demand(nodes_j, demand_cache, d)
             
             # check constraints
@@ -231,7 +237,7 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     greedy_solution = []
     for nodes in route_sets:
         if isinstance(nodes, int): continue
-        greedy_solution +=tsp_cache[nodes][0][:-1]
+        greedy_solution += _get_greedy_tsp_sol(nodes, tsp_cache, D)[0][:-1]
     greedy_solution.append(0)
     return greedy_solution 
         
@@ -328,16 +334,20 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
             ## Filter out all edges adjacent to i' and j'
             # select only the savings that *do not* contain routes i and j
             #  and while at it, update the indexing
-            savings = [ (sa,(si if si<j_prime else si-1,
-                             sj if sj<j_prime else sj-1))
+            new_savings = [ (sa,(si if si<j_prime else si-1,
+                                 sj if sj<j_prime else sj-1))
             
-                        for sa,(si,sj) in savings
-                        if (si!=i_prime and sj!=i_prime and
-                            si!=j_prime and sj!=j_prime) ]
+                            for sa,(si,sj) in savings
+                            if (si!=i_prime and sj!=i_prime and
+                                si!=j_prime and sj!=j_prime) ]
             
-            del route_sets[j_prime]
+            new_route_sets = list(route_sets)
+            new_route_sets[i_prime]=new_i_prime_set
+            del new_route_sets[j_prime]
             if i_prime>j_prime: i_prime=i_prime-1
-            route_sets[i_prime]=new_i_prime_set
+            
+            # update both at once, as an interrupt may arrive between
+            savings, route_sets = new_savings, new_route_sets
             
             # Evaluate the savings associated with the new route 
             rs1 = route_sets[i_prime]
-- 
2.43.0


From a095c070adb0f822bad6d29cb417735398cc05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:34 +0000
Subject: [PATCH 61/83] fix: interrupted matching based savings accepts
 problems without demands

---
 verypy/classic_heuristics/matchingvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 3f6f7dd..f4672d8 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -206,10 +206,10 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             nodes_j = route_sets[route_j]
             route_i_nodes, l_i = _get_greedy_tsp_sol(nodes_i, tsp_cache, D)
             chain_i = route_i_nodes[1:-1]
-            d_i = _get_demand(nodes_i, demand_cache, d)        
+            d_i = _get_demand(nodes_i, demand_cache, d) if C else 0
             route_j_nodes, l_j = _get_greedy_tsp_sol(nodes_j, tsp_cache, D)
             chain_j = route_j_nodes[1:-1]
-            d_j = _get_demand(nodes_j, demand_cache, d)
+            d_j = _get_demand(nodes_j, demand_cache, d) if C else 0
             
             # check constraints
             if C and d_i+d_j-C_EPS>C: continue
-- 
2.43.0


From 7226e5f6eb7823301f8884a968151f6e964b37b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:34 +0000
Subject: [PATCH 62/83] fix: interrupted petal heuristic passes the interrupt
 on, with a feasible plan or none

---
 verypy/classic_heuristics/petalvrp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 2c69990..82c51f7 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -862,6 +862,8 @@ def petal_init(points, D, d, C, L, K=None,
             # It may be the case that constraints are so tight that we did not find 
             #  even an infeasbile solution. Do our best to find one by loosening K.
             if not found_solution:
+                if interrupted:
+                    break
                 if ptl_set == PTL_SET.RESTRICTED:
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
@@ -986,7 +988,8 @@ def petal_init(points, D, d, C, L, K=None,
             break #the main loop
                 
     if interrupted:
-        raise KeyboardInterrupt(best_sol)
+        # only a feasible solution is of use for the caller
+        raise KeyboardInterrupt(best_sol if best_sol_feasible else None)
         
     return best_sol 
         
-- 
2.43.0


From be16f4c61648b4f45db9fd360069d4305da8cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 63/83] fix: interrupted Gillett and Miller leaves the distance
 matrix unchanged

---
 .../classic_heuristics/gillet_miller_sweep.py   | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index 837058d..c5c515d 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -42,20 +42,15 @@ __status__ = "Development"
 
 def _shortest_path_through_nodes(D, from_node, to_node, through_nodes):
     # make sure to_node is the last by setting the distance between the end
-    # points to 0.0. Also, instead of copying (potentially large) D, just.
-    #  switch out the values in the D for the TSP algorithm.
+    # points to 0.0. This is done to a copy, as the TSP algorithm may be
+    # interrupted.
     if not through_nodes:
         return [from_node,to_node], D[from_node, to_node]
 
-    old_path_end_distance = D[from_node, to_node]
-    try:
-        D[from_node, to_node] = 0.0
-        D[to_node, from_node] = 0.0
-        route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
-    finally:
-        # restore original weights (also if the TSP solver is interrupted)
-        D[from_node, to_node] = old_path_end_distance
-        D[to_node, from_node] = old_path_end_distance
+    D = D.copy()
+    D[from_node, to_node] = 0.0
+    D[to_node, from_node] = 0.0
+    route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
     
     # contingency plan for the special case where there are nodes that overlap 
     #  the depot. Check for it and fix it with a simple swap if needed.
-- 
2.43.0


From da8d267776ce1296de271b09ad43f72e8ec0581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 64/83] fix: suppression savings returns a plan also for a
 single customer

---
 verypy/classic_heuristics/suppression_savings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index 760984f..172551c 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -77,6 +77,9 @@ def supression_savings_function(D, suppressed, savings_cache=None):
             savings_cache.sort(reverse=True)
             
     
+    if not savings_cache:
+        return savings_cache # only one customer, there is nothing to merge
+    
     first_savings = savings_cache[0]
     suppress = (first_savings[2], first_savings[3])
     if __debug__:
@@ -112,7 +115,8 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         # according to the (limited) experimental data of the Holmes & Parker
         #  (1976), for best results this can grow linearly.
         Lprime = int(N/7)+5
-    Lprime = min(Lprime, int((N**2-N)/2))
+    # there is at least the try with nothing suppressed
+    Lprime = max(1, min(Lprime, int((N**2-N)/2)))
     
     best_sol = None
     best_f = None
-- 
2.43.0


From 9c04dca32c8c405924c699e262ac27e1d0353a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 65/83] fix: Tyagi does not fail when there is only one
 customer

---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 5950652..2daa552 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -306,6 +306,8 @@ def tyagi_init(D, d, C, L=None,
                                emerging_route_count=1,
                                forbidden_nodes=[single_route_candidate],
                                route_improvement_callback=interchange_variant)
+                if cndt_sol is None:
+                    continue # the candidate is the only customer
                                
                 cndt_K = cndt_sol.count(0)-1+1 #the single_route_candidate_node
                 if cndt_K>best_K:
-- 
2.43.0


From 5bafa2c0a745e8da05956ce84af7dac6c3e09e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 66/83] fix: Wren-Holliday started from a given position does
 not fail when there is only one customer

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 9e69233..99cdc19 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -571,7 +571,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
             nodes = list(range(N-1))
             sweeps.extend( zip( nodes, [cur_dir]*len(nodes) ) )
         elif type(seed_node)==int:
-            sweeps.append( [seed_node, cur_dir] )
+            sweeps.append( [seed_node%(N-1), cur_dir] )
         
     ## PHASE 1 : "Generate ... initial solutions and choose the best"    
     initial_sols  = []
-- 
2.43.0


From f39d5c4c86b15e6397998000456fa45b45132ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:16 +0000
Subject: [PATCH 67/83] fix: the assignment heuristic groups customers that
 have no demand by distance

---
 verypy/classic_heuristics/gapvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 8f32fdf..75dc49b 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -224,6 +224,8 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
 
     ## Append each of the K customer cones into K groups of concecutive cones
     
+    if C and sum(d)==0:
+        C = None # the demands cannot tell how to group, use distances
     if C:
         alpha = sum(d)/float(K*C)
         group_target = alpha*C # = sum(d)/K
-- 
2.43.0


From 8589970b390ad5549d4147733585e869103b3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:30 +0000
Subject: [PATCH 68/83] fix: the assignment heuristic uses the distances from
 the seeds (not from the depot and all but the last seed)

---
 verypy/classic_heuristics/gapvrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 75dc49b..b1020bc 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -122,7 +122,8 @@ def _solve_gap(N, D_s, d, C, K, L=None, L_ctr_multipiler=1.0):
     Y_ik_keys = [(i,k) for k in range(K) for i in range(1,N)]
     
     # delivery cost approximation coefficients for the objective function
-    insertion_cost = {(i,k): D_s[0,i]+D_s[k,i]-D_s[k,0] \
+    #  note that the first row of D_s is the depot and the seed k is on row k+1
+    insertion_cost = {(i,k): D_s[0,i]+D_s[k+1,i]-D_s[k+1,0] \
                               for i,k in Y_ik_keys}
                                   
     # variables and the objective
-- 
2.43.0


From 51571a8e8d4b8d476303aab9f3439c79097be3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:21 +0000
Subject: [PATCH 69/83] fix: seeds among the large demands can be tried in more
 than one way without a failure

---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index b1020bc..63ba2a3 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -531,7 +531,7 @@ def _large_demand_seed_points(points, D, d, C, K, trial=0):
         sorted_d = [(d[i], i) for i in not_over_half_idxs]
         sorted_d.sort(reverse=True)
         sorted_d_idxs = list(zip(*sorted_d))[1]
-        additional_large_d_idxs = sorted_d_idxs[max(0, trial-N):min(N,trial)]
+        additional_large_d_idxs = list(sorted_d_idxs[max(0, trial-N):min(N,trial)])
         candidate_d_idxs+=additional_large_d_idxs
         candidate_d_mask[additional_large_d_idxs] = True
     
-- 
2.43.0


From 83de93745abfc0fa6435f2965e7c920bfab851cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:21 +0000
Subject: [PATCH 70/83] fix: seeds at the ends of thoroughfares are found by
 distance (not node index) and when there are few points

---
 verypy/classic_heuristics/gapvrp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 63ba2a3..fbe4a7b 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -431,13 +431,13 @@ def _end_of_thoroughfares_seed_points(points, D, d, C, K, trial=0):
     
     # use a heuristic to get eps that finds all 2. closest nodes and 
     #  uses the median distance of those as the eps
-    N = len(d)
+    N = len(D)
     nnD = produce_nn_list(D)
-    nn = 2+trial%2+int(trial/4)
-    nn2l = [nnS[nn][0] for nnS in nnD]
+    nn = min(2+trial%2+int(trial/4), N-1)
+    nn2l = [nnS[nn][1] for nnS in nnD]
     nn2l.sort()
     min_size = 3#+int(trial/2)
-    eps = nn2l[int(N/2)]
+    eps = max(nn2l[int(N/2)], S_EPS) # must be positive
 
     ## Get non-core DBSCAN points    
     if __debug__:
@@ -484,7 +484,8 @@ def _end_of_thoroughfares_seed_points(points, D, d, C, K, trial=0):
                 if __debug__:
                      log(DEBUG-3,"Ran out of non-core nodes, select %d seed nodes from core nodes %s"%
                          (min(len(candidate_idxs), K-len(seeds)), str(candidate_idxs)))
-            else:
+            # there may not be any core nodes
+            if not candidate_idxs:
                 candidate_mask = outliers_mask
                 candidate_idxs = np.where(outliers_mask)[0].tolist()
                 candidates_type = "outliers"
-- 
2.43.0


From a05ccf0c0f2d9e91bd47b26ddb0ffe994bdf0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:48 +0000
Subject: [PATCH 71/83] fix: cheapest insertion asked for more emerging routes
 than there are customers does not fail

---
 verypy/classic_heuristics/cheapest_insertion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index d5c6a1f..2209600 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -310,8 +310,10 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     else:
         raise ValueError("Unknown route initialization method '%s'"%initialize_routes_with)
         
-    route_datas = [_initialize_new_route(seed_customers, unrouted, D, d)
-                   for k in range(emerging_route_count)]
+    # there can be fewer customers than emerging routes
+    route_datas = []
+    while len(route_datas)<emerging_route_count and len(unrouted)>0:
+        route_datas.append(_initialize_new_route(seed_customers, unrouted, D, d))
     if __debug__:
         for ri, rd in enumerate(route_datas):
             log(DEBUG, "Initialized a new route #%d %s"%(ri, str(list(rd.route))))
-- 
2.43.0


From 8d400f15ce07187da94498d752c009faa9380bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:48 +0000
Subject: [PATCH 72/83] fix: the two-phase heuristic seeded with the biggest
 customers does not fail without demands

---
 verypy/classic_heuristics/cmt_2phase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index 0dd4a48..f948564 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -66,6 +66,9 @@ def _closest_seed(D, d, unrouted):
     return unrouted[largest_D_0l_unrouted_idx]
 
 def _biggest_seed(D, d, unrouted):
+    if d is None:
+        # no demands, all customers are equal
+        return unrouted[0]
     npd = np.array(d)
     largest_d_unrouted_idx = int(np.argmax(npd[list(unrouted)]))
     return unrouted[largest_d_unrouted_idx]
-- 
2.43.0


From 27075fad933b4b64d84e04a96612d5fe05a2f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:40 +0000
Subject: [PATCH 73/83] fix: the assignment heuristic without adaptive weights
 goes on to the next seeds when the routes are too long

---
 verypy/classic_heuristics/gapvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index fbe4a7b..456ffe6 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -789,6 +789,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                 solved = False
                 sol_K = 0
                 take_next_seed = False
+                corrective_action = "try with another seed = %d"%seed_trial
                 try:
                     # Distribute the nodes to vehicles using the approxmate 
                     # service costs in D_s and by solving it as GAP
-- 
2.43.0


From a649ab15668d4aba41c17917ab5390a26830c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:36 +0000
Subject: [PATCH 74/83] fix: the sweep removes the customer it added last when
 the last route turns out to be too long

---
 verypy/classic_heuristics/sweep.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 6e9c5bb..d08be38 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -226,12 +226,16 @@ def do_one_sweep(N, D, d, C, L, routing_algo,
                 log(DEBUG-3, "Got TSP solution %s (%.2f)"%(str(tsp_sol),tsp_cost))
                      
             if L:
+                # the last added node is the one before the considered node, or
+                #  the one at sweep_pos if there is nothing left to consider
+                L_start_pos = sweep_pos if sweep_node is not None else \
+                              _step(sweep_pos, step_inc, max_sweep_idx)
                 L_feasible_pos = _ensure_L_feasible(D, d, C, L, 
-                    current_route, sweep_pos, step_inc, max_sweep_idx, routed, 
+                    current_route, L_start_pos, step_inc, max_sweep_idx, routed, 
                     sweep_pos_to_node_idx, routing_algo)
                 current_route_cost_upper_bound = current_route.cost
                 
-                if L_feasible_pos!=sweep_pos:
+                if L_feasible_pos!=L_start_pos:
                     sweep_pos = L_feasible_pos  
                     if sweep_node!=None:
                         sweep_node = sweep_pos_to_node_idx(sweep_pos)
-- 
2.43.0


From 847fcf7f9005f4884a405522c090526f558da017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:50 +0000
Subject: [PATCH 75/83] fix: the naive 2-opt* operator uses the constraint
 checker that exists

---
 verypy/local_search/naive_implementations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index 6bcad14..c3ca13d 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -225,7 +225,7 @@ def do_naive_2optstar_move(solution,D,d,C,L,
 
          
                 if delta+S_EPS<best_delta:
-                    if fast_constraint_check(ansatz_sol,D,demands,C,L):
+                    if _naive_constraint_check(ansatz_sol,D,demands,C,L):
                         best_delta = delta
                         best_sol = ansatz_sol
                         
-- 
2.43.0


From d3b7c6ab7e7ee42e77013d305128b2e8a2125637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 76/83] fix: the naive local search stops at its iteration
 limit

---
 verypy/local_search/naive_implementations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index c3ca13d..1d3fc5f 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -485,7 +485,7 @@ def do_naive_local_search(ls_ops, sol, D, d, C, L = None,
             sol = new_sol            
             iteration += 1
             if max_iterations and iteration==max_iterations:
-                break
+                return sol
     return sol
 
         
-- 
2.43.0


From 9ca7045e6745ddc40df0567444400ab4ac932105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:54 +0000
Subject: [PATCH 77/83] fix: the single heuristic program does not fail when no
 solution is found

---
 verypy/shared_cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 0905ec8..aeda1cc 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -152,6 +152,9 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
     if interrupted:
         raise KeyboardInterrupt()
     
+    if best_sol is None:
+        # the algorithm found no solution
+        return None, float('inf'), float('inf'), elapsed
     return best_sol, objf(best_sol, D), objf(best_sol, D_c), elapsed
     
 def get_a_problem_file_list(problem_paths, recursive=False):
@@ -310,7 +313,8 @@ def cli(init_name, init_desc, init_f):
             if interrupted:
                 break
                 
-        print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        if best_sol:
+            print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
     
     problem_file_list = get_a_problem_file_list([sys.argv[-1]])
     if not problem_file_list or "-h" in sys.argv or "--help" in sys.argv:
-- 
2.43.0


From 67e400409fca6f90444c2f7fea325eb28a4ea432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:57 +0000
Subject: [PATCH 78/83] fix: the MIP based heuristics do not take a decision
 variable within the solver tolerance of zero for one that is set

---
 verypy/classic_heuristics/gapvrp.py      | 3 ++-
 verypy/classic_heuristics/matchingvrp.py | 4 ++--
 verypy/classic_heuristics/petalvrp.py    | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 456ffe6..ad221b9 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -76,7 +76,8 @@ def _decision_variables_to_assignments(m, Y_ik, N, K):
     for k in range(K):
         route_nodes = []
         for i in range(1, N):
-            if Y_ik_values[i,k]:
+            # the solver gives binary variables only up to a tolerance
+            if Y_ik_values[i,k]>0.5:
                 route_nodes.append(i)
         assignments.append(route_nodes)
     return assignments
diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index f4672d8..44ffe29 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -91,10 +91,10 @@ def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     if m.Status == GRB.OPTIMAL:
         if w2_ij==None:
             max_wt, max_merge = max( (w1_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v>0.5 )
         else:
             max_wt, _, max_merge = max( (w1_ij[k], w2_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v>0.5 )
             
         return max_wt, max_merge[0], max_merge[1]
     elif m.Status == GRB.TIME_LIMIT:
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 82c51f7..835585a 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -364,7 +364,8 @@ def _decision_variables_to_petals(X, active_ptls, relaxed_ptls):
             # relaxed solution has additional decision variables for choosing
             #  which constraints to relax, skip them
             break
-        if v:
+        # the MIP solver gives binary variables only up to a tolerance
+        if v>0.5:
             if j<nactive:
                 r_w_idx = (list(active_ptls.routes[j]), j)
             else:
-- 
2.43.0


From 255fe029523c15061751c3d9c482eb6b517b347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:33 +0000
Subject: [PATCH 79/83] fix: the coordinates of the points can be given as a
 numpy array

---
 verypy/classic_heuristics/gapvrp.py              | 2 +-
 verypy/classic_heuristics/gillet_miller_sweep.py | 2 +-
 verypy/classic_heuristics/petalvrp.py            | 2 +-
 verypy/classic_heuristics/wren_holliday_sweep.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index ad221b9..7bdd6fd 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -713,7 +713,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     if seed_edge_weight_type=="EXPLICIT":
         seed_edge_weight_type = "EUC_2D" if int_dists else "EXACT_2D"
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(D)    
     if K:
diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index c5c515d..e8550ef 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -318,7 +318,7 @@ def gillet_miller_init(points, D, d, C, L=None, minimize_K=False,
                  - SMALLEST_ANGLE selects the (somewhat arbitary) customer
                     that has the smallest polar coordinate phi.
     """
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     
     return sweep_init(points, D, d, C, L, minimize_K,
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 835585a..3b99a59 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -667,7 +667,7 @@ def petal_init(points, D, d, C, L, K=None,
     or more depots to a number of delivery points. JORS, 23(3), 333-344.
     """
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(points)
     
diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 99cdc19..892460b 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -512,7 +512,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
     Research Society, 23(3), 333-344.
     """                      
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(D)
     
-- 
2.43.0


From 55a6a3df6e39ddf09005ba711fcf67c014610117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:33 +0000
Subject: [PATCH 80/83] fix: the edges of a symmetric solution are directed
 from the smaller node to the larger

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index d0d505c..82d23b2 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -97,7 +97,7 @@ def sol2edgeset(sol, symmetric=True):
     edges = set()
     for i in range(0,len(sol)-1):
         j = i+1
-        if symmetric or sol[i]<sol[j]:
+        if not symmetric or sol[i]<sol[j]:
             edges.add( (sol[i], sol[j]) )
         else:
             edges.add( (sol[j], sol[i]) )
-- 
2.43.0


From 3a496e872e2a6e8cb55aedde3765ceaa500e60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:17 +0000
Subject: [PATCH 81/83] fix: Tyagi's interchange keeps the best improving
 exchange, not the last one

---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 2daa552..e165eec 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -150,6 +150,10 @@ def route_end_interchange(route, route_d, route_l, D, d, C, L,
               (not C and L and l_delta<best_l_delta)):
             # insert last_added back!
             to_add_back_idx = to_remove_idx
+            if C:
+                best_d_delta = d_delta
+            else:
+                best_l_delta = l_delta
     
     ## Found an improving interchange, now push the node to be removed back to 
     # the unrouted nodes. 
-- 
2.43.0


From cc6d4ba7192762aa9a42d0d139d75b729ec983fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:17 +0000
Subject: [PATCH 82/83] fix: r-opt with shuffling does not visit the first node
 twice when it is given a closed tour

---
 verypy/tsp_solvers/tsp_solver_ropt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/tsp_solvers/tsp_solver_ropt.py b/verypy/tsp_solvers/tsp_solver_ropt.py
index 7fce828..3b9077c 100644
--- a/verypy/tsp_solvers/tsp_solver_ropt.py
+++ b/verypy/tsp_solvers/tsp_solver_ropt.py
@@ -25,6 +25,8 @@ def solve_tsp_ropt(D, selected_idxs,
     
     if do_shuffle:
         shuffled_idxs = list(selected_idxs[1:])
+        if shuffled_idxs and shuffled_idxs[-1]==endp:
+            shuffled_idxs.pop() # already a closed tour
         shuffle(shuffled_idxs)
         new_route = [endp]+shuffled_idxs+[endp]
     elif selected_idxs[-1]!=endp:
-- 
2.43.0


From 1ea27522ebf2aa2975ef6119a628e5e95ad834d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:53 +0000
Subject: [PATCH 83/83] fix: the nodes of a TSPLIB section can be listed in any
 order

---
 verypy/cvrp_io.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index f5e3e5e..d558e8b 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -150,6 +150,16 @@ def read_OPT_CVRP(file_name):
 
     return solution, opt_f, opt_k
          
+
+def _in_node_number_order(values, node_numbers):
+    """ The nodes of a section can be listed in any order. If they are numbered
+    1,2,... return their values in the order of the numbers, otherwise the
+    values are returned in the order they were listed."""
+    pos = dict( (nbr, i) for i, nbr in enumerate(node_numbers) )
+    expected = [str(i+1) for i in range(len(values))]
+    if not all(nbr in pos for nbr in expected):
+        return values
+    return [values[pos[nbr]] for nbr in expected]
        
 ProblemDefinition = namedtuple('ProblemDefinition',
     ['size', 'coordinate_points', 'display_coordinate_points',
@@ -211,6 +221,9 @@ def read_TSPLIB_CVRP(file_name):
         edge_weight_format = None
         
         depot_ids = []
+        # node numbers in the order of the listing in the sections
+        node_numbers = {'NODE_COORD_SECTION':[], 'DISPLAY_DATA_SECTION':[],
+                        'DEMAND_SECTION':[]}
         
         for l in fh.readlines():
             line = l.strip()
@@ -322,6 +335,7 @@ def read_TSPLIB_CVRP(file_name):
                             
                     elif section == 'NODE_COORD_SECTION':
                         coords = line.split()
+                        node_numbers[section].append(coords[0])
                         x = float( coords [1] )
                         y = float( coords [2] )
                         
@@ -339,6 +353,7 @@ def read_TSPLIB_CVRP(file_name):
                         section_pos+=1
                     elif  section == 'DISPLAY_DATA_SECTION':
                         coords = line.split()
+                        node_numbers[section].append(coords[0])
                         x = float( coords [1] )
                         y = float( coords [2] )
                         dd_points[section_pos][0] = x
@@ -346,6 +361,7 @@ def read_TSPLIB_CVRP(file_name):
                         section_pos+=1
                     elif  section == 'DEMAND_SECTION':
                         demand = line.split()
+                        node_numbers[section].append(demand[0])
                         c = float( demand[1] )
                         demands[section_pos] = c # pylint: disable=unsupported-assignment-operation
                         section_pos+=1
@@ -369,6 +385,13 @@ def read_TSPLIB_CVRP(file_name):
             #print edge_weight_format, ij_section_pos 
             raise IOError("Explicit distance matrix did not have enough values")
     
+    if points is not None:
+        points = _in_node_number_order(points, node_numbers['NODE_COORD_SECTION'])
+    if dd_points is not None:
+        dd_points = _in_node_number_order(dd_points, node_numbers['DISPLAY_DATA_SECTION'])
+    if demands is not None:
+        demands = _in_node_number_order(demands, node_numbers['DEMAND_SECTION'])
+    
     if D_needs_update:
         D = calculate_D(points, None, edge_weight_type )
     
-- 
2.43.0

