From 04daa8ec88b67019019f39fa6560256f5d52d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 01/30] fix: do_2optstar_move returns the true cost and demand
 of both routes

---
 verypy/local_search/inter_route_operators.py | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..1ae5cb9 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -129,11 +129,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,c]+route2_data.fwd_l[j],
+                                  r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,d]+route2_data.rwd_l[j+1],
+                                  r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -164,11 +166,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,d]+route2_data.rwd_l[j+1],
+                                  r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,c]+route2_data.fwd_l[j],
+                                  r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +184,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_cost, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_cost, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_cost,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_cost,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From 97708c9e4cafb7dcc336b7e23a6b91721792ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 02/30] fix: do_redistribute_move never inserts a customer to
 several routes

---
 verypy/local_search/inter_route_operators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 1ae5cb9..7035420 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -567,9 +567,8 @@ def do_redistribute_move(redisributed_route_data,
                 total_delta+=delta
                 if total_delta+S_EPS<best_delta:
                     node_succesfully_inserted = True
-                    break
-                else:
-                    continue
+                # inserted already, do not insert it also to the other routes
+                break
                 
             if not node_succesfully_inserted:
                 all_succesfully_inserted = False
-- 
2.43.0


From a29c2ec2cb60ea865a15b3f6a185bc3be2fb833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 03/30] fix: suppression_savings_init solves instances with a
 single customer

---
 verypy/classic_heuristics/suppression_savings.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..8ef60e8 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -77,11 +77,13 @@ def supression_savings_function(D, suppressed, savings_cache=None):
             savings_cache.sort(reverse=True)
             
     
-    first_savings = savings_cache[0]
-    suppress = (first_savings[2], first_savings[3])
-    if __debug__:
-        log(DEBUG, "Suppressing merge %s"%str(suppress))
-    suppressed.add( suppress )
+    # with a single customer there is no merge to suppress
+    if savings_cache:
+        first_savings = savings_cache[0]
+        suppress = (first_savings[2], first_savings[3])
+        if __debug__:
+            log(DEBUG, "Suppressing merge %s"%str(suppress))
+        suppressed.add( suppress )
     
     
     return savings_cache 
@@ -112,7 +114,8 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         # according to the (limited) experimental data of the Holmes & Parker
         #  (1976), for best results this can grow linearly.
         Lprime = int(N/7)+5
-    Lprime = min(Lprime, int((N**2-N)/2))
+    # there is always at least one iteration, even if there is nothing to merge
+    Lprime = max(1, min(Lprime, int((N**2-N)/2)))
     
     best_sol = None
     best_f = None
-- 
2.43.0


From e33d48bb730e7e0825684ab250ca491bc60253cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 04/30] fix: nearest_neighbor_init no longer loses customers
 with a zero distance to another node

---
 verypy/classic_heuristics/nearest_neighbor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..822485c 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -164,9 +164,10 @@ def nearest_neighbor_init(D, d, C, L=None,
     N = len(D)
     node_nearest_neighbors = [None]*N
     for i in range(N):
-        node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
-        node_nearest_neighbors[i].popleft() # pop reference to self
+        # leave out the reference to self
+        node_nearest_neighbors[i] = _PeekQueue( sorted(
+            ((j, D_ij) for j, D_ij in enumerate(D[i][:]) if j!=i),
+            key=itemgetter(1)) )
         
     # bookkeeping on the nodes that we have already served
     served = [False]*N
-- 
2.43.0


From b891d86bb0175331ca9afc509b0f26c227035905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 05/30] fix: mbsa_init stops when there are no (improving)
 merges left

---
 verypy/classic_heuristics/matchingvrp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 1116b11..9d9f9e9 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -290,6 +290,9 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
         while True:
             ## Step 1: Evaluate the weights and solve the weighted matching prolbem
             
+            if not savings:
+                break # a single route, nothing left to merge
+
             w_ij,x_ij_keys = zip(*savings)
             valid_matchings = any( w for w in w_ij if w!=W )
             if valid_matchings==0:
@@ -308,8 +311,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break
             
             if ignore_negative_savings and best_savings<0:
-                continue # do not allow merges that would make the solution worse
-                         # (even if it would mean fewer routes)
+                break # do not allow merges that would make the solution worse
+                      # (even if it would mean fewer routes)
     
             if __debug__:
                 log(DEBUG,"Best matching joins routes %s (idx:%d) and %s (idx:%d)."%(
-- 
2.43.0


From 14ad093aa2aa07d412cced637501dcced5dbb4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 06/30] fix: tyagi_init solves instances with a single customer

---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 496d119..8ad0fe2 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -307,6 +307,9 @@ def tyagi_init(D, d, C, L=None,
                                forbidden_nodes=[single_route_candidate],
                                route_improvement_callback=interchange_variant)
                                
+                if cndt_sol is None:
+                    continue # there were no other customers to group
+                               
                 cndt_K = cndt_sol.count(0)-1+1 #the single_route_candidate_node
                 if cndt_K>best_K:
                     if __debug__:
-- 
2.43.0


From 31573353d34b7f6bb444c28a57a39bd3c9e6bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 07/30] fix: Wren-Holliday sweep solves instances with a single
 customer

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 90134a7..8af35ac 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -758,7 +758,8 @@ def get_wh_algorithm():
     algo_name = "WH72-SwLS"
     algo_desc = "Wren and Holliday (1972) Sweep heuristic"
     def call_init(points, D, d, C, L, st, wtt, single, minimize_K):
-        seed_node = 1 if single else BEST_OF_FOUR
+        # there are len(D)-1 positions in the sweep
+        seed_node = min(1, len(D)-2) if single else BEST_OF_FOUR
         return wren_holliday_init(points, D, d, C, L, minimize_K, seed_node)
     call_init.__doc__ = wren_holliday_init.__doc__
     return (algo_name, algo_desc, call_init)
-- 
2.43.0


From 67d9dec28d1e243ab0b8fa29f052bd08b35a5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 08/30] fix: the petal algorithm can be imported without an
 external TSP solver

---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..8455533 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -17,6 +17,7 @@ from __future__ import print_function
 from __future__ import division
 from builtins import range
 
+from sys import stderr
 from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import ceil    
-- 
2.43.0


From 8ee715372f7eb41e992bdd07fb49ddc02a286eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 09/30] fix: petal_init does not stop at a solution that misses
 customers

---
 verypy/classic_heuristics/petalvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 8455533..19e9709 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -935,7 +935,9 @@ def petal_init(points, D, d, C, L, K=None,
                 # Finally, abort if no improvements can be found.
                 break
                 
+            # ... but do not stop at a solution that leaves customers unserved.
             if required_iterations and iteration_counter>=required_iterations and\
+                best_sol_feasible and\
                 not (min_iterations and iteration_counter<min_iterations):        
                 break # main iteration loop
         
-- 
2.43.0


From 237847dd7a8ba6e77dfda4402afffdde3edeaeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 10/30] fix: wren_holliday_init stops when its operations start
 to cycle

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 8af35ac..949e362 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -619,6 +619,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
         prev_iteration_sol_f = None
+        iteration_states = set()
         changed = False
         
         try:
@@ -721,6 +722,12 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                         solution_changed_between_iterations = False
                 prev_iteration_sol_f = sol_f
                 
+                # the operations may also cycle between several solutions
+                iteration_state = (deleted, tuple(tuple(rd.route) for rd in routes))
+                if iteration_state in iteration_states:
+                    solution_changed_between_iterations = False
+                iteration_states.add(iteration_state)
+                
                 if converging and (
                   (full_convergence and not changed) or
                   (not full_convergence and not deleted) or 
-- 
2.43.0


From 9ef0f827cf13ed6ef9f019880e1d694b393a365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 11/30] fix: petal_init stops after all solutions with the
 smallest number of routes are explored

---
 verypy/classic_heuristics/petalvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 19e9709..8226060 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -867,7 +867,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint:
+                elif K_constraint and K_constraint<N and not best_sol_feasible:
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-- 
2.43.0


From e0fb28f972e461b0feca281ab6e6bee405728d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 12/30] fix: cheapest insertion breaks ties repeatably, not by
 memory address

---
 verypy/classic_heuristics/cheapest_insertion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..e0dfd18 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -18,6 +18,7 @@ from builtins import range
 
 from collections import namedtuple
 from heapq import heappush, heappop
+from itertools import count
 from logging import log, DEBUG, WARNING
 
 from verypy.util import objf, routes2sol
@@ -95,6 +96,9 @@ def _initialize_new_route(seed_customers, unrouted, D, d):
 
 Insertion = namedtuple('Insertion', ['customer', 'after_node', 'before_node',
                                      'cost_delta', 'demand_delta'])
+# breaks the ties between the potential insertions (the oldest one goes first)
+_insertion_counter = count()
+
 def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
                               insertion_strain_callback):
     for customer in unrouted:
@@ -123,7 +127,7 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        heappush( rd.potential_insertions, (sorting_key, next(_insertion_counter), insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
-- 
2.43.0


From e7411b2eb737fb570631be72323cebbabb7f6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 13/30] fix: OrderedDictSet indexing agrees with its elements
 after additions

---
 verypy/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..6bb7961 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -166,8 +166,10 @@ class OrderedDictSet:
         del self.ods[element]
         self.keylist = None # needs update
     def add(self, element):
+        if element in self.ods:
+            return # keeps its place
         self.ods[element] = None
-        if self.keylist:
+        if self.keylist is not None:
             self.keylist.append(element) # avoid full update
     def difference_update(self, collection):
         for element in collection:
-- 
2.43.0


From 09729e057eb3b8418fc7e8f3fad761ea6cc032cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 14/30] fix: D2D_c does not drop half units of odd or
 fractional service times

---
 verypy/cvrp_ops.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..40f76cc 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -237,12 +237,14 @@ def D2D_c(D, st):
         raise ValueError("Service time not set")
     
     tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    halftst = D.dtype.type(st/2.0)
+    if float(tst)!=float(st) or float(halftst)!=float(st/2.0):
+        # the service time, or its half, is not an integer but the distances are
         D_c = D.astype('d')
-        halftst = tst/2.0
+        tst = float(st)
+        halftst = st/2.0
     else:
         D_c = np.copy(D)    
-        halftst = int(tst/2)
     
     D_c[1:,1:]+=tst
     D_c[0,:]+=halftst
-- 
2.43.0


From f06bb4e9127b4b65b6e05e13555c06a321656662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 15/30] fix: sol2edgeset orders the edge ends for symmetric
 problems

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index 6bb7961..6ea24ad 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -97,7 +97,7 @@ def sol2edgeset(sol, symmetric=True):
     edges = set()
     for i in range(0,len(sol)-1):
         j = i+1
-        if symmetric or sol[i]<sol[j]:
+        if not symmetric or sol[i]<sol[j]:
             edges.add( (sol[i], sol[j]) )
         else:
             edges.add( (sol[j], sol[i]) )
-- 
2.43.0


From c1b5c0148859503517f6f8959ed0f74461430be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 16/30] fix: read_TSPLIB_CVRP moves the depot to index 0 also
 in the last row and column of D

---
 verypy/cvrp_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..3e4319a 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -385,9 +385,9 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
+        for i in range(len(D)):
             D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
+        for i in range(len(D)):
             D[i,:] = D[i,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
-- 
2.43.0


From e17f1914ee578eb1ca8b8db3d31eecae736ca418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 17/30] fix: read_OPT_CVRP counts the routes and reads the cost
 line of as_OPT_solution

---
 verypy/cvrp_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 3e4319a..55b878a 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -132,7 +131,8 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    # both "Cost 123" and "Cost : 123" are used
+                    coststring = l.split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
@@ -145,7 +145,7 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
-    if count_k or not opt_k:
+    if not opt_k:
         opt_k = count_k
     elif opt_k!=count_k:
         print("WARNING: the vehicle count in file name and solution differ", file=stderr)
-- 
2.43.0


From df6fecbbe3c7d70801e4024f4ec32f96ecba10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 18/30] fix: read_TSBLIB_additional_constraints reads
 SVC_TIME_SECTION

---
 verypy/cvrp_io.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 55b878a..f1e0455 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -419,15 +419,21 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
             if reading_service_time_section:
-                nid, nst = l.split()
-                if "." in nst:
-                    nst = float(nst)
-                else:
-                    nst = int(nst)
-                if ST is not None and nst!=ST:
-                    raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
-                    ST = nst
+                svc_time = l.split()
+                if len(svc_time)==2 and svc_time[0].isdigit():
+                    nid, nst = svc_time
+                    if "." in nst:
+                        nst = float(nst)
+                    else:
+                        nst = int(nst)
+                    # the depot (1) has no service time
+                    if int(nid)!=1:
+                        if ST is not None and nst!=ST:
+                            raise IOError("Only single (same) service time for all customers is supported")
+                        ST = nst
+                elif svc_time:
+                    # another section, or the end of the file
+                    reading_service_time_section = False
             if "DISTANCE" in l:
                 if "." in l:
                     L = float( l.split()[-1] )
-- 
2.43.0


From c6d7155bdeb9a48f228fb991e72ef011edf4c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 19/30] fix: write_TSPLIB_file writes the demands of the
 selected nodes and fractional limits

---
 verypy/cvrp_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index f1e0455..e50b8b6 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -535,7 +535,7 @@ def write_TSPLIB_file(tsplib_file_path, D,
             else:
                 problem_file.write("CAPACITY: %d\n"%len(D))
             if L:
-                problem_file.write("DISTANCE: %d\n"%L)
+                problem_file.write("DISTANCE: %s\n"%L)
         else:    
             problem_file.write("TYPE: TSP\n")
         problem_file.write("COMMENT: temporary CVRP or TSP problem\n")
@@ -555,10 +555,10 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
-                for i in range(2,len(d)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[i-1])))
+                for ii, i in enumerate(selected_idxs[1:]):
+                    problem_file.write("%d %s\n"%(ii+2, d[i]))
             else:
-                for i in range(2,len(D)+1):
+                for i in range(2,len(selected_idxs)+1):
                     problem_file.write("%d 1\n"%i)
             problem_file.write("DEPOT_SECTION\n")
             problem_file.write("1\n")
-- 
2.43.0


From bac98198df66afdf58eb770b0f3895745f084049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 20/30] fix: solve_tsp_ropt shuffling a closed selection
 visited its end point twice

---
 verypy/tsp_solvers/tsp_solver_ropt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/tsp_solvers/tsp_solver_ropt.py b/verypy/tsp_solvers/tsp_solver_ropt.py
index 7fce828..3b9077c 100644
--- a/verypy/tsp_solvers/tsp_solver_ropt.py
+++ b/verypy/tsp_solvers/tsp_solver_ropt.py
@@ -25,6 +25,8 @@ def solve_tsp_ropt(D, selected_idxs,
     
     if do_shuffle:
         shuffled_idxs = list(selected_idxs[1:])
+        if shuffled_idxs and shuffled_idxs[-1]==endp:
+            shuffled_idxs.pop() # already a closed tour
         shuffle(shuffled_idxs)
         new_route = [endp]+shuffled_idxs+[endp]
     elif selected_idxs[-1]!=endp:
-- 
2.43.0


From 3098c2c334a86ff98080cbd4207696d3c8bf51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 21/30] fix: rfcs partitioning is the optimal split of the
 giant tour (Floyd-Warshall loop order, single route)

---
 verypy/classic_heuristics/rfcs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..a8988c5 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -98,12 +98,13 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                 sequence_D[u_idx,v_idx] = route_cost+route_cost_constant
                 next_split[u_idx,v_idx] = v_idx
                 
+                # the full loop, i.e. all of the customers on a single route
+                if v_idx==u_idx:
+                    break
                 # leave out the last node of the giant tour (same as the first)
                 v_idx+=1
                 if v_idx==gtl:
                     v_idx = 0
-                if v_idx==u_idx:
-                    break
             
             # leave out the last node of the giant tour (same as the first)
             u_idx+=1
@@ -116,9 +117,9 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     #  note that we cannot use floyd_warshall from scipy.sparse.csgraph, as 
     #  this initializes the i==i to 0, which is exactly the distance we are 
     #  interested in!
-    for i in range(N):
-        for j in range(N):
-            for k in range(N):
+    for k in range(N):
+        for i in range(N):
+            for j in range(N):
                 if sequence_D[i,j] > sequence_D[i,k]+sequence_D[k,j]:
                     sequence_D[i,j] = sequence_D[i,k]+sequence_D[k,j]
                     next_split[i,j] = next_split[i,k]
-- 
2.43.0


From a543931e6df61b5cccff295ebeaa3035dc314e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 22/30] fix: sweep removes the last swept customers first when
 the last route breaks L

---
 verypy/classic_heuristics/sweep.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 6e9c5bb..629b64e 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -225,21 +225,25 @@ def do_one_sweep(N, D, d, C, L, routing_algo,
                     log(DEBUG-2, "Route %s full."%str(list(current_route.node_set)))
                 log(DEBUG-3, "Got TSP solution %s (%.2f)"%(str(tsp_sol),tsp_cost))
                      
+            # when there is no node to consider next, sweep_pos is still at the
+            #  last swept node
+            all_swept = sweep_node==None
             if L:
+                next_pos = _step(sweep_pos, step_inc, max_sweep_idx) \
+                           if all_swept else sweep_pos
                 L_feasible_pos = _ensure_L_feasible(D, d, C, L, 
-                    current_route, sweep_pos, step_inc, max_sweep_idx, routed, 
+                    current_route, next_pos, step_inc, max_sweep_idx, routed, 
                     sweep_pos_to_node_idx, routing_algo)
                 current_route_cost_upper_bound = current_route.cost
                 
-                if L_feasible_pos!=sweep_pos:
+                if L_feasible_pos!=next_pos:
                     sweep_pos = L_feasible_pos  
-                    if sweep_node!=None:
-                        sweep_node = sweep_pos_to_node_idx(sweep_pos)
+                    sweep_node = sweep_pos_to_node_idx(sweep_pos)
                     # route is full if L constraint was violated
                     route_complete = True
                     route_interesting = False
                 
-            if sweep_node!=None and intra_route_callback:                
+            if not all_swept and intra_route_callback:
                 # Do intra route improvement. It may include new unrouted
                 #  customers to the route or remove existing ones!
                 current_route, included_nodes, ignored_nodes, route_complete = \
-- 
2.43.0


From ece59143cc0df4ddaefc84286adc77894ee12aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 23/30] fix: cheapest_insertion_init with more emerging routes
 than customers

---
 verypy/classic_heuristics/cheapest_insertion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index e0dfd18..98d3c2f 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -309,7 +309,7 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
         raise ValueError("Unknown route initialization method '%s'"%initialize_routes_with)
         
     route_datas = [_initialize_new_route(seed_customers, unrouted, D, d)
-                   for k in range(emerging_route_count)]
+                   for k in range(min(emerging_route_count, len(D)-1))]
     if __debug__:
         for ri, rd in enumerate(route_datas):
             log(DEBUG, "Initialized a new route #%d %s"%(ri, str(list(rd.route))))
-- 
2.43.0


From 98174d9e84c8031bdd03913405f2f6542d9e557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 24/30] fix: ATT distances follow the TSPLIB definition

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index e50b8b6..5bf701b 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -73,7 +73,7 @@ def _geo(pt1, pt2):
 def _att(pt1,pt2):
     dx = pt1[0]-pt2[0]
     dy = pt1[1]-pt2[1]
-    r = sqrt(dx**2+dy**2)/10.0
+    r = sqrt((dx**2+dy**2)/10.0)
     t = int(r)
     return t+1 if t<r else t
 
-- 
2.43.0


From 1a3a8a32075590702ec59ceaa530bc6672926f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 25/30] fix: normalize_solution crashed on an empty route in a
 list of routes

---
 verypy/cvrp_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 40f76cc..5ce4d9a 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -53,6 +53,7 @@ def normalize_solution(sol):
     # Already in parts
     if hasattr(sol[0], '__len__'):
         routes = [_list_trim(route, 0) for route in sol]
+        routes = [route for route in routes if route]
     else:
         #print(sol
         routes = _list_split(sol, 0)
-- 
2.43.0


From 25af48deeceaf65487bb948a3127bb095cb8d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 26/30] fix: lr3opt_init never stopped when every node is
 co-located with another one

---
 verypy/classic_heuristics/lr3opt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 597eb2c..a9358f8 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -292,6 +292,10 @@ def lr3opt_init(D, d, C, L,
             closest_neighbor_D = D.copy()
             np.fill_diagonal(closest_neighbor_D, max_D)
             lambdas[1] = np.average(closest_neighbor_D.min(axis=0))/(10*max_D)
+            if not lambdas[1]>0:
+                # every node is co-located with another, and doubling 0.0 would never
+                #  penalize anything. Start from the value of Stewart & Golden (1984).
+                lambdas[1] = 0.05
 
         if __debug__:
             log(DEBUG, "Start from initial solution %s (%.2f), and with l1=%.2f, l2=%.2f"%
-- 
2.43.0


From 30568b5c7ddf41d1e4629d5a6fd7ef192c831379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 27/30] fix: lr3opt_init checks the route cost multiplier for
 overflow

---
 verypy/classic_heuristics/lr3opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index a9358f8..7ed5445 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -348,7 +348,7 @@ def lr3opt_init(D, d, C, L,
                         lambda_at_inf = lambdas[0]==float('inf')
                     if lambdas[1] is not None:
                         lambdas[1] = lambdas[1]*2
-                        lambda_at_inf = lambda_at_inf or lambdas[0]==float('inf')
+                        lambda_at_inf = lambda_at_inf or lambdas[1]==float('inf')
                     if __debug__:
                         log(DEBUG-1, "No improving moves left, increasing lambda to l1=%.2f, l2=%.2f"%
                             ((0 if lambdas[0] is None else lambdas[0]),
-- 
2.43.0


From cf61eb121f25860d932ccbc8cb595e524b07ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 28/30] fix: LR3OPT does not alternate forever between
 solutions that differ by rounding errors

---
 verypy/classic_heuristics/lr3opt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 7ed5445..f36e902 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -322,7 +322,10 @@ def lr3opt_init(D, d, C, L,
             
             # local optima reached, tighten the relaxation
             # TODO: it should not happen that the sol==new_sol. However it happens and as a quickfix check for it.
-            if delta is None or sol==new_sol:
+            # Note: the rounding errors of the penalties grow with the multipliers,
+            #  do not alternate between solutions that differ only by those.
+            negligible = S_EPS*max([1.0]+[lm for lm in lambdas if lm is not None])
+            if delta is None or delta>-negligible or sol==new_sol:
                 # return the first feasible solution (note: does not check for covering)
                 if _check_CL_constraints(sol,D,d,C,L):
                     if __debug__:
-- 
2.43.0


From 59bfce3e9f2595c1d9521af8a10f06942e77d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:16 +0000
Subject: [PATCH 29/30] fix: sequential savings seeds of the "savings"
 initialization when there is a single customer

---
 verypy/classic_heuristics/sequential_savings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sequential_savings.py b/verypy/classic_heuristics/sequential_savings.py
index 85fb182..e241393 100644
--- a/verypy/classic_heuristics/sequential_savings.py
+++ b/verypy/classic_heuristics/sequential_savings.py
@@ -98,8 +98,8 @@ def sequential_savings_init(D, d, C, L=None, minimize_K=False,
         seed_customers = sum(
             (clarke_wright_savings(unrouted, i, D) for i in range(1,N)), [])
         seed_customers.sort()
-        _,_,_,seed_customers = zip(*seed_customers)
-        seed_customers = list(seed_customers)
+        # a single customer has no savings, but still needs to be a seed
+        seed_customers = list(range(1,N))+[j for _,_,_,j in seed_customers]
     elif callable(initialize_routes_with):
         seed_customers = initialize_routes_with(D)
     else:
-- 
2.43.0


From c3f4ce448a0b06602dd680cd945badf29515d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:17 +0000
Subject: [PATCH 30/30] fix: OrderedDictSet.difference_update fails when given
 the set itself

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index 6ea24ad..8e6c484 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -172,7 +172,7 @@ class OrderedDictSet:
         if self.keylist is not None:
             self.keylist.append(element) # avoid full update
     def difference_update(self, collection):
-        for element in collection:
+        for element in list(collection): # it can be this set
             self.ods.pop(element, None)
         self.keylist = None # needs update
     def __getitem__(self, index):
-- 
2.43.0

