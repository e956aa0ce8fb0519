From b6cadd3e8bf299ce618b190a9251d9e5e9229625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 01/18] fix: L2 direction across the periodic boundary

When X and Y lie on opposite edges the normalized difference points the wrong
way, so Z was X itself and no site was ever reached across the boundary.
---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 9065cbf..62c6916 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -213,8 +213,8 @@ class SitePercolationL2(SitePercolation):
                 # if central2 is occupied then select the one in the direction
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
                 Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
-                delta_X = Y_index - X_index
-                delta_X.normalize()
+                # one step from X to Y, also when they lie on opposite edges of the lattice
+                delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=Y_index - X_index))
                 # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
                 Z_index = Y_index + delta_X
                 # print("Z_index ", Z_index)
-- 
2.43.0


From 87c9eb95ea33f6f081f854c14939fbc4de7f0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 02/18] fix: L1 and L2 drop a site only when all its four
 directions are blocked

A site was dropped from the candidates after four failed trials, also when these
hit the same occupied neighbour again and again and another neighbour was empty.
This biased the choice of the next site. Count each direction once.
---
 .../simulation/percolation_sq_lattice_L1L2.py      | 12 +++++++-----
 source_py/simulation/site.py                       | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 62c6916..41702ba 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -95,10 +95,11 @@ class SitePercolationL1(SitePercolation):
             # sites = self.get_four_neighbor_sites(central_X)
             sites = self.lattice_ref.get_all_neighbor_sites(central_X)
             # print("four neighbors ", sites)
-            central2 = sites[random.randint(0, len(sites)-1)]
+            direction = random.randint(0, len(sites)-1)
+            central2 = sites[direction]
             if self.lattice_ref.get_site_by_id(central2).is_occupied():
                 # print("first neighbor is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
+                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn(direction)
                 if self.lattice_ref.get_site_by_id(central_X).is_removable(1):
                     # print("is_removable")
                     # print("self.site_ids_indices before ", self.site_ids_indices)
@@ -201,14 +202,15 @@ class SitePercolationL2(SitePercolation):
         Z_id = central_X
         if self.lattice_ref.get_site_by_id(central_X).is_occupied():
             sites = self.lattice_ref.get_all_neighbor_sites(central_X)
-            Y_id = sites[random.randint(0, len(sites) - 1)]
+            direction = random.randint(0, len(sites) - 1)
+            Y_id = sites[direction]
             Z_id = Y_id
             # print("X is occupied")
             self.x_occupied += 1
 
             if self.lattice_ref.get_site_by_id(Y_id).is_occupied():
                 # print("Y is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
+                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn(direction)
 
                 # if central2 is occupied then select the one in the direction
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
@@ -223,7 +225,7 @@ class SitePercolationL2(SitePercolation):
                 Z_id = self.lattice_ref.get_site_by_index(Z_index).get_id()
                 if self.lattice_ref.get_site_by_id(Z_id).is_occupied():
                     self.y_occupied += 1
-                    self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn()
+                    self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn(direction)
                     if self.lattice_ref.get_site_by_id(central_X).is_removable(2):
                         # print("is_removable")
                         self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]
diff --git a/source_py/simulation/site.py b/source_py/simulation/site.py
index 28bf5ed..7a96bcc 100644
--- a/source_py/simulation/site.py
+++ b/source_py/simulation/site.py
@@ -13,6 +13,8 @@ class Site(Element):
         self.relative_index = RelativeIndex()
         self.first_nn_count = 4 # for L1 percolation
         self.second_directional_nn_count = 4 # for L2 percolation
+        self.blocked_1st_nn = set()  # directions already counted in first_nn_count
+        self.blocked_2nd_nn = set()  # directions already counted in second_directional_nn_count
 
     def reset(self):
         super(Site, self).reset()
@@ -20,6 +22,8 @@ class Site(Element):
         self.relative_index = RelativeIndex()
         self.first_nn_count = 4  # for L1 percolation
         self.second_directional_nn_count = 4  # for L2 percolation
+        self.blocked_1st_nn = set()
+        self.blocked_2nd_nn = set()
         pass
 
     def test_site(self):
@@ -42,13 +46,19 @@ class Site(Element):
     def get_nn_count(self):
         return self.first_nn_count, self.second_directional_nn_count
 
-    def reduce_1st_nn(self):
+    def reduce_1st_nn(self, direction):
+        if direction in self.blocked_1st_nn:
+            return
+        self.blocked_1st_nn.add(direction)
         if self.first_nn_count <=0:
             assert self.first_nn_count >= 0
             return
         self.first_nn_count -= 1
 
-    def reduce_2st_directional_nn(self):
+    def reduce_2st_directional_nn(self, direction):
+        if direction in self.blocked_2nd_nn:
+            return
+        self.blocked_2nd_nn.add(direction)
         if self.second_directional_nn_count <=0:
             assert self.second_directional_nn_count >= 0
             return
-- 
2.43.0


From 989fdb569ceefb96e1d3e4a4c113ce5644606fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 03/18] fix: do not shuffle or edit the site list of the caller

---
 source_py/simulation/percolation_sq_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index a3dc87f..88a812c 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -162,7 +162,7 @@ class SitePercolation(Percolation):
         if max(site_id_list) > max_index or min(site_id_list) < min_index:
             print("Invalid site id list")
             return
-        self.site_ids_indices = site_id_list
+        self.site_ids_indices = list(site_id_list)  # the list of the caller must not be changed
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
         self.max_iteration_limit = len(site_id_list)
-- 
2.43.0


From 3e25bbec615ea5f23260f0d5fc3118031af46a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 04/18] fix: reject site indices with a row or column outside
 of the lattice

Only the resulting id was checked, so e.g. (0, L+2) silently became (1, 2).
---
 source_py/simulation/percolation_sq_lattice.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 88a812c..11776b4 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -173,12 +173,14 @@ class SitePercolation(Percolation):
         """
         site_id_list: list of sites.
         """
-        max_index = self.lattice_ref.length**2 - 1
-        min_index = 0
+        length = self.lattice_ref.length
+        for idx in site_index_list:
+            row, col = idx.as_list() if isinstance(idx, Index) else idx
+            if not (0 <= row < length and 0 <= col < length):
+                print("Invalid site id list")
+                return
+            pass
         site_index_list = [self.lattice_ref.calculate_id_from_index(idx) for idx in site_index_list]
-        if max(site_index_list) > max_index or min(site_index_list) < min_index:
-            print("Invalid site id list")
-            return
         self.site_ids_indices = site_index_list
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
-- 
2.43.0


From 206ab36aa30faebd5f377c83d2c411a2b0e0edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 05/18] fix: L1 and L2 runs on a custom site list end instead
 of raising ValueError

When all candidates of a list shorter than the lattice are dropped there is
nothing left to choose from.
---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 41702ba..0ce45aa 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -82,7 +82,7 @@ class SitePercolationL1(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL1.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
@@ -194,7 +194,7 @@ class SitePercolationL2(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL2.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
-- 
2.43.0


From fe5b4d3ca3b5e441ae9e52831ed2bd173e421769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 06/18] fix: detect_wrapping before the first placement raised
 TypeError

---
 source_py/simulation/percolation_sq_lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 11776b4..e5b790f 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -638,6 +638,8 @@ class SitePercolation(Percolation):
     def detect_wrapping(self):
         if self.after_wrapping:
             return True
+        if self.selected_id is None:  # no site has been placed yet
+            return False
         # print("detect_wrapping")
         neighbors = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
         # print("neighbors of self.selected_id with same gid : ", neighbors)
-- 
2.43.0


From e0151fed33b4f81c7a48601f5517a3203a803397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 07/18] fix: record the occupation probabilities of every run

They were kept from the first run only, so get_data_array raised ValueError
whenever a later or continued run had another number of sites.
---
 source_py/simulation/percolation_sq_lattice.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index e5b790f..b636e16 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -261,9 +261,7 @@ class SitePercolation(Percolation):
         self.occupied_site_count = 0
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
-        if self.first_run:
-            self.occupation_prob_list = list()
-            pass
+        self.occupation_prob_list = list()
         del self.entropy_list
         self.entropy_list = list()
         del self.order_wrapping_list
@@ -680,9 +678,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
@@ -744,9 +740,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From ae2eb015ad91365797fe477dc804b84630215c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 08/18] fix: shortest path missed when a finished row or column
 joins by a merge

Only the row and the column of the current site were scanned, so a straight
line completed in another wrapping cluster was not noticed when that cluster
was merged into the tracked one through a site of another row and column.
---
 .../simulation/percolation_sq_lattice_shortest_path.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_shortest_path.py b/source_py/simulation/percolation_sq_lattice_shortest_path.py
index fa36402..e863763 100644
--- a/source_py/simulation/percolation_sq_lattice_shortest_path.py
+++ b/source_py/simulation/percolation_sq_lattice_shortest_path.py
@@ -34,6 +34,7 @@ class ShortestPathAfter_pc(SitePercolation):
         # sq_lattice_p.viewLattice(3)
         # sq_lattice_p.viewCluster()
         # print("get_occupation_prob_array ", self.get_occupation_prob_array())
+        wrapping_site_count = 0
         while self.place_one_site():
             # print("self.selection_flag ", self.selection_flag)
             # self.viewLattice(3)
@@ -44,6 +45,15 @@ class ShortestPathAfter_pc(SitePercolation):
                     index = self.current_site.get_index()
                     column_flag, row_flag = self.scan_row_col_of_selected_site(index)
 
+                    # a row or column completed in another cluster can join the wrapping cluster by a merge,
+                    # without passing through the current site. Such a cluster has at least `length` sites
+                    site_count = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
+                    if site_count - wrapping_site_count > self.lattice_ref.length:
+                        column_flag = column_flag or self.scan_all_cols()
+                        row_flag = row_flag or self.scan_all_rows()
+                        pass
+                    wrapping_site_count = site_count
+
                     if column_flag or row_flag:
                         # print("Got to the shortest path point by placing ", self.current_site)
                         # self.viewLattice(1)
-- 
2.43.0


From fc76b04474a1616f15604893ac42650669bc9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 09/18] fix: L1 and L2 report the sites in the order they were
 occupied

get_site_id_sequence (both) and get_index_sequence (L2) returned the list of
candidates, which has repeated ids, so a recorded realization could not be
replayed.
---
 .../simulation/percolation_sq_lattice_L1L2.py  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 0ce45aa..ced060a 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -29,6 +29,9 @@ class SitePercolationL1(SitePercolation):
         self.x_occupied = 0
         self.site_id_sequence_record = []
 
+    def get_site_id_sequence(self):
+        return self.site_id_sequence_record
+
     def get_index_sequence(self):
         indices = []
         for id in self.site_id_sequence_record:
@@ -148,6 +151,8 @@ class SitePercolationL2(SitePercolation):
         self.signature += "L2_"
         self.x_occupied = 0
         self.y_occupied = 0
+        # sites in the order they were occupied, as in L1
+        self.site_id_sequence_record = []
         # print("SitePercolationL2.init")
         logging.info("SitePercolationL2.init")
         pass
@@ -157,6 +162,18 @@ class SitePercolationL2(SitePercolation):
         self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
+
+    def get_site_id_sequence(self):
+        return self.site_id_sequence_record
+
+    def get_index_sequence(self):
+        indices = []
+        for id in self.site_id_sequence_record:
+            idx = self.lattice_ref.get_site_by_id(id).get_index()
+            indices.append(idx.as_list())
+            pass
+        return indices
 
     def get_signature(self):
         return self.signature
@@ -239,6 +256,7 @@ class SitePercolationL2(SitePercolation):
         # self.swap_ids(central_X, central)
         # print("central ", Z_id)
         self.selected_id = Z_id
+        self.site_id_sequence_record.append(self.selected_id)
         self.current_site = self.lattice_ref.get_site_by_id(self.selected_id)
         assert self.current_site.get_gid() == -1  # must be unoccupied
         # print("selected id ", self.selected_id)
-- 
2.43.0


From e95301cdf37fc715de9bcb4b3c2684f4a460e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 10/18] fix: file headers named the order parameter columns the
 wrong way round

The third column of the data is the largest cluster's order parameter and the
fourth one the wrapping cluster's.
---
 run_py/ensemble.py              | 4 ++--
 run_py/rsbd_percolatioin_run.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index fbca2f9..02151e8 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -66,7 +66,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
@@ -147,7 +147,7 @@ def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, t
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P2=order parameter by wrapping cluster", "P1=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
 
     filename = "./data/" + filename
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 1636886..c806927 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -49,7 +49,7 @@ def single_realization(percolationClass, length):
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     with open(filename, 'w') as f:
-- 
2.43.0


From e7e2d418321c9b0f41947c1058e2961d4f4d935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 11/18] fix: run_simulation_threads and _v2 passed no
 percolation class to the workers

The arguments were shifted by one, so that every thread died with TypeError.
---
 run_py/rsbd_percolatioin_run.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index c806927..877e2f6 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -62,6 +62,8 @@ def single_realization(percolationClass, length):
 
 def run_simulation_threads():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     lengths = [200, 300, 400]
     En = 500
 
@@ -71,7 +73,7 @@ def run_simulation_threads():
     all_threads = []
     for LL in lengths:
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(LL, En, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, LL, En, i))
         i += 1
         all_threads.append(thread)
         thread.start()
@@ -82,6 +84,8 @@ def run_simulation_threads():
 
 def run_simulation_threads_v2():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     length = 10
     thread_counts = 2
     En = 1000
@@ -92,7 +96,7 @@ def run_simulation_threads_v2():
     all_threads = []
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, En_per_thread, i))
         all_threads.append(thread)
         thread.start()
         pass
-- 
2.43.0


From b374c944fa9409e5ec6c06c17cbbc5d1dcf3ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 12/18] fix: launchers lost realizations when the ensemble is
 not divisible by the workers

E.g. 100 realizations over 3 workers made 99, and with fewer realizations than
workers every worker failed on an empty ensemble.
---
 run_py/ensemble.py              | 10 ++++++++++
 run_py/rsbd_percolatioin_run.py |  9 +++------
 run_py/shortest_path_run.py     |  4 ++--
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index 02151e8..44dd3a4 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -5,6 +5,16 @@ import numpy as np
 import time
 import logging
 
+def ensemble_shares(ensemble_size, worker_count):
+    """
+    number of realizations of each worker. The sum is exactly `ensemble_size`.
+    Workers without any work are left out.
+    """
+    share, extra = divmod(ensemble_size, worker_count)
+    shares = [share + 1 if i < extra else share for i in range(worker_count)]
+    return [s for s in shares if s > 0]
+
+
 def run_ensemble_entropy_order(percolationClass, length, ensembleSize, interaction=0):
     """
     run simulation for site percolation on square lattice.
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 877e2f6..ecc2bc5 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -89,12 +89,11 @@ def run_simulation_threads_v2():
     length = 10
     thread_counts = 2
     En = 1000
-    En_per_thread = En // thread_counts
 
     from threading import Thread
 
     all_threads = []
-    for i in range(thread_counts):
+    for i, En_per_thread in enumerate(ensemble.ensemble_shares(En, thread_counts)):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, En_per_thread, i))
         all_threads.append(thread)
@@ -113,11 +112,10 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
 
     all_processes = []
 
-    for i in range(thread_counts):
+    for i, En_per_thread in enumerate(ensemble.ensemble_shares(En, thread_counts)):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
                                           args=(percolationClass, length, En_per_thread, i))
@@ -143,11 +141,10 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
 
     all_processes = []
 
-    for i in range(thread_counts):
+    for i, En_per_thread in enumerate(ensemble.ensemble_shares(En, thread_counts)):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
                                           args=(percolationClass, length, En_per_thread, i))
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 4d991e4..13b7db5 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -89,16 +89,16 @@ def ensemble_shortest_path_v2_thread(percolationClass, length, ensembleSize, thr
     pass
 
 def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
+    from run_py import ensemble
     from source_py.simulation import percolation_sq_lattice_shortest_path
     percolationClass = percolation_sq_lattice_shortest_path.ShortestPathAfter_pc
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
 
     all_processes = []
 
-    for i in range(thread_counts):
+    for i, En_per_thread in enumerate(ensemble.ensemble_shares(En, thread_counts)):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble_shortest_path_v2_thread,
                                           args=(percolationClass, length, En_per_thread, i))
-- 
2.43.0


From 3d3a6a7e8660d579f65010c42c0c95e7ce99ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 13/18] fix: results were lost without a data folder and
 overwritten within a second

An ensemble failed only when it tried to save its results if ./data (or ./logs)
was missing, and two results of the same kind in the same second went to the
same file.
---
 main.py                         |  2 ++
 run_py/ensemble.py              | 30 +++++++++++++++++++++++++++---
 run_py/rsbd_percolatioin_run.py |  3 ++-
 run_py/shortest_path_run.py     |  3 ++-
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/main.py b/main.py
index 5397382..d883f15 100644
--- a/main.py
+++ b/main.py
@@ -5,6 +5,7 @@ from run_py.rsbd_percolatioin_run import run_simulation_threads_v3, run_simulati
 from run_py.shortest_path_run import *
 from source_py.simulation import percolation_sq_lattice_L0
 import logging
+import os
 
 
 def print_hi():
@@ -56,6 +57,7 @@ def init_logging():
     # logging to a file
     now = datetime.now()
     current_time = now.strftime("%Y%m%d_%H%M%S")
+    os.makedirs("./logs", exist_ok=True)
     filename = "./logs/" + "run_simulation_threads_v4-log-" + current_time + ".txt"
     logging.basicConfig(filename=filename, level=logging.DEBUG)
 
diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index 44dd3a4..1118cf8 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -2,9 +2,33 @@
 from datetime import datetime
 import json
 import numpy as np
+import os
 import time
 import logging
 
+
+def new_data_file(filename):
+    """
+    path of a new file in the data folder. The folder is made if it is missing. If the name is already taken
+    (e.g. another ensemble of the same kind ended in the same second) a counter is added to it,
+    so that no result is ever overwritten.
+    """
+    os.makedirs("./data", exist_ok=True)
+    name, extension = os.path.splitext(filename)
+    counter = 0
+    while True:
+        suffix = "" if counter == 0 else "_{}".format(counter)
+        path = "./data/" + name + suffix + extension
+        try:
+            with open(path, 'x'):
+                return path
+        except FileExistsError:
+            counter += 1
+            pass
+        pass
+    pass
+
+
 def ensemble_shares(ensemble_size, worker_count):
     """
     number of realizations of each worker. The sum is exactly `ensemble_size`.
@@ -78,7 +102,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = new_data_file(filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
@@ -99,7 +123,7 @@ def write_critical_values(current_time, data, ensembleSize, length, now, signatu
     head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
     head['desc'] = ["pc=critical ocupation probability"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = new_data_file(filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
@@ -160,7 +184,7 @@ def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, t
                     "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
 
-    filename = "./data/" + filename
+    filename = new_data_file(filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index ecc2bc5..69b4089 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -12,6 +12,7 @@ def single_realization(percolationClass, length):
     single realization for storing data for future.
     pytest will test using it as reference.
     """
+    from run_py import ensemble
     # print("length ", ensembleSize)
     # print("ensembleSize ", ensembleSize)
     # print("thread_count ", thread_count)
@@ -51,7 +52,7 @@ def single_realization(percolationClass, length):
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = ensemble.new_data_file(filename)
     with open(filename, 'w') as f:
         f.write(header_str)
         pass
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 13b7db5..81191a8 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -24,6 +24,7 @@ def ensemble_shortest_path_v1(length, ensemble_size):
         print("iteration ", e, " p*= ", percolation.get_shortest_path_p())
 
 def write_p_p_star(current_time, data, ensembleSize, length, now, signature, thread_count=2):
+    from run_py import ensemble
     signature += "_shortest_path_p_L{}_".format(length)
     filename = signature + current_time
     if thread_count is not None:
@@ -42,7 +43,7 @@ def write_p_p_star(current_time, data, ensembleSize, length, now, signature, thr
                     "p*=occupation probability for which the wrapping cluster creates a shortest path for the first "
                     "time"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = ensemble.new_data_file(filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
-- 
2.43.0


From d7287c980dc4f8c938e73f608737c1704b3406a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 14/18] fix: L1 get_four_neighbor_sites removed from the list
 it iterates and failed its assertion

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index ced060a..af1981e 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -59,10 +59,7 @@ class SitePercolationL1(SitePercolation):
             tmp = self.lattice_ref.get_neighbor_sites(bb)
             sites += tmp
             pass
-        for ss in sites:
-            if ss == central:
-                sites.remove(ss)
-                pass
+        sites = [ss for ss in sites if ss != central]
         assert len(sites) == 4
         # pytest. check distance between sites
         # central_site = self.lattice_ref.get_site_by_id(central)
-- 
2.43.0


From 51f30ece8354152ef662a3ab0f1e24f04b2103df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 15/18] fix: get_site_id_sequence handed out the live list
 which the next reset shuffles

---
 source_py/simulation/percolation_sq_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index b636e16..c760500 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -223,7 +223,7 @@ class SitePercolation(Percolation):
         pass
 
     def get_site_id_sequence(self):
-        return self.site_ids_indices
+        return list(self.site_ids_indices)  # reset() shuffles in place, what was returned before must not change
 
     def get_index_sequence(self):
         indices = []
-- 
2.43.0


From f3fa1ef0e36e23cebd5b140e8785da4b8253d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 16/18] fix: reset failed for ever after a reset was
 interrupted before the tables were made anew

---
 source_py/simulation/percolation_sq_lattice.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index c760500..762fa26 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -262,11 +262,8 @@ class SitePercolation(Percolation):
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
         self.occupation_prob_list = list()
-        del self.entropy_list
         self.entropy_list = list()
-        del self.order_wrapping_list
         self.order_wrapping_list = list()
-        del self.order_largest_list
         self.order_largest_list = list()
         pass
 
-- 
2.43.0


From 52ea8c2c59c365563dec70f9d998485c4a42e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 17/18] fix: L2 counted the selections of second neighbours
 only when they were in vain

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index af1981e..dcbb1f4 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -224,6 +224,7 @@ class SitePercolationL2(SitePercolation):
 
             if self.lattice_ref.get_site_by_id(Y_id).is_occupied():
                 # print("Y is occupied")
+                self.y_occupied += 1
                 self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn(direction)
 
                 # if central2 is occupied then select the one in the direction
@@ -238,7 +239,6 @@ class SitePercolationL2(SitePercolation):
                 # print("Z_index ", Z_index)
                 Z_id = self.lattice_ref.get_site_by_index(Z_index).get_id()
                 if self.lattice_ref.get_site_by_id(Z_id).is_occupied():
-                    self.y_occupied += 1
                     self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn(direction)
                     if self.lattice_ref.get_site_by_id(central_X).is_removable(2):
                         # print("is_removable")
-- 
2.43.0


From 1fd23686277b4837da48316a772e783d36eeb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 18/18] fix: test_run_once failed when all occupied sites
 belonged to the wrapping cluster

---
 source_py/simulation/percolation_sq_lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 762fa26..0d34e76 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -730,7 +730,8 @@ class SitePercolation(Percolation):
                 if self.detect_wrapping():
                     # print("self.pc_occupied_site_count ", self.pc_occupied_site_count)
                     # print("self.pc_site_count_wrapping_cluster ", self.pc_site_count_wrapping_cluster)
-                    assert self.pc_occupied_site_count > self.pc_site_count_wrapping_cluster
+                    # equal if every occupied site belongs to the wrapping cluster
+                    assert self.pc_occupied_site_count >= self.pc_site_count_wrapping_cluster
                     break
                 p = self.occupation_prob()
                 # print("p = ", p)
-- 
2.43.0

