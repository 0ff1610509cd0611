From e5a6569622c42a72ad86b6e68be614970ecd5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 01/14] fix: L2 keeps the X->Y direction across the periodic
 boundary

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 9065cbf..716363f 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -214,7 +214,8 @@ class SitePercolationL2(SitePercolation):
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
                 Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
                 delta_X = Y_index - X_index
-                delta_X.normalize()
+                # X and Y may be on opposite edges of the lattice
+                delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=delta_X))
                 # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
                 Z_index = Y_index + delta_X
                 # print("Z_index ", Z_index)
-- 
2.43.0


From b9896621029cc31478a2f25003a0619f8d1e4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 02/14] fix: L1 and L2 stop when a custom site list is
 exhausted

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 716363f..f01476f 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -82,7 +82,7 @@ class SitePercolationL1(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL1.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
@@ -193,7 +193,7 @@ class SitePercolationL2(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL2.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
-- 
2.43.0


From 386e9caf6bdfb25e2d0c7e457259f6c35de56da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 03/14] fix: record the occupation probability in every run,
 like the other curves

---
 source_py/simulation/percolation_sq_lattice.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index a3dc87f..6915803 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -259,9 +259,7 @@ class SitePercolation(Percolation):
         self.occupied_site_count = 0
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
-        if self.first_run:
-            self.occupation_prob_list = list()
-            pass
+        self.occupation_prob_list = list()
         del self.entropy_list
         self.entropy_list = list()
         del self.order_wrapping_list
@@ -676,9 +674,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
@@ -740,9 +736,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From cef9d87e1b95cdba39c4f1941afac823c92ddedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 04/14] fix: do not share the site order list with the caller

---
 source_py/simulation/percolation_sq_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 6915803..7f6369f 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -162,7 +162,7 @@ class SitePercolation(Percolation):
         if max(site_id_list) > max_index or min(site_id_list) < min_index:
             print("Invalid site id list")
             return
-        self.site_ids_indices = site_id_list
+        self.site_ids_indices = list(site_id_list)
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
         self.max_iteration_limit = len(site_id_list)
@@ -221,7 +221,7 @@ class SitePercolation(Percolation):
         pass
 
     def get_site_id_sequence(self):
-        return self.site_ids_indices
+        return list(self.site_ids_indices)
 
     def get_index_sequence(self):
         indices = []
-- 
2.43.0


From 19b6a362ef5c6315fdf642a569d27ee71486a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 05/14] fix: L1 reports the ids of the sites in the order they
 were occupied

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index f01476f..0ec3f9a 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -29,6 +29,9 @@ class SitePercolationL1(SitePercolation):
         self.x_occupied = 0
         self.site_id_sequence_record = []
 
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
     def get_index_sequence(self):
         indices = []
         for id in self.site_id_sequence_record:
-- 
2.43.0


From 9e822a97474aa75a651dd7a89090b1c374f3d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 06/14] fix: L2 records the sequence of occupied sites

---
 .../simulation/percolation_sq_lattice_L1L2.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 0ec3f9a..dfe8df9 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -150,6 +150,7 @@ class SitePercolationL2(SitePercolation):
         self.signature += "L2_"
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
         # print("SitePercolationL2.init")
         logging.info("SitePercolationL2.init")
         pass
@@ -159,6 +160,18 @@ class SitePercolationL2(SitePercolation):
         self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
+
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
+    def get_index_sequence(self):
+        indices = []
+        for id in self.site_id_sequence_record:
+            idx = self.lattice_ref.get_site_by_id(id).get_index()
+            indices.append(idx.as_list())
+            pass
+        return indices
 
     def get_signature(self):
         return self.signature
@@ -241,6 +254,7 @@ class SitePercolationL2(SitePercolation):
         # self.swap_ids(central_X, central)
         # print("central ", Z_id)
         self.selected_id = Z_id
+        self.site_id_sequence_record.append(self.selected_id)
         self.current_site = self.lattice_ref.get_site_by_id(self.selected_id)
         assert self.current_site.get_gid() == -1  # must be unoccupied
         # print("selected id ", self.selected_id)
-- 
2.43.0


From 154173a49b5273a7add0015231899d25f45ad480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 07/14] fix: data file headers describe the order parameter
 columns correctly

---
 run_py/ensemble.py              | 2 +-
 run_py/rsbd_percolatioin_run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index fbca2f9..34f147d 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -66,7 +66,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 1636886..c806927 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -49,7 +49,7 @@ def single_realization(percolationClass, length):
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     with open(filename, 'w') as f:
-- 
2.43.0


From 634c6b975625d304d7b37e8d54ed8b4d4962447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 08/14] fix: draw_horizontal_line_at works with its default
 range

---
 source_py/analyze/lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/analyze/lines.py b/source_py/analyze/lines.py
index 83f5f37..190bdd8 100644
--- a/source_py/analyze/lines.py
+++ b/source_py/analyze/lines.py
@@ -14,7 +14,7 @@ def draw_vertical_line_at(xval, yrange=(0, 1), size=100):
     return xx, yy
 
 
-def draw_horizontal_line_at(yval, xrange=(), size=100):
+def draw_horizontal_line_at(yval, xrange=(0, 1), size=100):
     """
 
     @param yval:
-- 
2.43.0


From aacada2978585b250c2238bcec553362a17563de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 09/14] fix: create the output directories before writing to
 them

---
 main.py                         | 2 ++
 run_py/ensemble.py              | 4 ++++
 run_py/rsbd_percolatioin_run.py | 2 ++
 run_py/shortest_path_run.py     | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/main.py b/main.py
index 5397382..d883f15 100644
--- a/main.py
+++ b/main.py
@@ -5,6 +5,7 @@ from run_py.rsbd_percolatioin_run import run_simulation_threads_v3, run_simulati
 from run_py.shortest_path_run import *
 from source_py.simulation import percolation_sq_lattice_L0
 import logging
+import os
 
 
 def print_hi():
@@ -56,6 +57,7 @@ def init_logging():
     # logging to a file
     now = datetime.now()
     current_time = now.strftime("%Y%m%d_%H%M%S")
+    os.makedirs("./logs", exist_ok=True)
     filename = "./logs/" + "run_simulation_threads_v4-log-" + current_time + ".txt"
     logging.basicConfig(filename=filename, level=logging.DEBUG)
 
diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index 34f147d..2f5e2e9 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -1,6 +1,7 @@
 # from source_py.percolation_sq_lattice import SitePercolationL0
 from datetime import datetime
 import json
+import os
 import numpy as np
 import time
 import logging
@@ -68,6 +69,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
@@ -89,6 +91,7 @@ def write_critical_values(current_time, data, ensembleSize, length, now, signatu
     head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
     head['desc'] = ["pc=critical ocupation probability"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
@@ -150,6 +153,7 @@ def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, t
                     "P2=order parameter by wrapping cluster", "P1=order parameter by largest cluster"]
     header_str = json.dumps(head)
 
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index c806927..de7b572 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -3,6 +3,7 @@ import logging
 from datetime import datetime
 import numpy as np
 import json
+import os
 
 
 from source_py.simulation import percolation_sq_lattice_L1L2
@@ -51,6 +52,7 @@ def single_realization(percolationClass, length):
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     with open(filename, 'w') as f:
         f.write(header_str)
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 4d991e4..a9a4d3d 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -2,6 +2,7 @@ from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPa
 import time
 from datetime import datetime
 import json
+import os
 import numpy as np
 import multiprocessing
 
@@ -42,6 +43,7 @@ def write_p_p_star(current_time, data, ensembleSize, length, now, signature, thr
                     "p*=occupation probability for which the wrapping cluster creates a shortest path for the first "
                     "time"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
-- 
2.43.0


From dd48d87292b225bdd8f9fe40df5de42ef41c060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 10/14] fix: pass the percolation class to the ensemble threads

---
 run_py/rsbd_percolatioin_run.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index de7b572..2f99dc7 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -64,6 +64,8 @@ def single_realization(percolationClass, length):
 
 def run_simulation_threads():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     lengths = [200, 300, 400]
     En = 500
 
@@ -73,7 +75,7 @@ def run_simulation_threads():
     all_threads = []
     for LL in lengths:
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(LL, En, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, LL, En, i))
         i += 1
         all_threads.append(thread)
         thread.start()
@@ -84,6 +86,8 @@ def run_simulation_threads():
 
 def run_simulation_threads_v2():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     length = 10
     thread_counts = 2
     En = 1000
@@ -94,7 +98,7 @@ def run_simulation_threads_v2():
     all_threads = []
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, En_per_thread, i))
         all_threads.append(thread)
         thread.start()
         pass
-- 
2.43.0


From 29bb84148aafb76c3417793d31ff280f5e9583f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 11/14] fix: worker shares of the ensemble add up to the
 requested size

---
 run_py/rsbd_percolatioin_run.py | 21 +++++++++++++++------
 run_py/shortest_path_run.py     |  7 +++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 2f99dc7..2fa510e 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -91,14 +91,17 @@ def run_simulation_threads_v2():
     length = 10
     thread_counts = 2
     En = 1000
-    En_per_thread = En // thread_counts
+    En_per_thread, remainder = divmod(En, thread_counts)
 
     from threading import Thread
 
     all_threads = []
     for i in range(thread_counts):
+        En_i = En_per_thread + (1 if i < remainder else 0)
+        if En_i == 0:
+            break
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, En_i, i))
         all_threads.append(thread)
         thread.start()
         pass
@@ -115,14 +118,17 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
+    En_per_thread, remainder = divmod(En, thread_counts)
 
     all_processes = []
 
     for i in range(thread_counts):
+        En_i = En_per_thread + (1 if i < remainder else 0)
+        if En_i == 0:
+            break
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_i, i))
         all_processes.append(process)
         process.start()
 
@@ -145,14 +151,17 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
+    En_per_thread, remainder = divmod(En, thread_counts)
 
     all_processes = []
 
     for i in range(thread_counts):
+        En_i = En_per_thread + (1 if i < remainder else 0)
+        if En_i == 0:
+            break
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_i, i))
         all_processes.append(process)
         process.start()
 
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index a9a4d3d..6d7e22a 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -96,14 +96,17 @@ def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
+    En_per_thread, remainder = divmod(En, thread_counts)
 
     all_processes = []
 
     for i in range(thread_counts):
+        En_i = En_per_thread + (1 if i < remainder else 0)
+        if En_i == 0:
+            break
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble_shortest_path_v2_thread,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_i, i))
         all_processes.append(process)
         process.start()
 
-- 
2.43.0


From 9021b6a55895d68814633ab50fa9ed6ee1db8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 12/14] fix: detect_wrapping before the first placement and
 after reset reports no wrapping

---
 source_py/simulation/percolation_sq_lattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 7f6369f..61343d9 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -258,6 +258,8 @@ class SitePercolation(Percolation):
         self.entropy_value = self.max_entropy
         self.occupied_site_count = 0
         self.selection_flag = None
+        self.current_site = None
+        self.selected_id = None
         # print("Initial entropy ", self.entropy_value)
         self.occupation_prob_list = list()
         del self.entropy_list
@@ -634,6 +636,9 @@ class SitePercolation(Percolation):
     def detect_wrapping(self):
         if self.after_wrapping:
             return True
+        if self.selected_id is None:
+            # nothing has been placed yet
+            return False
         # print("detect_wrapping")
         neighbors = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
         # print("neighbors of self.selected_id with same gid : ", neighbors)
-- 
2.43.0


From 6387a1e05f6082d422534642ce1c6533e76d28af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 13/14] fix: reject custom site indices whose row or column
 lies outside the lattice

---
 source_py/simulation/percolation_sq_lattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 61343d9..b899968 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -175,6 +175,11 @@ class SitePercolation(Percolation):
         """
         max_index = self.lattice_ref.length**2 - 1
         min_index = 0
+        for idx in site_index_list:
+            row, column = idx.as_list() if type(idx) is Index else idx
+            if not (0 <= row < self.lattice_ref.length and 0 <= column < self.lattice_ref.length):
+                print("Invalid site id list")
+                return
         site_index_list = [self.lattice_ref.calculate_id_from_index(idx) for idx in site_index_list]
         if max(site_index_list) > max_index or min(site_index_list) < min_index:
             print("Invalid site id list")
-- 
2.43.0


From 8da6a55ee2eab08ef24fe20917875de9fd9ae303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 14/14] fix: print_hi calls the demonstration the lattice
 module has

---
 main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main.py b/main.py
index d883f15..2b7d551 100644
--- a/main.py
+++ b/main.py
@@ -10,8 +10,7 @@ import os
 
 def print_hi():
     from source_py.simulation import lattice
-    lattice.test(5)
-    lattice.test_neighbors(6)
+    lattice.mTest_neighbors()
 
     # from source_py import percolation_sq_lattice
     # percolation_sq_lattice.test_site_percolation()
-- 
2.43.0

