From f0a841034e31a1f798b252746b2d85b519480a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:40 +0000
Subject: [PATCH 01/17] fix: aggregate_results imports ed_nlce from the
 exact_diag package

---
 cluster/aggregate_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 5c1e051..9ca1d29 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -4,7 +4,7 @@ import pickle
 import numpy as np
 import re
 
-import ed_nlce
+from exact_diag import ed_nlce
 
 def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
 
-- 
2.43.0


From be499a5697ff989bdaee7a24aba491763f80e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:40 +0000
Subject: [PATCH 02/17] fix: diag_cluster uses the two site operator function
 that exists

---
 cluster/diag_cluster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index 04839d0..ca5e673 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -44,12 +44,13 @@ def diag_cluster(cluster_index,
         szsz_corrs[0, jj] = 0
         for aa in range(0, model.geometry.nsites):
             for bb in range(aa + 1, model.geometry.nsites):
-                szsz_op = model.getTwoSiteOp(aa,
-                                             bb,
-                                             model.geometry.nsites,
-                                             model.pauli_z,
-                                             model.pauli_z,
-                                             format="boson")
+                szsz_op = model.get_two_site_op(aa,
+                                                0,
+                                                bb,
+                                                0,
+                                                model.pauli_z,
+                                                model.pauli_z,
+                                                format="boson")
                 szsz_exp = model.get_exp_vals_thermal(eig_vects, szsz_op, eig_vals, T)
                 szsz_corrs[0, jj] = szsz_corrs[0, jj] + szsz_exp
 
-- 
2.43.0


From 4feb902086080c4cc491ec4fd495229702ada5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:41 +0000
Subject: [PATCH 03/17] fix: generate_clusters can be re-run on the file it
 wrote

---
 cluster/generate_clusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index bece71f..7355a22 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -10,7 +10,7 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
     if os.path.isfile(fname_cluster_dat):
         with open(fname_cluster_dat, 'rb') as f:
             data = pickle.load(f)
-        cluster_list = data[2]
+        cluster_list = data["cluster_list"]
         return len(cluster_list)
 
     # if data file doesn't already exist, we must generate the clusters and create the file
-- 
2.43.0


From 1c1bede8dcecf7a90dca673fa80c800fb5e86913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:41 +0000
Subject: [PATCH 04/17] fix: cluster multiplicities reach aggregate_results,
 and it reads the layout aggregate_subclusters writes

---
 cluster/aggregate_results.py         | 8 ++++----
 cluster/generate_clusters_no_subs.py | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 9ca1d29..f218d6a 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -49,10 +49,10 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     with open(fname_cluster_dat, 'rb') as f:
         cluster_dat = pickle.load(f)
     max_cluster_order = cluster_dat[0]
-    cluster_multiplicities = cluster_dat[1]
-    clusters_list = cluster_dat[2]
-    sub_cluster_mult = cluster_dat[3]
-    order_start_indices = cluster_dat[4]
+    clusters_list = cluster_dat[1]
+    order_start_indices = cluster_dat[2]
+    cluster_multiplicities = cluster_dat[4]
+    sub_cluster_mult = cluster_dat[5]
 
     # NLCE
     energy_nlce, orders_energy, weight_energy = \
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 96c322f..11154a4 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -20,7 +20,8 @@ def generate_clusters_no_subs(fname_cluster_dat,
     t_end = time.process_time()
 
     # save cluster data
-    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start]
+    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start,
+                     cluster_multiplicities[None, :]]
     with open(fname_cluster_dat, 'wb') as f:
         pickle.dump(data_clusters, f)
 
-- 
2.43.0


From a13c6a2af28278f1158da55a2229d2a83906761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 05/17] fix: cluster stages publish complete output files only

A killed, requeued or failing task used to leave a truncated file under its
final name, which the driver counts and every later run trips over.
---
 cluster/aggregate_results.py         |  3 ++-
 cluster/aggregate_subclusters.py     |  3 ++-
 cluster/diag_cluster.py              |  3 ++-
 cluster/find_subclusters.py          |  3 ++-
 cluster/generate_clusters.py         |  3 ++-
 cluster/generate_clusters_no_subs.py |  3 ++-
 exact_diag/ed_io.py                  | 31 ++++++++++++++++++++++++++++
 7 files changed, 43 insertions(+), 6 deletions(-)
 create mode 100644 exact_diag/ed_io.py

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index f218d6a..8dd5bc3 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -5,6 +5,7 @@ import numpy as np
 import re
 
 from exact_diag import ed_nlce
+from exact_diag.ed_io import atomic_write
 
 def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
 
@@ -97,7 +98,7 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
                 specific_heats_all, specific_heat_nlce, orders_specific_heat, weight_specific_heat, spheat_nlce_euler_resum,
                 szsz_corrs_all, szsz_nlce, orders_szsz, weight_szsz, szsz_nlce_euler_resum, temps]
 
-    with open(fname_out, 'wb') as f:
+    with atomic_write(fname_out) as f:
         pickle.dump(data_out, f)
 
     return data_out
diff --git a/cluster/aggregate_subclusters.py b/cluster/aggregate_subclusters.py
index 0ea3c7c..7e31cda 100644
--- a/cluster/aggregate_subclusters.py
+++ b/cluster/aggregate_subclusters.py
@@ -5,6 +5,7 @@ import re
 import numpy as np
 import scipy.sparse as sp
 from exact_diag import ed_nlce
+from exact_diag.ed_io import atomic_write
 
 
 def aggregate_subclusters(file_pattern, fname_out, fname_in):
@@ -48,7 +49,7 @@ def aggregate_subclusters(file_pattern, fname_out, fname_in):
 
     # TODO: does it make more sense to save this back to the first file???
     cluster_data.append(cluster_mult_mat)
-    with open(fname_out, 'wb') as f:
+    with atomic_write(fname_out) as f:
         pickle.dump(cluster_data, f)
     print("saved subcluster information to %s" % fname_out)
 
diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index ca5e673..2166385 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -5,6 +5,7 @@ import time
 import exact_diag.ed_spins as tvi
 import exact_diag.ed_fermions as hubb
 from exact_diag import ed_nlce
+from exact_diag.ed_io import atomic_write
 
 
 def diag_cluster(cluster_index,
@@ -58,7 +59,7 @@ def diag_cluster(cluster_index,
     print("Computing %d finite temperature expectation values took %0.2fs" % (len(temps), t_end - t_start))
 
     data_out = [cluster, eig_vals, energies, entropies, specific_heats, szsz_corrs, temps, model]
-    with open(cluster_data_out_fname, 'wb') as f:
+    with atomic_write(cluster_data_out_fname) as f:
         pickle.dump(data_out, f)
 
 
diff --git a/cluster/find_subclusters.py b/cluster/find_subclusters.py
index b42c1e0..4a76246 100644
--- a/cluster/find_subclusters.py
+++ b/cluster/find_subclusters.py
@@ -6,6 +6,7 @@ import time
 import exact_diag.ed_spins as tvi
 import exact_diag.ed_fermions as hubb
 from exact_diag import ed_nlce
+from exact_diag.ed_io import atomic_write
 
 
 def find_subclusters(cluster_index,
@@ -32,7 +33,7 @@ def find_subclusters(cluster_index,
     final_sub_cluster_mat = cluster_reduction_mat.transpose().dot(subcluster_mult_mat.dot(cluster_reduction_mat))
 
     data_out = [cluster_index, final_sub_cluster_mat, cluster]
-    with open(cluster_data_out_fname, 'wb') as f:
+    with atomic_write(cluster_data_out_fname) as f:
         pickle.dump(data_out, f)
 
 
diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index 7355a22..dfa3285 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -2,6 +2,7 @@ import pickle
 import os
 import sys
 from exact_diag import ed_nlce
+from exact_diag.ed_io import atomic_write
 
 
 def generate_clusters(fname_cluster_dat, max_cluster_order):
@@ -27,7 +28,7 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
                      "cluster_list": clusters_list,
                      "sub_cluster_mult": sub_cluster_mult,
                      "order_start_indices": order_start_indices}
-    with open(fname_cluster_dat, 'wb') as f:
+    with atomic_write(fname_cluster_dat) as f:
         pickle.dump(data_clusters, f)
 
     return len(clusters_list)
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 11154a4..7307915 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -3,6 +3,7 @@ import os
 import sys
 import time
 from exact_diag import ed_nlce
+from exact_diag.ed_io import atomic_write
 
 
 def generate_clusters_no_subs(fname_cluster_dat,
@@ -22,7 +23,7 @@ def generate_clusters_no_subs(fname_cluster_dat,
     # save cluster data
     data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start,
                      cluster_multiplicities[None, :]]
-    with open(fname_cluster_dat, 'wb') as f:
+    with atomic_write(fname_cluster_dat) as f:
         pickle.dump(data_clusters, f)
 
     return len(clusters_list)
diff --git a/exact_diag/ed_io.py b/exact_diag/ed_io.py
new file mode 100644
index 0000000..521d3ba
--- /dev/null
+++ b/exact_diag/ed_io.py
@@ -0,0 +1,31 @@
+"""
+Tools for writing files
+"""
+import os
+import uuid
+from contextlib import contextmanager
+
+
+@contextmanager
+def atomic_write(file_name: str):
+    """
+    Open a file for (binary) writing so that, whatever happens while writing it, file_name is either what it was
+    before or the complete new file. The data goes to a temporary file in the same directory, which is renamed to
+    file_name once it is complete and on disk.
+
+    :param file_name:
+    :return: context manager giving the file object to write to
+    """
+    tmp_name = f"{file_name}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_name, 'xb') as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_name, file_name)
+    except BaseException:
+        try:
+            os.remove(tmp_name)
+        except OSError:
+            pass
+        raise
-- 
2.43.0


From 6749a91ef044bc5f66368101bb58a5b93b7655a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 06/17] fix: a save that fails or is interrupted leaves the
 previous file intact

---
 exact_diag/ed_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c8a5395..269a500 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -15,6 +15,7 @@ from scipy.sparse.linalg import eigsh
 from scipy.linalg import expm
 import scipy.sparse as sp
 from exact_diag.ed_geometry import Geometry
+from exact_diag.ed_io import atomic_write
 
 
 class ed_base:
@@ -1219,9 +1220,10 @@ class ed_base:
         _, ext = os.path.splitext(file_name)
 
         if ext == '.mat':
-            savemat(file_name, self.__dict__)
+            with atomic_write(file_name) as output:
+                savemat(output, self.__dict__)
         elif ext == '.pkl':
-            with open(file_name, 'wb') as output:
+            with atomic_write(file_name) as output:
                 # TODO implement savesparse. What does that mean?
                 pickle.dump(self, output, pickle.HIGHEST_PROTOCOL)
         else:
-- 
2.43.0


From e3ed0cd9d548d16e8d1cb6bdc20693d113b3f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 07/17] fix: a .mat load that fails or is interrupted leaves
 the object as it was

---
 exact_diag/ed_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 269a500..4c61371 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1245,13 +1245,14 @@ class ed_base:
 
         if ext == '.mat':
             loaded = loadmat(file_name)
-            self.__dict__ = {}
+            attributes = {}
             for key, val in loaded.items():
                 # if key not in self.__dict__.keys() and key[0:2]!='__':
                 if key[0:2] != '__':
-                    self.__dict__.update({key: val})
+                    attributes.update({key: val})
                 else:
                     print(f"Skipped key {key:s} while loading to class from file")
+            self.__dict__ = attributes
 
         elif ext == '.pkl':
             with open(file_name, 'rb') as inputFile:
-- 
2.43.0


From aa5181cd2f08b37de1a0c5535bb8c37fd853462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 08/17] fix: automatically named saves in the same second no
 longer overwrite each other

---
 exact_diag/ed_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 4c61371..67a3d97 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -9,6 +9,7 @@ import datetime
 import os
 import ctypes
 import pickle
+import uuid
 import numpy as np
 from scipy.io import savemat, loadmat
 from scipy.sparse.linalg import eigsh
@@ -1215,7 +1216,8 @@ class ed_base:
         """
         if file_name is None:
             today_str = datetime.datetime.today().strftime('%Y-%m-%d_%H;%M;%S')
-            file_name = f"{today_str:s}_ed.pkl"
+            # the time alone is not unique
+            file_name = f"{today_str:s}_{uuid.uuid4().hex:s}_ed.pkl"
 
         _, ext = os.path.splitext(file_name)
 
-- 
2.43.0


From eb4072d4de0f395672d93e337302fc052956c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 09/17] fix: aggregation orders files by cluster number even if
 their folder or prefix has digits

---
 cluster/aggregate_results.py     | 8 ++++----
 cluster/aggregate_subclusters.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 8dd5bc3..271d8d3 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -2,6 +2,7 @@ import sys
 import glob
 import pickle
 import numpy as np
+import os
 import re
 
 from exact_diag import ed_nlce
@@ -12,12 +13,11 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     # load diagonalized cluster files_out
     files = glob.glob(file_pattern)
 
-    # sort these by number ... currently this is fragile because I'm assuming that there are no other
-    # numbers in the file name besides for the cluster number.
-    expr = '[^\d]*(\d+)[^\d]*'
+    # sort these by number, which is the last number in the file name
+    expr = r'(\d+)[^\d]*$'
     nums = np.zeros(len(files))
     for ii, file in enumerate(files):
-        match = re.match(expr, file)
+        match = re.search(expr, os.path.basename(file))
         nums[ii] = int(match.group(1))
     indices_sorted = np.argsort(nums)
 
diff --git a/cluster/aggregate_subclusters.py b/cluster/aggregate_subclusters.py
index 7e31cda..d9be07d 100644
--- a/cluster/aggregate_subclusters.py
+++ b/cluster/aggregate_subclusters.py
@@ -1,6 +1,7 @@
 import sys
 import pickle
 import glob
+import os
 import re
 import numpy as np
 import scipy.sparse as sp
@@ -22,12 +23,11 @@ def aggregate_subclusters(file_pattern, fname_out, fname_in):
                         '%d data files_out and %d clusters.', len(files), nclusters)
     print("found %d files_out matching %s" % (len(files), file_pattern))
 
-    # sort these by number ... currently this is fragile because I'm assuming that there are no other
-    # numbers in the file name besides for the cluster number.
-    expr = '[^\d]*(\d+)[^\d]*'
+    # sort these by number, which is the last number in the file name
+    expr = r'(\d+)[^\d]*$'
     nums = np.zeros(len(files))
     for ii, file in enumerate(files):
-        match = re.match(expr, file)
+        match = re.search(expr, os.path.basename(file))
         nums[ii] = int(match.group(1))
     indices_sorted = np.argsort(nums)
 
-- 
2.43.0


From ec20f040010afc27c276ff66b8e84e7fb6af69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 10/17] fix: aggregation refuses a set of files that is not one
 file per cluster

---
 cluster/aggregate_results.py     | 4 ++++
 cluster/aggregate_subclusters.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 271d8d3..35e1c3a 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -55,6 +55,10 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     cluster_multiplicities = cluster_dat[4]
     sub_cluster_mult = cluster_dat[5]
 
+    if not np.array_equal(nums, np.arange(1, len(clusters_list) + 1)):
+        raise Exception('expected one data file for each of the %d clusters, but found files for clusters %s'
+                        % (len(clusters_list), nums))
+
     # NLCE
     energy_nlce, orders_energy, weight_energy = \
         ed_nlce.get_nlce_exp_val(energies_all[0:order_start_indices[max_cluster_order], :],
diff --git a/cluster/aggregate_subclusters.py b/cluster/aggregate_subclusters.py
index d9be07d..8a10258 100644
--- a/cluster/aggregate_subclusters.py
+++ b/cluster/aggregate_subclusters.py
@@ -33,6 +33,9 @@ def aggregate_subclusters(file_pattern, fname_out, fname_in):
 
     files = [file for _, file in sorted(zip(nums, files), key=lambda tuple: tuple[0])]
     nums = nums[indices_sorted]
+    if not np.array_equal(nums, np.arange(1, nclusters + 1)):
+        raise Exception('expected one data file for each of the %d clusters, but found files for clusters %s'
+                        % (nclusters, nums))
 
     cluster_mult_mat = sp.csr_matrix((nclusters, nclusters))
 
-- 
2.43.0


From 2d1749045534a6f2681b4a5275804ffc2f52a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 11/17] fix: driver no longer counts the aggregated subcluster
 file as a subcluster result

---
 cluster/run_on_cluster.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cluster/run_on_cluster.sh b/cluster/run_on_cluster.sh
index 81e1c97..4af43c8 100644
--- a/cluster/run_on_cluster.sh
+++ b/cluster/run_on_cluster.sh
@@ -14,7 +14,8 @@ slurm_get_clusters="$root_path/slurm_single.sh"
 sub_cluster_dat_script="$root_path/find_subclusters.py"
 slurm_subclusters="$root_path/slurm_array.sh"
 data_prefix="subcluster"
-subcluster_aggregate_data="$root_path/subcluster_data_order=$nlce_order.dat"
+# must not match $data_prefix*.dat, because those files are counted to determine when all subclusters have been found
+subcluster_aggregate_data="$root_path/cluster_data_with_subclusters_order=$nlce_order.dat"
 subcluster_aggregate_script="$root_path/aggregate_subclusters.py"
 subcluster_dat_log="$root_path/generate_subcluster_dat.log"
 
-- 
2.43.0


From 8bb064b063888c5b4f9b36ce50b98c50b2913ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 12/17] fix: driver no longer submits an empty job array when
 the clusters fill the last one

---
 cluster/run_on_cluster.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cluster/run_on_cluster.sh b/cluster/run_on_cluster.sh
index 4af43c8..27c1a26 100644
--- a/cluster/run_on_cluster.sh
+++ b/cluster/run_on_cluster.sh
@@ -51,7 +51,7 @@ echo "Found file $fname_cluster_dat. Total number of clusters is $num_clusters.
 
 # then generate all sub-clusters. This mapping process is fully parallelizable. In fact, it can go on at the same time
 # the clusters are being diagonalized
-num_loops=$(($num_clusters/$num_limit_per_job+1))
+num_loops=$((($num_clusters+$num_limit_per_job-1)/$num_limit_per_job))
 echo "number of loops is: $num_loops"
 for i in $( seq 1 $num_loops ); do
     offset=$(( ($i-1) * $num_limit_per_job ))
@@ -77,7 +77,7 @@ python "$subcluster_aggregate_script" "$data_prefix*.dat" "$subcluster_aggregate
 # diagonalize all clusters. This is fully parallelizable.
 # Use slurm arrays instead of submitting individual batch jobs. Slurm arrays are much faster, and avoid sending an email
 # for every single cluster. When I did that, OIT locked me out of my account for sending over 2000 emails!
-num_loops=$(($num_clusters/$num_limit_per_job+1))
+num_loops=$((($num_clusters+$num_limit_per_job-1)/$num_limit_per_job))
 echo "number of loops is: $num_loops"
 for i in $( seq 1 $num_loops ); do
     offset=$(( ($i-1) * $num_limit_per_job ))
-- 
2.43.0


From 6bc212b842f54b418e0dbaeaf7b57e7c16e73a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 13/17] fix: an interrupted permute_sites leaves the geometry
 consistent

---
 exact_diag/ed_geometry.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b66a3a1..13aa95d 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -485,22 +485,26 @@ class Geometry:
         """
         if not np.array_equal(np.array(sorted(permutation)), np.array(range(0, self.nsites))):
             raise ValueError('permutation must be a list of length nsites containing all numbers between 0 and n-1')
-        self.xlocs = self.xlocs[permutation]
-        self.ylocs = self.ylocs[permutation]
+        xlocs = self.xlocs[permutation]
+        ylocs = self.ylocs[permutation]
 
         basis_change_mat = np.zeros([self.nsites, self.nsites])
         for ii, jj in enumerate(permutation):
             basis_change_mat[ii, jj] = 1
 
-        self.adjacency_mat = basis_change_mat.dot(self.adjacency_mat.dot(basis_change_mat.transpose()))
-        self.phase_mat = basis_change_mat.dot(self.phase_mat.dot(basis_change_mat.transpose()))
-        self.xdist_mat = basis_change_mat.dot(self.xdist_mat.dot(basis_change_mat.transpose()))
-        self.ydist_mat = basis_change_mat.dot(self.ydist_mat.dot(basis_change_mat.transpose()))
+        adjacency_mat = basis_change_mat.dot(self.adjacency_mat.dot(basis_change_mat.transpose()))
+        phase_mat = basis_change_mat.dot(self.phase_mat.dot(basis_change_mat.transpose()))
+        xdist_mat = basis_change_mat.dot(self.xdist_mat.dot(basis_change_mat.transpose()))
+        ydist_mat = basis_change_mat.dot(self.ydist_mat.dot(basis_change_mat.transpose()))
         # self.dist_reduced_multiplicity = basis_change_mat.dot(self.dist_reduced_multiplicity.dot(basis_change_mat.transpose()))
         # self.is_x_neighbor = basis_change_mat.dot(self.is_x_neighbor.dot(basis_change_mat.transpose()))
         # self.is_y_neighbor = basis_change_mat.dot(self.is_y_neighbor.dot(basis_change_mat.transpose()))
         # self.is_neighbor = basis_change_mat.dot(self.is_neighbor.dot(basis_change_mat.transpose()))
 
+        # change everything in one step, so that if we are interrupted the instance is still consistent
+        self.__dict__.update(xlocs=xlocs, ylocs=ylocs, adjacency_mat=adjacency_mat, phase_mat=phase_mat,
+                             xdist_mat=xdist_mat, ydist_mat=ydist_mat)
+
     # #################################
     # display functions
     # #################################
-- 
2.43.0


From 4797d7e86b487d96cd6a0eafa9d91ec859d93aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 14/17] fix: reduce_symm_projector no longer modifies the
 matrix it is given

---
 exact_diag/ed_symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 8f23332..5b60345 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -247,7 +247,8 @@ def reduce_symm_projector(p_full,
         print("warning, projop_full2full was not csr. Converted it to csr.")
         states_related_by_symm = states_related_by_symm.tocsr()
 
-    # round to avoid any finite precision issues
+    # round to avoid any finite precision issues, without changing the matrix we were given
+    p_full = p_full.copy()
     p_full.data[np.abs(p_full.data) < 1e-10] = 0
     p_full.eliminate_zeros()
 
-- 
2.43.0


From af407895eed305bdde240e325ec7fcf25f0d98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:14 +0000
Subject: [PATCH 15/17] fix: fg_mu reports a failed root search, and brackets
 the root so that the search succeeds at low temperature

---
 exact_diag/fermi_gas.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index fca2774..4e5df6d 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -429,7 +429,7 @@ def fg_mu(beta,
     :param dim:
     :return mu:
     """
-    # TODO: this still fails at T = 0 and low T near half-filling
+    # TODO: this still fails at T = 0
 
     beta = np.asarray(beta)
     if beta.ndim == 0:
@@ -457,8 +457,6 @@ def fg_mu(beta,
             mu[coord] = fg_mu(beta[coord], density[coord], nsites, dim)
     else:
         min_fn = lambda mu: np.abs(fg_density(beta, mu, nsites, dim) - density)
-        jacobian = lambda mu: fg_compressibility(beta, mu, nsites, dim)
-        jacobian_fsqr = lambda mu: 2 * min_fn(mu) * jacobian(mu)
 
         # mu_guess = np.array([0.0])
         # result = scipy.optimize.minimize(min_fn, mu_guess)
@@ -467,12 +465,16 @@ def fg_mu(beta,
         if density == 0.5:
             mu = 0
         elif beta != np.inf:
-            # seems to work more robustly than scipy.optimize.minimize
-            # but fails at half-filling. jacobian_fsqr has a zero there...is that the reason?
-            fit_handle = root_scalar(jacobian_fsqr, x0=-0.1, x1=0.1)
-            mu = fit_handle.root
+            # density increases with mu, and all states in the band having the same energy as its top (bottom)
+            # gives the largest (smallest) mu that can be required
+            band_edge = 4 if dim == '2d' else 2
+            mu_flat_band = float(np.log(density / (1 - density)) / beta)
+            fit_handle = root_scalar(lambda mu: float(fg_density(beta, mu, nsites, dim) - density),
+                                     bracket=(mu_flat_band - band_edge - 1e-6, mu_flat_band + band_edge + 1e-6))
+            if not fit_handle.converged:
+                raise RuntimeError(f"could not determine chemical potential: {fit_handle.flag:s}")
+            mu = np.array([fit_handle.root])
         else:
-            # jacobian_fsqr = -inf here, which is why this fials otherwise...
             mu_guess = np.array([0.0])
             result = minimize(min_fn, mu_guess)
             mu = result.x
-- 
2.43.0


From 10f804405178b3b1c8dd7ce53693354839d783cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:01 +0000
Subject: [PATCH 16/17] fix: fg_mu reports a failed minimisation at zero
 temperature instead of returning its last iterate

---
 exact_diag/fermi_gas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 4e5df6d..31f9285 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -477,6 +477,8 @@ def fg_mu(beta,
         else:
             mu_guess = np.array([0.0])
             result = minimize(min_fn, mu_guess)
+            if not result.success:
+                raise RuntimeError(f"could not determine chemical potential: {result.message}")
             mu = result.x
 
     return mu
-- 
2.43.0


From 99740c4d9d57ed8d0800ff22577d97fbf0d09356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:01 +0000
Subject: [PATCH 17/17] fix: sparse diagonalisation returns one end of the
 spectrum also when energies exceed the offset

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 67a3d97..82669bb 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -187,7 +187,7 @@ class ed_base:
             offset = 100
             # runner_offset = -Energy_AllGnd
             # eigvals_temp,eigvects_temp = eigsh(self.H+runner_offset*sp.eye(self.NStates).tocsr(),neigs,which='SM')
-            eigvals_temp, eigvects_temp = eigsh(haml + offset * sp.eye(haml.shape[0]).tocsr(), neigs, which='LM')
+            eigvals_temp, eigvects_temp = eigsh(haml + offset * sp.eye(haml.shape[0]).tocsr(), neigs, which='LA')
             eigvals_temp = eigvals_temp - offset
             eigvals = eigvals_temp
             eigvects = eigvects_temp
-- 
2.43.0

