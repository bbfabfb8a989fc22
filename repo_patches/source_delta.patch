From 20592db788e2c0c061ca37434ba89555cddc629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:16 +0000
Subject: [PATCH 01/33] fix: dense expected edges per label iterates over
 labels, not vertices

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index df3b200..366ee09 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1734,7 +1734,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Compute the expected number of edges with one parameter controlling
         for the density for each label.
         """
-        num_labels = len(prop_out)
+        num_labels = prop_out.shape[1]
         exp_edges = np.zeros(num_labels, dtype=np.float64)
 
         for k in range(num_labels):
-- 
2.43.0


From eec66ffc02383fc76126e4ec530adc6ad3ab8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:16 +0000
Subject: [PATCH 02/33] fix: dense labelled CremB sampling is callable and uses
 the strength of each label

---
 src/graph_ensembles/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 366ee09..7cda55a 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1831,13 +1831,11 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _cremb_sample_layer(
+    def _cremb_sample_tensor(
         p_ijk, param, prop_out, prop_in, prop_dyad, s_out, s_in, selfloops
     ):
         """Sample from the ensemble with weights from the CremB model."""
-        s_tot = np.sum(s_out[1])
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
 
         lbls = List()
         rows = List()
@@ -1845,6 +1843,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         vals = List()
 
         for k in range(prop_out.shape[1]):
+            s_tot = np.sum(s_out[:, k])
+            assert np.abs(1 - np.sum(s_in[:, k]) / s_tot) < 1e-6, msg
+
             for i, p_out_i in enumerate(prop_out[:, k]):
                 for j, p_in_j in enumerate(prop_in[:, k]):
                     if (i != j) | selfloops:
-- 
2.43.0


From 387933a16c08624e3666d464c3ef407746864f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:27 +0000
Subject: [PATCH 03/33] fix: self-loop term of the expected neighbour property
 uses its own dyad

---
 src/graph_ensembles/models.py                  | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 7cda55a..3f88fe1 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -477,7 +477,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 424ee6e..75ab61b 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -474,7 +474,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
-- 
2.43.0


From eff00488662a4f4877219945377227f0596128ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:39 +0000
Subject: [PATCH 04/33] fix: weighted samples of the random model return the
 drawn weights

---
 src/graph_ensembles/models.py               | 6 ++++--
 src/graph_ensembles/spark/models.py         | 6 ++++--
 src/graph_ensembles/sparse/models/random.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 3f88fe1..32043f3 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -974,7 +974,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -992,7 +992,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1013,6 +1013,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ece4f12..fe2c771 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1335,7 +1335,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1353,7 +1353,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1374,6 +1374,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8dcebfe..b42b284 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -432,7 +432,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -450,7 +450,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -474,6 +474,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
-- 
2.43.0


From 0ad0ebc0be914bd7067afcd9fc95e03e1bce681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:39 +0000
Subject: [PATCH 05/33] fix: expected total weight of the random model uses its
 fitted parameters

---
 src/graph_ensembles/models.py               | 4 ++--
 src/graph_ensembles/spark/models.py         | 4 ++--
 src/graph_ensembles/sparse/models/random.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 32043f3..17bc008 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -720,9 +720,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index fe2c771..d58e7a1 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1080,9 +1080,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index b42b284..3f27948 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -180,9 +180,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
-- 
2.43.0


From 57d95d5d9fb9d2fca8360835136648c24a1de609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 06/33] fix: undirected neighbour average of the random model
 counts a self-loop once

---
 src/graph_ensembles/models.py               | 2 ++
 src/graph_ensembles/spark/models.py         | 2 ++
 src/graph_ensembles/sparse/models/random.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 17bc008..6def50d 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -800,6 +800,8 @@ class RandomDiGraph(DiGraphEnsemble):
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            else:
+                av_nn += (self.param[0] ** 2 - self.param[0]) * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index d58e7a1..1f00a04 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1163,6 +1163,8 @@ class RandomDiGraph(DiGraphEnsemble):
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            else:
+                av_nn += (self.param[0] ** 2 - self.param[0]) * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 3f27948..97f5778 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -260,6 +260,8 @@ class RandomDiGraph(DiGraphEnsemble):
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            else:
+                av_nn += (self.param[0] ** 2 - self.param[0]) * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
-- 
2.43.0


From 4c43d5a50067f62e18fe12039ef23bb7ba95a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 07/33] fix: random model log-likelihood is finite for graphs
 of probability one at p=0 and p=1

---
 src/graph_ensembles/models.py               | 27 +++++++++++----------
 src/graph_ensembles/spark/models.py         | 23 ++++++++++--------
 src/graph_ensembles/sparse/models/random.py | 23 ++++++++++--------
 3 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 6def50d..132032c 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -850,23 +850,24 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (np.count_nonzero(adj) > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (np.count_nonzero(adj) != 0):
-            return -np.infty
-
-        like = np.count_nonzero(adj) * log(self.param[0])
+        num_e = np.count_nonzero(adj)
         if selfloops:
-            like += (self.num_vertices**2 - np.count_nonzero(adj)) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices**2
         else:
-            like += (
-                self.num_vertices * (self.num_vertices - 1) - np.count_nonzero(adj)
-            ) * log1p(-self.param[0])
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
             # Ensure that the matrix has no elements on the diagonal
-            if np.count_nonzero(adj.ravel()[:: adj.shape[1] + 1]) > 0:
+            if np.count_nonzero(np.diagonal(adj)) > 0:
+                return -np.infty
+
+        like = 0.0
+        if num_e > 0:
+            if self.param[0] == 0:
+                return -np.infty
+            like += num_e * log(self.param[0])
+        if num_e < num_pairs:
+            if self.param[0] == 1:
                 return -np.infty
+            like += (num_pairs - num_e) * log1p(-self.param[0])
 
         return like
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 1f00a04..a316688 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1213,22 +1213,25 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        num_e = adj.nnz
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
+            num_pairs = self.num_vertices**2
         else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
             # Ensure that the matrix has no elements on the diagonal
             if adj.diagonal().sum() > 0:
                 return -np.infty
 
+        like = 0.0
+        if num_e > 0:
+            if self.param[0] == 0:
+                return -np.infty
+            like += num_e * log(self.param[0])
+        if num_e < num_pairs:
+            if self.param[0] == 1:
+                return -np.infty
+            like += (num_pairs - num_e) * log1p(-self.param[0])
+
         return like
 
     def sample(
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 97f5778..321b6d6 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -310,22 +310,25 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        num_e = adj.nnz
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
+            num_pairs = self.num_vertices**2
         else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
             # Ensure that the matrix has no elements on the diagonal
             if adj.diagonal().sum() > 0:
                 return -np.infty
 
+        like = 0.0
+        if num_e > 0:
+            if self.param[0] == 0:
+                return -np.infty
+            like += num_e * log(self.param[0])
+        if num_e < num_pairs:
+            if self.param[0] == 1:
+                return -np.infty
+            like += (num_pairs - num_e) * log1p(-self.param[0])
+
         return like
 
     def sample(
-- 
2.43.0


From 8e2ba35735c58408000fa7c7824675c0676dd433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:47 +0000
Subject: [PATCH 08/33] fix: dense graphs sum the weights of repeated edges

---
 src/graph_ensembles/graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 227a1e1..40f2244 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -182,7 +182,7 @@ class Graph:
             self.adj = np.zeros(
                 (self.num_vertices, self.num_vertices), dtype=val_array.dtype
             )
-            self.adj[src_array, dst_array] = val_array
+            np.add.at(self.adj, (src_array, dst_array), val_array)
 
         else:
             self.weighted = False
@@ -847,7 +847,7 @@ class MultiGraph(Graph):
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
             )
-            self.adj[lbl_array, src_array, dst_array] = val_array
+            np.add.at(self.adj, (lbl_array, src_array, dst_array), val_array)
         else:
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices), dtype=bool
-- 
2.43.0


From 52d7dbeea99861e142cd12c5fcdf9474a89efdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:14 +0000
Subject: [PATCH 09/33] fix: undirected weighted matrix of dense multigraphs
 counts self-loops once

---
 src/graph_ensembles/graphs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 40f2244..d9707cf 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -862,10 +862,11 @@ class MultiGraph(Graph):
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
+            diag = np.diag(adj).copy()
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         else:
             adj = adj != 0
@@ -1129,10 +1130,11 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
         elif not directed and weighted:
             # Symmetrize
+            diag = np.diag(adj).copy()
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         elif not directed and not weighted:
             adj = adj != 0
-- 
2.43.0


From 3d164a058bf5b8824e0721ed5babca70786e49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:19 +0000
Subject: [PATCH 10/33] fix: dense strengths by group keep the dtype of the
 weights

---
 src/graph_ensembles/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index d9707cf..2aba0a8 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -373,7 +373,7 @@ class Graph:
         """
         # Initialize empty result
         M = g_arr.max() + 1
-        res = np.zeros((mat.shape[0], M), dtype=np.int64)
+        res = np.zeros((mat.shape[0], M), dtype=mat.sum(axis=1).dtype)
 
         # Count group occurrences
         for i in range(M):
-- 
2.43.0


From 1ad349a2cadca19ced1f428a5ffa57efca6d1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:19 +0000
Subject: [PATCH 11/33] fix: dense in-neighbour average excludes self-loops
 when asked to

---
 src/graph_ensembles/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 2aba0a8..caad10d 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -386,7 +386,7 @@ class Graph:
         """Computes the sum of the nearest neighbours' properties."""
         # If no self loops remove diagonal
         if not selfloops:
-            adj.ravel()[:: adj.shape[1] + 1] = 0
+            np.fill_diagonal(adj, 0)
 
         # Compute sum
         res = adj.dot(prop)
-- 
2.43.0


From 82e9ddc6afa760d810cda194ddc97d864a9ffea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:14 +0000
Subject: [PATCH 12/33] fix: sample and log_likelihood honour the selfloops
 argument

---
 src/graph_ensembles/models.py                  | 18 +++++++++---------
 src/graph_ensembles/spark/models.py            | 10 ++++------
 .../sparse/models/conditional.py               |  6 +++---
 src/graph_ensembles/sparse/models/ensembles.py | 10 +++++-----
 src/graph_ensembles/sparse/models/random.py    |  8 ++++----
 5 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 132032c..5ea9149 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -325,7 +325,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_in,
             self.prop_dyad,
             adj,
-            self.selfloops,
+            selfloops,
         )
 
         return like
@@ -379,7 +379,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -396,7 +396,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             g.adj[rows, cols] = vals
@@ -915,7 +915,7 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -923,11 +923,11 @@ class RandomDiGraph(DiGraphEnsemble):
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             g.adj[rows, cols] = vals
         elif weights == "cremb":
@@ -937,7 +937,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
             g.adj[rows, cols] = vals
         else:
@@ -1710,7 +1710,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -1722,7 +1722,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_dyad,
                 s_out_l,
                 s_in_l,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index a316688..1ebfd09 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1278,17 +1278,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -1296,7 +1296,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -2568,7 +2568,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         if weights is None:
             e_fun = self._binary_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
@@ -2596,7 +2595,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         elif weights == "cremb":
             e_fun = self._cremb_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5fd068c..5830062 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -381,7 +381,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.groups,
                 self.adj.indptr,
                 self.adj.indices,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -399,7 +399,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.indices,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         elif weights == "wagg":
             if out_strength is None:
@@ -417,7 +417,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.data,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 75ab61b..3e45c47 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -320,7 +320,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_dyad,
             adj.indptr,
             adj.indices,
-            self.selfloops,
+            selfloops,
         )
 
         return like
@@ -374,7 +374,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -390,7 +390,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -924,7 +924,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     prop_out[i],
                     prop_in[i],
                     self.prop_dyad,
-                    self.selfloops,
+                    selfloops,
                 )
                 vals = np.ones(len(rows), dtype=bool)
             elif weights == "cremb":
@@ -936,7 +936,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.prop_dyad,
                     s_out_l[i],
                     s_in_l[i],
-                    self.selfloops,
+                    selfloops,
                 )
             else:
                 raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 321b6d6..c4e5ebc 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -375,17 +375,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -393,7 +393,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From 52580c6559214b0bf78775292f4edcdeacf4ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:39 +0000
Subject: [PATCH 13/33] fix: expected neighbour averages do not leak or reuse
 another self-loop option

---
 src/graph_ensembles/models.py                 | 23 ++++++++--
 src/graph_ensembles/spark/models.py           | 43 +++++++++++++++----
 .../sparse/models/ensembles.py                | 20 +++++++--
 src/graph_ensembles/sparse/models/random.py   |  3 ++
 4 files changed, 73 insertions(+), 16 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 5ea9149..6a2aaf2 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -182,6 +182,9 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -249,12 +252,20 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -273,6 +284,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
@@ -772,6 +784,9 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 1ebfd09..f99a451 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -211,6 +211,9 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -278,12 +281,20 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -302,6 +313,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
@@ -1135,6 +1147,9 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2150,6 +2165,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2231,12 +2249,20 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -2255,6 +2281,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 3e45c47..654bc27 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -176,6 +176,9 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -243,12 +246,20 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -267,6 +278,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index c4e5ebc..fa0a01d 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -232,6 +232,9 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
-- 
2.43.0


From dc4ba63e57cc794443da17134cad2ff5411e1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:40 +0000
Subject: [PATCH 14/33] fix: graph neighbour degree averages do not reuse
 another self-loop option

---
 src/graph_ensembles/graphs.py        | 18 ++++++++++++------
 src/graph_ensembles/sparse/graphs.py | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index caad10d..9f81832 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -310,10 +310,12 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Compute correct degree
             deg = self.degree(recompute=deg_recompute)
 
@@ -321,6 +323,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
@@ -657,10 +660,12 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Compute correct degree
             if ddir == "out":
                 deg = self.out_degree(recompute=deg_recompute)
@@ -676,6 +681,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index e4a826b..b8bb170 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -328,10 +328,12 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Compute correct degree
             deg = self.degree(recompute=deg_recompute)
 
@@ -339,6 +341,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
@@ -730,10 +733,12 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the self-loops option it used
+        same_self = getattr(self, name + "_selfloops", selfloops) == selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or not same_self:
             # Compute correct degree
             if ddir == "out":
                 deg = self.out_degree(recompute=deg_recompute)
@@ -749,6 +754,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
-- 
2.43.0


From 6f7bc73b9f6589fc3f38031ca78e82f59d600632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:53 +0000
Subject: [PATCH 15/33] fix: neighbour averages without self-loops do not count
 them in the degree

---
 src/graph_ensembles/graphs.py        | 11 ++++++++---
 src/graph_ensembles/sparse/graphs.py |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 9f81832..8ab7d6f 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -291,10 +291,12 @@ class Graph:
         # Compute correct degree
         deg = self.degree(recompute=deg_recompute)
 
+        adj = self.adjacency_matrix(directed=False, weighted=False)
+        if not selfloops:
+            deg = deg - np.diag(adj)
+
         # It is necessary to select the elements or pickling will fail
-        av_nn = self.av_nn_prop(
-            self.adjacency_matrix(directed=False, weighted=False), prop, selfloops
-        )
+        av_nn = self.av_nn_prop(adj, prop, selfloops)
 
         # Test that mask is the same
         ind = deg != 0
@@ -632,6 +634,9 @@ class DiGraph(Graph):
         else:
             raise ValueError("Neighbourhood direction not recognised.")
 
+        if not selfloops:
+            deg = deg - np.diag(adj)
+
         # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj, prop, selfloops)
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index b8bb170..694dc42 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -312,6 +312,8 @@ class Graph:
 
         # It is necessary to select the elements or pickling will fail
         adj = self.adjacency_matrix(directed=False, weighted=False)
+        if not selfloops:
+            deg = deg - adj.diagonal()
         av_nn = self.av_nn_prop(adj.indptr, adj.indices, prop, selfloops)
 
         # Test that mask is the same
@@ -702,6 +704,9 @@ class DiGraph(Graph):
         else:
             raise ValueError("Neighbourhood direction not recognised.")
 
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
         if sp.issparse(prop):
             prop = prop.todense()
 
-- 
2.43.0


From 7c06e9df23f82571b99d6e1de1dde8683e1cfdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:12 +0000
Subject: [PATCH 16/33] fix: undirected weighted matrices of unweighted sparse
 graphs keep self-loops

---
 src/graph_ensembles/sparse/graphs.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 694dc42..80c281a 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -215,11 +215,8 @@ class Graph:
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            diag = sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
+            adj = self.adj + (self.adj - diag).T
         else:
             adj = self.adj != 0
             adj = adj + adj.T
@@ -544,11 +541,8 @@ class DiGraph(Graph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            diag = sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
+            adj = self.adj + (self.adj - diag).T
 
         else:
             adj = self.adj != 0
@@ -962,7 +956,7 @@ class MultiGraph(Graph):
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = adj + (adj - sp.spdiags(adj.diagonal(), 0, m=adj.shape)).T
 
         else:
             adj = adj != 0
@@ -978,7 +972,8 @@ class MultiGraph(Graph):
             sym = []
             for lbl in range(self.num_labels):
                 adj = self.adj[lbl]
-                sym.append(adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape))
+                diag = sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+                sym.append(adj + (adj - diag).T)
 
         else:
             sym = []
@@ -1236,7 +1231,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = adj + (adj - sp.spdiags(adj.diagonal(), 0, m=adj.shape)).T
 
         elif not directed and not weighted:
             adj = adj != 0
@@ -1259,7 +1254,8 @@ class MultiDiGraph(MultiGraph, DiGraph):
             adj = []
             for lbl in range(self.num_labels):
                 tmp = self.adj[lbl]
-                adj.append(tmp + tmp.T - sp.spdiags(tmp.diagonal(), 0, m=tmp.shape))
+                diag = sp.spdiags(tmp.diagonal(), 0, m=tmp.shape)
+                adj.append(tmp + (tmp - diag).T)
 
         else:
             adj = []
-- 
2.43.0


From 7a0decdae47e559e4cd1f57684da934dfd116539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 17/33] fix: dense labelled likelihood accepts a list of sparse
 layers

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 6a2aaf2..7e7de21 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1579,7 +1579,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list) and sp.issparse(g[0]):
-            adj = [x.todense() for x in g]
+            adj = np.array([x.toarray() for x in g])
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
-- 
2.43.0


From 880f9015899dad04ed8352b0e0a65ea67c8230b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:44 +0000
Subject: [PATCH 18/33] fix: expected degrees by label count each dyad once

---
 src/graph_ensembles/spark/models.py            | 3 +++
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index f99a451..1f02911 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2780,6 +2780,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     pij = p_ijk(param, f_out_i, f_in_j, pdyad(ind_i, ind_j))
 
                     if (ind_i in ind_in) and (ind_j in ind_out):
+                        if ind_i > ind_j:
+                            # Both directions are added when visiting (j, i)
+                            continue
                         f_in_i = prop_in[np.where(ind_in == ind_i)][0]
                         f_out_j = prop_out[np.where(ind_out == ind_j)][0]
                         pji = p_ijk(param, f_out_j, f_in_i, pdyad(ind_i, ind_j))
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 654bc27..8db503b 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1019,6 +1019,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     else:
                         p_out_j = 0.0
 
+                    if i > j and np.any(loc_i) and np.any(loc_j):
+                        # Both directions are added when visiting (j, i)
+                        continue
+
                     if i != j:
                         pij = p_ijk(param[lbl], p_out_i, p_in_j, prop_dyad(i, j))
                         pji = p_ijk(param[lbl], p_out_j, p_in_i, prop_dyad(j, i))
-- 
2.43.0


From 903ecfabfad3a4bfa64a5ba1a3532f470fa0a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:09 +0000
Subject: [PATCH 19/33] fix: spark labelled ensembles check and refresh their
 own stored results

---
 src/graph_ensembles/spark/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 1f02911..a2fbd8f 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1961,7 +1961,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
-        if not hasattr(self, "_exp_num_edges_label") or recompute:
+        if not hasattr(self, "_exp_num_edges") or recompute:
             # It is necessary to select the elements or pickling will fail
             delta = self.param
             slflp = self.selfloops
@@ -2136,14 +2136,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
     def expected_out_degree_by_label(self, recompute=False):
         """Compute the expected out degree."""
         if not hasattr(self, "_exp_out_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_out_degree_label
 
     def expected_in_degree_by_label(self, recompute=False):
         """Compute the expected in degree."""
         if not hasattr(self, "_exp_in_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_in_degree_label
 
-- 
2.43.0


From 2267fba9d875b62a6cfd78a813ae02699832dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:09 +0000
Subject: [PATCH 20/33] fix: row normalisation of integer or boolean weights is
 not truncated

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index cb10f89..6a72d32 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -7,7 +7,7 @@ from numba import jit
 
 @jit(nopython=True)  # pragma: no cover
 def normalise_rows(rows, clms, weights):
-    new_w = np.zeros(len(weights), dtype=weights.dtype)
+    new_w = np.zeros(len(weights), dtype=np.float64)
     for i in range(len(rows) - 1):
         n = rows[i]
         m = rows[i + 1]
-- 
2.43.0


From ebb1420e66f250826fbef39c97a8bbcfb15c2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:09 +0000
Subject: [PATCH 21/33] fix: trophic depth works with sparse array adjacency
 matrices

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 6a72d32..0a40dd5 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -101,7 +101,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     w = adj.data
 
     # Initialise result
-    strength = adj.sum(axis=1).A1 + final
+    strength = np.asarray(adj.sum(axis=1)).ravel() + final
     idx = strength != 0
     depth = final
 
-- 
2.43.0


From 9776bc446dfc37f557ac22a43e054c4663efa1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 22/33] fix: labelled invariant model handles infinite
 parameters in its fit function

---
 src/graph_ensembles/models.py                  | 16 ++++++----------
 src/graph_ensembles/spark/models.py            | 16 ++++++----------
 src/graph_ensembles/sparse/models/invariant.py | 16 ++++++----------
 3 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 7e7de21..69fea87 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2496,10 +2496,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         val = np.float64(0.0)
 
@@ -2507,14 +2503,14 @@ class MultiInvariantModel(MultiFitnessModel):
         for i, (x_i, y_i) in enumerate(zip(prop_out, prop_in)):
             if (x_i != 0) and (y_i != 0):
                 tmp = x_i * y_i
-                if isinf(tmp):
-                    return 1.0, 0.0
-                else:
-                    val += tmp
+                val += tmp
 
-        val1 = d[0] * val
-        if val1 == 0.0:
+        if val == 0.0 or d[0] == 0:
             return 0.0, val
+
+        val1 = d[0] * val
+        if isinf(val1):
+            return 1.0, 0.0
         else:
             return -expm1(-val1), val * exp(-val1)
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index a2fbd8f..2986d66 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3932,10 +3932,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         i = 0
         j = 0
@@ -3946,10 +3942,7 @@ class MultiInvariantModel(MultiFitnessModel):
             if x_lbl[i] == y_lbl[j]:
                 if (x_val[i] != 0) and (y_val[j] != 0):
                     tmp = x_val[i] * y_val[j]
-                    if isinf(tmp):
-                        return 1.0, 0.0
-                    else:
-                        val += tmp
+                    val += tmp
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -3957,9 +3950,12 @@ class MultiInvariantModel(MultiFitnessModel):
             else:
                 j += 1
 
-        val1 = d[0] * val
-        if val1 == 0.0:
+        if val == 0.0 or d[0] == 0:
             return 0.0, val
+
+        val1 = d[0] * val
+        if isinf(val1):
+            return 1.0, 0.0
         else:
             return -expm1(-val1), val * exp(-val1)
 
diff --git a/src/graph_ensembles/sparse/models/invariant.py b/src/graph_ensembles/sparse/models/invariant.py
index 9e0fc10..d86466b 100644
--- a/src/graph_ensembles/sparse/models/invariant.py
+++ b/src/graph_ensembles/sparse/models/invariant.py
@@ -152,10 +152,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         i = 0
         j = 0
@@ -170,10 +166,7 @@ class MultiInvariantModel(MultiFitnessModel):
             if x_lbl[i] == y_lbl[j]:
                 if (x_val[i] != 0) and (y_val[j] != 0):
                     tmp = x_val[i] * y_val[j]
-                    if isinf(tmp):
-                        return 1.0, 0.0
-                    else:
-                        val += tmp
+                    val += tmp
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -181,9 +174,12 @@ class MultiInvariantModel(MultiFitnessModel):
             else:
                 j += 1
 
-        val1 = d[0] * val
-        if val1 == 0.0:
+        if val == 0.0 or d[0] == 0:
             return 0.0, val
+
+        val1 = d[0] * val
+        if isinf(val1):
+            return 1.0, 0.0
         else:
             return -expm1(-val1), val * exp(-val1)
 
-- 
2.43.0


From 4289c3b6671b5d41e4736dbb13eaf7bd15051dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:13 +0000
Subject: [PATCH 23/33] fix: conditional expected degrees check each direction
 of the group link

---
 src/graph_ensembles/sparse/models/conditional.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5830062..58bc26f 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -599,7 +599,8 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             gr_list = adj_j[n:m]
             for j in range(i + 1):
                 b = groups[j]
-                if b in gr_list:
+                gr_list_b = adj_j[adj_i[b] : adj_i[b + 1]]
+                if (b in gr_list) or (a in gr_list_b):
                     p_out_j = prop_out[j]
                     p_in_j = prop_in[j]
                     if i != j:
@@ -641,6 +642,11 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 agg_p_in[a],
                                 1.0,
                             )
+                        # Only the observed group links allow for edges
+                        if b not in gr_list:
+                            pij = 0.0
+                        if a not in gr_list_b:
+                            pji = 0.0
                         p = pij + pji - pij * pji
                         exp_d[i] += p
                         exp_d[j] += p
-- 
2.43.0


From 25d319b185f0e2690369ca698cc8974c2c1df426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:54 +0000
Subject: [PATCH 24/33] fix: labelled models accept properties with unsorted
 sparse indices

---
 src/graph_ensembles/spark/models.py          | 7 +++++--
 src/graph_ensembles/sparse/models/fitness.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 2986d66..4f6cfc0 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3294,8 +3294,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
         # Convert to csr matrices
-        self.prop_out = sp.csr_matrix(self.prop_out)
-        self.prop_in = sp.csr_matrix(self.prop_in)
+        # The label indices of each vertex must be sorted and unique
+        self.prop_out = sp.csr_matrix(self.prop_out, copy=True)
+        self.prop_out.sum_duplicates()
+        self.prop_in = sp.csr_matrix(self.prop_in, copy=True)
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 6a02a46..346a533 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -467,8 +467,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
         # Convert to csr matrices
-        self.prop_out = sp.csr_array(self.prop_out)
-        self.prop_in = sp.csr_array(self.prop_in)
+        # The label indices of each vertex must be sorted and unique
+        self.prop_out = sp.csr_array(self.prop_out, copy=True)
+        self.prop_out.sum_duplicates()
+        self.prop_in = sp.csr_array(self.prop_in, copy=True)
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
-- 
2.43.0


From 572eb7af8a94eb1121e38cf45aef6883a573a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:12 +0000
Subject: [PATCH 25/33] fix: per-label fits keep fractional parameters when x0
 has an integer type

---
 src/graph_ensembles/models.py                | 2 +-
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 69fea87..0885472 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2178,7 +2178,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 for i in range(self.num_labels):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4f6cfc0..83370b9 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3525,7 +3525,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Initialize each layer with solver function
                 d_fit = self.density_fit_layer
@@ -3557,7 +3557,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Collect solution to array
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
                 self.solver_output = [None] * self.num_labels
                 tmp = sol_rdd.collect()
                 for i, sol in tmp:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 346a533..21bc027 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -634,7 +634,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 prop_out = sp.csr_array(
-- 
2.43.0


From 10620b0c73cf80c43132dd2f05490aa1f68aadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 26/33] fix: neighbour averages of vector-valued properties
 divide each row by its own degree

---
 src/graph_ensembles/graphs.py                  |  4 ++--
 src/graph_ensembles/models.py                  | 10 +++++-----
 src/graph_ensembles/spark/models.py            |  6 +++---
 src/graph_ensembles/sparse/graphs.py           |  4 ++--
 src/graph_ensembles/sparse/models/ensembles.py |  2 +-
 src/graph_ensembles/sparse/models/random.py    |  8 ++++----
 6 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 8ab7d6f..52cea23 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -304,7 +304,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -646,7 +646,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 0885472..5d0e276 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -221,7 +221,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -806,13 +806,13 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute expected property
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
+            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
             else:
@@ -826,7 +826,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 83370b9..994225b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -250,7 +250,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -1189,7 +1189,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -2218,7 +2218,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 80c281a..b726cd7 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -319,7 +319,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -713,7 +713,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 8db503b..59e6586 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -215,7 +215,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index fa0a01d..9834579 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -254,13 +254,13 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute av_nn_prop
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
+            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
             else:
@@ -274,7 +274,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
-- 
2.43.0


From a9d438177ccee8943351413d98787d38c40601ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 27/33] fix: a failing neighbour-average query leaves the
 self-loop option unchanged

---
 src/graph_ensembles/models.py                 | 140 +++++-----
 src/graph_ensembles/spark/models.py           | 241 +++++++++---------
 .../sparse/models/ensembles.py                |  75 +++---
 src/graph_ensembles/sparse/models/random.py   |  71 +++---
 4 files changed, 267 insertions(+), 260 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 5d0e276..73270a0 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -193,45 +193,46 @@ class DiGraphEnsemble(GraphEnsemble):
             deg_recompute = True
             self.selfloops = selfloops
 
-        # Compute correct expected degree
-        if ndir == "out":
-            deg = self.expected_out_degree(recompute=deg_recompute)
-        elif ndir == "in":
-            deg = self.expected_in_degree(recompute=deg_recompute)
-        elif ndir == "out-in":
-            deg = self.expected_degree(recompute=deg_recompute)
-        else:
-            raise ValueError("Neighbourhood direction not recognised.")
-
-        # Compute expected property
-        av_nn = self.exp_av_nn_prop(
-            self.p_ij,
-            self.param,
-            self.prop_out,
-            self.prop_in,
-            self.prop_dyad,
-            prop,
-            ndir,
-            self.selfloops,
-        )
+        try:
+            # Compute correct expected degree
+            if ndir == "out":
+                deg = self.expected_out_degree(recompute=deg_recompute)
+            elif ndir == "in":
+                deg = self.expected_in_degree(recompute=deg_recompute)
+            elif ndir == "out-in":
+                deg = self.expected_degree(recompute=deg_recompute)
+            else:
+                raise ValueError("Neighbourhood direction not recognised.")
 
-        # Test that mask is the same
-        ind = deg != 0
-        msg = "Got a av_nn for an empty neighbourhood."
-        assert np.all(av_nn[~ind] == 0), msg
+            # Compute expected property
+            av_nn = self.exp_av_nn_prop(
+                self.p_ij,
+                self.param,
+                self.prop_out,
+                self.prop_in,
+                self.prop_dyad,
+                prop,
+                ndir,
+                self.selfloops,
+            )
 
-        # Average results
-        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+            # Test that mask is the same
+            ind = deg != 0
+            msg = "Got a av_nn for an empty neighbourhood."
+            assert np.all(av_nn[~ind] == 0), msg
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
+            # Average results
+            av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+        finally:
+            # Restore model self-loops properties if they have been modified
+            if tmp_self != self.selfloops:
+                self.selfloops = tmp_self
+                if hasattr(self, "_exp_out_degree"):
+                    del self._exp_out_degree
+                if hasattr(self, "_exp_in_degree"):
+                    del self._exp_in_degree
+                if hasattr(self, "_exp_degree"):
+                    del self._exp_degree
 
         return av_nn
 
@@ -795,42 +796,43 @@ class RandomDiGraph(DiGraphEnsemble):
             deg_recompute = True
             self.selfloops = selfloops
 
-        # Compute correct expected degree
-        if ndir == "out":
-            deg = self.expected_out_degree(recompute=deg_recompute)
-        elif ndir == "in":
-            deg = self.expected_in_degree(recompute=deg_recompute)
-        elif ndir == "out-in":
-            deg = self.expected_degree(recompute=deg_recompute)
-        else:
-            raise ValueError("Neighbourhood direction not recognised.")
-
-        # Compute expected property
-        av_nn = np.empty(prop.shape, dtype=np.float64)
-        if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -self.param[0] * prop
-        elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+        try:
+            # Compute correct expected degree
+            if ndir == "out":
+                deg = self.expected_out_degree(recompute=deg_recompute)
+            elif ndir == "in":
+                deg = self.expected_in_degree(recompute=deg_recompute)
+            elif ndir == "out-in":
+                deg = self.expected_degree(recompute=deg_recompute)
             else:
-                av_nn += (self.param[0] ** 2 - self.param[0]) * prop
-        else:
-            raise ValueError("Direction of neighbourhood not right.")
-
-        # Test that mask is the same
-        ind = deg != 0
-        msg = "Got a av_nn for an empty neighbourhood."
-        assert np.all(av_nn[~ind] == 0), msg
+                raise ValueError("Neighbourhood direction not recognised.")
+
+            # Compute expected property
+            av_nn = np.empty(prop.shape, dtype=np.float64)
+            if (ndir == "out") or (ndir == "in"):
+                av_nn[:] = np.sum(self.param[0] * prop, axis=0)
+                if not self.selfloops:
+                    av_nn += -self.param[0] * prop
+            elif ndir == "out-in":
+                av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
+                if not self.selfloops:
+                    av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+                else:
+                    av_nn += (self.param[0] ** 2 - self.param[0]) * prop
+            else:
+                raise ValueError("Direction of neighbourhood not right.")
 
-        # Average results
-        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+            # Test that mask is the same
+            ind = deg != 0
+            msg = "Got a av_nn for an empty neighbourhood."
+            assert np.all(av_nn[~ind] == 0), msg
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
+            # Average results
+            av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+        finally:
+            # Restore model self-loops properties if they have been modified
+            if tmp_self != self.selfloops:
+                self.selfloops = tmp_self
 
         return av_nn
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 994225b..d7369b2 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -222,45 +222,46 @@ class DiGraphEnsemble(GraphEnsemble):
             deg_recompute = True
             self.selfloops = selfloops
 
-        # Compute correct expected degree
-        if ndir == "out":
-            deg = self.expected_out_degree(recompute=deg_recompute)
-        elif ndir == "in":
-            deg = self.expected_in_degree(recompute=deg_recompute)
-        elif ndir == "out-in":
-            deg = self.expected_degree(recompute=deg_recompute)
-        else:
-            raise ValueError("Neighbourhood direction not recognised.")
+        try:
+            # Compute correct expected degree
+            if ndir == "out":
+                deg = self.expected_out_degree(recompute=deg_recompute)
+            elif ndir == "in":
+                deg = self.expected_in_degree(recompute=deg_recompute)
+            elif ndir == "out-in":
+                deg = self.expected_degree(recompute=deg_recompute)
+            else:
+                raise ValueError("Neighbourhood direction not recognised.")
 
-        # It is necessary to select the elements or pickling will fail
-        e_fun = self.exp_av_nn_prop
-        p_ij = self.p_ij
-        delta = self.param
-        pdyad = self.prop_dyad
-        tmp = self.p_sym_rdd.map(
-            lambda x: e_fun(
-                p_ij, delta, x[0][0], x[0][1], x[1], x[2], pdyad, prop, ndir, selfloops
+            # It is necessary to select the elements or pickling will fail
+            e_fun = self.exp_av_nn_prop
+            p_ij = self.p_ij
+            delta = self.param
+            pdyad = self.prop_dyad
+            tmp = self.p_sym_rdd.map(
+                lambda x: e_fun(
+                    p_ij, delta, x[0][0], x[0][1], x[1], x[2], pdyad, prop, ndir, selfloops
+                )
             )
-        )
-        av_nn = tmp.fold(np.zeros(prop.shape, dtype=np.float64), lambda x, y: x + y)
-
-        # Test that mask is the same
-        ind = deg != 0
-        msg = "Got a av_nn for an empty neighbourhood."
-        assert np.all(av_nn[~ind] == 0), msg
-
-        # Average results
-        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
-
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
+            av_nn = tmp.fold(np.zeros(prop.shape, dtype=np.float64), lambda x, y: x + y)
+
+            # Test that mask is the same
+            ind = deg != 0
+            msg = "Got a av_nn for an empty neighbourhood."
+            assert np.all(av_nn[~ind] == 0), msg
+
+            # Average results
+            av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+        finally:
+            # Restore model self-loops properties if they have been modified
+            if tmp_self != self.selfloops:
+                self.selfloops = tmp_self
+                if hasattr(self, "_exp_out_degree"):
+                    del self._exp_out_degree
+                if hasattr(self, "_exp_in_degree"):
+                    del self._exp_in_degree
+                if hasattr(self, "_exp_degree"):
+                    del self._exp_degree
 
         return av_nn
 
@@ -1158,42 +1159,43 @@ class RandomDiGraph(DiGraphEnsemble):
             deg_recompute = True
             self.selfloops = selfloops
 
-        # Compute correct expected degree
-        if ndir == "out":
-            deg = self.expected_out_degree(recompute=deg_recompute)
-        elif ndir == "in":
-            deg = self.expected_in_degree(recompute=deg_recompute)
-        elif ndir == "out-in":
-            deg = self.expected_degree(recompute=deg_recompute)
-        else:
-            raise ValueError("Neighbourhood direction not recognised.")
-
-        # It is necessary to select the elements or pickling will fail
-        av_nn = np.empty(prop.shape, dtype=np.float64)
-        if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
-            if not self.selfloops:
-                av_nn -= self.param[0] * prop
-        elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+        try:
+            # Compute correct expected degree
+            if ndir == "out":
+                deg = self.expected_out_degree(recompute=deg_recompute)
+            elif ndir == "in":
+                deg = self.expected_in_degree(recompute=deg_recompute)
+            elif ndir == "out-in":
+                deg = self.expected_degree(recompute=deg_recompute)
             else:
-                av_nn += (self.param[0] ** 2 - self.param[0]) * prop
-        else:
-            raise ValueError("Direction of neighbourhood not right.")
+                raise ValueError("Neighbourhood direction not recognised.")
 
-        # Test that mask is the same
-        ind = deg != 0
-        msg = "Got a av_nn for an empty neighbourhood."
-        assert np.all(av_nn[~ind] == 0), msg
+            # It is necessary to select the elements or pickling will fail
+            av_nn = np.empty(prop.shape, dtype=np.float64)
+            if (ndir == "out") or (ndir == "in"):
+                av_nn[:] = np.sum(self.param[0] * prop, axis=0)
+                if not self.selfloops:
+                    av_nn -= self.param[0] * prop
+            elif ndir == "out-in":
+                av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
+                if not self.selfloops:
+                    av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+                else:
+                    av_nn += (self.param[0] ** 2 - self.param[0]) * prop
+            else:
+                raise ValueError("Direction of neighbourhood not right.")
 
-        # Average results
-        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+            # Test that mask is the same
+            ind = deg != 0
+            msg = "Got a av_nn for an empty neighbourhood."
+            assert np.all(av_nn[~ind] == 0), msg
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
+            # Average results
+            av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+        finally:
+            # Restore model self-loops properties if they have been modified
+            if tmp_self != self.selfloops:
+                self.selfloops = tmp_self
 
         return av_nn
 
@@ -2176,59 +2178,60 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             deg_recompute = True
             self.selfloops = selfloops
 
-        # Compute correct expected degree
-        if ndir == "out":
-            deg = self.expected_out_degree(recompute=deg_recompute)
-        elif ndir == "in":
-            deg = self.expected_in_degree(recompute=deg_recompute)
-        elif ndir == "out-in":
-            deg = self.expected_degree(recompute=deg_recompute)
-        else:
-            raise ValueError("Neighbourhood direction not recognised.")
+        try:
+            # Compute correct expected degree
+            if ndir == "out":
+                deg = self.expected_out_degree(recompute=deg_recompute)
+            elif ndir == "in":
+                deg = self.expected_in_degree(recompute=deg_recompute)
+            elif ndir == "out-in":
+                deg = self.expected_degree(recompute=deg_recompute)
+            else:
+                raise ValueError("Neighbourhood direction not recognised.")
 
-        # It is necessary to select the elements or pickling will fail
-        e_fun = self.exp_av_nn_prop
-        p_ij = self.p_ij
-        pdyad = self.prop_dyad
-        delta = self.param
+            # It is necessary to select the elements or pickling will fail
+            e_fun = self.exp_av_nn_prop
+            p_ij = self.p_ij
+            pdyad = self.prop_dyad
+            delta = self.param
 
-        tmp = self.p_sym_rdd.map(
-            lambda x: e_fun(
-                p_ij,
-                delta,
-                x[0][0],
-                x[0][1],
-                (x[1][0].indptr, x[1][1].indptr),
-                (x[2][0].indptr, x[2][1].indptr),
-                (x[1][0].indices, x[1][1].indices),
-                (x[2][0].indices, x[2][1].indices),
-                (x[1][0].data, x[1][1].data),
-                (x[2][0].data, x[2][1].data),
-                pdyad,
-                prop,
-                ndir,
-                selfloops,
+            tmp = self.p_sym_rdd.map(
+                lambda x: e_fun(
+                    p_ij,
+                    delta,
+                    x[0][0],
+                    x[0][1],
+                    (x[1][0].indptr, x[1][1].indptr),
+                    (x[2][0].indptr, x[2][1].indptr),
+                    (x[1][0].indices, x[1][1].indices),
+                    (x[2][0].indices, x[2][1].indices),
+                    (x[1][0].data, x[1][1].data),
+                    (x[2][0].data, x[2][1].data),
+                    pdyad,
+                    prop,
+                    ndir,
+                    selfloops,
+                )
             )
-        )
-        av_nn = tmp.fold(np.zeros(prop.shape, dtype=np.float64), lambda x, y: x + y)
-
-        # Test that mask is the same
-        ind = deg != 0
-        msg = "Got a av_nn for an empty neighbourhood."
-        assert np.all(av_nn[~ind] == 0), msg
-
-        # Average results
-        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
-
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
+            av_nn = tmp.fold(np.zeros(prop.shape, dtype=np.float64), lambda x, y: x + y)
+
+            # Test that mask is the same
+            ind = deg != 0
+            msg = "Got a av_nn for an empty neighbourhood."
+            assert np.all(av_nn[~ind] == 0), msg
+
+            # Average results
+            av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+        finally:
+            # Restore model self-loops properties if they have been modified
+            if tmp_self != self.selfloops:
+                self.selfloops = tmp_self
+                if hasattr(self, "_exp_out_degree"):
+                    del self._exp_out_degree
+                if hasattr(self, "_exp_in_degree"):
+                    del self._exp_in_degree
+                if hasattr(self, "_exp_degree"):
+                    del self._exp_degree
 
         return av_nn
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 59e6586..0d906c4 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -187,45 +187,46 @@ class DiGraphEnsemble(GraphEnsemble):
             deg_recompute = True
             self.selfloops = selfloops
 
-        # Compute correct expected degree
-        if ndir == "out":
-            deg = self.expected_out_degree(recompute=deg_recompute)
-        elif ndir == "in":
-            deg = self.expected_in_degree(recompute=deg_recompute)
-        elif ndir == "out-in":
-            deg = self.expected_degree(recompute=deg_recompute)
-        else:
-            raise ValueError("Neighbourhood direction not recognised.")
+        try:
+            # Compute correct expected degree
+            if ndir == "out":
+                deg = self.expected_out_degree(recompute=deg_recompute)
+            elif ndir == "in":
+                deg = self.expected_in_degree(recompute=deg_recompute)
+            elif ndir == "out-in":
+                deg = self.expected_degree(recompute=deg_recompute)
+            else:
+                raise ValueError("Neighbourhood direction not recognised.")
 
-        # Compute expected property
-        av_nn = self.exp_av_nn_prop(
-            self.p_ij,
-            self.param,
-            self.prop_out,
-            self.prop_in,
-            self.prop_dyad,
-            prop,
-            ndir,
-            self.selfloops,
-        )
+            # Compute expected property
+            av_nn = self.exp_av_nn_prop(
+                self.p_ij,
+                self.param,
+                self.prop_out,
+                self.prop_in,
+                self.prop_dyad,
+                prop,
+                ndir,
+                self.selfloops,
+            )
 
-        # Test that mask is the same
-        ind = deg != 0
-        msg = "Got a av_nn for an empty neighbourhood."
-        assert np.all(av_nn[~ind] == 0), msg
-
-        # Average results
-        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
-
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
+            # Test that mask is the same
+            ind = deg != 0
+            msg = "Got a av_nn for an empty neighbourhood."
+            assert np.all(av_nn[~ind] == 0), msg
+
+            # Average results
+            av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+        finally:
+            # Restore model self-loops properties if they have been modified
+            if tmp_self != self.selfloops:
+                self.selfloops = tmp_self
+                if hasattr(self, "_exp_out_degree"):
+                    del self._exp_out_degree
+                if hasattr(self, "_exp_in_degree"):
+                    del self._exp_in_degree
+                if hasattr(self, "_exp_degree"):
+                    del self._exp_degree
 
         return av_nn
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 9834579..f4b1912 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -243,42 +243,43 @@ class RandomDiGraph(DiGraphEnsemble):
             deg_recompute = True
             self.selfloops = selfloops
 
-        # Compute correct expected degree
-        if ndir == "out":
-            deg = self.expected_out_degree(recompute=deg_recompute)
-        elif ndir == "in":
-            deg = self.expected_in_degree(recompute=deg_recompute)
-        elif ndir == "out-in":
-            deg = self.expected_degree(recompute=deg_recompute)
-        else:
-            raise ValueError("Neighbourhood direction not recognised.")
-
-        # Compute av_nn_prop
-        av_nn = np.empty(prop.shape, dtype=np.float64)
-        if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -self.param[0] * prop
-        elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+        try:
+            # Compute correct expected degree
+            if ndir == "out":
+                deg = self.expected_out_degree(recompute=deg_recompute)
+            elif ndir == "in":
+                deg = self.expected_in_degree(recompute=deg_recompute)
+            elif ndir == "out-in":
+                deg = self.expected_degree(recompute=deg_recompute)
             else:
-                av_nn += (self.param[0] ** 2 - self.param[0]) * prop
-        else:
-            raise ValueError("Direction of neighbourhood not right.")
-
-        # Test that mask is the same
-        ind = deg != 0
-        msg = "Got a av_nn for an empty neighbourhood."
-        assert np.all(av_nn[~ind] == 0), msg
-
-        # Average results
-        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
-
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
+                raise ValueError("Neighbourhood direction not recognised.")
+
+            # Compute av_nn_prop
+            av_nn = np.empty(prop.shape, dtype=np.float64)
+            if (ndir == "out") or (ndir == "in"):
+                av_nn[:] = np.sum(self.param[0] * prop, axis=0)
+                if not self.selfloops:
+                    av_nn += -self.param[0] * prop
+            elif ndir == "out-in":
+                av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
+                if not self.selfloops:
+                    av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+                else:
+                    av_nn += (self.param[0] ** 2 - self.param[0]) * prop
+            else:
+                raise ValueError("Direction of neighbourhood not right.")
+
+            # Test that mask is the same
+            ind = deg != 0
+            msg = "Got a av_nn for an empty neighbourhood."
+            assert np.all(av_nn[~ind] == 0), msg
+
+            # Average results
+            av_nn[ind] = (av_nn[ind].T / deg[ind]).T
+        finally:
+            # Restore model self-loops properties if they have been modified
+            if tmp_self != self.selfloops:
+                self.selfloops = tmp_self
 
         return av_nn
 
-- 
2.43.0


From ba10b05d44dcb0d6f54ef7cdc87ffceedb7b9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:08 +0000
Subject: [PATCH 28/33] fix: labelled CremB weights of vertices without
 strength are zero, not out of bounds

---
 src/graph_ensembles/spark/models.py            | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index d7369b2..99d8bc1 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3123,7 +3123,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out_ind == i
                         ind_in = s_in_ind == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out_val[ind_out][0]
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 0d906c4..3e358a3 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1156,7 +1156,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out[0] == i
                         ind_in = s_in[0] == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out[1][ind_out][0]
-- 
2.43.0


From fcee61d2eed116fcb1157b97f5290cf3b0d01b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:20 +0000
Subject: [PATCH 29/33] fix: networkx conversion of undirected multigraphs adds
 the weights of both directions

---
 src/graph_ensembles/graphs.py        | 3 ++-
 src/graph_ensembles/sparse/graphs.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 52cea23..8e83212 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -966,6 +966,7 @@ class MultiGraph(Graph):
 
         # Add edges per layer
         lbl, row, col = np.nonzero(self.adj)
+        vals = self.adjacency_tensor(directed=False, weighted=self.weighted)
         G.add_edges_from(
             zip(
                 row,
@@ -973,7 +974,7 @@ class MultiGraph(Graph):
                 lbl,
                 [
                     dict(weight=i, label=lbl_list[j])
-                    for i, j in zip(self.adj[self.adj != 0].ravel(), lbl)
+                    for i, j in zip(vals[lbl, row, col], lbl)
                 ],
             )
         )
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index b726cd7..3c982e8 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -1055,16 +1055,18 @@ class MultiGraph(Graph):
             lbl_list[i] = lbl_id
 
         # Add edges per layer
+        vals = self.adjacency_tensor(directed=False, weighted=self.weighted)
         for k in range(self.num_labels):
             adj = self.adj[k].tocoo()
             lbl = np.empty(adj.nnz)
             lbl[:] = k
+            val = np.asarray(vals[k].tocsr()[adj.row, adj.col]).ravel()
             G.add_edges_from(
                 zip(
                     adj.row,
                     adj.col,
                     lbl,
-                    [dict(weight=i, label=lbl_list[k]) for i in adj.data],
+                    [dict(weight=i, label=lbl_list[k]) for i in val],
                 )
             )
 
-- 
2.43.0


From 32e6d3c18e526cf91f6be279f42bc6be986e6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:19 +0000
Subject: [PATCH 30/33] fix: spark degrees by label of models without any
 possible edge are zero

---
 src/graph_ensembles/spark/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 99d8bc1..d16defb 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2117,9 +2117,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
             # Initialize results
             res = tmp.fold(([], [], []), lambda x, y: app_fun(x, y))
-            d = np.array(res[0])
-            d_out = np.array(res[1])
-            d_in = np.array(res[2])
+            d = np.array(res[0]).reshape(-1, 3)
+            d_out = np.array(res[1]).reshape(-1, 3)
+            d_in = np.array(res[2]).reshape(-1, 3)
             self._exp_degree_label = sp.coo_array(
                 (d[:, 2], (d[:, 0], d[:, 1])),
                 shape=(self.num_vertices, self.num_labels),
-- 
2.43.0


From 5dd45f8f0d77db7e0ab4ffb14462dc5509fa0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 31/33] fix: solver leaves the bracket when the target is not
 attained and the slope vanishes

---
 src/graph_ensembles/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 052aff5..bcae9e6 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -198,6 +198,9 @@ def monotonic_newton_solver(
                     x = x_l + 2 * np.abs(x_l)
             elif np.isinf(x_l):
                 x = x_u - 2 * np.abs(x_u)
+            elif f_u * f_l > 0:
+                # The target is not attained between the bounds
+                x = x_u if np.abs(f_u) < np.abs(f_l) else x_l
             else:
                 x = x_u - (f_u * (x_u - x_l)) / (f_u - f_l)
         else:
-- 
2.43.0


From e12e66c21e93f33a4aac9c7aa48579d56005494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:43 +0000
Subject: [PATCH 32/33] fix: pagerank and trophic depth with an iteration limit
 of zero return the start vector

---
 src/graph_ensembles/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 0a40dd5..628ee62 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -84,7 +84,7 @@ def pagerank(g, alpha=0.85, max_iter=100, tol=1e-6, weighted=True):
             print("Converged in ", n, " iterations!")
             return rank
 
-    print("Stopped after ", n + 1, " iterations!")
+    print("Stopped after ", max_iter, " iterations!")
     return rank
 
 
@@ -120,5 +120,5 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
             print("Converged in ", n, " iterations!")
             return depth
 
-    print("Stopped after ", n + 1, " iterations!")
+    print("Stopped after ", max_iter, " iterations!")
     return depth
-- 
2.43.0


From 507594386b2fe3105c327dff1bf0f1392fc66fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:42 +0000
Subject: [PATCH 33/33] fix: reject a negative number of edges given with
 numbers per label

---
 src/graph_ensembles/models.py                | 3 +++
 src/graph_ensembles/spark/models.py          | 3 +++
 src/graph_ensembles/sparse/models/fitness.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 73270a0..a26b8e9 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2070,6 +2070,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
+            if hasattr(self, "num_edges") and np.any(self.num_edges < 0):
+                raise ValueError("Number of edges must be a positive number.")
+
         elif hasattr(self, "num_edges"):
             self.per_label = False
             try:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index d16defb..7c732fe 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3346,6 +3346,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
+            if hasattr(self, "num_edges") and np.any(self.num_edges < 0):
+                raise ValueError("Number of edges must be a positive number.")
+
         elif hasattr(self, "num_edges"):
             self.per_label = False
             try:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 21bc027..316ffcd 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -524,6 +524,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
+            if hasattr(self, "num_edges") and np.any(self.num_edges < 0):
+                raise ValueError("Number of edges must be a positive number.")
+
         elif hasattr(self, "num_edges"):
             self.per_label = False
             try:
-- 
2.43.0

