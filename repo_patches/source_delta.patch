From 1ba8dc49011c970f5c45d5bbaa11b80fa3d0f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 01/90] fix: sinkhorn_stabilized keeps the iterate when
 scalings are absorbed

---
 ot/bregman/_sinkhorn.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index cf5efad..ac7bb9f 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1281,18 +1281,14 @@ def sinkhorn_stabilized(
         # remove numerical problems and store them in K
         if nx.max(nx.abs(u)) > tau or nx.max(nx.abs(v)) > tau:
             if n_hists:
-                alpha, beta = (
-                    alpha + reg * nx.max(nx.log(u), 1),
-                    beta + reg * nx.max(nx.log(v)),
-                )
+                max_logu, max_logv = nx.max(nx.log(u), 1), nx.max(nx.log(v), 1)
+                alpha, beta = alpha + reg * max_logu, beta + reg * max_logv
+                u = u * nx.exp(-max_logu)[:, None]
+                v = v * nx.exp(-max_logv)[:, None]
             else:
                 alpha, beta = alpha + reg * nx.log(u), beta + reg * nx.log(v)
-                if n_hists:
-                    u = nx.ones((dim_a, n_hists), type_as=M) / dim_a
-                    v = nx.ones((dim_b, n_hists), type_as=M) / dim_b
-                else:
-                    u = nx.ones(dim_a, type_as=M) / dim_a
-                    v = nx.ones(dim_b, type_as=M) / dim_b
+                u = nx.ones(dim_a, type_as=M)
+                v = nx.ones(dim_b, type_as=M)
             K = get_K(alpha, beta)
 
         if ii % print_period == 0:
-- 
2.43.0


From 899f4d0673bab42bbd751b832cdcd56d81cacd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 02/90] fix: sinkhorn_log accepts a single histogram given as a
 column

---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index ac7bb9f..51e483c 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -813,7 +813,7 @@ def sinkhorn_log(
         n_hists = 0
 
     # in case of multiple histograms
-    if n_hists > 1 and warmstart is None:
+    if n_hists and warmstart is None:
         warmstart = [None] * n_hists
 
     if n_hists:  # we do not want to use tensors sor we do a loop
-- 
2.43.0


From 52d43a28c18bbd3d92923b2386994f47126a7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 03/90] fix: screenkhorn with a full budget accepts histograms
 of different sizes

---
 ot/bregman/_screenkhorn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index ea00a03..b562c01 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -182,8 +182,8 @@ def screenkhorn(
         K_IJc = []
         K_IcJ = []
 
-        vec_eps_IJc = nx.zeros((nt,), type_as=M)
-        vec_eps_IcJ = nx.zeros((ns,), type_as=M)
+        vec_eps_IJc = nx.zeros((ns,), type_as=M)
+        vec_eps_IcJ = nx.zeros((nt,), type_as=M)
 
     else:
         # sum of rows and columns of K
-- 
2.43.0


From 4f810d8e20b02c15bdab3c8973e8121b9c356aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 04/90] fix: translation-invariant unbalanced Sinkhorn with
 different marginal penalties or several targets

---
 ot/unbalanced/_sinkhorn.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index d338e16..cd10d46 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1283,19 +1283,16 @@ def sinkhorn_unbalanced_translation_invariant(
     fi_1 = reg_m1 / (reg_m1 + reg) if reg_m1 != float("inf") else 1
     fi_2 = reg_m2 / (reg_m2 + reg) if reg_m2 != float("inf") else 1
 
-    k1 = (
-        reg * reg_m1 / ((reg + reg_m1) * (reg_m1 + reg_m2))
-        if reg_m1 != float("inf")
-        else 0
-    )
-    k2 = (
-        reg * reg_m2 / ((reg + reg_m2) * (reg_m1 + reg_m2))
-        if reg_m2 != float("inf")
-        else 0
-    )
-
-    k_rho1 = k1 * reg_m1 / reg if reg_m1 != float("inf") else 0
-    k_rho2 = k2 * reg_m2 / reg if reg_m2 != float("inf") else 0
+    # exponents of the translation terms in the updates of u and v
+    if reg_m1 == float("inf"):
+        k_rho2 = 0
+        k_rho1 = fi_2 if reg_m2 != float("inf") else 0
+    elif reg_m2 == float("inf"):
+        k_rho2 = fi_1
+        k_rho1 = 0
+    else:
+        k_rho2 = fi_1 * reg_m2 / (reg_m1 + reg_m2)
+        k_rho1 = fi_2 * reg_m1 / (reg_m1 + reg_m2)
 
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         xi1, xi2 = 0, 0
@@ -1326,12 +1323,12 @@ def sinkhorn_unbalanced_translation_invariant(
         vprev = v
 
         Kv = nx.dot(K, v_)
-        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_**reg_ratio2) ** k_rho2
-        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1)) ** (-xi_rho1)
+        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2), 0) ** k_rho2
+        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1), 0) ** (-xi_rho1)
 
         Ktu = nx.dot(K.T, u_)
-        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1)) ** k_rho1
-        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2)) ** (-xi_rho2)
+        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1), 0) ** k_rho1
+        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2), 0) ** (-xi_rho2)
 
         if (
             nx.any(Ktu == 0.0)
@@ -1347,9 +1344,9 @@ def sinkhorn_unbalanced_translation_invariant(
             v = vprev
             break
 
-        t = (nx.sum(a * u_ ** (-reg_ratio1)) / nx.sum(b * v_ ** (-reg_ratio2))) ** (
-            fi_12 / reg
-        )
+        t = (
+            nx.sum(a * u_ ** (-reg_ratio1), 0) / nx.sum(b * v_ ** (-reg_ratio2), 0)
+        ) ** (fi_12 / reg)
 
         u = u_ * t
         v = v_ / t
-- 
2.43.0


From 59a5440944d7f5ad345f3f2781685e7e2b959ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 05/90] fix: stabilized unbalanced Sinkhorn keeps the iterate
 when scalings are absorbed

---
 ot/unbalanced/_sinkhorn.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index cd10d46..637b5bf 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1035,13 +1035,14 @@ def sinkhorn_stabilized_unbalanced(
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
             if n_hists:
-                alpha = alpha + reg * nx.log(nx.max(u, 1))
-                beta = beta + reg * nx.log(nx.max(v, 1))
+                max_u, max_v = nx.max(u, 1), nx.max(v, 1)
+                u, v = u / max_u[:, None], v / max_v[:, None]
             else:
-                alpha = alpha + reg * nx.log(nx.max(u))
-                beta = beta + reg * nx.log(nx.max(v))
+                max_u, max_v = nx.max(u), nx.max(v)
+                u, v = u / max_u, v / max_v
+            alpha = alpha + reg * nx.log(max_u)
+            beta = beta + reg * nx.log(max_v)
             K = nx.exp((alpha[:, None] + beta[None, :] - M0) / reg)
-            v = nx.ones(v.shape, type_as=v)
         Kv = nx.dot(K, v)
 
         if (
@@ -1515,10 +1516,11 @@ def barycenter_unbalanced_stabilized(
         absorbing = False
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
-            alpha = alpha + reg * nx.log(nx.max(u, 1))
-            beta = beta + reg * nx.log(nx.max(v, 1))
+            max_u, max_v = nx.max(u, 1), nx.max(v, 1)
+            u, v = u / max_u[:, None], v / max_v[:, None]
+            alpha = alpha + reg * nx.log(max_u)
+            beta = beta + reg * nx.log(max_v)
             K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
-            v = nx.ones(v.shape, type_as=v)
         Kv = nx.dot(K, v)
         if (
             nx.any(Ktu == 0.0)
-- 
2.43.0


From 24cd12b9473841bf1a3aad444cf54ed3f0e0041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:53 +0000
Subject: [PATCH 06/90] fix: partial OT transports exactly the requested mass
 when no cost is positive

---
 ot/partial/partial_solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index f6e1c65..848a173 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -299,7 +299,11 @@ def partial_wasserstein(a, b, M, m=None, nb_dummies=1, log=False, **kwargs):
     b_extended = nx.concatenate((b, b_extension))
     a_extension = nx.ones(nb_dummies, type_as=a) * (nx.sum(b) - m) / nb_dummies
     a_extended = nx.concatenate((a, a_extension))
-    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * nx.max(M) * 2
+    # strictly positive, so that no mass goes from a dummy point to a dummy point
+    max_M = nx.max(nx.abs(M))
+    if max_M == 0:
+        max_M = 1.0
+    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * max_M * 2
     M_extended = nx.concatenate(
         (
             nx.concatenate((M, nx.zeros((M.shape[0], M_extension.shape[1]))), axis=1),
-- 
2.43.0


From 452a31f8bf40d846ecc2e18fcd3c0ded123cdfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 07/90] fix: exact OT is solved when every cost is negative
 (big-M cost of the network simplex)

---
 ot/lp/network_simplex_simple.h     | 14 +++++++-------
 ot/lp/network_simplex_simple_omp.h |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index c3b3435..bee7ab8 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -593,8 +593,8 @@ namespace lemon {
 
             Cost max_cost = 0;
             for (ArcsType i = 0; i != _arc_num; ++i) {
-                Cost cost = getCostForArc(i);
-                if (i == 0 || cost > max_cost) {
+                Cost cost = fabs(getCostForArc(i));
+                if (cost > max_cost) {
                     max_cost = cost;
                 }
             }
@@ -645,8 +645,8 @@ namespace lemon {
             } else {
                 _cost[arc_id] = cost;
             }
-            if (arc_id < _arc_num && (!_has_max_cost || cost > _max_cost)) {
-                _max_cost = cost;
+            if (arc_id < _arc_num && (!_has_max_cost || fabs(cost) > _max_cost)) {
+                _max_cost = fabs(cost);
                 _has_max_cost = true;
             }
         }
@@ -929,9 +929,9 @@ namespace lemon {
             _D_n2 = n2;
             // Precompute max cost once for reuse in init()
             _has_max_cost = true;
-            _max_cost = D[0];
+            _max_cost = fabs(D[0]);
             for (ArcsType i = 1; i != _arc_num; ++i) {
-                if (D[i] > _max_cost) _max_cost = D[i];
+                if (fabs(D[i]) > _max_cost) _max_cost = fabs(D[i]);
             }
             return *this;
         }
@@ -1486,7 +1486,7 @@ namespace lemon {
                 for (ArcsType e = 0; e < _arc_num; ++e) {
                     setArcState(e, STATE_LOWER);
                     Cost c = getCostForArc(e);
-                    if (c > ART_COST) ART_COST = c;
+                    if (fabs(c) > ART_COST) ART_COST = fabs(c);
                     Cost rc = fabs(c + _pi[arcSource(e)] - _pi[arcTarget(e)]);
                     if ((ArcsType)maxheap.size() < K) {
                         maxheap.push({rc, e});
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index a0c5feb..9b98a3e 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -1132,7 +1132,7 @@ namespace lemon_omp {
 			} else {
 				ART_COST = 0;
 				for (ArcsType i = 0; i != _arc_num; ++i) {
-					if (_cost[i] > ART_COST) ART_COST = _cost[i];
+					if (fabs(_cost[i]) > ART_COST) ART_COST = fabs(_cost[i]);
 				}
 				ART_COST = (ART_COST + 1) * _node_num;
 			}
-- 
2.43.0


From a9b0445c2dee966cd88700132ab557fc86ac85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 08/90] fix: unbalanced Sinkhorn accepts warm starts with
 several targets

---
 ot/unbalanced/_sinkhorn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 637b5bf..03bc4ce 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -711,6 +711,7 @@ def sinkhorn_knopp_unbalanced(
 
     if len(b.shape) > 1:
         n_hists = b.shape[1]
+        a = a.reshape(dim_a, 1)
     else:
         n_hists = 0
 
@@ -725,7 +726,6 @@ def sinkhorn_knopp_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
@@ -973,6 +973,7 @@ def sinkhorn_stabilized_unbalanced(
 
     if len(b.shape) > 1:
         n_hists = b.shape[1]
+        a = a.reshape(dim_a, 1)
     else:
         n_hists = 0
 
@@ -987,7 +988,6 @@ def sinkhorn_stabilized_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, n_hists), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
@@ -1245,6 +1245,7 @@ def sinkhorn_unbalanced_translation_invariant(
 
     if len(b.shape) > 1:
         n_hists = b.shape[1]
+        a = a.reshape(dim_a, 1)
     else:
         n_hists = 0
 
@@ -1259,7 +1260,6 @@ def sinkhorn_unbalanced_translation_invariant(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
-- 
2.43.0


From 0e4e1f91a0f915ac1515f449c3d0246b156d9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 09/90] fix: wasserstein_1d returns plans without sorting and
 for 1-D inputs

---
 ot/lp/solver_1d.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 802621c..efb48b6 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -145,9 +145,6 @@ def wasserstein_1d(
 
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights = nx.take_along_axis(v_weights, v_sorter, 0)
-    else:
-        u_sorter = nx.arange(n)
-        v_sorter = nx.arange(m)
 
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
@@ -165,28 +162,33 @@ def wasserstein_1d(
     diff_quantiles = nx.abs(u_quantiles - v_quantiles)
 
     if return_plans is not False:
-        u_quantiles_idx = nx.take_along_axis(u_sorter, idx_u, axis=0)
-        v_quantiles_idx = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        if require_sort:
+            idx_u = nx.take_along_axis(u_sorter, idx_u, axis=0)
+            idx_v = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        # one column per measure
+        plan_delta = nx.reshape(delta, (delta.shape[0], -1))
+        u_quantiles_idx = nx.reshape(idx_u, (idx_u.shape[0], -1))
+        v_quantiles_idx = nx.reshape(idx_v, (idx_v.shape[0], -1))
         if return_plans == "coo_tuple":
             PlanTuple = namedtuple("PlanTuple", ["data", "rows", "cols"])
             plans = [
                 PlanTuple(
-                    data=delta[:, k],
+                    data=plan_delta[:, k],
                     rows=u_quantiles_idx[:, k],
                     cols=v_quantiles_idx[:, k],
                 )
-                for k in range(delta.shape[1])
+                for k in range(plan_delta.shape[1])
             ]
         else:
             plans = [
                 nx.coo_matrix(
-                    delta[:, k],
+                    plan_delta[:, k],
                     u_quantiles_idx[:, k],
                     v_quantiles_idx[:, k],
                     shape=(n, m),
                     type_as=u_values,
                 )
-                for k in range(delta.shape[1])
+                for k in range(plan_delta.shape[1])
             ]
 
     if p == 1:
-- 
2.43.0


From 001f653ab0693e7eea64a881fcee767fc98abe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 10/90] fix: binary_search_circle when the weights do not sum
 to one exactly in floating point

---
 ot/lp/solver_circle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index af118d1..deb9e20 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -366,6 +366,10 @@ def binary_search_circle(
     u_cdf = nx.cumsum(u_weights, 0).T
     v_cdf = nx.cumsum(v_weights, 0).T
 
+    # the last level is exactly one, whatever the rounding of the sums
+    u_cdf = u_cdf / u_cdf[:, -1:]
+    v_cdf = v_cdf / v_cdf[:, -1:]
+
     u_values = u_values.T
     v_values = v_values.T
 
-- 
2.43.0


From d839a5f46ecc383eddbbd6d23683932a352c8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 11/90] fix: wasserstein1_circle accounts for the segment
 around the origin

---
 ot/lp/solver_circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index deb9e20..e73fc9d 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -525,7 +525,8 @@ def wasserstein1_circle(
     )
     cdf_diff_sorted, cdf_diff_sorter = nx.sort2(cdf_diff, axis=0)
 
-    values_sorted = nx.zero_pad(values_sorted, pad_width=[(0, 1), (0, 0)], value=1)
+    # the last interval goes around the circle up to the first value
+    values_sorted = nx.concatenate((values_sorted, values_sorted[:1] + 1), 0)
     delta = values_sorted[1:, ...] - values_sorted[:-1, ...]
     weight_sorted = nx.take_along_axis(delta, cdf_diff_sorter, 0)
 
-- 
2.43.0


From 0102bcbc5bae07f41e0815218646c15740449065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 12/90] fix: semidiscrete_wasserstein2_unif_circle sorts the
 weights with the values

---
 ot/lp/solver_circle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index e73fc9d..27ce5e7 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -697,7 +697,9 @@ def semidiscrete_wasserstein2_unif_circle(u_values, u_weights=None):
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
-    u_values = nx.sort(u_values, 0)
+    u_sorter = nx.argsort(u_values, 0)
+    u_values = nx.take_along_axis(u_values, u_sorter, 0)
+    u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
     u_cdf = nx.cumsum(u_weights, 0)
     u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
-- 
2.43.0


From 0f86ffb1d56d7114183e2017944cc3366cc14939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 13/90] fix: linear_circular_embedding uses the right quantile

---
 ot/lp/solver_circle.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index 27ce5e7..07520c7 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -759,7 +759,6 @@ def linear_circular_embedding(x, u_values, u_weights=None, require_sort=True):
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
 
     u_cdf = nx.cumsum(u_weights, 0)
-    u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
     q_s = (
         x[:, None] - nx.sum(u_values * u_weights, axis=0)[None] + 0.5
-- 
2.43.0


From 833466fe313c896a1f733040144318ee9d3237bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 14/90] fix: emd2_lazy rejects negative weights

---
 ot/lp/EMD_wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/lp/EMD_wrapper.cpp b/ot/lp/EMD_wrapper.cpp
index 1cf84c7..e07b775 100644
--- a/ot/lp/EMD_wrapper.cpp
+++ b/ot/lp/EMD_wrapper.cpp
@@ -562,6 +562,8 @@ int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double
             for (int d = 0; d < dim; d++) {
                 coords_a_filtered.push_back(coords_a[i * dim + d]);
             }
+        } else if (X[i] < 0) {
+            return INFEASIBLE;
         }
     }
     int n = idx_a.size();
@@ -583,6 +585,8 @@ int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double
             for (int d = 0; d < dim; d++) {
                 coords_b_filtered.push_back(coords_b[j * dim + d]);
             }
+        } else if (Y[j] < 0) {
+            return INFEASIBLE;
         }
     }
     int m = idx_b.size();
-- 
2.43.0


From a878ab08f5d57b031840361f1363f67b10f9c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 15/90] fix: network simplex reads an uninitialised arc index
 when there are no arcs

---
 ot/lp/network_simplex_simple.h     | 3 +++
 ot/lp/network_simplex_simple_omp.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index bee7ab8..a964a62 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -1810,6 +1810,9 @@ namespace lemon {
 
 			_sum_supply = 0;
 
+            // Initialize in_arc to a valid value
+            in_arc = 0;
+
             // Initialize artifical cost
             Cost ART_COST;
             if (std::numeric_limits<Cost>::is_exact) {
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index 9b98a3e..df35d1a 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -1125,6 +1125,9 @@ namespace lemon_omp {
 				(_stype == LEQ && _sum_supply >= 0))) return false;*/
 
 
+			// Initialize in_arc to a valid value
+			in_arc = 0;
+
 			// Initialize artifical cost
 			Cost ART_COST;
 			if (std::numeric_limits<Cost>::is_exact) {
-- 
2.43.0


From 770c4c42ff77bc3a18474084ff0e0a5d4f6fb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 16/90] fix: gcg takes the entropic term into account in its
 cost and line search

---
 ot/optim.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ot/optim.py b/ot/optim.py
index 35f819c..fdf6426 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -326,7 +326,9 @@ def generic_conditional_gradient(
     else:
 
         def cost(G):
-            return nx.sum(M * G) + reg1 * f(G) + reg2 * nx.sum(G * nx.log(G))
+            return (
+                nx.sum(M * G) + reg1 * f(G) + reg2 * nx.sum(G * nx.log(G + 1e-300))
+            )
 
     cost_G = cost(G)
     if log:
@@ -353,11 +355,14 @@ def generic_conditional_gradient(
             df_G = df(G)
         Mi = M + reg1 * df_G
 
-        if reg2 is not None:
-            Mi = Mi + reg2 * (1 + nx.log(G))
-
         # solve linear program
         Gc, innerlog_ = lp_solver(a, b, Mi, **kwargs)
+
+        if reg2 is not None:
+            # the entropic term is not linearized in the step of the generalized
+            # conditional gradient, but is part of the cost of the line search
+            Mi = Mi + reg2 * (1 + nx.log(G + 1e-300))
+
         # line search
         deltaG = Gc - G
 
@@ -901,7 +906,7 @@ def gcg(
         return sinkhorn(a, b, Mi, reg1, numItermax=numInnerItermax, log=True, **kwargs)
 
     def line_search(cost, G, deltaG, Mi, cost_G, df_G, **kwargs):
-        return line_search_armijo(cost, G, deltaG, Mi, cost_G, **kwargs)
+        return line_search_armijo(cost, G, deltaG, Mi, cost_G, alpha0=1.0, **kwargs)
 
     return generic_conditional_gradient(
         a,
@@ -910,7 +915,7 @@ def gcg(
         f,
         df,
         reg2,
-        None,
+        reg1,
         lp_solver,
         line_search,
         G0=G0,
-- 
2.43.0


From a4505f22074e2388d5d7f5931414d2e210263110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 17/90] Revert "fix: linear_circular_embedding uses the right
 quantile"

This reverts commit 0f86ffb1d56d7114183e2017944cc3366cc14939.
---
 ot/lp/solver_circle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index 07520c7..27ce5e7 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -759,6 +759,7 @@ def linear_circular_embedding(x, u_values, u_weights=None, require_sort=True):
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
 
     u_cdf = nx.cumsum(u_weights, 0)
+    u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
     q_s = (
         x[:, None] - nx.sum(u_values * u_weights, axis=0)[None] + 0.5
-- 
2.43.0


From a4700152807371556cd59f6d267a4d1e4e1acd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 18/90] fix: partial (fused) Gromov-Wasserstein transports
 exactly the requested mass

---
 ot/optim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index fdf6426..aa51313 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -774,7 +774,11 @@ def partial_cg(
         # add dummy nodes to Mi
         Mi_extended = np.zeros((n_extended, m_extended), dtype=Mi.dtype)
         Mi_extended[:n, :m] = Mi
-        Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(M) * 1e2
+        # matching dummy points together should never be worth it
+        max_cost = np.max(np.abs(Mi))
+        Mi_extended[-nb_dummies:, -nb_dummies:] = (
+            max_cost * 1e2 if max_cost > 0 else 1.0
+        )
 
         G_extended, log_ = emd(
             a_extended, b_extended, Mi_extended, numItermax, log=True
-- 
2.43.0


From eda3eb1002bb23362b8760f3c77871b54a8ed917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 19/90] fix: gradients of partial Gromov-Wasserstein use the
 marginals of the plan

---
 ot/gromov/_partial.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index afb76ef..bd0b3d2 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -478,14 +478,16 @@ def partial_gromov_wasserstein2(
     log_pgw["T"] = T
     pgw = log_pgw["partial_gw_dist"]
 
+    # marginals of the plan, which are lower than p and q
+    pT, qT = nx.sum(T, 1), nx.sum(T, 0)
     if loss_fun == "square_loss":
-        gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
-        gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
+        gC1 = 2 * C1 * nx.outer(pT, pT) - 2 * nx.dot(T, nx.dot(C2, T.T))
+        gC2 = 2 * C2 * nx.outer(qT, qT) - 2 * nx.dot(T.T, nx.dot(C1, T))
     elif loss_fun == "kl_loss":
-        gC1 = nx.log(C1 + 1e-15) * nx.outer(p, p) - nx.dot(
+        gC1 = nx.log(C1 + 1e-15) * nx.outer(pT, pT) - nx.dot(
             T, nx.dot(nx.log(C2 + 1e-15), T.T)
         )
-        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(q, q)
+        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(qT, qT)
 
     pgw = nx.set_gradients(pgw, (C1, C2), (gC1, gC2))
 
@@ -960,14 +962,16 @@ def partial_fused_gromov_wasserstein2(
     log_pfgw["lin_loss"] = lin_term * (1 - alpha)
     pgw_term = log_pfgw["quad_loss"] / alpha
 
+    # marginals of the plan, which are lower than p and q
+    pT, qT = nx.sum(T, 1), nx.sum(T, 0)
     if loss_fun == "square_loss":
-        gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
-        gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
+        gC1 = 2 * C1 * nx.outer(pT, pT) - 2 * nx.dot(T, nx.dot(C2, T.T))
+        gC2 = 2 * C2 * nx.outer(qT, qT) - 2 * nx.dot(T.T, nx.dot(C1, T))
     elif loss_fun == "kl_loss":
-        gC1 = nx.log(C1 + 1e-15) * nx.outer(p, p) - nx.dot(
+        gC1 = nx.log(C1 + 1e-15) * nx.outer(pT, pT) - nx.dot(
             T, nx.dot(nx.log(C2 + 1e-15), T.T)
         )
-        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(q, q)
+        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(qT, qT)
 
     if isinstance(alpha, int) or isinstance(alpha, float):
         pfgw = nx.set_gradients(
-- 
2.43.0


From d0b91ddfaf35cd381022c1fc4ca37ce120219d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 20/90] fix: entropic partial fused Gromov-Wasserstein
 linearises the feature cost

---
 ot/gromov/_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index bd0b3d2..254152a 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -1626,7 +1626,7 @@ def entropic_partial_fused_gromov_wasserstein(
             constC2 = nx.outer(ones_p, nx.dot(qG, fC2t))
             return alpha * gwggrad(constC1 + constC2, hC1, hC2, G, nx) + (
                 1 - alpha
-            ) * nx.sum(G * M)
+            ) * M
     else:
 
         def df(G):
@@ -1640,7 +1640,7 @@ def entropic_partial_fused_gromov_wasserstein(
             return 0.5 * alpha * (
                 gwggrad(constC1 + constC2, hC1, hC2, G, nx)
                 + gwggrad(constC1t + constC2t, hC1t, hC2t, G, nx)
-            ) + (1 - alpha) * nx.sum(G * M)
+            ) + (1 - alpha) * M
 
     cpt = 0
     err = 1
-- 
2.43.0


From a2c89075f26643f13641c836b7ce88b1a745bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 21/90] fix: sample coupling of unbalanced COOT uses its own
 regularisation

---
 ot/gromov/_unbalanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 6971b6a..498234c 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -388,7 +388,7 @@ def fused_unbalanced_across_spaces_divergence(
 
         if divergence == "kl":
             new_rho = (rho_x * mass, rho_y * mass)
-            new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
+            new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
             new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
-- 
2.43.0


From c0a264ce08bd05e8429de638c2f15cbc332c5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 22/90] fix: l2 subproblems of unbalanced COOT and GW use the
 coupling kept fixed

---
 ot/gromov/_unbalanced.py |  6 ++++--
 ot/gromov/_utils.py      | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 498234c..f746b3b 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -327,6 +327,7 @@ def fused_unbalanced_across_spaces_divergence(
         reg_type=reg_type,
         divergence=divergence,
         nx=nx,
+        tuple_weights_pi=(wx_feat, wy_feat, wxy_feat),
     )
 
     parameters_uot_l2_feat = partial(
@@ -336,6 +337,7 @@ def fused_unbalanced_across_spaces_divergence(
         reg_type=reg_type,
         divergence=divergence,
         nx=nx,
+        tuple_weights_pi=(wx_samp, wy_samp, wxy_samp),
     )
 
     solver = partial(
@@ -364,7 +366,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
             new_wx, new_wy, new_wxy = wx_feat, wy_feat, wxy_feat
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_feat)
+            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_samp)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
@@ -391,7 +393,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
+            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_feat)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 4ae23d4..32e2055 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1113,7 +1113,7 @@ def uot_cost_matrix(data, pi, tuple_p, hyperparams, divergence, reg_type, nx=Non
 
 
 def uot_parameters_and_measures(
-    pi, tuple_weights, hyperparams, reg_type, divergence, nx
+    pi, tuple_weights, hyperparams, reg_type, divergence, nx, tuple_weights_pi=None
 ):
     r"""The Block Coordinate Descent algorithm for FUGW and UCOOT
     requires solving an UOT problem in each iteration.
@@ -1131,7 +1131,7 @@ def uot_parameters_and_measures(
     Parameters
     ----------
     pi : array-like
-        vector or matrix
+        vector or matrix, coupling that is kept fixed
     tuple_weights : tuple of arrays
         Tuple of reference measures in the marginal-relaxation and regularization terms
         w.r.t the (either sample or feature) coupling
@@ -1148,6 +1148,9 @@ def uot_parameters_and_measures(
         Bregman divergence, either "kl" (Kullback-Leibler divergence) or "l2" (half-squared L2 divergence)
     nx : backend, optional
         If let to its default value None, a backend test will be conducted.
+    tuple_weights_pi : tuple of arrays, optional
+        Tuple of reference measures w.r.t the fixed coupling `pi`.
+        By default, the same as `tuple_weights`.
 
     Returns
     ----------
@@ -1156,14 +1159,17 @@ def uot_parameters_and_measures(
 
     rho_x, rho_y, eps = hyperparams
     wx, wy, wxy = tuple_weights
+    wx_pi, wy_pi, wxy_pi = tuple_weights if tuple_weights_pi is None else tuple_weights_pi
 
     if divergence == "l2":
         pi1, pi2 = nx.sum(pi, 1), nx.sum(pi, 0)
         l2_pi1, l2_pi2, l2_pi = nx.sum(pi1**2), nx.sum(pi2**2), nx.sum(pi**2)
 
-        weighted_wx = wx * nx.sum(pi1 * wx) / l2_pi1
-        weighted_wy = wy * nx.sum(pi2 * wy) / l2_pi2
-        weighted_wxy = wxy * nx.sum(pi * wxy) / l2_pi if reg_type == "joint" else wxy
+        weighted_wx = wx * nx.sum(pi1 * wx_pi) / l2_pi1
+        weighted_wy = wy * nx.sum(pi2 * wy_pi) / l2_pi2
+        weighted_wxy = (
+            wxy * nx.sum(pi * wxy_pi) / l2_pi if reg_type == "joint" else wxy
+        )
         weighted_w = (weighted_wx, weighted_wy, weighted_wxy)
 
         new_rho = (rho_x * l2_pi1, rho_y * l2_pi2)
-- 
2.43.0


From 1f7406e7813117aa2438ba71ed4535637f476bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 23/90] fix: weight gradients of entropic COOT are its dual
 potentials

---
 ot/coot.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ot/coot.py b/ot/coot.py
index fd59a50..11d50ae 100644
--- a/ot/coot.py
+++ b/ot/coot.py
@@ -503,6 +503,18 @@ def co_optimal_transport2(
     vx_samp, vy_samp = dict_log["duals_sample"]
     vx_feat, vy_feat = dict_log["duals_feature"]
 
+    # with entropic regularization, the duals are the logarithms of the scalings
+    if isinstance(epsilon, float) or isinstance(epsilon, int):
+        eps_samp, eps_feat = epsilon, epsilon
+    else:
+        eps_samp, eps_feat = epsilon[0], epsilon[1]
+    if eps_samp > 0:
+        vx_samp = eps_samp * (vx_samp - nx.log(wx_samp))
+        vy_samp = eps_samp * (vy_samp - nx.log(wy_samp))
+    if eps_feat > 0:
+        vx_feat = eps_feat * (vx_feat - nx.log(wx_feat))
+        vy_feat = eps_feat * (vy_feat - nx.log(wy_feat))
+
     gradX = (
         2 * X * (wx_samp[:, None] * wx_feat[None, :]) - 2 * pi_samp @ Y @ pi_feat.T
     )  # shape (nx_samp, nx_feat)
-- 
2.43.0


From cccd8e717634d086ecc900e72b3344d2c628fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 24/90] fix: regularisation value of unbalanced COOT is taken
 against its reference

---
 ot/gromov/_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 32e2055..9a86ed1 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1271,10 +1271,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_samp != 0:
             div_samp = div_to_product(
                 pi_samp,
-                pi1_samp,
-                pi2_samp,
                 px_samp,
                 py_samp,
+                pi1_samp,
+                pi2_samp,
                 divergence,
                 mass=True,
                 nx=nx,
@@ -1283,10 +1283,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_feat != 0:
             div_feat = div_to_product(
                 pi_feat,
-                pi1_feat,
-                pi2_feat,
                 px_feat,
                 py_feat,
+                pi1_feat,
+                pi2_feat,
                 divergence,
                 mass=True,
                 nx=nx,
-- 
2.43.0


From 180a12806e95977d84d774ff6e0de804690fbe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 25/90] fix: solve_gromov passes the regularisation to the
 entropic fused solvers

---
 ot/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 88cf5c7..c9abfc8 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1179,6 +1179,7 @@ def solve_gromov(
                     Cb,
                     a,
                     b,
+                    epsilon=reg,
                     loss_fun=loss_fun,
                     alpha=alpha,
                     log=True,
@@ -1244,6 +1245,7 @@ def solve_gromov(
                     Ca,
                     Cb,
                     a,
+                    epsilon=reg,
                     loss_fun=loss_fun,
                     alpha=alpha,
                     log=True,
-- 
2.43.0


From a6d29d3e0edcf1b47820a895a9617f70ce044a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 26/90] fix: value of quadratically regularised OT is the
 minimised objective

---
 ot/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index c9abfc8..150591c 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -511,7 +511,7 @@ def solve(
                 )
 
                 value_linear = nx.sum(M * plan)
-                value = value_linear + reg * nx.sum(plan**2)
+                value = value_linear + reg / 2 * nx.sum(plan**2)
                 potentials = (log["alpha"], log["beta"])
 
             else:
-- 
2.43.0


From 56d68ae683368cdd523ed1a56396569e28d8d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 27/90] fix: envelope gradient of KL-regularised OT with
 respect to the weights

---
 ot/solvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 150591c..853d0b3 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -483,13 +483,17 @@ def solve(
                     )
 
                 if grad == "envelope":  # set the gradient at convergence
+                    grad_a, grad_b = potentials
+                    if reg_type.lower() == "kl":  # the reference depends on a and b
+                        grad_a = grad_a - nx.log(a)
+                        grad_b = grad_b - nx.log(b)
                     value = nx.set_gradients(
                         value,
                         (M0, a0, b0),
                         (
                             plan,
-                            reg * (potentials[0] - potentials[0].mean()),
-                            reg * (potentials[1] - potentials[1].mean()),
+                            reg * (grad_a - grad_a.mean()),
+                            reg * (grad_b - grad_b.mean()),
                         ),
                     )
 
-- 
2.43.0


From 5ebf01d4ac1f144c6cad62894efa1242afcd042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 28/90] fix: solve_sample uses the weights with the gaussian
 and factored methods

---
 ot/solvers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 853d0b3..7f0661d 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1831,7 +1831,12 @@ def solve_sample(
                 reg = 1e-6
 
             value, log = empirical_bures_wasserstein_distance(
-                X_a, X_b, reg=reg, log=True
+                X_a,
+                X_b,
+                reg=reg,
+                ws=None if a is None else a[:, None],
+                wt=None if b is None else b[:, None],
+                log=True,
             )
             value = value**2  # return the value (squared bures distance)
             value_linear = value  # return the value
@@ -1852,6 +1857,8 @@ def solve_sample(
             Q, R, X, log = factored_optimal_transport(
                 X_a,
                 X_b,
+                a=a,
+                b=b,
                 reg=reg,
                 r=rank,
                 log=True,
-- 
2.43.0


From 7ce037bcaf64547eb7844ae04d9b201899448ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 29/90] fix: fused Gromov barycenters with a fixed part iterate
 until the free part converges

---
 ot/gromov/_bregman.py     | 2 +-
 ot/gromov/_gw.py          | 2 +-
 ot/gromov/_semirelaxed.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 5b43a62..907e6f6 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2085,7 +2085,7 @@ def entropic_fused_gromov_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index 99d5bcf..f23c8a4 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1471,7 +1471,7 @@ def fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 02fafc8..6f1b2ca 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -2140,7 +2140,7 @@ def semirelaxed_fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
-- 
2.43.0


From 69a5703383eaed91fcf5b00ec0b423a059f8be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 30/90] fix: entropic fused Gromov barycenters return the
 updated features

---
 ot/gromov/_bregman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 907e6f6..f883799 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2056,11 +2056,11 @@ def entropic_fused_gromov_barycenters(
 
         # update barycenters
         if not fixed_features:
-            X = update_barycenter_feature(
+            Y = update_barycenter_feature(
                 T, Ys, lambdas, p, target=False, check_zeros=False, nx=nx
             )
 
-            Ms = [dist(X, Ys[s]) for s in range(len(Ys))]
+            Ms = [dist(Y, Ys[s]) for s in range(len(Ys))]
 
         if not fixed_structure:
             C = update_barycenter_structure(
-- 
2.43.0


From 78a1487f7238e3be8d4c451b12af5f2dd77c617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 31/90] fix: total cost of unbalanced Sinkhorn is the value of
 the penalised problem

---
 ot/unbalanced/_sinkhorn.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 03bc4ce..7b0bdd1 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -806,11 +806,17 @@ def sinkhorn_knopp_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            total_cost = linear_cost + reg * nx.kl_div(plan, c, mass=True)
+            if reg_type.lower() == "entropy":  # the entropy has no constant term
+                total_cost = total_cost - reg * nx.sum(c)
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1107,11 +1113,17 @@ def sinkhorn_stabilized_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            total_cost = linear_cost + reg * nx.kl_div(plan, c, mass=True)
+            if reg_type.lower() == "entropy":  # the entropy has no constant term
+                total_cost = total_cost - reg * nx.sum(c)
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1387,11 +1399,17 @@ def sinkhorn_unbalanced_translation_invariant(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            total_cost = linear_cost + reg * nx.kl_div(plan, c, mass=True)
+            if reg_type.lower() == "entropy":  # the entropy has no constant term
+                total_cost = total_cost - reg * nx.sum(c)
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
-- 
2.43.0


From 9c38c4793733b6bd098458b98931db90b4f4afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 32/90] fix: last_step gradients leave the solution of the
 Sinkhorn solver unchanged

---
 ot/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 7f0661d..2da5a2b 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -464,7 +464,7 @@ def solve(
                     loga = nx.log(a0)
                     logb = nx.log(b0)
                     v = logb - nx.logsumexp(-M0 / reg + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(-M0 / reg + potentials[1][None, :], 1)
+                    u = loga - nx.logsumexp(-M0 / reg + nx.detach(v)[None, :], 1)
                     plan = nx.exp(-M0 / reg + u[:, None] + v[None, :])
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
-- 
2.43.0


From 18da5b7ee50ec42d479a622ef96e69ce4cc7b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 33/90] fix: log-domain Sinkhorn accepts zero iterations
 (last_step with one iteration)

---
 ot/bregman/_sinkhorn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 51e483c..660fef7 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -877,6 +877,7 @@ def sinkhorn_log(
         logb = nx.log(b)
 
         err = 1
+        ii = 0
         for ii in range(numItermax):
             v = logb - nx.logsumexp(Mr + u[:, None], 0)
             u = loga - nx.logsumexp(Mr + v[None, :], 1)
-- 
2.43.0


From 42ccd44562f6eaed1044f2691f0f8db37661e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 34/90] fix: solve starts the balanced Sinkhorn solver from the
 given potentials

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 2da5a2b..d5cb703 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -455,6 +455,7 @@ def solve(
                     stopThr=tol,
                     log=True,
                     verbose=verbose,
+                    warmstart=potentials_init,
                 )
 
                 potentials = (log["log_u"], log["log_v"])
-- 
2.43.0


From 6725655dc2f6c6124e997f918d881eaa97f257a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 35/90] fix: solve uses the reference measure of the KL
 regularisation in the balanced problem

---
 ot/solvers.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index d5cb703..82894bf 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -303,6 +303,7 @@ def solve(
         a = nx.ones(M.shape[0], type_as=M) / M.shape[0]
     if b is None:
         b = nx.ones(M.shape[1], type_as=M) / M.shape[1]
+    c0 = c
     if c is None:
         c = a[:, None] * b[None, :]
 
@@ -434,6 +435,10 @@ def solve(
                     M0, a0, b0 = M, a, b
                     M, a, b = nx.detach(M, a, b)
 
+                # a given reference measure of the KL divergence changes the kernel
+                use_ref = c0 is not None and reg_type.lower() == "kl"
+                shift = reg * nx.log(c) if use_ref else 0
+
                 # default values for sinkhorn
                 if max_iter is None:
                     max_iter = 1000
@@ -449,7 +454,7 @@ def solve(
                 plan, log = sinkhorn_log(
                     a,
                     b,
-                    M,
+                    M - shift,
                     reg=reg,
                     numItermax=max_iter,
                     stopThr=tol,
@@ -464,9 +469,10 @@ def solve(
                 if grad == "last_step":
                     loga = nx.log(a0)
                     logb = nx.log(b0)
-                    v = logb - nx.logsumexp(-M0 / reg + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(-M0 / reg + nx.detach(v)[None, :], 1)
-                    plan = nx.exp(-M0 / reg + u[:, None] + v[None, :])
+                    Mr = -(M0 - shift) / reg
+                    v = logb - nx.logsumexp(Mr + potentials[0][:, None], 0)
+                    u = loga - nx.logsumexp(Mr + nx.detach(v)[None, :], 1)
+                    plan = nx.exp(Mr + u[:, None] + v[None, :])
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
                     log["log_u"] = u
@@ -478,6 +484,8 @@ def solve(
 
                 if reg_type.lower() == "entropy":
                     value = value_linear + reg * nx.sum(plan * nx.log(plan + 1e-16))
+                elif use_ref:
+                    value = value_linear + reg * nx.kl_div(plan, c, mass=True)
                 else:
                     value = value_linear + reg * nx.kl_div(
                         plan, a[:, None] * b[None, :]
@@ -485,7 +493,8 @@ def solve(
 
                 if grad == "envelope":  # set the gradient at convergence
                     grad_a, grad_b = potentials
-                    if reg_type.lower() == "kl":  # the reference depends on a and b
+                    # the default reference of the KL depends on a and b
+                    if reg_type.lower() == "kl" and not use_ref:
                         grad_a = grad_a - nx.log(a)
                         grad_b = grad_b - nx.log(b)
                     value = nx.set_gradients(
-- 
2.43.0


From 72ab98ba3a5c1ecfee573d1c50dcb06d7313d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 36/90] Revert "fix: l2 subproblems of unbalanced COOT and GW
 use the coupling kept fixed"

This reverts commit c0a264ce08bd05e8429de638c2f15cbc332c5ed7.
---
 ot/gromov/_unbalanced.py |  6 ++----
 ot/gromov/_utils.py      | 16 +++++-----------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index f746b3b..498234c 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -327,7 +327,6 @@ def fused_unbalanced_across_spaces_divergence(
         reg_type=reg_type,
         divergence=divergence,
         nx=nx,
-        tuple_weights_pi=(wx_feat, wy_feat, wxy_feat),
     )
 
     parameters_uot_l2_feat = partial(
@@ -337,7 +336,6 @@ def fused_unbalanced_across_spaces_divergence(
         reg_type=reg_type,
         divergence=divergence,
         nx=nx,
-        tuple_weights_pi=(wx_samp, wy_samp, wxy_samp),
     )
 
     solver = partial(
@@ -366,7 +364,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
             new_wx, new_wy, new_wxy = wx_feat, wy_feat, wxy_feat
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_samp)
+            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_feat)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
@@ -393,7 +391,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_feat)
+            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 9a86ed1..c2bc6ef 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1113,7 +1113,7 @@ def uot_cost_matrix(data, pi, tuple_p, hyperparams, divergence, reg_type, nx=Non
 
 
 def uot_parameters_and_measures(
-    pi, tuple_weights, hyperparams, reg_type, divergence, nx, tuple_weights_pi=None
+    pi, tuple_weights, hyperparams, reg_type, divergence, nx
 ):
     r"""The Block Coordinate Descent algorithm for FUGW and UCOOT
     requires solving an UOT problem in each iteration.
@@ -1131,7 +1131,7 @@ def uot_parameters_and_measures(
     Parameters
     ----------
     pi : array-like
-        vector or matrix, coupling that is kept fixed
+        vector or matrix
     tuple_weights : tuple of arrays
         Tuple of reference measures in the marginal-relaxation and regularization terms
         w.r.t the (either sample or feature) coupling
@@ -1148,9 +1148,6 @@ def uot_parameters_and_measures(
         Bregman divergence, either "kl" (Kullback-Leibler divergence) or "l2" (half-squared L2 divergence)
     nx : backend, optional
         If let to its default value None, a backend test will be conducted.
-    tuple_weights_pi : tuple of arrays, optional
-        Tuple of reference measures w.r.t the fixed coupling `pi`.
-        By default, the same as `tuple_weights`.
 
     Returns
     ----------
@@ -1159,17 +1156,14 @@ def uot_parameters_and_measures(
 
     rho_x, rho_y, eps = hyperparams
     wx, wy, wxy = tuple_weights
-    wx_pi, wy_pi, wxy_pi = tuple_weights if tuple_weights_pi is None else tuple_weights_pi
 
     if divergence == "l2":
         pi1, pi2 = nx.sum(pi, 1), nx.sum(pi, 0)
         l2_pi1, l2_pi2, l2_pi = nx.sum(pi1**2), nx.sum(pi2**2), nx.sum(pi**2)
 
-        weighted_wx = wx * nx.sum(pi1 * wx_pi) / l2_pi1
-        weighted_wy = wy * nx.sum(pi2 * wy_pi) / l2_pi2
-        weighted_wxy = (
-            wxy * nx.sum(pi * wxy_pi) / l2_pi if reg_type == "joint" else wxy
-        )
+        weighted_wx = wx * nx.sum(pi1 * wx) / l2_pi1
+        weighted_wy = wy * nx.sum(pi2 * wy) / l2_pi2
+        weighted_wxy = wxy * nx.sum(pi * wxy) / l2_pi if reg_type == "joint" else wxy
         weighted_w = (weighted_wx, weighted_wy, weighted_wxy)
 
         new_rho = (rho_x * l2_pi1, rho_y * l2_pi2)
-- 
2.43.0


From 51ec476fd3de0710aa68f6a35cebc6313c0004d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 37/90] fix: smooth OT solvers pass the requested method to the
 optimiser

---
 ot/smooth.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 9fbac6c..0c88953 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -612,7 +612,14 @@ def smooth_ot_dual(
 
     # solve dual
     alpha, beta, res = solve_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
@@ -739,7 +746,14 @@ def smooth_ot_semi_dual(
 
     # solve dual
     alpha, res = solve_semi_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
-- 
2.43.0


From 216e1f6bba5cccbbaf3039d7030e89e68fcd0df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 38/90] fix: sparsity constraints larger than the dimension are
 inactive instead of raising

---
 ot/smooth.py | 13 +++++++------
 ot/utils.py  |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 0c88953..a233d28 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -233,12 +233,13 @@ class SparsityConstrained(Regularization):
 
     def delta_Omega(self, X):
         # For each column of X, find entries that are not among the top max_nz.
-        non_top_indices = np.argpartition(-X, self.max_nz, axis=0)[self.max_nz :]
-        # Set these entries to -inf.
-        if X.ndim == 1:
-            X[non_top_indices] = 0.0
-        else:
-            X[non_top_indices, np.arange(X.shape[1])] = 0.0
+        if self.max_nz < X.shape[0]:
+            non_top_indices = np.argpartition(-X, self.max_nz, axis=0)[self.max_nz :]
+            # Set these entries to -inf.
+            if X.ndim == 1:
+                X[non_top_indices] = 0.0
+            else:
+                X[non_top_indices, np.arange(X.shape[1])] = 0.0
         max_X = np.maximum(X, 0)
         val = np.sum(max_X**2, axis=0) / (2 * self.gamma)
         G = max_X / self.gamma
diff --git a/ot/utils.py b/ot/utils.py
index eb90cb2..f4d29b6 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -196,12 +196,12 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         # For each row of V, find top max_nz values; arrange the
         # corresponding column indices such that their values are
         # in a descending order.
+        max_nz = min(max_nz, V.shape[1])
         max_nz_indices = nx.argsort(V, axis=1)[:, -max_nz:]
         max_nz_indices = nx.flip(max_nz_indices, axis=1)
 
         row_indices = nx.arange(V.shape[0])
         row_indices = row_indices.reshape(-1, 1)
-        print(row_indices.shape)
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-- 
2.43.0


From 3871f301c2cc2719abb34727d5d2304dcf009be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 39/90] fix: sparse_ot_dist uses the weight of each pair, not
 of its first sample

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index f4d29b6..557231b 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -391,7 +391,7 @@ def sparse_ot_dist(
     for b in range(0, len(i), batch_size):
         d += nx.sum(
             dist_idxs(i[b : b + batch_size], j[b : b + batch_size])
-            * w[i[b : b + batch_size]]
+            * w[b : b + batch_size]
         )
 
     return d
-- 
2.43.0


From ecc59abaf4551b598504d33dc247872576400f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 40/90] fix: cost_normalization leaves the given cost matrix
 unchanged

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 557231b..c93729b 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -574,11 +574,11 @@ def cost_normalization(C, norm=None, return_value=False, value=None):
     elif norm == "median":
         if value is None:
             value = nx.median(C)
-        C /= value
+        C = C / value
     elif norm == "max":
         if value is None:
             value = nx.max(C)
-        C /= float(value)
+        C = C / float(value)
     elif norm == "log":
         C = nx.log(1 + C)
     elif norm == "loglog":
-- 
2.43.0


From eb1e60b95c9aff864d6a0b490f513d1c756f2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 41/90] fix: barycenter_sinkhorn starts from scalings
 consistent with the barycenter weights

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 89732f9..d89ec11 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -226,7 +226,7 @@ def barycenter_sinkhorn(
 
     UKv = nx.dot(K, (A.T / nx.sum(K, axis=0)).T)
 
-    u = (geometricMean(UKv) / UKv.T).T
+    u = (geometricBar(weights, UKv) / UKv.T).T
 
     for ii in range(numItermax):
         UKv = u * nx.dot(K.T, A / nx.dot(K, u))
-- 
2.43.0


From 198b5813a6a4a8883731cdc1b093f4a493b14696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 42/90] fix: barycenter_stabilized keeps the scalings of each
 histogram when absorbing potentials

---
 ot/bregman/_barycenter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index d89ec11..1ef66e3 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -574,16 +574,20 @@ def barycenter_stabilized(
         Kv = nx.dot(K, v)
         u = A / Kv
         Ktu = nx.dot(K.T, u)
-        q = geometricBar(weights, Ktu)
+        # the column scalings include the absorbed potential beta
+        q = nx.exp(nx.dot(nx.log(Ktu), weights) - beta / reg)
         Q = q[:, None]
         v = Q / Ktu
         absorbing = False
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
-            alpha += reg * nx.log(nx.max(u, 1))
-            beta += reg * nx.log(nx.max(v, 1))
+            max_u, max_v = nx.max(u, 1), nx.max(v, 1)
+            max_u = nx.where(max_u > 0, max_u, nx.ones(max_u.shape, type_as=max_u))
+            max_v = nx.where(max_v > 0, max_v, nx.ones(max_v.shape, type_as=max_v))
+            u, v = u / max_u[:, None], v / max_v[:, None]
+            alpha = alpha + reg * nx.log(max_u)
+            beta = beta + reg * nx.log(max_v)
             K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
-            v = nx.ones(tuple(v.shape), type_as=v)
         Kv = nx.dot(K, v)
         if (
             nx.any(Ktu == 0.0)
@@ -619,8 +623,8 @@ def barycenter_stabilized(
             )
     if log:
         log["niter"] = ii
-        log["logu"] = nx.log(u + 1e-16)
-        log["logv"] = nx.log(v + 1e-16)
+        log["logu"] = alpha[:, None] / reg + nx.log(u + 1e-16)
+        log["logv"] = beta[:, None] / reg + nx.log(v + 1e-16)
         return q, log
     else:
         return q
-- 
2.43.0


From 62b0a11d7b14d5eeaaaaf3eb24ad1d60cecb32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 43/90] fix: barycenter_unbalanced_stabilized logs the full
 scalings, absorbed part included

---
 ot/unbalanced/_sinkhorn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 7b0bdd1..68dd3f8 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1575,8 +1575,8 @@ def barycenter_unbalanced_stabilized(
         )
     if log:
         log["niter"] = i
-        log["logu"] = nx.log(u + 1e-300)
-        log["logv"] = nx.log(v + 1e-300)
+        log["logu"] = alpha[:, None] / reg + nx.log(u + 1e-300)
+        log["logv"] = beta[:, None] / reg + nx.log(v + 1e-300)
         return q, log
     else:
         return q
-- 
2.43.0


From f9808ce6169209923925bb39514409842a5cc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 44/90] fix: jcpot_barycenter leaves the given labels unchanged

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 1ef66e3..21fcf5b 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -990,7 +990,7 @@ def jcpot_barycenter(
 
         # format classes to start from 0 for convenience
         if nx.min(classes) != 0:
-            Ys[d] -= nx.min(classes)
+            Ys[d] = Ys[d] - nx.min(classes)
             classes = nx.unique(Ys[d])
 
         # build the corresponding D_1 and D_2 matrices
-- 
2.43.0


From 8692c18d01f0c796433579f58e175002e0f54f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 45/90] fix: generalized_free_support_barycenter uses the given
 barycenter weights in the support updates

---
 ot/lp/_barycenter_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index e37fbec..ee7684c 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -404,6 +404,7 @@ def generalized_free_support_barycenter(
         a_list,
         Y_init,
         b,
+        weights=weights,
         numItermax=numItermax,
         stopThr=stopThr,
         verbose=verbose,
-- 
2.43.0


From 54601e0fe59c1ff934738ae197db6a7eb80d2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 46/90] fix: empirical Bures-Wasserstein distance and
 barycenter accept 1D sample weights as documented

---
 ot/gaussian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 7c25cd6..e4294ed 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -420,9 +420,13 @@ def empirical_bures_wasserstein_distance(
 
     if ws is None:
         ws = nx.ones((xs.shape[0], 1), type_as=xs) / xs.shape[0]
+    else:
+        ws = nx.reshape(ws, (-1, 1))
 
     if wt is None:
         wt = nx.ones((xt.shape[0], 1), type_as=xt) / xt.shape[0]
+    else:
+        wt = nx.reshape(wt, (-1, 1))
 
     if bias:
         mxs = nx.dot(ws.T, xs) / nx.sum(ws)
@@ -876,6 +880,8 @@ def empirical_bures_wasserstein_barycenter(
         w = [
             nx.ones((X[i].shape[0], 1), type_as=X[i]) / X[i].shape[0] for i in range(k)
         ]
+    else:
+        w = [nx.reshape(w[i], (-1, 1)) for i in range(k)]
 
     if bias:
         m = [nx.dot(w[i].T, X[i]) / nx.sum(w[i]) for i in range(k)]
-- 
2.43.0


From 66ca70ac87e00ffcaf143a92995eaec5ce092468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 47/90] fix: empirical_gaussian_gromov_wasserstein_mapping
 accepts an array of signs

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index e4294ed..67a50bb 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -1201,7 +1201,7 @@ def empirical_gaussian_gromov_wasserstein_mapping(
     # select the sign of the eigenvalues
     if sign_eigs is None:
         sign_eigs = nx.ones(min(m, n), type_as=mu_s)
-    elif sign_eigs == "skewness":
+    elif isinstance(sign_eigs, str) and sign_eigs == "skewness":
         size = min(m, n)
         skew_s = nx.sum((nx.dot(xs, U_s[:, :size])) ** 3 * ws, axis=0)
         skew_t = nx.sum((nx.dot(xt, U_t[:, :size])) ** 3 * wt, axis=0)
-- 
2.43.0


From bddab131cd1ceffcf2aca0c53c3cc4e89ebb01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 48/90] fix: gmm_barycenter_fixed_point leaves the initial
 means and covariances unchanged

---
 ot/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 3cb6cea..f736255 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -518,7 +518,7 @@ def gmm_barycenter_fixed_point(
     d = means_init.shape[1]
     means_its = [nx.copy(means_init)]
     covs_its = [nx.copy(covs_init)]
-    means, covs = means_init, covs_init
+    means, covs = nx.copy(means_init), nx.copy(covs_init)
 
     if w_bar is None:
         w_bar = nx.ones(n, type_as=means) / n
-- 
2.43.0


From 54c069175e1d13a6216a0e8df1467532363a4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 49/90] fix: gmm_barycenter_fixed_point projects with the
 weights of the barycenter components

---
 ot/gmm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index f736255..9c47301 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -540,9 +540,11 @@ def gmm_barycenter_fixed_point(
             means_selection = nx.zeros((n, K, d), type_as=means)
             covs_selection = nx.zeros((n, K, d, d), type_as=means)
             for k in range(K):
-                means_selection[:, k, :] = n * pi_list[k] @ means_list[k]
-                covs_selection[:, k, :, :] = (
-                    nx.einsum("ij,jab->iab", pi_list[k], covs_list[k]) * n
+                # plan conditioned on each component of the barycentre
+                pi_k = pi_list[k] / w_bar[:, None]
+                means_selection[:, k, :] = pi_k @ means_list[k]
+                covs_selection[:, k, :, :] = nx.einsum(
+                    "ij,jab->iab", pi_k, covs_list[k]
                 )
 
         # each component i of the barycentre will be a Bures barycentre of the
-- 
2.43.0


From 6829655e7c6e675286460a01fe47c7ac9163bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 50/90] Revert "fix: gmm_barycenter_fixed_point leaves the
 initial means and covariances unchanged"

This reverts commit bddab131cd1ceffcf2aca0c53c3cc4e89ebb01ff.
---
 ot/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 9c47301..3f78fed 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -518,7 +518,7 @@ def gmm_barycenter_fixed_point(
     d = means_init.shape[1]
     means_its = [nx.copy(means_init)]
     covs_its = [nx.copy(covs_init)]
-    means, covs = nx.copy(means_init), nx.copy(covs_init)
+    means, covs = means_init, covs_init
 
     if w_bar is None:
         w_bar = nx.ones(n, type_as=means) / n
-- 
2.43.0


From f785682c59fb0edb4508ceeb4faa480a334aad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 51/90] fix: dual variables of the Monge multi-marginal problem
 stay feasible on empty bins

---
 ot/lp/dmmot.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index f40a99b..e00ce47 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -178,11 +178,17 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
     # the above terminates when any entry in idx equals the corresponding
     # value in dims this leaves other dimensions incomplete; the remaining
     # terms of the dual solution must be filled-in
-    for _, i in enumerate(idx):
-        try:
-            dual[_][i:] = dual[_][i]
-        except Exception:
-            pass
+    # along a monotone path to the last bins, which keeps them feasible
+    idx = [min(i, d - 1) for i, d in zip(idx, dims)]
+    for j, d in enumerate(dims):
+        while idx[j] < d - 1:
+            oldidx = idx.copy()
+            idx[j] += 1
+            dual[j][idx[j]] = (
+                dist_monge_max_min(idx)
+                - dist_monge_max_min(oldidx)
+                + dual[j][idx[j] - 1]
+            )
 
     dualobj = sum([np.dot(A[:, i], arr) for i, arr in enumerate(dual)])
     obj = nx.from_numpy(obj)
-- 
2.43.0


From 40ae57c6e7c96ac1e759fe4252190d158644af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 52/90] fix: sum over features in the batched KL cost with
 logits

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index a63fcb4..aef2f5a 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -112,7 +112,7 @@ def dist_kl_batch(X, Y, logits_X=False, nx=None, eps=1e-10):
         nx = get_backend(X, Y)
     entr_y = nx.sum(Y * nx.log(Y + eps), axis=-1)  # B x m
     if logits_X:
-        M = entr_y[:, None, :] - Y[:, None, :] * X[:, :, None]
+        M = entr_y[:, None, :] - nx.sum(Y[:, None, :] * X[:, :, None], axis=-1)
     else:
         M = entr_y[:, None, :] - nx.sum(
             Y[:, None, :] * nx.log(X + eps)[:, :, None], axis=-1
-- 
2.43.0


From a31d8c029e062d2049bc4249248132184dd7b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 53/90] fix: clip rounding errors below zero in the batched
 squared Euclidean cost

---
 ot/batch/_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index aef2f5a..7cce4fa 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -80,6 +80,7 @@ def dist_euclidean_batch(X, Y, squared=True, nx=None):
     YY = nx.sum(Y**2, axis=-1, keepdims=True)
     YY = nx.transpose(YY, axes=(0, 2, 1))
     M = XX + YY - 2 * nx.einsum("bid,bjd->bij", X, Y)
+    M = nx.maximum(M, 0)
     if not squared:
         M = nx.sqrt(M)
     return M
-- 
2.43.0


From 522570e56be8622afd53df7e22325ba57e84a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 54/90] fix: costs of sliced plans between uniform weights
 account for their total mass

---
 ot/sliced/_sliced_plans.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/sliced/_sliced_plans.py b/ot/sliced/_sliced_plans.py
index d192a24..b36507d 100644
--- a/ot/sliced/_sliced_plans.py
+++ b/ot/sliced/_sliced_plans.py
@@ -133,6 +133,7 @@ def sliced_plans(
                 X_t,
                 sigma[:, k],
                 tau[:, k],
+                a,
                 metric=metric,
                 p=p,
                 batch_size=batch_size,
-- 
2.43.0


From eb9fc564ae71dfbb479bf5cfc5c6a3c76551c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 55/90] fix: expected_sliced_plan weights the given projections
 uniformly whatever n_projections

---
 ot/sliced/_sliced_plans.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ot/sliced/_sliced_plans.py b/ot/sliced/_sliced_plans.py
index b36507d..9c08c12 100644
--- a/ot/sliced/_sliced_plans.py
+++ b/ot/sliced/_sliced_plans.py
@@ -492,8 +492,7 @@ def expected_sliced_plan(
         weights = nx.exp(log_factors - nx.logsumexp(log_factors))
         cost = nx.sum(list_to_array(costs) * weights)
     else:  # uniform weights
-        if n_projections is None:
-            n_projections = projections.shape[1]
+        n_projections = len(plans)
         weights = nx.ones(n_projections) / n_projections
 
     weights_e = nx.concatenate([plans[i].data * weights[i] for i in range(len(plans))])
-- 
2.43.0


From 7b6fd102cff57f055f9edf0b2e8cfdacc3bd88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 56/90] fix: projection_sphere_to_circle follows the number of
 given projections

---
 ot/sliced/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/sliced/_utils.py b/ot/sliced/_utils.py
index fc280d5..fb9aa15 100644
--- a/ot/sliced/_utils.py
+++ b/ot/sliced/_utils.py
@@ -163,7 +163,7 @@ def projection_sphere_to_circle(
 
     # Get coordinates on [0,1[
     Xp_coords = nx.reshape(
-        get_coordinate_circle(nx.reshape(Xp, (-1, 2))), (n_projections, n)
+        get_coordinate_circle(nx.reshape(Xp, (-1, 2))), (projections.shape[0], n)
     )
 
     return Xp_coords, projections
-- 
2.43.0


From 908008923375f38b61e747133dc36cd5df04dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 57/90] fix: linear_sliced_wasserstein_sphere accepts X_t=None
 as documented

---
 ot/sliced/_spherical_sliced.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/sliced/_spherical_sliced.py b/ot/sliced/_spherical_sliced.py
index 2deaa5d..e5502f4 100644
--- a/ot/sliced/_spherical_sliced.py
+++ b/ot/sliced/_spherical_sliced.py
@@ -265,14 +265,14 @@ def linear_sliced_wasserstein_sphere(
 
     nx = get_backend(X_s, X_t, a, b)
 
-    if X_s.shape[1] != X_t.shape[1]:
+    if X_t is not None and X_s.shape[1] != X_t.shape[1]:
         raise ValueError(
             "X_s and X_t must have the same number of dimensions {} and {} \
             respectively given".format(X_s.shape[1], X_t.shape[1])
         )
     if nx.any(nx.abs(nx.sum(X_s**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_s is not on the sphere.")
-    if nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
+    if X_t is not None and nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_t is not on the sphere.")
 
     if projections is None:
@@ -284,6 +284,7 @@ def linear_sliced_wasserstein_sphere(
         X_s, n_projections=n_projections, projections=projections, seed=seed, backend=nx
     )
 
+    Xpt_values = None
     if X_t is not None:
         Xpt_coords, _ = projection_sphere_to_circle(
             X_t,
@@ -292,9 +293,10 @@ def linear_sliced_wasserstein_sphere(
             seed=seed,
             backend=nx,
         )
+        Xpt_values = Xpt_coords.T
 
     projected_lcot = linear_circular_ot(
-        Xps_coords.T, Xpt_coords.T, u_weights=a, v_weights=b
+        Xps_coords.T, Xpt_values, u_weights=a, v_weights=b
     )
     res = nx.mean(projected_lcot) ** (1 / 2)
 
-- 
2.43.0


From ca4fe74804d388132e8a3d945401185320114b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 58/90] fix: regularization path follows simultaneous changes
 of the active set

---
 ot/regpath.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index aedc35b..7ad08ff 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -269,11 +269,13 @@ def ot_next_gamma(phi, delta, HtH, Hty, c, active_index, current_gamma):
         Unbalanced optimal transport through non-negative penalized
         linear regression. NeurIPS.
     """
-    M = (HtH[:, active_index].dot(phi) - Hty) / (
-        HtH[:, active_index].dot(delta) - c + 1e-16
-    )
+    slope = HtH[:, active_index].dot(delta) - c
+    M = (HtH[:, active_index].dot(phi) - Hty) / (slope + 1e-16)
+    # only the points whose optimality condition tightens when gamma decreases
+    # can be added, possibly at once when several conditions are tight
+    M[slope >= -1e-10 * np.max(np.abs(c))] = 0
     M[active_index] = 0
-    M[M > (current_gamma - 1e-10 * current_gamma)] = 0
+    M = np.minimum(M, current_gamma)
     return np.max(M), np.argmax(M)
 
 
@@ -346,11 +348,13 @@ def semi_relaxed_next_gamma(
         linear regression. NeurIPS.
     """
 
-    M = (HrHr[:, active_index].dot(phi) - Hra + Hc.T.dot(phi_u)) / (
-        HrHr[:, active_index].dot(delta) - c + Hc.T.dot(delta_u) + 1e-16
-    )
+    slope = HrHr[:, active_index].dot(delta) - c + Hc.T.dot(delta_u)
+    M = (HrHr[:, active_index].dot(phi) - Hra + Hc.T.dot(phi_u)) / (slope + 1e-16)
+    # only the points whose optimality condition tightens when gamma decreases
+    # can be added, possibly at once when several conditions are tight
+    M[slope >= -1e-10 * np.max(np.abs(c))] = 0
     M[active_index] = 0
-    M[M > (current_gamma - 1e-10 * current_gamma)] = 0
+    M = np.minimum(M, current_gamma)
     return np.max(M), np.argmax(M)
 
 
@@ -399,7 +403,9 @@ def compute_next_removal(phi, delta, current_gamma):
         linear regression. NeurIPS.
     """
     r_candidate = phi / (delta - 1e-16)
-    r_candidate[r_candidate >= (1 - 1e-8) * current_gamma] = 0
+    # only the entries of the plan that decrease with gamma can be removed
+    r_candidate[delta >= -1e-10 * np.max(np.abs(delta))] = 0
+    r_candidate = np.minimum(r_candidate, current_gamma)
     return np.max(r_candidate), np.argmax(r_candidate)
 
 
-- 
2.43.0


From 9d8ff59427d1e923b944428885db80bcaad2bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 59/90] fix: an interrupted regularization path ends at its
 last breakpoint

---
 ot/regpath.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index 7ad08ff..0cad8c3 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -674,7 +674,10 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
         print("maximum iteration has been reached !")
 
     # correct the last solution and gamma
-    if len(t_list) > 1:
+    if gamma_list[-1] > reg:
+        # the path was interrupted before reaching reg
+        pass
+    elif len(t_list) > 1:
         t_final = t_list[-2] + (t_list[-1] - t_list[-2]) * (reg - gamma_list[-2]) / (
             gamma_list[-1] - gamma_list[-2]
         )
@@ -829,7 +832,10 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
         print("maximum iteration has been reached !")
 
     # correct the last solution and gamma
-    if len(t_list) > 1:
+    if gamma_list[-1] > reg:
+        # the path was interrupted before reaching reg
+        pass
+    elif len(t_list) > 1:
         t_final = t_list[-2] + (t_list[-1] - t_list[-2]) * (reg - gamma_list[-2]) / (
             gamma_list[-1] - gamma_list[-2]
         )
-- 
2.43.0


From fed6ad922dc6ed7e9af6ead8535ae69d0dc074a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 60/90] fix: JCPOTTransport passes its iteration limit to the
 solver

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 527999c..856a243 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2417,7 +2417,7 @@ class JCPOTTransport(BaseTransport):
                 Xt=Xt,
                 reg=self.reg_e,
                 metric=self.metric,
-                distrinumItermax=self.max_iter,
+                numItermax=self.max_iter,
                 stopThr=self.tol,
                 verbose=self.verbose,
                 log=True,
-- 
2.43.0


From 13f86e8a6292015171ac527c3a387d88f8f96c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 61/90] fix: JCPOTTransport keeps the proportions only,
 whatever log

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 856a243..b6f31b0 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2429,7 +2429,7 @@ class JCPOTTransport(BaseTransport):
             if self.log:
                 self.proportions_, self.log_ = returned_
             else:
-                self.proportions_ = returned_
+                self.proportions_ = returned_[0]
                 self.log_ = dict()
 
         return self
-- 
2.43.0


From 7756cf20ee1e243201b5960fc2bc559682058739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 62/90] fix: EMDLaplaceTransport can be fitted with source and
 target labels

---
 ot/da.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/da.py b/ot/da.py
index b6f31b0..bffbf5a 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1713,6 +1713,10 @@ class EMDLaplaceTransport(BaseTransport):
         The kind of out of sample mapping to apply to transport samples
         from a domain into another one. Currently the only possible option is
         "ferradans" which uses the method proposed in :ref:`[6] <references-emdlaplacetransport>`.
+    limit_max: float, optional (default=np.inf)
+        Controls the semi supervised mode. Transport between labeled source
+        and target samples of different classes will exhibit an cost defined by
+        limit_max.
 
     Attributes
     ----------
@@ -1752,6 +1756,7 @@ class EMDLaplaceTransport(BaseTransport):
         verbose=False,
         distribution_estimation=distribution_estimation_uniform,
         out_of_sample_map="ferradans",
+        limit_max=np.inf,
     ):
         self.reg = reg_type
         self.reg_lap = reg_lap
@@ -1768,6 +1773,7 @@ class EMDLaplaceTransport(BaseTransport):
         self.verbose = verbose
         self.distribution_estimation = distribution_estimation
         self.out_of_sample_map = out_of_sample_map
+        self.limit_max = limit_max
 
     def fit(self, Xs, ys=None, Xt=None, yt=None):
         r"""Build a coupling matrix from source and target sets of samples
-- 
2.43.0


From c22684b5371102b46efeb4b06cc2b955d07b427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 63/90] fix: low-rank Sinkhorn values its final plan

---
 ot/lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index f4e3aa4..4760490 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -507,7 +507,7 @@ def lowrank_sinkhorn(
 
     # Compute value_linear (using trace formula)
     A = nx.dot(M1.T, Q)
-    B = nx.dot(M2.T, R * diag_g)
+    B = nx.dot(M2.T, R * (1 / g)[None, :])
     value_linear = nx.sum(A * B)
 
     # Compute value with entropy reg (see "Section 3.2" in the paper)
-- 
2.43.0


From b97da576e4c769dfe10f607ed0d271fa505a4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 64/90] fix: low-rank Gromov-Wasserstein values its final plan

---
 ot/gromov/_lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index b7f5c49..352c978 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -321,7 +321,7 @@ def lowrank_gromov_wasserstein_samples(
     c1 = nx.dot(x_, a) + nx.dot(y_, b)
 
     G = nx.dot(C1, nx.dot(C2, R))
-    G = nx.dot(Q.T, G * diag_g)
+    G = nx.dot(Q.T, G * (1 / g)[None, :])
     value_quad = c1 + nx.trace(G) / 2
 
     if reg != 0:
-- 
2.43.0


From a99bf4601b9dfff22e8afb5994df1542d4c3638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 65/90] fix: too large alpha is reported without a given rank

---
 ot/gromov/_lowrank.py | 2 +-
 ot/lowrank.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index 352c978..f09d237 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -199,7 +199,7 @@ def lowrank_gromov_wasserstein_samples(
     if 1 / r < alpha:
         raise ValueError(
             "alpha ({a}) should be smaller than 1/rank ({r}) for the Dykstra algorithm to converge.".format(
-                a=alpha, r=1 / rank
+                a=alpha, r=1 / r
             )
         )
 
diff --git a/ot/lowrank.py b/ot/lowrank.py
index 4760490..090eed7 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -439,7 +439,7 @@ def lowrank_sinkhorn(
     if 1 / r < alpha:
         raise ValueError(
             "alpha ({a}) should be smaller than 1/rank ({r}) for the Dykstra algorithm to converge.".format(
-                a=alpha, r=1 / rank
+                a=alpha, r=1 / r
             )
         )
 
-- 
2.43.0


From 65cafb84bcdc59e961a342665d2fee2687951c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 66/90] fix: quantized Gromov-Wasserstein uses the partition
 method asked for

---
 ot/gromov/_quantized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 861cbfd..7c3916c 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -704,8 +704,8 @@ def quantized_fused_gromov_wasserstein(
                 default methods. Consider installing Networkx to fix this.
                 """
             )
-        part_method = "random"
-        rep_method = "random"
+            part_method = "random"
+            rep_method = "random"
 
     if (part_method in ["spectral", "spectral_fused"]) and (not sklearn_import):
         warnings.warn(
-- 
2.43.0


From ee5dfdc25c3b8b9bc86df6ecfcddefe38578ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 67/90] fix: representants of singleton partitions follow their
 identifiers

---
 ot/gromov/_quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 7c3916c..6822db0 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -421,7 +421,7 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
     part_ids = nx.unique(part)
     n_part_ids = part_ids.shape[0]
     if n_part_ids == C.shape[0]:
-        rep_indices = nx.arange(n_part_ids)
+        rep_indices = nx.argsort(part)
 
     elif rep_method == "random":
         random.seed(random_state)
-- 
2.43.0


From 55bbf8734914a8332ff09b96bc68e7507a141411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 68/90] fix: quantized Gromov-Wasserstein plans follow the
 order of the nodes

---
 ot/gromov/_quantized.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 6822db0..95bed5d 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -273,6 +273,34 @@ def quantized_fused_gromov_wasserstein_partitioned(
         return T_global, Ts_local, T
 
 
+def _reorder_plan(T, part1, part2, nx):
+    r"""
+    Reorders the rows and columns of a transport plan stacked partition by
+    partition so that they follow the order of the nodes.
+
+    Parameters
+    ----------
+    T : array-like, shape (ns, nt)
+        Transport plan whose rows (resp. columns) are sorted by partition.
+    part1 : array-like, shape (ns,)
+        Array of partition assignment for each node in the source space.
+    part2 : array-like, shape (nt,)
+        Array of partition assignment for each node in the target space.
+    nx : backend
+        POT backend
+
+    Returns
+    -------
+    T : array-like, shape (ns, nt)
+        Transport plan between the nodes in their original order.
+    """
+    order1, order2 = [
+        nx.concatenate([nx.where(part == part_id)[0] for part_id in nx.unique(part)])
+        for part in (part1, part2)
+    ]
+    return T[nx.argsort(order1), :][:, nx.argsort(order2)]
+
+
 def get_graph_partition(
     C, npart, part_method="random", F=None, alpha=1.0, random_state=0, nx=None
 ):
@@ -846,6 +874,7 @@ def quantized_fused_gromov_wasserstein(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _reorder_plan(T, part1, part2, nx)
 
         # compute the transport cost on structures
         constC, hC1, hC2 = init_matrix(C1, C2, p, q, "square_loss", nx)
@@ -862,6 +891,7 @@ def quantized_fused_gromov_wasserstein(
 
     else:
         T_global, Ts_local, T = res
+        T = _reorder_plan(T, part1, part2, nx)
 
         return T_global, Ts_local, T
 
@@ -1269,6 +1299,7 @@ def quantized_fused_gromov_wasserstein_samples(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _reorder_plan(T, part1, part2, nx)
 
         C1 = dist(X1, X1)
         C2 = dist(X2, X2)
@@ -1288,5 +1319,6 @@ def quantized_fused_gromov_wasserstein_samples(
 
     else:
         T_global, Ts_local, T = res
+        T = _reorder_plan(T, part1, part2, nx)
 
         return T_global, Ts_local, T
-- 
2.43.0


From f51e1b3eca3f3b2367c198afc87da165880af687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 69/90] fix: sampled Gromov-Wasserstein estimates keep the
 order of the loss

---
 ot/gromov/_estimators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 18359af..add0751 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -95,6 +95,10 @@ def GW_distance_estimation(
         len_p, len_q = len_q, len_p
         C1, C2 = C2, C1
         T = T.T
+        loss_fun_ = loss_fun
+
+        def loss_fun(x, y):
+            return loss_fun_(y, x)
 
     if nb_samples_p is None:
         if nx.issparse(T):
-- 
2.43.0


From bef972b1b9f04d9436e92b596dc82cab5c625785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 70/90] fix: quantized Gromov-Wasserstein forwards the solver
 options

---
 ot/gromov/_quantized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 95bed5d..f27ea35 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -183,6 +183,7 @@ def quantized_fused_gromov_wasserstein_partitioned(
             max_iter=max_iter,
             tol_rel=tol_rel,
             tol_abs=tol_abs,
+            **kwargs,
         )
 
         if log:
@@ -204,6 +205,7 @@ def quantized_fused_gromov_wasserstein_partitioned(
             max_iter=max_iter,
             tol_rel=tol_rel,
             tol_abs=tol_abs,
+            **kwargs,
         )
 
         if log:
-- 
2.43.0


From 1ce22398fe72b42d5d1f39653b152603f8c859ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 71/90] fix: Gromov-Wasserstein unmixing handles asymmetric
 structures

---
 ot/gromov/_dictionary.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_dictionary.py b/ot/gromov/_dictionary.py
index 6a2b307..304e002 100644
--- a/ot/gromov/_dictionary.py
+++ b/ot/gromov/_dictionary.py
@@ -203,9 +203,9 @@ def gromov_wasserstein_dictionary_learning(
             # Stochastic projected gradient step over dictionary atoms
             grad_Cdict = np.zeros_like(Cdict)
             for batch_idx, C_idx in enumerate(batch):
-                shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                shared_term_structures = Cs_embedded[batch_idx] * const_q - Ts[
+                    batch_idx
+                ].T.dot(Cs[C_idx]).dot(Ts[batch_idx])
                 grad_Cdict += (
                     unmixings[batch_idx][:, None, None]
                     * shared_term_structures[None, :, :]
@@ -477,7 +477,7 @@ def _cg_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = T.T.dot(C).dot(T)
 
     while (convergence_criterion > tol) and (count < max_iter):
         previous_loss = current_loss
@@ -814,9 +814,9 @@ def fused_gromov_wasserstein_dictionary_learning(
             grad_Ydict = np.zeros_like(Ydict)
 
             for batch_idx, C_idx in enumerate(batch):
-                shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                shared_term_structures = Cs_embedded[batch_idx] * const_q - Ts[
+                    batch_idx
+                ].T.dot(Cs[C_idx]).dot(Ts[batch_idx])
                 shared_term_features = diag_q.dot(Ys_embedded[batch_idx]) - Ts[
                     batch_idx
                 ].T.dot(Ys[C_idx])
@@ -1144,7 +1144,7 @@ def _cg_fused_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = T.T.dot(C).dot(T)
     ones_ns_d = np.ones(Y.shape)
 
     while (convergence_criterion > tol) and (count < max_iter):
-- 
2.43.0


From 43892080941b808571dcb952237f7c2c82ad8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 72/90] fix: averaged SGD takes the source weights into account

---
 ot/stochastic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 25b08c6..34e5256 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -218,7 +218,10 @@ def averaged_sgd_entropic_transport(
     for cur_iter in range(numItermax):
         k = cur_iter + 1
         i = rng.randint(n_source)
-        cur_coord_grad = coordinate_grad_semi_dual(b, M, reg, cur_beta, i)
+        # the source samples are drawn uniformly, whatever their weights
+        cur_coord_grad = (n_source * a[i]) * coordinate_grad_semi_dual(
+            b, M, reg, cur_beta, i
+        )
         cur_beta += (lr / np.sqrt(k)) * cur_coord_grad
         ave_beta = (1.0 / k) * cur_beta + (1 - 1.0 / k) * ave_beta
     return ave_beta
-- 
2.43.0


From 5884638f0de13cd4b23be0d8dd4beb416055091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 73/90] fix: weak optimal transport accepts samples without
 mass

---
 ot/weak.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ot/weak.py b/ot/weak.py
index 7173960..dd1d9f9 100644
--- a/ot/weak.py
+++ b/ot/weak.py
@@ -110,13 +110,16 @@ def weak_optimal_transport(
     else:
         T0 = nx.to_numpy(G0)
 
+    # samples without mass have no barycentric image
+    a2_div = np.where(a2 > 0, a2, 1)
+
     # weak OT loss
     def f(T):
-        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) / a2[:, None]) ** 2, 1))
+        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) / a2_div[:, None]) ** 2, 1))
 
     # weak OT gradient
     def df(T):
-        return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a2[:, None], Xb2.T)
+        return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a2_div[:, None], Xb2.T)
 
     # solve with conditional gradient and return solution
     if log:
-- 
2.43.0


From cbbcb03eb6f2046d273e4f6558ea76c5a7276349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 74/90] fix: Fisher discriminant analysis uses the mean vector
 of each class

---
 ot/dr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 4914e6b..2a4ce2a 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -101,8 +101,8 @@ def fda(X, y, p=2, reg=1e-16):
         projection function including mean centering
     """
 
-    mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    mx = np.mean(X, axis=0)
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
@@ -119,7 +119,7 @@ def fda(X, y, p=2, reg=1e-16):
     mxc = np.zeros((d, nc))
 
     for i in range(nc):
-        mxc[:, i] = np.mean(xc[i])
+        mxc[:, i] = np.mean(xc[i], axis=0)
 
     mx0 = np.mean(mxc, 1)
     Cb = 0
-- 
2.43.0


From 8cfe63af3bae788421e15ad47cb398a8b60b1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 75/90] fix: Wasserstein discriminant analysis keeps its input
 samples

---
 ot/dr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 2a4ce2a..9cfabff 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -218,8 +218,8 @@ def wda(
     else:
         raise ValueError("Unknown Sinkhorn method '%s'." % sinkhorn_method)
 
-    mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    mx = np.mean(X, axis=0)
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
-- 
2.43.0


From 283ca9f447ab86fb1431ade4f1b466282552a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 76/90] fix: EWCA runs majorization-minimization from a given
 basis

---
 ot/dr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/dr.py b/ot/dr.py
index 9cfabff..42aca66 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -501,6 +501,8 @@ def ewca(
             lambda_scm = pca_fitted.explained_variance_[0]
     else:
         U = U0
+        if method == "MM":
+            lambda_scm = np.linalg.eigvalsh(X.T @ X / (n - 1))[-1]
 
     # marginals
     u0 = (1.0 / n) * np.ones(n)
-- 
2.43.0


From 0973e04b60933fa821a469f16029b0f50cb0131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 77/90] fix: projection robust Wasserstein accepts any stopping
 threshold

---
 ot/dr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/dr.py b/ot/dr.py
index 42aca66..5322507 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -380,7 +380,7 @@ def projection_robust_wasserstein(
             - A.T
         )
 
-    err = 1
+    err = np.inf
     iter = 0
 
     while err > stopThr and iter < maxiter:
-- 
2.43.0


From d1a7652f1d0758ff59be9dab5b08b2d0c8b093e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 78/90] fix: one-dimensional unbalanced transport accepts
 sorted samples

---
 ot/unbalanced/_solver_1d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index 3d8b4f7..3d926ba 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -236,6 +236,9 @@ def uot_1d(
 
         u_weights_sorted = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights_sorted = nx.take_along_axis(v_weights, v_sorter, 0)
+    else:
+        u_values_sorted, v_values_sorted = u_values, v_values
+        u_weights_sorted, v_weights_sorted = u_weights, v_weights
 
     f = nx.zeros(u_weights.shape, type_as=u_weights)
     fd = nx.zeros(u_weights.shape, type_as=u_weights)
@@ -279,6 +282,9 @@ def uot_1d(
         g = nx.take_along_axis(g, v_rev_sorter, 0)
         u_reweighted = nx.take_along_axis(u_rescaled, u_rev_sorter, 0) * full_mass
         v_reweighted = nx.take_along_axis(v_rescaled, v_rev_sorter, 0) * full_mass
+    else:
+        u_reweighted = u_rescaled * full_mass
+        v_reweighted = v_rescaled * full_mass
 
     # rescale OT loss
     linear_loss = loss * full_mass
-- 
2.43.0


From 5436a87c8c4b134336438d599e8aaaf2a4b515f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 79/90] fix: semi-relaxed one-dimensional transport costs each
 slice on its own

---
 ot/unbalanced/_solver_1d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index 3d926ba..64a96bc 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -292,9 +292,13 @@ def uot_1d(
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         uot_loss = linear_loss
     elif reg_m1 == float("inf"):
-        uot_loss = linear_loss + reg_m2 * nx.kl_div(v_reweighted, v_weights, mass=True)
+        uot_loss = linear_loss + reg_m2 * nx.kl_div(
+            v_reweighted, v_weights, mass=True, axis=0
+        )
     elif reg_m2 == float("inf"):
-        uot_loss = linear_loss + reg_m1 * nx.kl_div(u_reweighted, u_weights, mass=True)
+        uot_loss = linear_loss + reg_m1 * nx.kl_div(
+            u_reweighted, u_weights, mass=True, axis=0
+        )
     else:
         uot_loss = (
             linear_loss
-- 
2.43.0


From 4dd5ffeb37251371395ae96597a926a64a4d4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 80/90] fix: OTResult gives the marginals of sparse and lazy
 plans

---
 ot/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index c93729b..7217062 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1327,7 +1327,11 @@ class OTResult:
     def marginals(self):
         """Marginals of the transport plan: should be very close to "a" and "b"
         for balanced OT."""
-        if self._plan is not None:
+        if (
+            self._plan is not None
+            or self._sparse_plan is not None
+            or self._lazy_plan is not None
+        ):
             return self.marginal_a, self.marginal_b
         else:
             return None
@@ -1337,6 +1341,8 @@ class OTResult:
         """First marginal of the transport plan, with the same shape as "a"."""
         if self._plan is not None:
             return self._backend.sum(self._plan, 1)
+        elif self._sparse_plan is not None:
+            return self._backend.sum(self.plan, 1)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
@@ -1350,6 +1356,8 @@ class OTResult:
         """Second marginal of the transport plan, with the same shape as "b"."""
         if self._plan is not None:
             return self._backend.sum(self._plan, 0)
+        elif self._sparse_plan is not None:
+            return self._backend.sum(self.plan, 0)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
-- 
2.43.0


From 00eb680175dff85caff53e8c8f1bfe0bbf34c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 81/90] fix: geomloss solves the euclidean problem at the given
 regularization

---
 ot/bregman/_geomloss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index 73d8d5d..717ed2e 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -205,13 +205,16 @@ def empirical_sinkhorn2_geomloss(
 
         # after that we are all in torch
 
-        # set blur value and p
+        # set blur value and p (geomloss uses the temperature geomloss_blur**p,
+        # the lazy plan uses the temperature blur**2)
         if metric == "sqeuclidean":
             p = 2
             blur = np.sqrt(reg / 2)  # because geomloss divides cost by two
+            geomloss_blur = blur
         elif metric == "euclidean":
             p = 1
             blur = np.sqrt(reg)
+            geomloss_blur = reg
         else:
             raise ValueError("geomloss only supports sqeuclidean and euclidean metrics")
 
@@ -222,7 +225,7 @@ def empirical_sinkhorn2_geomloss(
         loss = SamplesLoss(
             loss="sinkhorn",
             p=p,
-            blur=blur,
+            blur=geomloss_blur,
             backend=backend,
             debias=debias,
             scaling=scaling,
-- 
2.43.0


From 7430b645636af748f4e64682dbded94fef993b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 82/90] fix: deprecated data generators honour their parameters

---
 ot/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index 6e3be51..a5bdf4b 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -80,7 +80,7 @@ def make_2D_samples_gauss(n, m, sigma, random_state=None):
 @deprecated()
 def get_2D_samples_gauss(n, m, sigma, random_state=None):
     """Deprecated see  make_2D_samples_gauss"""
-    return make_2D_samples_gauss(n, m, sigma, random_state=None)
+    return make_2D_samples_gauss(n, m, sigma, random_state=random_state)
 
 
 def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **kwargs):
@@ -179,4 +179,6 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
 @deprecated()
 def get_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs):
     """Deprecated see  make_data_classif"""
-    return make_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs)
+    return make_data_classif(
+        dataset, n, nz=nz, theta=theta, random_state=random_state, **kwargs
+    )
-- 
2.43.0


From e703713336d3950913ca913f7bd04f247337a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 83/90] fix: jax gradients set by set_gradients are not halved

---
 ot/backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 08ab22b..b5d9bfe 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1664,9 +1664,10 @@ class JaxBackend(Backend):
         (val,) = jax.lax.stop_gradient((val,))
 
         ravelled_inputs, _ = ravel_pytree(inputs)
-        ravelled_grads, _ = ravel_pytree(grads)
+        # the gradients are constants, whatever they were computed from
+        ravelled_grads, _ = ravel_pytree(jax.lax.stop_gradient(grads))
 
-        aux = jnp.sum(ravelled_inputs * ravelled_grads) / 2
+        aux = jnp.sum(ravelled_inputs * ravelled_grads)
         aux = aux - jax.lax.stop_gradient(aux)
 
         (val,) = jax.tree_util.tree_map(lambda z: z + aux, (val,))
-- 
2.43.0


From a5e2f7671622bdab03baf472bac9fa3413872ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 84/90] fix: tensorflow gradients set by set_gradients follow
 the chain rule

---
 ot/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index b5d9bfe..34ccfec 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3134,7 +3134,7 @@ class TensorflowBackend(Backend):
         @tf.custom_gradient
         def tmp(input):
             def grad(upstream):
-                return grads
+                return tf.nest.map_structure(lambda g: g * upstream, grads)
 
             return val, grad
 
-- 
2.43.0


From 8cbc76fd55110a7c94e00e1ef51af515011caf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 85/90] fix: torch sum over all axes keeps dimensions when
 asked

---
 ot/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index 34ccfec..da0d325 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2190,7 +2190,8 @@ class TorchBackend(Backend):
 
     def sum(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.sum(a)
+            axis = tuple(range(a.ndim)) if keepdims else None
+            return torch.sum(a) if axis is None else torch.sum(a, axis, keepdim=True)
         else:
             return torch.sum(a, axis, keepdim=keepdims)
 
-- 
2.43.0


From 1c76a6cac14bf7119c8c490bb94c57dd01c11d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 86/90] fix: tensorflow logsumexp accepts keepdims

---
 ot/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index da0d325..153a09a 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3321,8 +3321,8 @@ class TensorflowBackend(Backend):
         else:
             return y_prime
 
-    def logsumexp(self, a, axis=None):
-        return tf.math.reduce_logsumexp(a, axis=axis)
+    def logsumexp(self, a, axis=None, keepdims=False):
+        return tf.math.reduce_logsumexp(a, axis=axis, keepdims=keepdims)
 
     def stack(self, arrays, axis=0):
         return tnp.stack(arrays, axis)
-- 
2.43.0


From 32fc95b2ee2dd1d077ba74d8cd88e7cfd9ccaa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 87/90] fix: torch eliminate_zeros applies its threshold to
 sparse tensors

---
 ot/backend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 153a09a..2d2cf5b 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2475,9 +2475,7 @@ class TorchBackend(Backend):
     def eliminate_zeros(self, a, threshold=0.0):
         if self.issparse(a):
             if threshold > 0:
-                mask = self.abs(a) <= threshold
-                mask = ~mask
-                mask = mask.nonzero()
+                mask = (self.abs(a._values()) > threshold).nonzero()
             else:
                 mask = a._values().nonzero()
             nv = a._values().index_select(0, mask.view(-1))
-- 
2.43.0


From ac4cf6e43f57917ffeae792923ecf13734831920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 88/90] fix: torch sparse matrices can be built without a shape

---
 ot/backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/backend.py b/ot/backend.py
index 2d2cf5b..7f49e39 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2454,6 +2454,8 @@ class TorchBackend(Backend):
             return torch.randperm(n=size, generator=self.rng_)
 
     def coo_matrix(self, data, rows, cols, shape=None, type_as=None):
+        if shape is None:
+            shape = (int(rows.max()) + 1, int(cols.max()) + 1)
         if type_as is None:
             return torch.sparse_coo_tensor(torch.stack([rows, cols]), data, size=shape)
         else:
-- 
2.43.0


From 7d00254b73db24dc38296122c2603560097da00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 89/90] fix: the binary data generator returns the requested
 number of samples

---
 ot/datasets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index a5bdf4b..69724ed 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -157,7 +157,8 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
         x = x.dot(rot)
 
     elif dataset.lower() == "2gauss_prop":
-        y = np.concatenate((np.ones(int(p * n)), np.zeros(int((1 - p) * n))))
+        n1 = int(p * n)
+        y = np.concatenate((np.ones(n1), np.zeros(n - n1)))
         x = np.hstack((0 * y[:, None] - 0, 1 - 2 * y[:, None])) + nz * generator.randn(
             len(y), 2
         )
-- 
2.43.0


From d07e563c40747013c4fc0b8c90f12a7dc70070fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 90/90] fix: lazy tensors accept negative indices

---
 ot/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ot/utils.py b/ot/utils.py
index 7217062..76492e0 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1492,6 +1492,11 @@ class LazyTensor(object):
                 "Only integer, slice, and tuple indexing is supported"
             )
 
+        # negative integers count from the end
+        for i, n in enumerate(self.shape):
+            if isinstance(k[i], int) and k[i] < 0:
+                k[i] += n
+
         return self._getitem(*k, **self.kwargs)
 
     def __repr__(self):
-- 
2.43.0

