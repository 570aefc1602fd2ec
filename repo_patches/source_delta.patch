From dec487a00e022b63fc2f6b6c11b443297b1eb0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:34 +0000
Subject: [PATCH 01/22] fix: allow trees with maximum depth 1 and 2

The list of ancestors of a node is empty in such trees.
---
 src/bartz/mcmcstep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..3b4ec81 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -605,8 +605,10 @@ def ancestor_variables(var_tree, max_split, node_index):
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
+    if max_num_ancestors == 0:
+        return ancestor_vars
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
         i, index, ancestor_vars = carry
@@ -640,7 +642,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = 0, initial_r, node_index
     def loop(carry, _):
-- 
2.43.0


From 925de30631e3f0403634f7631f1462c48b7cc545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:34 +0000
Subject: [PATCH 02/22] fix: do not modify the ratios in the input state when
 taking a MCMC step

---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 3b4ec81..0dab84f 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1281,7 +1281,8 @@ def accept_moves_sequential_stage(bart, count_trees, moves, move_counts, prelkv,
 
     bart['resid'] = resid
     bart['leaf_trees'] = leaf_trees
-    bart.get('ratios', {}).update(ratios)
+    if 'ratios' in bart:
+        bart['ratios'] = dict(bart['ratios'], **ratios) # do not modify the input
     moves['acc'] = acc
     moves['to_prune'] = to_prune
 
-- 
2.43.0


From 7ea019ae791f03b8273f617e9937dd020e5cffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:34 +0000
Subject: [PATCH 03/22] fix: compare pandas column names by value when checking
 predictors formats

Comparing two distinct pandas indices yields an array, which can not be
converted to a boolean.
---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From 030834189c02b2dae0910a472f16af0e7c807d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:34 +0000
Subject: [PATCH 04/22] fix: only include traced fields in empty MCMC traces

---
 src/bartz/mcmcloop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bartz/mcmcloop.py b/src/bartz/mcmcloop.py
index 4510b3d..a8ac553 100644
--- a/src/bartz/mcmcloop.py
+++ b/src/bartz/mcmcloop.py
@@ -107,6 +107,7 @@ def run_mcmc(bart, n_burn, n_save, n_skip, callback, key):
         return (bart, i_total + 1, i_skip + 1, key), output
 
     def empty_trace(bart, tracelist):
+        bart = {key: bart[key] for key in tracelist if key in bart}
         return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(bart)
 
     if n_burn > 0:
-- 
2.43.0


From c0fa68652a1660ea6f0d4c03e3e68a94e3085914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:34 +0000
Subject: [PATCH 05/22] fix: consider all values in jaxext.unique when the
 output is shorter than the input

---
 src/bartz/jaxext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 815f2b7..7e67219 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -183,8 +183,8 @@ def unique(x, size, fill_value):
         out = out.at[i_out].set(x)
         return (i_out, i_in + 1, x, out), None
     carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
-    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x[:size])
-    return out, actual_length + 1
+    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x)
+    return out, jnp.minimum(actual_length + 1, size)
 
 def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
     """
-- 
2.43.0


From 87a90171d638df755e27f4d1dd3ed123cc8717c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:56 +0000
Subject: [PATCH 06/22] fix: never use decision rules on predictors without
 available cutpoints

Predictors with no cutpoints at all were not excluded when picking the
variable to split on, and leaves without available decision rules were grown
anyway with an invalid rule, accepted if `min_points_per_leaf` is not set.
---
 src/bartz/mcmcstep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 0dab84f..4102b6e 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -358,7 +358,8 @@ def sample_moves(bart, key):
     right = left + 1
 
     return dict(
-        allowed=grow | prune_moves['allowed'],
+        allowed=jnp.where(grow, grow_moves['var'] < bart['max_split'].size, prune_moves['allowed']),
+            # a leaf can not be grown if there are no available decision rules
         grow=grow,
         num_growable=grow_moves['num_growable'],
         node=node,
@@ -554,7 +555,8 @@ def choose_variable(var_tree, split_tree, max_split, leaf_index, key):
     allowed splits. If no variable has a non-empty range, return `p`.
     """
     var_to_ignore = fully_used_variables(var_tree, split_tree, max_split, leaf_index)
-    return randint_exclude(key, max_split.size, var_to_ignore)
+    mask = max_split.astype(bool).at[var_to_ignore].set(False)
+    return randint_masked(key, mask)
 
 def fully_used_variables(var_tree, split_tree, max_split, leaf_index):
     """
-- 
2.43.0


From 026dea1b3fa72bc1c902ceb9c39400039e28f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 07/22] fix: keep the type of leaves and the accuracy of
 residuals with small_float != large_float

The MCMC step changed the type of the leaves to float32, so run_mcmc could not
be used at all with a different `small_float`.
---
 src/bartz/mcmcstep.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 4102b6e..e04dcd4 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1339,6 +1339,10 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
         The acceptance ratios for the moves. Empty if not to be saved.
     """
 
+    # use the accuracy of the residuals for the calculations
+    leaf_dtype = leaf_tree.dtype
+    leaf_tree = leaf_tree.astype(resid.dtype)
+
     # sum residuals and count units per leaf, in tree proposed by grow move
     resid_tree = sum_resid(resid, leaf_indices, leaf_tree.size, resid_batch_size)
 
@@ -1378,6 +1382,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     initial_leaf_tree = leaf_tree
     mean_post = resid_tree * prelf['mean_factor']
     leaf_tree = mean_post + prelf['centered_leaves']
+    leaf_tree = leaf_tree.astype(leaf_dtype) # state storage type
 
     # copy leaves around such that the leaf indices select the right leaf
     to_prune = acc ^ move['grow']
@@ -1389,7 +1394,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     )
 
     # replace old tree with new tree in function values
-    resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
+    resid += (initial_leaf_tree - leaf_tree.astype(resid.dtype))[leaf_indices]
 
     return resid, leaf_tree, acc, to_prune, ratios
 
-- 
2.43.0


From 1d3b378c22e8da9f763d94866d25ad1d562c4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:50 +0000
Subject: [PATCH 08/22] fix: support empty datasets in
 uniform_splits_from_matrix

This allows to use gbart without data with the default usequants=False, as
it was already possible with usequants=True.
---
 src/bartz/prepcovars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 4319b6b..481fa3b 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -103,6 +103,8 @@ def uniform_splits_from_matrix(X, num_bins):
     max_split : array (p,)
         The number of cutpoints in each row of `splits`, i.e., ``num_bins - 1``.
     """
+    if X.shape[1] == 0:
+        X = jnp.zeros((X.shape[0], 1), X.dtype) # any range is fine without data
     low = jnp.min(X, axis=1)
     high = jnp.max(X, axis=1)
     splits = jnp.linspace(low, high, num_bins + 1, axis=1)[:, 1:-1]
-- 
2.43.0


From 4544367f92e4da36176dd6ded26ee79e51a3b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:50 +0000
Subject: [PATCH 09/22] fix: preserve short integer types in
 quantilized_splits_from_matrix

---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 481fa3b..f4d89d0 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -68,7 +68,7 @@ def _quantilized_splits_from_matrix(x, out_length):
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
-        midpoints = jnp.where(indices < actual_length, midpoints, huge)
+        midpoints = jnp.where(indices < actual_length, midpoints, huge).astype(x.dtype)
     else:
         midpoints = (u[1:] + u[:-1]) / 2
     indices = jnp.linspace(-1, actual_length, out_length + 2)[1:-1]
-- 
2.43.0


From eafc3f0b27c133476211b92b245e2c7b899b3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 10/22] fix: avoid integer overflow in the available split
 range below the last cutpoint

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index e04dcd4..49d96b2 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -651,7 +651,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
         index >>= 1
-        split = split_tree[index]
+        split = split_tree[index].astype(jnp.int32) # l + 1 may overflow the type
         cond = (var_tree[index] == ref_var) & index.astype(bool)
         l = jnp.where(cond & right_child, jnp.maximum(l, split), l)
         r = jnp.where(cond & ~right_child, jnp.minimum(r, split), r)
-- 
2.43.0


From e3cb5a3440422bffe84b6a3c7da69b0f13e30ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 11/22] fix: return the documented sentinel in randint_exclude
 when all values are excluded

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 49d96b2..540267f 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -686,7 +686,7 @@ def randint_exclude(key, sup, exclude):
     def loop(u, i):
         return jnp.where(i <= u, u + 1, u), None
     u, _ = lax.scan(loop, u, exclude)
-    return u
+    return jnp.minimum(u, sup) # the fill values push u beyond sup
 
 def choose_split(var_tree, split_tree, max_split, leaf_index, key):
     """
-- 
2.43.0


From 494761db2f0f580fb197f99065b053adc8063f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:57 +0000
Subject: [PATCH 12/22] fix: avoid overflow when counting more than 255 leaves
 with the same number of points

---
 src/bartz/debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/debug.py b/src/bartz/debug.py
index 868ab35..03f83c8 100644
--- a/src/bartz/debug.py
+++ b/src/bartz/debug.py
@@ -86,7 +86,7 @@ def points_per_leaf_distr(var_tree, split_tree, X):
     indices = traverse_tree(X, var_tree, split_tree)
     count_tree = jnp.zeros(2 * split_tree.size, dtype=jaxext.minimal_unsigned_dtype(indices.size))
     count_tree = count_tree.at[indices].add(1)
-    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).view(jnp.uint8)
+    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).astype(int)
     return jnp.bincount(count_tree, is_leaf, length=X.shape[1] + 1)
 
 def forest_points_per_leaf_distr(bart, X):
-- 
2.43.0


From e0d0d2e2d7132d4fd00cc019caa289896408fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:31 +0000
Subject: [PATCH 13/22] fix: avoid integer overflow in quantile cutpoints with
 257 distinct integers

---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index f4d89d0..e6f502e 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -67,7 +67,7 @@ def _quantilized_splits_from_matrix(x, out_length):
     actual_length -= 1
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
-        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
+        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
         midpoints = jnp.where(indices < actual_length, midpoints, huge).astype(x.dtype)
     else:
         midpoints = (u[1:] + u[:-1]) / 2
-- 
2.43.0


From 161f0772481c6d4063c4a29c110726c0ffb90969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:33 +0000
Subject: [PATCH 14/22] fix: support uint32 predictors in
 quantilized_splits_from_matrix

---
 src/bartz/jaxext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 7e67219..f2bf06e 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -110,7 +110,7 @@ def huge_value(x):
         The maximum value allowed by `x`'s type (+inf for floats).
     """
     if jnp.issubdtype(x.dtype, jnp.integer):
-        return jnp.iinfo(x.dtype).max
+        return x.dtype.type(jnp.iinfo(x.dtype).max)
     else:
         return jnp.inf
 
-- 
2.43.0


From 57dac7391b2d5c0cb569903620ed92ea4de4bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 15/22] fix: estimate sigest without nans if all predictors are
 constant

---
 src/bartz/BART.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 14df0db..060c1c0 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -300,7 +300,9 @@ class gbart:
                 y_centered = y_train - y_train.mean()
                     # centering is equivalent to adding an intercept column
                 _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
-                chisq = chisq.squeeze(0)
+                constant = jnp.all(x_centered == 0) # not supported by lstsq
+                chisq = jnp.where(constant, jnp.sum(y_centered * y_centered), chisq.squeeze(0))
+                rank = jnp.where(constant, 0, rank)
                 dof = len(y_train) - rank
                 sigest2 = chisq / dof
             alpha = sigdf / 2
-- 
2.43.0


From 0cf49a2e5749f5087d167fb4d913c1089f9cb1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:12 +0000
Subject: [PATCH 16/22] fix: do not report cutpoints in
 quantilized_splits_from_matrix without data

---
 src/bartz/prepcovars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index e6f502e..07bbc86 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -53,6 +53,8 @@ def quantilized_splits_from_matrix(X, max_bins):
     max_split : array (p,)
         The number of actually used values in each row of `splits`.
     """
+    if X.shape[1] == 0:
+        X = jnp.zeros((X.shape[0], 1), X.dtype) # no splits like with one value
     out_length = min(max_bins, X.shape[1]) - 1
     # return _quantilized_splits_from_matrix(X, out_length)
     @functools.partial(jaxext.autobatch, max_io_nbytes=2 ** 29)
-- 
2.43.0


From 10d395a84ba786a2fc1a3789d99ea34b31fc8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:10 +0000
Subject: [PATCH 17/22] fix: keep the type of the noise variance in 64 bit mode

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 540267f..d658b7c 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1571,7 +1571,7 @@ def sample_sigma(bart, key):
     norm2 = jnp.dot(resid, resid, preferred_element_type=bart['opt']['large_float'])
     beta = bart['sigma2_beta'] + norm2 / 2
 
-    sample = random.gamma(key, alpha)
+    sample = random.gamma(key, alpha, dtype=bart['opt']['large_float'])
     bart['sigma2'] = beta / sample
 
     return bart
-- 
2.43.0


From e857296203449030f16d94c465d4419d19cd6017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:10 +0000
Subject: [PATCH 18/22] fix: initialize the saved ratios with the type they
 have during the MCMC

---
 src/bartz/mcmcstep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d658b7c..6cd2620 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -210,8 +210,8 @@ def init(*,
 
     if save_ratios:
         bart['ratios'] = dict(
-            log_trans_prior=jnp.full(num_trees, jnp.nan),
-            log_likelihood=jnp.full(num_trees, jnp.nan),
+            log_trans_prior=jnp.full(num_trees, jnp.nan, large_float),
+            log_likelihood=jnp.full(num_trees, jnp.nan, large_float),
         )
 
     return bart
-- 
2.43.0


From f77ccb506f85577973905ec9c7117a4c2501e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 19/22] fix: compute midpoints of 64 bit integer predictors
 exactly

---
 src/bartz/prepcovars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 07bbc86..bcf1485 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -68,7 +68,8 @@ def _quantilized_splits_from_matrix(x, out_length):
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
     actual_length -= 1
     if jnp.issubdtype(x.dtype, jnp.integer):
-        midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
+        half_gaps = jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
+        midpoints = u[:-1] + half_gaps.astype(x.dtype)
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
         midpoints = jnp.where(indices < actual_length, midpoints, huge).astype(x.dtype)
     else:
-- 
2.43.0


From ce454202348ea746ed7140cdfe0945fe1e657ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 20/22] fix: convert integer responses to float to avoid
 overflow

---
 src/bartz/BART.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 060c1c0..bdd7bc4 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -276,6 +276,8 @@ class gbart:
         else:
             fmt = dict(kind='array')
         y = jnp.asarray(y)
+        if jnp.issubdtype(y.dtype, jnp.integer):
+            y = y.astype(float) # differences may overflow the integer type
         assert y.ndim == 1
         return y, fmt
 
-- 
2.43.0


From 07af7bb49753991e09265cb7d5fbc5304ea6667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 21/22] fix: keep quantile cutpoints between close or large
 float predictors

---
 src/bartz/prepcovars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index bcf1485..9160cb2 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -73,7 +73,10 @@ def _quantilized_splits_from_matrix(x, out_length):
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
         midpoints = jnp.where(indices < actual_length, midpoints, huge).astype(x.dtype)
     else:
-        midpoints = (u[1:] + u[:-1]) / 2
+        midpoints = u[1:] / 2 + u[:-1] / 2 # the sum may overflow
+        inside = (u[:-1] <= midpoints) & (midpoints < u[1:])
+        midpoints = jnp.where(inside | jnp.isinf(u[1:]), midpoints, u[:-1])
+            # halving may underflow and rounding may reach the right value
     indices = jnp.linspace(-1, actual_length, out_length + 2)[1:-1]
     indices = jnp.around(indices).astype(jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         # indices calculation with float rather than int to avoid potential
-- 
2.43.0


From 436f5327ba82abd8f8656b528409918cbdbfdc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 22/22] fix: accept a zero shape of the noise prior when
 initializing the variance

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 6cd2620..4545cc7 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -170,7 +170,7 @@ def init(*,
     large_float = jnp.dtype(large_float)
     y = jnp.asarray(y, small_float)
     resid_batch_size, count_batch_size = _choose_suffstat_batch_size(resid_batch_size, count_batch_size, y, 2 ** max_depth * num_trees)
-    sigma2 = jnp.array(sigma2_beta / sigma2_alpha, large_float)
+    sigma2 = jnp.asarray(sigma2_beta, large_float) / jnp.asarray(sigma2_alpha, large_float)
     sigma2 = jnp.where(jnp.isfinite(sigma2) & (sigma2 > 0), sigma2, 1)
 
     bart = dict(
-- 
2.43.0

