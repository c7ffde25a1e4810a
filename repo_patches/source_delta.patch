From 634562fde469ded3930c6d02eaf198893ea2ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 01/29] fix: item indices overflow the integer type of the
 triplets dataset

The type was chosen from the number of triplets only: a task with few
triplets over many items stored wrapped (negative) item indices.
---
 ABXpy/task.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2760f7a..40b6c76 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -736,12 +736,16 @@ class Task(object):
         # independently for each 'by' value
         with np2h5.NP2H5(h5file=output) as fh:
             # FIXME test if not fixed size impacts performance a lot
+            # the type must be able to represent the item indices
+            max_index = max(
+                np.max(db.index.values) for db in itervalues(self.by_dbs))
             out = fh.add_dataset(
                 group='triplets',
                 dataset='data',
                 n_rows=self.n_triplets,
                 n_columns=3,
-                item_type=fit_integer_type(self.total_n_triplets),
+                item_type=fit_integer_type(
+                    max(self.total_n_triplets, max_index)),
                 fixed_size=False)
 
             out_block_index = fh.add_dataset(
-- 
2.43.0


From e37062dd753907f9e2f0b1590eb74037d475c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 02/29] fix: on_across_block_index overflows its integer type

The dataset holds positions inside a block of triplets, its type was
chosen from the number of blocks.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 40b6c76..e1be71e 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -753,7 +753,7 @@ class Task(object):
                 dataset='on_across_block_index',
                 n_rows=self.stats['nb_blocks'],
                 n_columns=1,
-                item_type=fit_integer_type(self.stats['nb_blocks']),
+                item_type=fit_integer_type(self.total_n_triplets),
                 fixed_size=False)
 
             empty_by_blocks = []
-- 
2.43.0


From 59a1cffb5adbb79cdfd2856268b2cdfde05aac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 03/29] fix: on/across/by values are read from the wrong item
 after a generic filter

The groups contain index labels, which differ from positions once a
generic filter removed items: wrong filter results or an IndexError.
---
 ABXpy/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index e1be71e..6dca8c2 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -412,7 +412,7 @@ class Task(object):
                     display.display()
 
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.iloc[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
 
                 # retrieve the on and across keys (as they are stored
                 # in the panda object)
@@ -822,7 +822,7 @@ class Task(object):
 
             # allow to get on, across, by values as well as values of
             # other variables that are determined by these
-            on_across_by_values = dict(db.iloc[block[0]])
+            on_across_by_values = dict(db.loc[block[0]])
             if self.filters.on_across_by_filter(on_across_by_values):
                 # instantiate on_across_by regressors here
                 self.regressors.set_on_across_by_regressors(
-- 
2.43.0


From 597be2a5d05ad2613a819a26dc4b1cd1b891f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 04/29] fix: crash when a generic filter removes all the items
 of a 'by' block

---
 ABXpy/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 6dca8c2..ca8c939 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -316,6 +316,10 @@ class Task(object):
                 # apply generic filters
                 by_frame = self.filters.generic_filter(by_values, by_frame)
 
+                # no item left in this 'by' block
+                if by_frame.empty:
+                    continue
+
                 self.by_dbs[by_key] = by_frame
                 self.feat_dbs[by_key] = by_feat_db
 
-- 
2.43.0


From dc915105ec0f2c0edd75defebb4d029db8c7341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 05/29] fix: items are associated to the wrong features after
 an item with missing labels

Items with missing labels are dropped from both tables keeping the index
labels, which then differ from the positions.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index ca8c939..a541c5b 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -302,7 +302,7 @@ class Task(object):
             # apply 'by' filters
             if self.filters.by_filter(by_values):
                 # get analogous feat_db
-                by_feat_db = feat_db.iloc[by_frame.index]
+                by_feat_db = feat_db.loc[by_frame.index]
 
                 # drop indexes
                 by_frame = by_frame.reset_index(drop=True)
-- 
2.43.0


From 2b37fce1ef87aa3143c7917098792fb9215f3685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 06/29] fix: crash in compute_nb_levels

DataFrame.ix has been removed from pandas, and B and X contain index
labels.
---
 ABXpy/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index a541c5b..067dcb6 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1025,7 +1025,7 @@ class Task(object):
             for block_key, n_block in (
                     iteritems(self.by_stats[by]['on_across_levels'])):
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.ix[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
                 on, across = on_across_from_key(block_key)
 
                 if self.filters.on_across_by_filter(on_across_by_values):
@@ -1063,8 +1063,8 @@ class Task(object):
                         else:
                             grouping = self.on + self.across
 
-                        n_level_B = len(db.iloc[B].groupby(grouping).groups)
-                        n_level_X = len(db.iloc[X].groupby(grouping).groups)
+                        n_level_B = len(db.loc[B].groupby(grouping).groups)
+                        n_level_X = len(db.loc[X].groupby(grouping).groups)
                         n = n + n_level_B * n_level_X
 
             self.by_stats[by]['nb_levels'] = n
-- 
2.43.0


From 4266de52bc3dd4e395bc43f18aaba2080d91234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 07/29] fix: nb_levels counts levels without any triplet with
 several 'across'

---
 ABXpy/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 067dcb6..85c2142 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1053,6 +1053,8 @@ class Task(object):
                             list(set(B).difference(A)), dtype=self.types[by])
 
                     # remove X with the same 'across' than A
+                    if type(across) is tuple:
+                        X = set(X) & set(self.antiacross_blocks[by][across])
                     X = np.array(
                         list(set(X).difference(A)), dtype=self.types[by])
 
-- 
2.43.0


From 0641d2dae9824551bddc42b3691f1f1045070355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 08/29] fix: crash when loading an auxiliary database file

---
 ABXpy/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index d18e232..584f629 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -87,7 +87,7 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxfile, auxdb.columns[0], col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
-                    basename, auxdb, auxdb.columns[1:])
+                    basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-- 
2.43.0


From 87d93daa9e35f7f0ff1068517e06c18ef2b52e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 09/29] fix: regressors on A are not sorted and sampled along
 with the triplets

---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 85c2142..1a091da 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1149,7 +1149,7 @@ class Task(object):
                 regressors[name] = reg[iA]
                 if self.filters.ABX:
                     regressors[name] = regressors[name][ABX_filter_ind]
-                    regressors[name] = regressors[name][thr_sort_permut]
+                regressors[name] = regressors[name][thr_sort_permut]
 
         for names, regs in zip(self.regressors.B_names,
                                self.regressors.B_regressors):
-- 
2.43.0


From dbff363d39191395d91e7afa457405053d91b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 10/29] fix: positions overflow when sampling triplets with a
 threshold

The type was fitted to the number of combinations of regressors, not to
the number of triplets: wrong triplets, or no termination.
---
 ABXpy/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 1a091da..0a4be47 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1205,8 +1205,8 @@ def sort_and_threshold(permut, new_index, ind_type,
     i = 0
     for c in counts:
         if threshold and c > threshold:
-            sampled_idx = sampler.sample_without_replacement(
-                threshold, c, dtype=ind_type)
+            # positions in permut, not necessarily representable in ind_type
+            sampled_idx = sampler.sample_without_replacement(threshold, c)
             sampled_idx += i
             new_permut.append(permut[sampled_idx])
         else:
-- 
2.43.0


From 20702bb7bfdc5c97fb27e06bdd30a11e59a1991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 11/29] fix: triplets with different regressors are grouped
 together

With many combinations of regressors their number wrapped around, and
their identifiers were converted to floats.
---
 ABXpy/task.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 0a4be47..fca245c 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -598,13 +598,17 @@ class Task(object):
                     # FIXME how do we know that all regressors are in
                     # integer format here ? This is only guaranteed
                     # for indexed regressors...
-                    assert np.prod(n_regs) < 18446744073709551615, \
+                    # (object type: the product must not wrap around)
+                    n_combinations = np.prod(n_regs.astype(object))
+                    assert n_combinations < 18446744073709551615, \
                         "type not big enough"
 
                     reg_ind_type = fit_integer_type(
-                        np.prod(n_regs), is_signed=False)
+                        n_combinations, is_signed=False)
 
-                    new_index = regs[:, 0].astype(reg_ind_type)
+                    # (same type everywhere: no conversion to float)
+                    regs = regs.astype(reg_ind_type)
+                    new_index = regs[:, 0]
                     for i in range(1, len(n_regs)):
                         new_index = regs[:, i] + n_regs[i] * new_index
 
-- 
2.43.0


From 3fddb963d80af2c7fc129b87ebafe32cd59576aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 12/29] fix: wrong labels in the analysis when keys exceed the
 precision of floats

---
 ABXpy/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 569325c..559658a 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -40,12 +40,12 @@ def npdecode(keys, max_ind):
     """Vectorized implementation of the decoding of the labels:
     i = (a1*n2 + a2)*n3 + a3 ...
     """
-    res = np.empty((len(keys), len(max_ind)))
+    res = np.empty((len(keys), len(max_ind)), dtype=np.uint64)
     aux = keys
     k = len(max_ind)
     for i in range(k - 1):
         res[:, k - 1 - i] = np.mod(aux, max_ind[k - 1 - i])
-        aux = np.divide(aux - res[:, k - 1 - i], max_ind[k - 1 - i])
+        aux = np.floor_divide(aux, max_ind[k - 1 - i])
     res[:, 0] = aux
     return res
 
-- 
2.43.0


From 4137313eb91b3d6a32c0efa9f878e0710fca259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 13/29] fix: the number of combinations of regressors wraps
 around in the analysis

---
 ABXpy/analyze.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 559658a..a582401 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -82,9 +82,10 @@ def collapse(scorefile, taskfile, fid):
         tmp = np.ascontiguousarray(indices).view(
             np.dtype((np.void, indices.dtype.itemsize * indices.shape[1])))
         n_indices = np.max(indices, 0) + 1
-        assert np.prod(n_indices) < 18446744073709551615, "type not big enough"
-        ind_type = fit_integer_type(np.prod(n_indices),
-                                    is_signed=False)
+        # object type: the product must not wrap around
+        n_combinations = np.prod(n_indices.astype(object))
+        assert n_combinations < 18446744073709551615, "type not big enough"
+        ind_type = fit_integer_type(n_combinations, is_signed=False)
         # encoding the indices of a triplet to a unique index
         new_index = indices[:, 0].astype(ind_type)
         for i in range(1, len(n_indices)):
-- 
2.43.0


From d4f3852ee0935412d432c91d52814e740fcf24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 14/29] fix: IncrementalSampler is not iterable in python 3

---
 ABXpy/sampling/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 69df970..9008764 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -56,6 +56,8 @@ class IncrementalSampler(object):
             raise StopIteration
         return self.sample(self.step)
 
+    __next__ = next
+
     def sample(self, n, dtype=np.int64):
         """Fast implementation of the sampling function
 
-- 
2.43.0


From c1e3c684b143761e6d496f6980005bc81a0c9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 15/29] fix: division by zero in IncrementalSampler when
 sampling no item

---
 ABXpy/sampling/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 9008764..7279183 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -42,7 +42,7 @@ class IncrementalSampler(object):
         # step used when iterating over the sampler
         if step is None:
             # 10**4 samples by iteration on average
-            self.step = 10 ** 4 * N // K
+            self.step = 10 ** 4 * N // max(K, 1)
         else:
             self.step = step
 
-- 
2.43.0


From 604348beaaf27aa970e246a0dbdd753f3cd6765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 16/29] fix: an item out of an empty chunk is sampled when a
 single item remains

---
 ABXpy/sampling/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 7279183..f5e4847 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -141,7 +141,7 @@ def hypergeometric_sample(N, K, n):
     """
     # handling edge cases
     if N == 0 or N == 1:
-        k = K
+        k = min(K, n)
     else:
         # using symmetries to speed up computations
         # if the probability of failure is smaller than the probability of
-- 
2.43.0


From fc7b4f9fa7ff0f9fa0f4868f84af726843ea4855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 17/29] fix: job bounds are floats when there are more than
 12.5M pairs by cpu

---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ea3ae86..ac9b5db 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -82,7 +82,7 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
     max_block_size = min(
         np.int64(np.ceil(total_n_pairs / np.float(n_cpu))),
         # buffer_max_size * 1000000 / np.dtype(by_n_pairs).itemsize)
-        buffer_max_size * 1000000 / 8)
+        np.int64(buffer_max_size * 1000000 / 8))
     by = []
     start = []
     stop = []
-- 
2.43.0


From 017ddeb37a3e13a7e5df4972670164df09b63bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 18/29] fix: the distance file is never marked as done with
 several cpus

---
 ABXpy/distances/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ac9b5db..733fbd6 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -324,8 +324,8 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
         run_distance_job(
             jobs[0], distance_file, distance,
             feature_files, feature_groups, splitted_features, 1, normalized)
-        with h5py.File(distance_file, 'a') as fh:
-            fh.attrs.modify('done', True)
+    with h5py.File(distance_file, 'a') as fh:
+        fh.attrs.modify('done', True)
 
 
 # hack, external function for visibility reasons
-- 
2.43.0


From 11737ffc8f898d9c8d2884982e070171c41e1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 19/29] fix: extensions _AX and _AB are checked against the
 wrong columns

A and X share the 'on' column, A and B the 'across' columns.
---
 ABXpy/sideop/side_operations_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/sideop/side_operations_manager.py b/ABXpy/sideop/side_operations_manager.py
index 7527926..8f39db8 100644
--- a/ABXpy/sideop/side_operations_manager.py
+++ b/ABXpy/sideop/side_operations_manager.py
@@ -164,8 +164,8 @@ class SideOperationsManager(object):
         for r, s in elements:
             C1 = (s in ['_1', '_2'] and
                   not(r in self.on_cols or r in self.across_cols))
-            C2 = s == '_AX' and not(r in self.across_cols)
-            C3 = s == 'AB' and not(r in self.on_cols)
+            C2 = s == '_AX' and not(r in self.on_cols)
+            C3 = s == '_AB' and not(r in self.across_cols)
             if C1:
                 raise valueError(errC1, onAndAcross)
             if C2:
-- 
2.43.0


From 9cfa4d6bce3d998a364eca04dfab7e570bf21490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 20/29] fix: metrics normalize the features of the caller in
 place

---
 ABXpy/distances/metrics/cosine.py           |  4 ++--
 ABXpy/distances/metrics/kullback_leibler.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ABXpy/distances/metrics/cosine.py b/ABXpy/distances/metrics/cosine.py
index e6191bd..91329f9 100644
--- a/ABXpy/distances/metrics/cosine.py
+++ b/ABXpy/distances/metrics/cosine.py
@@ -36,6 +36,6 @@ def cosine_distance(x, y):
 
 
 def normalize_cosine_distance(x, y):
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     return cosine_distance(x, y)
diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index cea21c1..79120a6 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -38,8 +38,8 @@ def kl_divergence(x, y, thresholded=True, symmetrized=True, normalize=True):
     if thresholded:
         normalize = True
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     if thresholded:
         eps = np.finfo(x.dtype).eps
         x = x + eps
@@ -67,8 +67,8 @@ def js_divergence(x, y, normalize=True):
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
 
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
@@ -99,8 +99,8 @@ def hellinger_distance(x, y):
     assert (x.dtype == np.float64 and y.dtype == np.float64) or (
         x.dtype == np.float32 and y.dtype == np.float32)
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     x = np.sqrt(x)
     y = np.sqrt(y)
     # x (120, 40), y (100, 40), H(x,y) (120, 100)
-- 
2.43.0


From c057fb0cd22e479d6fa8bff153e438e54260ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 21/29] fix: verify rejects recent features files and tab
 separated item files

---
 ABXpy/verify.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index fbaf428..c8dde3f 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -43,9 +43,11 @@ def check(item_file, features_file, verbose=0):
         if verbose:
             print("Opening features file")
         h5f = h5py.File(features_file)
-        files = h5f['features']['files'][:]
+        # the dataset has been renamed in recent versions of h5features
+        group = h5f['features']
+        files = group['items' if 'items' in group else 'files'][:]
         for line in f:
-            source = str.split(line, ' ')[0]
+            source = str.split(line)[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From def01568c5c921de21c42edb566314b0cb0fbd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:26 +0000
Subject: [PATCH 22/29] fix: a column used as a filter selects the wrong items

---
 ABXpy/dbfun/dbfun_column.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_column.py b/ABXpy/dbfun/dbfun_column.py
index 078b6e3..62510ff 100644
--- a/ABXpy/dbfun/dbfun_column.py
+++ b/ABXpy/dbfun/dbfun_column.py
@@ -36,4 +36,5 @@ class DBfun_Column(dbfun.DBfun):
             return [np.array([self.index.index(e)
                     for e in context[self.input_names[0]]])]
         else:
-            return [context[self.input_names[0]]]
+            # one value by item, as for the computed functions
+            return context[self.input_names[0]]
-- 
2.43.0


From 330ae16c276d19259cb56aaebd994fed92f76e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 23/29] fix: an existing distance file is marked as not done
 before being refused

---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 733fbd6..fc772ee 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -61,8 +61,8 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
             total_n_pairs = fh['unique_pairs/data'].shape[0]
     # initializing output datasets
     with h5py.File(distance_file, 'a') as fh:
-        fh.attrs.create('done', False)
         g = fh.create_group('distances')
+        fh.attrs.create('done', False)
         g.create_dataset('data', shape=(total_n_pairs, 1), dtype=np.float)
     """
     #### Load balancing ####
-- 
2.43.0


From d9a1d1306de017abe89686675d0a362cfb58b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 24/29] fix: verify fails on an item file with an empty line

---
 ABXpy/verify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index c8dde3f..4e37c13 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -47,6 +47,8 @@ def check(item_file, features_file, verbose=0):
         group = h5f['features']
         files = group['items' if 'items' in group else 'files'][:]
         for line in f:
+            if not line.strip():
+                continue
             source = str.split(line)[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
-- 
2.43.0


From 9360595fae62d3871dd1795194e2ca67f1cebe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 25/29] fix: crash when a generic filter also uses a 'by'
 column

---
 ABXpy/sideop/filter_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ABXpy/sideop/filter_manager.py b/ABXpy/sideop/filter_manager.py
index 8151402..6e29863 100644
--- a/ABXpy/sideop/filter_manager.py
+++ b/ABXpy/sideop/filter_manager.py
@@ -46,6 +46,7 @@ class FilterManager(side_operations_manager.SideOperationsManager):
             db_variables['generic'] = set(elements)
             self.generic.append(db_fun)
             self.generic_context['generic'].update(db_variables['generic'])
+            self.by_context['generic'].update(db_variables['by'])
             elements = {}
         return elements, db_variables
 
-- 
2.43.0


From 9526fc22a981cb993ffbf16558fdef42381fe08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:35 +0000
Subject: [PATCH 26/29] fix: the largest 64 bits integers are refused by
 fit_integer_type

A numpy integer is converted to a float when compared with 2 ** 63.
---
 ABXpy/misc/type_fitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/misc/type_fitting.py b/ABXpy/misc/type_fitting.py
index 44d50c5..6bf4eb4 100644
--- a/ABXpy/misc/type_fitting.py
+++ b/ABXpy/misc/type_fitting.py
@@ -4,6 +4,8 @@ import numpy as np
 def fit_integer_type(n, is_signed=True):
     """Returns the minimal space needed to store integers of maximal value n"""
 
+    # comparing numpy integers to 2 ** 63 converts them to floats
+    n = int(n)
     if is_signed:
         m = 1
         types = [np.int8, np.int16, np.int32, np.int64]
-- 
2.43.0


From 73e92146964ecb79c9b099167258125354bda2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 27/29] fix: js_divergence and hellinger_distance return a
 scalar for single frames

np.float64 collapses an array with a single element, dtw then fails.
---
 ABXpy/distances/metrics/kullback_leibler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index 79120a6..24aa01f 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -80,7 +80,7 @@ def js_divergence(x, y, normalize=True):
         y * np.log(y), axis=1).reshape(y.shape[0], 1),
                   (1, x.shape[0])).transpose()
     res = 0.5 * (x_x - x_m) + 0.5 * (y_y - y_m)
-    return np.float64(res)
+    return np.float64(res).reshape(res.shape)
     # division by zero
 
 
@@ -108,7 +108,7 @@ def hellinger_distance(x, y):
     yy = np.tile(y, (x.shape[0], 1, 1))
     xx_yy = xx - yy
     res = np.sqrt(np.sum(xx_yy ** 2, axis=-1))
-    return np.float64((1. / np.sqrt(2)) * res)
+    return np.float64((1. / np.sqrt(2)) * res).reshape(res.shape)
 
 
 def is_distance(x, y):
-- 
2.43.0


From 5ff3f0dfaf2547e505f970e322ac80f62dcfb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 28/29] fix: utw misses frame boundaries because of rounding
 errors

---
 ABXpy/distances/metrics/utw.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/metrics/utw.py b/ABXpy/distances/metrics/utw.py
index 4cdbe1f..bf57414 100644
--- a/ABXpy/distances/metrics/utw.py
+++ b/ABXpy/distances/metrics/utw.py
@@ -38,10 +38,11 @@ def utw(x, y, div):
 def distance_coordinates(n1, n2):
     assert(n1 <= n2)
     l1 = np.arange(n2)
-    l2 = n1/np.float(n2)*(np.arange(n2)+0.5)
-    l3 = np.floor(l2).astype(np.int)
-    integers = np.where(l2 == l3)[0]
-    non_integers = np.where(l2 != l3)[0]
+    # positions n1/n2*(l1+0.5), as exact multiples of 1/(2*n2)
+    l2 = n1*(2*np.arange(n2)+1)
+    l3 = l2 // (2*n2)
+    integers = np.where(l2 == 2*n2*l3)[0]
+    non_integers = np.where(l2 != 2*n2*l3)[0]
     l3i = l3[integers]
     l1i = l1[integers]
     i_half = np.concatenate([l3i-1, l3i])
-- 
2.43.0


From 295b6f0a2d899b0270964a7352719060a09c1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:19 +0000
Subject: [PATCH 29/29] fix: a buffer smaller than one row makes buffered HDF5
 writing hang

---
 ABXpy/h5tools/h52np.py | 4 ++--
 ABXpy/h5tools/np2h5.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ABXpy/h5tools/h52np.py b/ABXpy/h5tools/h52np.py
index 34fda70..b399357 100644
--- a/ABXpy/h5tools/h52np.py
+++ b/ABXpy/h5tools/h52np.py
@@ -105,7 +105,7 @@ class H52NPbuffer(object):
         # initialize buffer
         row_size = self.n_columns * self.type.itemsize / \
             1000.  # entry size in kilobytes
-        self.buf_len = int(round(buf_size / row_size))
+        self.buf_len = max(1, int(round(buf_size / row_size)))
         # buf_ix represents the number of free rows in the buffer. Here the
         # buffer is empty
         self.buf_ix = self.buf_len
@@ -243,7 +243,7 @@ class H5dataset2NPbuffer(H52NPbuffer):
         # initialize buffer
         row_size = self.n_columns * self.type.itemsize / \
             1000.  # entry size in kilobytes
-        self.buf_len = int(round(buf_size / row_size))
+        self.buf_len = max(1, int(round(buf_size / row_size)))
         # buf_ix represents the number of free rows in the buffer. Here the
         # buffer is empty
         self.buf_ix = self.buf_len
diff --git a/ABXpy/h5tools/np2h5.py b/ABXpy/h5tools/np2h5.py
index 9cf6fda..2f36da7 100644
--- a/ABXpy/h5tools/np2h5.py
+++ b/ABXpy/h5tools/np2h5.py
@@ -215,4 +215,5 @@ class NP2H5buffer(object):
 
 # item_size given in bytes, size_in_mem given in kilobytes
 def nb_lines(item_size, n_columns, size_in_mem):
-    return int(round(size_in_mem * 1000. / (item_size * n_columns)))
+    # at least one line, even if it does not fit in memory as asked
+    return max(1, int(round(size_in_mem * 1000. / (item_size * n_columns))))
-- 
2.43.0

