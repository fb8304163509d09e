From e2dd506afd66af5ba096dd4fe53e4efb3b5f0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 001/219] fix: SCPList takes range_spec given as a list instead
 of copying the offsets

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..49e3348 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
-- 
2.43.0


From aaee73c6193f15b58a624f9ebd2809414e0f6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 002/219] fix: SCPList.load of an empty list

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 49e3348..8bd2aa5 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -194,7 +194,7 @@ class SCPList(object):
         file_offset = [f[0].split(sep=offset_sep, maxsplit=1) for f in file_range]
         file_path = [f[0] for f in file_offset]
         
-        if len(file_offset[0]) == 2:
+        if len(file_offset) > 0 and len(file_offset[0]) == 2:
             offset = [int(f[1]) if len(f)==2 else -1 for f in file_offset]
             if -1 in offset:
                 raise ValueError('Missing data position for %s' % f[0])
-- 
2.43.0


From b2a53624ec5af7150b23fec65c24e3ec60c196dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 003/219] fix: SCPList.merge keeps the ranges when some of the
 lists have none

---
 hyperion/utils/scp_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 8bd2aa5..6dab5ac 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -293,9 +293,12 @@ class SCPList(object):
         else:
             offset = np.concatenate(tuple(offset_list))
 
-        if range_list[0] is None:
+        if all(r is None for r in range_list):
             range_spec = None
         else:
+            range_list = [np.zeros((len(item.key), 2), dtype=np.int64)
+                          if r is None else r
+                          for item, r in zip(scp_lists, range_list)]
             range_spec = np.concatenate(tuple(range_list))
 
         return cls(key, file_path, offset, range_spec)
-- 
2.43.0


From 04634711d5cc7ecfdf344164ae7174b76656b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 004/219] fix: split_list_group_by_key of an empty list

---
 hyperion/utils/list_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/list_utils.py b/hyperion/utils/list_utils.py
index 9a5306e..b080c5d 100644
--- a/hyperion/utils/list_utils.py
+++ b/hyperion/utils/list_utils.py
@@ -140,7 +140,7 @@ def split_list_group_by_key(a, idx, num_parts, key = None):
     if key is None:
         key = a
     _, ids=np.unique(key, return_inverse=True)
-    n = float(ids.max()+1)
+    n = float(ids.max()+1) if len(ids) > 0 else 0.
     idx_1 = int(np.floor((idx-1)*n/num_parts))
     idx_2 = int(np.floor(idx*n/num_parts))
     loc = np.empty(len(a), dtype='int64')
-- 
2.43.0


From 80ad374f60823ed2a5b643566079fcb328650e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 005/219] fix: Utt2Info.info returns the value columns when
 there are several

---
 hyperion/utils/utt2info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 4bd1adc..db38007 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -70,7 +70,7 @@ class Utt2Info(object):
     @property
     def info(self):
         if self.utt_info.shape[1] > 2:
-            return np.asarray(self.utt_info[1:])
+            return np.asarray(self.utt_info.iloc[:, 1:])
         else:
             return np.asarray(self.utt_info[1])
 
-- 
2.43.0


From 36c3d03da06d7ce1256f29b1b090644fffa6fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 006/219] fix: Utt2Info.load keeps keys and values that spell
 like missing data (NA, null, nan)

---
 hyperion/utils/utt2info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index db38007..36d69ed 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -175,7 +175,8 @@ class Utt2Info(object):
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype)
+        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype,
+                         keep_default_na=False)
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From b7b6ae3b1e12a55f43b059938342ffb96609b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 007/219] fix: TrialKey.sort indexes the conditions by their
 model and segment axes

---
 hyperion/utils/trial_key.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..16ea4ee 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[(slice(None),) + ix]
         
         
     def save(self, file_path):
-- 
2.43.0


From 002015ff107c7243df47815aa9f1becc11fa945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 008/219] fix: TrialKey.filter and split of keys with trial
 conditions

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 16ea4ee..2e8ad15 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -363,7 +363,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +403,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
-- 
2.43.0


From d83b34cc3319288bb8ed14ab881339e500ed7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 009/219] fix: TrialKey.merge keeps segment and trial
 conditions

---
 hyperion/utils/trial_key.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 2e8ad15..3b2e40f 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[(slice(None),) + ix_a] = trial_cond[(slice(None),) + ix_b]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,11 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[(slice(None),) + ix_a] = key_i.trial_cond[(slice(None),) + ix_b]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +317,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
-- 
2.43.0


From 71dca80677aa95911f3934a6c7b1ca72386c0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 010/219] fix: equality of trial keys with trial conditions

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 3b2e40f..002df25 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -474,7 +474,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +488,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From 7f65600ca022b9ffaf558670ae537e11bcbc89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 011/219] fix: cohort trial lists of parse_eval_set take the
 test segments from the keys of the table

---
 hyperion/utils/trial_ndx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..9deacb8 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From 60151ee9e92fc10717315d9f63e718a72cb201e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 012/219] fix: TrialScores.filter removes segments from the
 segment set

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..60fc267 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -247,7 +247,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
-- 
2.43.0


From 5a54bffdeb0391841778b29a11dd3840418bbcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 013/219] fix: TrialScores.merge ignores the values of trials
 without score

---
 hyperion/utils/trial_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 60fc267..3423c87 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -204,7 +204,7 @@ class TrialScores(object):
             ix_a = np.ix_(mi_a, si_a)
             ix_b = np.ix_(mi_b, si_b)
             scores_1 = np.zeros(shape)
-            scores_1[ix_a] = scores[ix_b]
+            scores_1[ix_a] = scores[ix_b]*score_mask[ix_b]
             score_mask_1 = np.zeros(shape, dtype='bool')
             score_mask_1[ix_a] = score_mask[ix_b]
             
@@ -217,7 +217,7 @@ class TrialScores(object):
             ix_a = np.ix_(mi_a, si_a)
             ix_b = np.ix_(mi_b, si_b)
             scores_2= np.zeros(shape)
-            scores_2[ix_a] = scr_i.scores[ix_b]
+            scores_2[ix_a] = scr_i.scores[ix_b]*scr_i.score_mask[ix_b]
             score_mask_2 = np.zeros(shape, dtype='bool')
             score_mask_2[ix_a] = scr_i.score_mask[ix_b]
 
-- 
2.43.0


From d8ee9adee06b72b1dad1ae8830b91939ed676714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 014/219] fix: length of a FoldList

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..bb2c4a4 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return self.num_folds
 
 
     @property
-- 
2.43.0


From 40b1b9770cc42e550a9aff00f2883d8dd6fa029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 015/219] fix: FoldList.create and TrainValEvalList.create take
 lists of keys, as documented

---
 hyperion/utils/fold_list.py           | 4 +++-
 hyperion/utils/train_val_eval_list.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index bb2c4a4..7effaa1 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -195,9 +195,11 @@ class FoldList(object):
         """
         if shuffle:
             rng = np.random.RandomState(seed=seed)
-        
+
+        segment_key = list2ndarray(segment_key)
         if group_by_key is None:
             group_by_key = segment_key
+        group_by_key = list2ndarray(group_by_key)
 
         if balance_by_key is None:
             balance_by_key = np.zeros((len(segment_key),), dtype=int)
diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..6a2c26b 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -228,9 +228,11 @@ class TrainValEvalList(object):
                 
         if shuffle:
             rng = np.random.RandomState(seed=seed)
-        
+
+        segment_key = list2ndarray(segment_key)
         if group_by_key is None:
             group_by_key = segment_key
+        group_by_key = list2ndarray(group_by_key)
 
         if balance_by_key is None:
             balance_by_key = np.zeros((len(segment_key),), dtype=int)
-- 
2.43.0


From 98548f5d14d4483a954944a5cd7f67e7355e4c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 016/219] fix: folds and parts when the mask removes a whole
 class

---
 hyperion/utils/fold_list.py           | 2 ++
 hyperion/utils/train_val_eval_list.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 7effaa1..3da4bf9 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -215,6 +215,8 @@ class FoldList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 6a2c26b..b435d81 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -248,6 +248,8 @@ class TrainValEvalList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
-- 
2.43.0


From 23b242edf512191c31927c323587deefdaab2651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 017/219] fix: elements that are in no fold are not training
 elements after a FoldList is loaded

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 3da4bf9..cc88a8d 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -103,7 +103,7 @@ class FoldList(object):
           test_idx: Indices of the elements used for test
         """
         test_idx = self.fold == fold
-        train_idx = np.logical_not(test_idx)
+        train_idx = np.logical_and(self.fold != fold, self.fold >= 0)
         if self.mask is not None:
             train_idx = np.logical_and(train_idx, self.mask)
             test_idx = np.logical_and(test_idx, self.mask)
-- 
2.43.0


From 98cc0958206dae9496de8b9f69a44cea6f7edf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 018/219] fix: TrainValEvalList.get_part returns the keys of
 the part

---
 hyperion/utils/train_val_eval_list.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index b435d81..54a821b 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -106,8 +106,7 @@ class TrainValEvalList(object):
           part: Part number or name to return
 
         Returns:
-          train_idx: Indices of the elements used for training
-          test_idx: Indices of the elements used for test
+          Boolean indices of the elements in the part
         """
         if isinstance(part, string_types):
              self._make_part2num()
@@ -127,12 +126,10 @@ class TrainValEvalList(object):
           part: Part number to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements in the part
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        return self.key[self.get_part_idx(part)]
 
 
     
@@ -143,8 +140,7 @@ class TrainValEvalList(object):
           part: Part number to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements in the part
         """
 
         return self.get_part(part)
-- 
2.43.0


From 5c5ab81b21a529145c03018cdce8503393295601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 019/219] fix: TrainValEvalList.save and load with names of the
 parts

---
 hyperion/utils/train_val_eval_list.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 54a821b..8c1538e 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -159,7 +159,8 @@ class TrainValEvalList(object):
                 if self.part_names is None:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    part_name = self.part_names[p] if p >= 0 else 'none'
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,part_name))
 
 
                     
@@ -182,9 +183,9 @@ class TrainValEvalList(object):
         if len(fields[0]) == 2:
             part_names = None
         else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
-            _, part_idx = np.unique(part, return_index=True)
-            part_names = part_names[part_idx]
+            part_names = np.asarray([f[2] for f in fields])
+            part_num, part_idx = np.unique(part, return_index=True)
+            part_names = part_names[part_idx[part_num>=0]]
             
         return cls(key, part, part_names=part_names)
 
-- 
2.43.0


From 42a5822cd0194767e82bc7429a990ac95c69aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 020/219] fix: FoldList.save

---
 hyperion/utils/fold_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index cc88a8d..9488147 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for fold,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (fold,sep,k))
 
 
     @classmethod
-- 
2.43.0


From c6e04cb36689288daeae9df061688753d6bb2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 021/219] fix: data writers write to the current directory

---
 hyperion/io/data_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..3fb4ea6 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,12 +37,12 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
+        if archive_dir != '' and not os.path.exists(archive_dir):
             os.makedirs(archive_dir)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
+            if script_dir != '' and not os.path.exists(script_dir):
                 os.makedirs(script_dir)
             
 
-- 
2.43.0


From bf0b4c5e28fc2c8e812a50b207b2f96f44ad1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 022/219] fix: RSpecifier finds the archive type of scripts
 with any separator and of empty scripts

---
 hyperion/io/rw_specifiers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..8cf1c54 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -9,6 +9,7 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import re
 from enum import Enum
 
 class ArchiveType(Enum):
@@ -338,11 +339,12 @@ class RSpecifier(object):
             
             if spec_type == RSpecType.SCRIPT:
                 with open(archive, 'r') as f:
-                    scp = f.readline().strip().split(' ')[1].split('[')[0].split(':')
-                    if len(scp) == 1:
-                        archive_type = ArchiveType.H5
-                    else:
+                    # only ark scripts have the position in the archive, as in
+                    # key file.ark:34 or key file.ark:34[3:40]
+                    if re.search(r':[0-9]+(\[[^\]]*\])?$', f.readline().strip()):
                         archive_type = ArchiveType.ARK
+                    else:
+                        archive_type = ArchiveType.H5
                 
             if archive_type == ArchiveType.ARK:
                 for option in options:
-- 
2.43.0


From 97affd24042d53f2a936369e4174364a639bcd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 023/219] fix: rows read from scripts with ranges stay inside
 of the range

---
 hyperion/io/data_reader.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..655e308 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -124,14 +124,15 @@ class DataReader(object):
         if read_range is None:
             return row_offset, num_rows
 
-        row_offset = row_offset + read_range[0]
-            
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
+        if read_range[1] > 0:
+            rows_left = read_range[1] - row_offset
+            assert rows_left > 0 and rows_left >= num_rows, (
+                'requested rows [%d:+%d] are outside of the range [%d:+%d]' % (
+                    row_offset, num_rows, read_range[0], read_range[1]))
+            if num_rows == 0:
+                num_rows = rows_left
 
+        row_offset = row_offset + read_range[0]
         return row_offset, num_rows
 
 
-- 
2.43.0


From 181eee323dde60cf66e2dce2f0f5794dc014899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 024/219] fix: shapes of ranges that begin after the last row
 are rejected

---
 hyperion/io/data_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index 655e308..e83cf85 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -154,6 +154,7 @@ class DataReader(object):
         """
         if row_offset > 0 or num_rows > 0:
             shape = list(shape)
+            assert shape[0] >= row_offset
             shape[0] -= row_offset
             if num_rows > 0:
                 assert shape[0] >= num_rows
-- 
2.43.0


From 4925214248281b25fd070e4a22cd34c950ffb8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 025/219] fix: SequentialArkFileDataReader.read with lists of
 rows

---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..f91087b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -234,8 +234,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From 56a516d0f8d32fbc90c14f50b11fee853c275fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 026/219] fix: SequentialArkFileDataReader.eof is true when no
 record remains

---
 hyperion/io/ark_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index f91087b..3741c60 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -157,7 +157,7 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
             
     def eof(self):
         """Returns True when it reaches the end of the ark file."""
-        return self._eof or self.f is None
+        return self._eof or self.f is None or len(self.f.peek(1)) == 0
 
     
 
-- 
2.43.0


From 20738d48b8f80af599f512a5efe3691ea72424e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 027/219] fix: SequentialArkScriptDataReader reads records at
 the beginning of the file again

---
 hyperion/io/ark_data_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3741c60..305bd71 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -73,8 +73,7 @@ class SequentialArkDataReader(SequentialDataReader):
             self.cur_file = file_path
             self.f = open(file_path, 'rb')
 
-        if offset > 0:
-            self._seek(offset)
+        self._seek(offset)
         
 
             
-- 
2.43.0


From 8b65234ab5b1dc55f1072616dcce52082d9a5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 028/219] fix: reading shapes when no record remains

---
 hyperion/io/ark_data_reader.py | 6 +++---
 hyperion/io/h5_data_reader.py  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 305bd71..75033ba 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -346,7 +346,7 @@ class SequentialArkScriptDataReader(SequentialArkDataReader):
             shapes.append(shape_i)
             self.cur_item += 1
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=int)
             assert np.all(dims == dims[0])
             
@@ -517,7 +517,7 @@ class RandomAccessArkDataReader(RandomAccessDataReader):
         """
         shapes = self.read_shapes(keys, False)
         dims = np.array([s[-1] for s in shapes], dtype=np.int)
-        if assert_same_dim:
+        if assert_same_dim and len(dims)>0:
             assert np.all(dims==dims[0])
         return dims
 
@@ -564,7 +564,7 @@ class RandomAccessArkDataReader(RandomAccessDataReader):
             
             shapes.append(shape_i)
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int)
             assert np.all(dims == dims[0])
             
diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 33f4936..83dae3a 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -356,7 +356,7 @@ class SequentialH5ScriptDataReader(SequentialH5DataReader):
             shapes.append(shape_i)
             self.cur_item += 1
             
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
@@ -471,7 +471,7 @@ class RandomAccessH5DataReader(RandomAccessDataReader):
         """
         shapes = self.read_shapes(keys, False)
         dims = np.array([s[-1] for s in shapes], dtype=np.int32)
-        if assert_same_dim:
+        if assert_same_dim and len(dims)>0:
             assert np.all(dims==dims[0])
         return dims
 
@@ -539,7 +539,7 @@ class RandomAccessH5FileDataReader(RandomAccessH5DataReader):
             shape_i = self.f[key].shape
             shapes.append(shape_i)
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
@@ -708,7 +708,7 @@ class RandomAccessH5ScriptDataReader(RandomAccessH5DataReader):
             
             shapes.append(shape_i)
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From d51f380d045c4feb30f98de6b5856ffa1679c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 029/219] fix: squeeze of no records and of records after a
 missing one

---
 hyperion/io/data_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index e83cf85..ecccd96 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -81,8 +81,13 @@ class DataReader(object):
           2D or 3D numpy array.
         """
 
-        ndim = data[0].ndim
-        shape = data[0].shape
+        if len(data) == 0:
+            return np.array([], dtype=float_cpu())
+
+        # empty matrices do not tell the shape
+        nonempty = [d for d in data if len(d) > 0] or data
+        ndim = nonempty[0].ndim
+        shape = nonempty[0].shape
         for i in xrange(len(data)):
             if len(data[i]) == 0:
                 if permissive:
-- 
2.43.0


From 6c5204a00493c8832ce54945e8dbdfa6f7060dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 030/219] fix: ArkDataWriter does not leave the key of data
 that it cannot convert in the archive

---
 hyperion/io/ark_data_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/ark_data_writer.py b/hyperion/io/ark_data_writer.py
index 7ec4cd5..68837bf 100644
--- a/hyperion/io/ark_data_writer.py
+++ b/hyperion/io/ark_data_writer.py
@@ -123,10 +123,10 @@ class ArkDataWriter(DataWriter):
             
         for i, key_i in enumerate(keys):
             assert is_token(key_i), 'Token %s not valid' % key_i
+            data_i = self._convert_data(data[i])
             write_token(self.f, self.binary, key_i)
 
             pos = self.f.tell()
-            data_i = self._convert_data(data[i])
         
             init_kaldi_output_stream(self.f, self.binary)
             data_i.write(self.f, self.binary)
-- 
2.43.0


From 65ade78102bf2a2374f9e21bc2a88ee172b3f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 031/219] fix: rows of a vector beyond the first are rejected
 instead of read from the next record

---
 hyperion/utils/kaldi_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 04f20b9..133067d 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -99,6 +99,8 @@ class KaldiMatrix(object):
                     rows_left = total_rows - num_rows
                     
             else:
+                assert row_offset == 0 and num_rows <= 1, (
+                    'requested rows are outside of the vector')
                 num_rows = 1
             num_cols = read_int32(f, binary)
             
-- 
2.43.0


From f1d08104008833a05e8997c4e38d1e4e68538a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 032/219] fix: SegmentList.create

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 6819738..c9868a8 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -43,7 +43,7 @@ class SegmentList(object):
         
     @classmethod
     def create(cls, segment_id, file_id, tbeg, tend, index_by_file=True):
-        segments = pd.Dataframe({'segment_id': segment_id,
+        segments = pd.DataFrame({'segment_id': segment_id,
                                  'file_id': file_id,
                                  'tbeg': tbeg,
                                  'tend': tend})
-- 
2.43.0


From 666a7f27d0bfcdda69ad0d1910c856c0a0d607d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 033/219] fix: SegmentList does not reindex the table it is
 built from

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index c9868a8..a066afa 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -29,7 +29,7 @@ class SegmentList(object):
     """
 
     def __init__(self, segments, index_by_file=True):
-        self.segments = segments
+        self.segments = segments.copy()
         self._index_by_file = index_by_file
         if index_by_file:
             self.segments.index = self.segments.file_id
-- 
2.43.0


From 535eaaae48e4cc6bec6de4efa76969a5f2dc01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 034/219] fix: segments of a file that has only one segment

---
 hyperion/utils/segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index a066afa..b32832c 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -110,7 +110,7 @@ class SegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_by_file:
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
         
@@ -163,7 +163,7 @@ class SegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return SegmentList(df, index_by_file=False)
         else:
             return self.segments.loc[key]
-- 
2.43.0


From 9b81f2c0aa8902791f88f93407d68b2eb8d366af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 035/219] fix: segments of a file by its position

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index b32832c..2976762 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -184,7 +184,7 @@ class SegmentList(object):
         """
         if self.index_by_file:
             if index < len(self.uniq_file_id):
-                return self.getitem_by_key(self.uniq_file_id[self.iter_idx])
+                return self.getitem_by_key(self.uniq_file_id[index])
             else:
                 raise Exception('SegmentList error index>=num_files (%d,%d)' % (index,len(self.uniq_file_id)))
         else:
-- 
2.43.0


From 9f7fee4315d5c9ceeefa2b729367dcea1f312f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 036/219] fix: SegmentList.to_bin_vad

---
 hyperion/utils/segment_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 2976762..4d2bf82 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -297,15 +297,15 @@ class SegmentList(object):
 
         if num_frames is None:
             if self.index_by_file:
-                num_frames=tend[-1]
+                num_frames = np.max(tend)
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/self.frame_shift))
+                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/frame_shift))
                 
         tend = np.minimum(num_frames-1, tend)                
         vad = np.zeros((num_frames,), dtype=int)
-        for j in xrange(len(tbeg)):
+        for j in range(len(tbeg)):
             vad[tbeg[j]:tend[j]+1] = 1
 
         return vad
-- 
2.43.0


From feb03c012a897bec6889a5064dd7506bd431b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 037/219] fix: ids of loaded segments are kept as they are in
 the file

---
 hyperion/utils/segment_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 4d2bf82..2288748 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -244,7 +244,9 @@ class SegmentList(object):
           SegmentList object.
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
-                         names=['segment_id','file_id','tbeg','tend'])
+                         names=['segment_id','file_id','tbeg','tend'],
+                         dtype={'segment_id': str, 'file_id': str},
+                         na_filter=False)
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 8eb1b901c155d45b5c6fe97a57219b51fb86682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 038/219] fix: creating an ExtSegmentList

---
 hyperion/utils/ext_segment_list.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 0e0a19e..319c8d8 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -71,18 +71,18 @@ class ExtSegmentList(object):
                                  'ext_segment_id': ext_segment_id})
         
         if series_id is None:
-            u_file_id = self.segments['file_id'].unique()
+            u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
-        if isinstance(name, string_types):
-            ext_segment_id = segments['ext_segment_id'].unique()
-        elif isinstance(name, dict):
+        if isinstance(name, dict):
             ext_segment_id = [k for k,v in name.items()]
             name = [v for k,v in name.items()]
+        elif np.ndim(name) == 0:
+            ext_segment_id = segments['ext_segment_id'].unique()
 
         if isinstance(score, dict):
             score = [score[k] for k in ext_segment_id]
@@ -103,7 +103,7 @@ class ExtSegmentList(object):
             ext_segment_id = segments['segment_id'])
         ext_segment_id = segments.ext_segment_id.unique()
 
-        if not np.isnan(name):
+        if isinstance(name, dict):
             name = [name[k] for k in segments['ext_segment_id'].values]
         ext_segments = pd.DataFrame(
                 {'ext_segment_id': segments['ext_segment_id'].values,
@@ -113,8 +113,8 @@ class ExtSegmentList(object):
             u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
         return cls(segments, ext_segments, files, index_column)
-- 
2.43.0


From 493694d53b6c0339a54d5f2ea48cc20316b64859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 039/219] fix: ExtSegmentList does not reindex the tables it is
 built from

---
 hyperion/utils/ext_segment_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 319c8d8..9b071a6 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -33,7 +33,7 @@ class ExtSegmentList(object):
     """
 
     def __init__(self, segments, ext_segments=None, files=None, index_column='file_id'):
-        self.segments = segments
+        self.segments = segments.copy()
         if files is None:
             file_id = self.segments['file_id'].unique()
             files = pd.DataFrame({'file_id': file_id, 'series_id': file_id})
@@ -47,8 +47,8 @@ class ExtSegmentList(object):
                 {'ext_segment_id': ext_segment_id,
                  'name': np.nan, 'score': np.nan})
 
-        self.files = files
-        self.ext_segments = ext_segments
+        self.files = files.copy()
+        self.ext_segments = ext_segments.copy()
         self.index_column = index_column
         self.validate()
         self._uniq_series_id = None
-- 
2.43.0


From 711cc3d4fbf7e4ddb53a3367d90797f320aba1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 040/219] fix: names, scores and ids of an ExtSegmentList

---
 hyperion/utils/ext_segment_list.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 9b071a6..5b75757 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -182,8 +182,7 @@ class ExtSegmentList(object):
 
     @property
     def segment_names(self):
-        return np.asarray(pd.merge(self.segments, self.ext_segments,
-                                   on='ext_segment_id', how='inner')['name'])
+        return np.asarray(self.ext_segments.loc[self.ext_segment_id, 'name'])
 
     
     @property
@@ -195,8 +194,7 @@ class ExtSegmentList(object):
     
     @property
     def segment_score(self):
-        return np.asarray(pd.merge(self.segments, self.ext_segments,
-                                   on='ext_segment_id', how='inner')['score'])
+        return np.asarray(self.ext_segments.loc[self.ext_segment_id, 'score'])
 
     
     
@@ -214,7 +212,7 @@ class ExtSegmentList(object):
     
     @property
     def uniq_file_id(self):
-        return np.asarry(self.files['file_id'])
+        return np.asarray(self.files['file_id'])
         # if self._uniq_file_id is None:
         #     self._uniq_file_id = np.asarray(self.segments['file_id'].unique())
             
@@ -225,7 +223,7 @@ class ExtSegmentList(object):
     @property
     def uniq_series_id(self):
         if self._uniq_series_id is None:
-            self._uniq_series_id = np.asarray(self.ext_segments['series_id'].unique())
+            self._uniq_series_id = np.asarray(self.files['series_id'].unique())
             
         return self._uniq_series_id
 
-- 
2.43.0


From 41ae5c63cf96014733128e2d779374171904ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 041/219] fix: lookups and iteration of ExtSegmentList

---
 hyperion/utils/ext_segment_list.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 5b75757..ea14769 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -254,7 +254,7 @@ class ExtSegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_column == 'file_id':
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
 
@@ -263,7 +263,7 @@ class ExtSegmentList(object):
         """Returns ext_segments_ids corresponding to a given file_id
         """
         if self.index_column == 'file_id':
-            return np.unique(np.asarray(self.segments.loc[file_id]['ext_segment_id']))
+            return np.unique(np.asarray(self.segments.loc[[file_id]]['ext_segment_id']))
         index = self.segments['file_id']==file_id
         return np.unique(np.asarray(self.segments.loc[index]['ext_segment_id']))
 
@@ -288,12 +288,12 @@ class ExtSegmentList(object):
                 raise StopIteration()
         elif self.index_column == 'ext_segment_id':
             if self.iter_idx < len(self.ext_segments):
-                r = self.__getitem__(self.ext_segment['ext_segment_id'].iloc[self.iter_idx])
+                r = self.__getitem__(self.ext_segments['ext_segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
         else:
             if self.iter_idx < len(self.segments):
-                r = self.__getitem__(self.segments['segment_id'].iloc(self.iter_idx))
+                r = self.__getitem__(self.segments['segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
 
@@ -328,8 +328,9 @@ class ExtSegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_column == 'segment_id':
-            return pd.merge(self.segments.loc[key], self.ext_segments,
-                            sort=False, how='inner')
+            return pd.merge(self.segments.loc[[key]].reset_index(drop=True),
+                            self.ext_segments.reset_index(drop=True),
+                            on='ext_segment_id', sort=False, how='inner')
         else:
             return self.filter([key])
             
-- 
2.43.0


From 117271f1cbcba8336a99cd5efb588c4d6514e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 042/219] fix: filtering and splitting an ExtSegmentList

---
 hyperion/utils/ext_segment_list.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index ea14769..cd53a22 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -389,19 +389,21 @@ class ExtSegmentList(object):
                 filter_key = np.setdiff1d(
                     np.asarray(self.files.index), filter_key)
             files = self.files.loc[filter_key]
-            segments = pd.merge(self.segments, files, on='file_id', how='inner')[
-                ['segment_id', 'file_id', 'tbeg','tend','ext_segment_id']]
+            segments = self.segments[
+                self.segments['file_id'].isin(files['file_id'])]
         else:
             if not keep:
                 filter_key = np.setdiff1d(
                     np.asarray(self.segments.index), filter_key)
-            segments = self.segments.loc[filter_key]
-            files = pd.merge(self.files, segments, on='file_id', how='inner')[
-                ['file_id', 'series_id']]
+            index = self.segments.index.get_indexer_for(filter_key)
+            if np.any(index < 0):
+                raise KeyError('ExtSegmentList: unknown keys in %s' % (filter_key))
+            segments = self.segments.iloc[np.unique(index)]
+            files = self.files[
+                self.files['file_id'].isin(segments['file_id'])]
             
-        ext_segments = pd.merge(self.ext_segments, segments,
-                                on='ext_segment_id', how='inner')[
-                                    ['ext_segment_id','name']]
+        ext_segments = self.ext_segments[
+            self.ext_segments['ext_segment_id'].isin(segments['ext_segment_id'])]
 
         return ExtSegmentList(segments, ext_segments, files, self.index_column)
 
@@ -415,7 +417,7 @@ class ExtSegmentList(object):
         elif self.index_column == 'segment_id':
             key, _ = split_list(self.segment_id, idx, num_parts)
         elif self.index_column == 'ext_segment_id':
-            key, _ = split_list(self.uniq_ext_segment_id, idx, num_parts)
+            key, _ = split_list(self.uniq_segment_id, idx, num_parts)
 
         return self.filter(key)
 
-- 
2.43.0


From 560af10a4e36178f4e7ef2f34828bc34e59b94ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 043/219] fix: merging and comparing ExtSegmentLists

---
 hyperion/utils/ext_segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index cd53a22..3d7be5d 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -431,7 +431,7 @@ class ExtSegmentList(object):
         for sl in segment_lists:
             segments.append(sl.segments)
             files.append(sl.files)
-            ext_segments.append(ext_segments)
+            ext_segments.append(sl.ext_segments)
             
         segments = pd.concat(segments).drop_duplicates()
         files = pd.concat(files).drop_duplicates()
@@ -444,7 +444,7 @@ class ExtSegmentList(object):
     def __eq__(self, other):
         """Equal operator"""
         eq = self.segments.equals(other.segments)
-        eq = eq and self.index_by_file == other.index_by_file
+        eq = eq and self.index_column == other.index_column
             
         return eq
 
-- 
2.43.0


From 8cc21011f2348a51ba749a93a8448e38c21a6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 044/219] fix: ExtSegmentList.merge_adjacent_segments

---
 hyperion/utils/ext_segment_list.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 3d7be5d..0496102 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -559,7 +559,8 @@ class ExtSegmentList(object):
         if max_segments == 0:
             max_segments = len(self.segments)
             
-        segm = pd.merge(self.segments, self.ext_segments,
+        segm = pd.merge(self.segments.reset_index(drop=True),
+                        self.ext_segments.reset_index(drop=True),
                         on='ext_segment_id', how='inner')
         segm_1 = segm.shift(1)
 
@@ -626,7 +627,7 @@ class ExtSegmentList(object):
         name = [v for k,v in d.items()]
         self.ext_segments = pd.DataFrame(
             {'ext_segment_id': ext_segment_id,
-             'name': name})
+             'name': name, 'score': np.nan})
         #logging.debug('DICT', d)
         # for k,v in d.items():
         #     logging.debug(k)
@@ -637,7 +638,7 @@ class ExtSegmentList(object):
         # drop_index = (~self.ext_segments.ext_segment_id.isin(self.segments.ext_segment_id))
         # drop_index = self.ext_segments.index[drop_index]
         # self.ext_segments.drop(drop_index, inplace=True)
-        self.ext_segments = self.ext_segments.set_index(self.ext_segments.ext_segment_id, drop=False)
+        self.index_column = self._index_column
         #logging.debug(self.ext_segments)
         # assert len(self.ext_segments.ext_segment_id.unique()) == len(self.ext_segments.ext_segment_id)
         # #logging.debug('E',self.ext_segments)
-- 
2.43.0


From a03f47ae4b851a19aee79c322391a22455e5b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 045/219] fix: ids of loaded extended segments are kept as they
 are in the files

---
 hyperion/utils/ext_segment_list.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 0496102..af3a482 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -365,16 +365,22 @@ class ExtSegmentList(object):
           SegmentList object.
         """
         segments = pd.read_csv(file_path + '.segments', sep=sep, header=None,
-                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'])
+                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'],
+                               dtype={'segment_id': str, 'file_id': str, 'ext_segment_id': str},
+                               na_filter=False)
         if path.isfile(file_path + '.ext_segments'):
             ext_segments = pd.read_csv(file_path + '.ext_segments', sep=sep, header=None,
-                                       names=['ext_segment_id', 'name', 'score'], na_values='NA')
+                                       names=['ext_segment_id', 'name', 'score'],
+                                       dtype={'ext_segment_id': str, 'name': str},
+                                       keep_default_na=False,
+                                       na_values={'name': ['NA'], 'score': ['NA']})
         else:
             ext_segments = None
             
         if path.isfile(file_path + '.files'):
             files = pd.read_csv(file_path + '.files', sep=sep, header=None,
-                                names=['file_id', 'series_id'])
+                                names=['file_id', 'series_id'],
+                                dtype=str, na_filter=False)
         else:
             files = None
             
-- 
2.43.0


From 10274db90cfb38a8a79f969175c16813b1639ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 046/219] fix: merge_adjacent_segments looks at the segments in
 their order

---
 hyperion/utils/ext_segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index af3a482..f73ec02 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -567,7 +567,7 @@ class ExtSegmentList(object):
             
         segm = pd.merge(self.segments.reset_index(drop=True),
                         self.ext_segments.reset_index(drop=True),
-                        on='ext_segment_id', how='inner')
+                        on='ext_segment_id', how='left')
         segm_1 = segm.shift(1)
 
         index = ((segm.file_id == segm_1.file_id) &
-- 
2.43.0


From 12dfefb3968224a57b7b75367041bd68ef4418e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 047/219] fix: index of the marks of an RTTM

---
 hyperion/utils/rttm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3abbdb6..856f36a 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -29,7 +29,7 @@ class RTTM(object):
       unique_file_key: unique file names.
     """
     def __init__(self, segments, index_by_file=True):
-        self.segments = segments
+        self.segments = segments.copy()
         self._index_by_file = index_by_file
         if index_by_file:
             self.segments.index = self.segments.file_id
@@ -151,9 +151,9 @@ class RTTM(object):
     def index_by_file(self, value):
         self._index_by_file = value
         if self._index_by_file:
-            self.segments.index = self.segments.file_key
+            self.segments.index = self.segments.file_id
         else:
-            self.segments.index = self.segments.segment
+            self.segments.index = [i for i in xrange(len(self.segments))]
         
     
             
-- 
2.43.0


From 6de23e2cba8d0ebf75d854c2e27d6928ec0af201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 048/219] fix: looking up the marks of a file

---
 hyperion/utils/rttm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 856f36a..363b30e 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -243,7 +243,7 @@ class RTTM(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.index
 
 
     
@@ -261,7 +261,7 @@ class RTTM(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return RTTM(df, index_by_file=False)
         else:
             return self.segments.iloc[key]
-- 
2.43.0


From 9f6b56457e7ecf5ab471fc34435d1e1fabfdcba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 049/219] fix: dropping marks and splitting an RTTM

---
 hyperion/utils/rttm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 363b30e..0659869 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -304,14 +304,17 @@ class RTTM(object):
     def filter(self, filter_key, keep=True):
         if not keep :
             filter_key = np.setdiff1d(
-                np.asrray(self.segments.index), filter_key)
+                np.asarray(self.segments.index), filter_key)
         df = self.segments.loc[filter_key]
         return RTTM(df, index_by_file=self.index_by_file)
     
 
     
     def split(self, idx, num_parts):
-        key, _ = split_list(self.index, idx, num_parts)
+        if self.index_by_file:
+            key, _ = split_list(self.unique_file_id, idx, num_parts)
+        else:
+            key, _ = split_list(np.asarray(self.segments.index), idx, num_parts)
         df = self.segments.loc[key]
         return RTTM(df, index_by_file=self.index_by_file)
 
-- 
2.43.0


From ec2b9e7a61fb6c93996ed6d46b8cfaeb6d484f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 050/219] fix: saved and loaded RTTMs keep missing fields and
 ids

---
 hyperion/utils/rttm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 0659869..0bd0262 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -279,7 +279,7 @@ class RTTM(object):
                        'tbeg','tdur','ortho', 'stype',
                        'name', 'conf', 'slat']].to_csv(
                            file_path, sep=sep, float_format='%.3f',
-                           index=False, header=False)
+                           index=False, header=False, na_rep='<NA>')
 
 
         
@@ -296,7 +296,9 @@ class RTTM(object):
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
                          names=['segment_type','file_id','chnl','tbeg','tdur',
-                                'ortho','stype','name','conf','slat'])
+                                'ortho','stype','name','conf','slat'],
+                         dtype={'segment_type': str, 'file_id': str, 'name': str},
+                         keep_default_na=False, na_values=['<NA>'])
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From ec0231c36df62b27797858a685d8360c144c5c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 051/219] fix: merging a mark with one inside it does not
 shorten it

---
 hyperion/utils/rttm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 0bd0262..0b2d4b3 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -347,11 +347,13 @@ class RTTM(object):
         for i in xrange(len(self.segments)-1, 0, -1):
             if index.iloc[i]:
                 tbeg = segm.iloc[i-1].tbeg
-                tend = segm.iloc[i].tbeg + segm.iloc[i].tdur
+                tend = max(segm.iloc[i].tbeg + segm.iloc[i].tdur,
+                           tbeg + segm.iloc[i-1].tdur)
                 self.segments.iloc[i-1, self.segments.columns.get_loc('tdur')] = tend - tbeg
                 self.segments.iloc[i, self.segments.columns.get_loc('segment_type')] = 'DROP'
         #logging.debug(self.segments[ix])
         self.segments = self.segments[self.segments.segment_type != 'DROP']
+        self.index_by_file = self._index_by_file
 
         # for i in xrange(len(self.segments)-1, 0, -1):
         #     row_i = self.segments.iloc[i]
-- 
2.43.0


From 0803fbf776196cf789692c19dc0e83993d7a3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 052/219] fix: names of a segment include those of the marks
 inside it

---
 hyperion/utils/rttm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 0b2d4b3..133cd1d 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -405,7 +405,9 @@ class RTTM(object):
                                        ((self.segments['tbeg']<=tbeg) &
                                         (self.segments['tbeg'] + self.segments['tdur'] > tbeg) |
                                         (self.segments['tbeg']<tend) &
-                                        (self.segments['tbeg'] + self.segments['tdur'] >=tend))]
+                                        (self.segments['tbeg'] + self.segments['tdur'] >=tend) |
+                                        (self.segments['tbeg']>=tbeg) &
+                                        (self.segments['tbeg'] + self.segments['tdur'] <=tend))]
             num_segm_i = len(segments_i)
             if num_segm_i == 0:
                 num_names[i] = 0
@@ -435,7 +437,8 @@ class RTTM(object):
                 prev_file_id = file_id
 
             segments_i = segments_f[((tbeg_f<=tbeg) & (tend_f > tbeg)) |
-                                    ((tbeg_f < tend) & (tend_f >=tend))]
+                                    ((tbeg_f < tend) & (tend_f >=tend)) |
+                                    ((tbeg_f >= tbeg) & (tend_f <= tend))]
 
             num_segm_i = len(segments_i)
             if num_segm_i == 0:
-- 
2.43.0


From 52a6ca6d22a7e0b1051ea190974decf70d3b8b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 053/219] fix: RTTM.eliminate_overlaps

---
 hyperion/utils/rttm.py | 51 +++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 133cd1d..b143157 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -467,26 +467,37 @@ class RTTM(object):
 
 
     def eliminate_overlaps(self):
-        segm = self.segments
-        segm_1 = self.segments.shift(1)
-        tend_1 = segm_1.tbeg + segm_1.tdur
-        tbeg = segm.tbeg
-        tend = segm.tbeg + segm.tdur
-        tavg = (tbeg + tend_1)/2
-        index = ((segm.file_id == segm_1.file_id) &
-                 (segm.segment_type == segm_1.segment_type) &
-                 (tbeg < tend_1))
-        # logging.debug(index)
-        # logging.debug(self.segments.loc[index])
-        # logging.debug(self.segments.loc[index])
-        self.segments.loc[index, 'tbeg'] = tavg[index]
-        # logging.debug(self.segments.loc[index])
-        index_1 = index.shift(-1)
-        index_1[index_1.isnull()] = False
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index_1, 'tdur'] = tavg[index] - tbeg[index_1]
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index, 'tdur'] = tend[index] - tavg[index]
+        tbeg = self.tbeg.astype(float)
+        tdur = self.tdur.astype(float)
+        tend = tbeg + tdur
+        new_tbeg = tbeg.copy()
+        new_tend = tend.copy()
+        keep = np.ones((len(tbeg),), dtype=bool)
+        last = {}
+        segment_type = np.asarray(self.segments['segment_type'])
+        for i, key in enumerate(zip(self.file_id, segment_type)):
+            if key in last:
+                j = last[key]
+                if tend[i] <= tend[j]:
+                    # inside of the previous mark
+                    keep[i] = False
+                    continue
+                if tbeg[i] < tend[j]:
+                    tavg = (tbeg[i] + tend[j])/2
+                    new_tend[j] = tavg
+                    new_tbeg[i] = tavg
+            last[key] = i
+
+        moved = (new_tbeg != tbeg) | (new_tend != tend)
+        tdur[moved] = (new_tend - new_tbeg)[moved]
+        self.segments['tbeg'] = new_tbeg
+        self.segments['tdur'] = tdur
+        segments = self.segments[keep]
+        # a cut can move a mark behind others of the file
+        file_id = np.asarray(segments['file_id'])
+        block = np.cumsum(np.append(0, file_id[1:] != file_id[:-1]))[:len(file_id)]
+        self.segments = segments.iloc[np.lexsort((segments['tbeg'], block))].copy()
+        self.index_by_file = self._index_by_file
 
 
 
-- 
2.43.0


From 04293fbd0e8d68a9d54902d1c22a1d1e53e695bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 054/219] fix: RTTM.to_matrix

---
 hyperion/utils/rttm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index b143157..cf7a49a 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -503,19 +503,19 @@ class RTTM(object):
 
     
     def to_matrix(self, file_id, frame_shift=0.001):
-        if self.index_by_file:
-            segments = self.segments[file_id]
-        else:
-            segments = self.segments[self.segments['file_id'] == file_id]
+        segments = self.segments[self.segments['file_id'] == file_id]
 
         u_names, name_ids = np.unique(segments['name'], return_inverse=True)
-        tbeg = np.round(segments['tbeg']/frame_shift).astype(dtype=int)
-        tend = np.round((segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
+        tbeg = np.round(np.asarray(segments['tbeg']/frame_shift)).astype(dtype=int)
+        tend = np.round(np.asarray(
+            (segments['tbeg']+segments['tdur'])/frame_shift)).astype(dtype=int)
 
-        M = np.zeros((tend[-1], len(u_names)), dtype=int)
-        for i in xrange(len(u_names)):
+        M = np.zeros((np.max(tend), len(u_names)), dtype=int)
+        for i in xrange(len(segments)):
             M[tbeg[i]:tend[i], name_ids[i]] = 1
 
+        return M
+
 
             
     def compute_stats(self, nbins_dur=None):
-- 
2.43.0


From fd6355dc27fc6a7e4912a4eadf7cd2885258e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 055/219] fix: default number of bins of RTTM.compute_stats

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index cf7a49a..1fe03b8 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -531,7 +531,7 @@ class RTTM(object):
                              index=['mean','std','median','model','min','max'])
 
         if nbins_dur is None:
-            nbins_dur = np.max(5, np.min(100, len(self.segments)/10))
+            nbins_dur = max(5, min(100, len(self.segments)//10))
         hist_dur = np.histogram(self.segments['tdur'], nbins_dur)
 
         
-- 
2.43.0


From 15a58cdbe5d29e60a8aa400bb1c21c79eadad357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 056/219] fix: segments of different times get different ids in
 RTTM.to_segment_list

---
 hyperion/utils/rttm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 1fe03b8..1926308 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -548,8 +548,10 @@ class RTTM(object):
 
         segments = self.segments[['file_id','tbeg']].copy()
         segments['tend'] = self.segments['tbeg'] + self.segments['tdur']
-        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, tbeg, tdur)
-                                  for file_id, tbeg, tdur in zip(
+        # times in ms, segments of the same second need different ids
+        segments['segment_id'] = ['%s-%07d-%07d' % (
+            file_id, np.round(tbeg*1000), np.round(tend*1000))
+                                  for file_id, tbeg, tend in zip(
                                           segments['file_id'],
                                           segments['tbeg'],
                                           segments['tend'])]
-- 
2.43.0


From ca8d525d2f114744a35e27a4db8f986a08a65979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 057/219] fix: GeneratorQueue.get delivers all the items of a
 generator that ends

---
 hyperion/io/queues.py    | 8 +++++++-
 hyperion/utils/queues.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 11d6c4b..0384879 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -282,10 +282,16 @@ class GeneratorQueue(SequenceQueue):
         # Returns
             A generator
         """
-        while self.is_running():
+        while self._has_more():
             if not self.queue.empty():
                 inputs = self.queue.get()
                 if inputs is not None:
                     yield inputs
             else:
                 time.sleep(self.wait_time)
+
+    def _has_more(self):
+        # when the generator ends, what it gave before is still delivered
+        return self.is_running() or self.queue is not None and (
+            any([thread.is_alive() for thread in self._threads]) or
+            not self.queue.empty())
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 11d6c4b..0384879 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -282,10 +282,16 @@ class GeneratorQueue(SequenceQueue):
         # Returns
             A generator
         """
-        while self.is_running():
+        while self._has_more():
             if not self.queue.empty():
                 inputs = self.queue.get()
                 if inputs is not None:
                     yield inputs
             else:
                 time.sleep(self.wait_time)
+
+    def _has_more(self):
+        # when the generator ends, what it gave before is still delivered
+        return self.is_running() or self.queue is not None and (
+            any([thread.is_alive() for thread in self._threads]) or
+            not self.queue.empty())
-- 
2.43.0


From 0e41052c9ebaa1d26c7b6522155c78dd412f6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 058/219] fix: a worker left behind by GeneratorQueue.stop does
 not join the next start

---
 hyperion/io/queues.py    | 18 +++++++++++-------
 hyperion/utils/queues.py | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 0384879..1be59a5 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -208,16 +208,16 @@ class GeneratorQueue(SequenceQueue):
                 (when full, threads could block on `put()`)
         """
 
-        def data_generator_task():
-            while not self._stop_event.is_set():
+        def data_generator_task(queue, stop_event):
+            while not stop_event.is_set():
                 try:
-                    if self._use_multiprocessing or self.queue.qsize() < max_queue_size:
+                    if self._use_multiprocessing or queue.qsize() < max_queue_size:
                         generator_output = next(self._generator)
-                        self.queue.put(generator_output)
+                        queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
                 except Exception:
-                    self._stop_event.set()
+                    stop_event.set()
                     raise
 
         try:
@@ -233,12 +233,16 @@ class GeneratorQueue(SequenceQueue):
                     # Reset random seed else all children processes
                     # share the same seed
                     np.random.seed(self.random_seed)
-                    thread = multiprocessing.Process(target=data_generator_task)
+                    thread = multiprocessing.Process(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                     thread.daemon = True
                     if self.random_seed is not None:
                         self.random_seed += 1
                 else:
-                    thread = threading.Thread(target=data_generator_task)
+                    thread = threading.Thread(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                 self._threads.append(thread)
                 thread.start()
         except:
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 0384879..1be59a5 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -208,16 +208,16 @@ class GeneratorQueue(SequenceQueue):
                 (when full, threads could block on `put()`)
         """
 
-        def data_generator_task():
-            while not self._stop_event.is_set():
+        def data_generator_task(queue, stop_event):
+            while not stop_event.is_set():
                 try:
-                    if self._use_multiprocessing or self.queue.qsize() < max_queue_size:
+                    if self._use_multiprocessing or queue.qsize() < max_queue_size:
                         generator_output = next(self._generator)
-                        self.queue.put(generator_output)
+                        queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
                 except Exception:
-                    self._stop_event.set()
+                    stop_event.set()
                     raise
 
         try:
@@ -233,12 +233,16 @@ class GeneratorQueue(SequenceQueue):
                     # Reset random seed else all children processes
                     # share the same seed
                     np.random.seed(self.random_seed)
-                    thread = multiprocessing.Process(target=data_generator_task)
+                    thread = multiprocessing.Process(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                     thread.daemon = True
                     if self.random_seed is not None:
                         self.random_seed += 1
                 else:
-                    thread = threading.Thread(target=data_generator_task)
+                    thread = threading.Thread(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                 self._threads.append(thread)
                 thread.start()
         except:
-- 
2.43.0


From dcbbe08e3ec7a29cd9b248dcf6a390fbcf6bb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 059/219] fix: OrderedQueue

---
 hyperion/io/queues.py    | 13 ++++++++++---
 hyperion/utils/queues.py | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 1be59a5..0f02c39 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -9,8 +9,10 @@ import warnings
 import copy
 import time
 import numpy as np
+import random
 import multiprocessing
 import threading
+from multiprocessing.pool import ThreadPool
 import six
 from abc import abstractmethod
 
@@ -20,6 +22,11 @@ try:
 except ImportError:
     import Queue as queue
 
+def get_index(sequence, i):
+    """Gets one item of a sequence, in a worker."""
+    return sequence[i]
+
+
 class SequenceQueue(object):
     """Base class to enqueue inputs.
 
@@ -129,7 +136,7 @@ class OrderedQueue(SequenceQueue):
         """Function to submit request to the executor and queue the `Future` objects."""
         sequence = list(range(len(self.sequence)))
         while True:
-            if self.scheduling is not 'sequential':
+            if self.scheduling != 'sequential':
                 random.shuffle(sequence)
             for i in sequence:
                 if self.stop_signal.is_set():
@@ -152,9 +159,9 @@ class OrderedQueue(SequenceQueue):
                 inputs = self.queue.get(block=True).get()
                 if inputs is not None:
                     yield inputs
-        except Exception as e:
+        except Exception:
             self.stop()
-            raise StopIteration(e)
+            raise
 
     def stop(self, timeout=None):
         """Stops running threads and wait for them to exit, if necessary.
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 1be59a5..0f02c39 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -9,8 +9,10 @@ import warnings
 import copy
 import time
 import numpy as np
+import random
 import multiprocessing
 import threading
+from multiprocessing.pool import ThreadPool
 import six
 from abc import abstractmethod
 
@@ -20,6 +22,11 @@ try:
 except ImportError:
     import Queue as queue
 
+def get_index(sequence, i):
+    """Gets one item of a sequence, in a worker."""
+    return sequence[i]
+
+
 class SequenceQueue(object):
     """Base class to enqueue inputs.
 
@@ -129,7 +136,7 @@ class OrderedQueue(SequenceQueue):
         """Function to submit request to the executor and queue the `Future` objects."""
         sequence = list(range(len(self.sequence)))
         while True:
-            if self.scheduling is not 'sequential':
+            if self.scheduling != 'sequential':
                 random.shuffle(sequence)
             for i in sequence:
                 if self.stop_signal.is_set():
@@ -152,9 +159,9 @@ class OrderedQueue(SequenceQueue):
                 inputs = self.queue.get(block=True).get()
                 if inputs is not None:
                     yield inputs
-        except Exception as e:
+        except Exception:
             self.stop()
-            raise StopIteration(e)
+            raise
 
     def stop(self, timeout=None):
         """Stops running threads and wait for them to exit, if necessary.
-- 
2.43.0


From 9e427d95217133231c27af266d75101d7ee24b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 060/219] fix: a thread left behind by OrderedQueue.stop does
 not join the next start

---
 hyperion/io/queues.py    | 11 ++++++-----
 hyperion/utils/queues.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 0f02c39..f33a233 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -128,21 +128,22 @@ class OrderedQueue(SequenceQueue):
             self.executor = ThreadPool(workers)
         self.queue = queue.Queue(max_queue_size)
         self.stop_signal = threading.Event()
-        self.run_thread = threading.Thread(target=self._run)
+        self.run_thread = threading.Thread(
+            target=self._run, args=(self.queue, self.executor, self.stop_signal))
         self.run_thread.daemon = True
         self.run_thread.start()
 
-    def _run(self):
+    def _run(self, queue, executor, stop_signal):
         """Function to submit request to the executor and queue the `Future` objects."""
         sequence = list(range(len(self.sequence)))
         while True:
             if self.scheduling != 'sequential':
                 random.shuffle(sequence)
             for i in sequence:
-                if self.stop_signal.is_set():
+                if stop_signal.is_set():
                     return
-                self.queue.put(
-                    self.executor.apply_async(get_index,
+                queue.put(
+                    executor.apply_async(get_index,
                                               (self.sequence, i)), block=True)
 
     def get(self):
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 0f02c39..f33a233 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -128,21 +128,22 @@ class OrderedQueue(SequenceQueue):
             self.executor = ThreadPool(workers)
         self.queue = queue.Queue(max_queue_size)
         self.stop_signal = threading.Event()
-        self.run_thread = threading.Thread(target=self._run)
+        self.run_thread = threading.Thread(
+            target=self._run, args=(self.queue, self.executor, self.stop_signal))
         self.run_thread.daemon = True
         self.run_thread.start()
 
-    def _run(self):
+    def _run(self, queue, executor, stop_signal):
         """Function to submit request to the executor and queue the `Future` objects."""
         sequence = list(range(len(self.sequence)))
         while True:
             if self.scheduling != 'sequential':
                 random.shuffle(sequence)
             for i in sequence:
-                if self.stop_signal.is_set():
+                if stop_signal.is_set():
                     return
-                self.queue.put(
-                    self.executor.apply_async(get_index,
+                queue.put(
+                    executor.apply_async(get_index,
                                               (self.sequence, i)), block=True)
 
     def get(self):
-- 
2.43.0


From 3f54f7192ba3a97ae6048cc5528bda6f05ff69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 061/219] fix: SequenceBatchGeneratorV1 with several parts

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 5f2a28d..b72f93b 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -49,7 +49,7 @@ class SequenceBatchGeneratorV1(object):
         self.r = RF.create(rspecifier, path_prefix=path_prefix, transform=transform, scp_sep=scp_sep)
         self.u2c = Utt2Info.load(key_file, sep=scp_sep)
         if num_parts > 1:
-            self.u2c = self.u2c.split(part_idx, num_parts, group_by_key=False)
+            self.u2c = self.u2c.split(part_idx, num_parts)
         self.batch_size = batch_size
 
         self.cur_epoch = init_epoch
-- 
2.43.0


From dd8194efd730739c91af284b15e53a379dba960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 062/219] fix: batch generators draw the second epoch anew, as
 when started at it

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index b72f93b..9ecc3a6 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -292,8 +292,8 @@ class SequenceBatchGeneratorV1(object):
 
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 18806a9..19544b8 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -222,8 +222,8 @@ class SequenceBatchGeneratorV2(object):
         
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
-- 
2.43.0


From cde1d9ad9c9a0a26de51b0542d36b2f3798501f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 063/219] fix: lengths stay with their sequences after pruning
 and balancing classes

---
 hyperion/generators/sequence_batch_generator_v1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 9ecc3a6..207b7c8 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -160,7 +160,8 @@ class SequenceBatchGeneratorV1(object):
     def _prune_min_length(self, min_length):
         keep_idx = self.seq_lengths >= min_length
         self.u2c = self.u2c.filter_index(keep_idx)
-        self._seq_lengths = None
+        self._init_seq_lengths = self.seq_lengths[keep_idx]
+        self._seq_lengths = self._init_seq_lengths
 
 
         
@@ -205,8 +206,8 @@ class SequenceBatchGeneratorV1(object):
         # self.u2c.save('tmp.u2c')
         # self.u2c.save('/tmp.u2c')
         if self._init_seq_lengths is not None:
-            self._init_seq_legths = self._init_seq_lengths[idx]
-            self._seq_lengths = self._init_seq_legths
+            self._init_seq_lengths = self._init_seq_lengths[idx]
+            self._seq_lengths = self._init_seq_lengths
         
 
             
-- 
2.43.0


From 62669635884ea4ae86972c8ee71b66ab140050d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 064/219] fix: SequenceBatchGeneratorV2 with return_utt1hot

---
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 19544b8..b409f44 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -244,7 +244,7 @@ class SequenceBatchGeneratorV2(object):
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
             _, utt_ids = np.unique(utt_idx, return_inverse=True)
-            z = np.zeros((len(keys), self.num_utts), dtype=float_cpu())
+            z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
             r.append(z)
-- 
2.43.0


From 99fd28e080321ef66c1101cb90b5e8f9ca009181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 065/219] fix: sequential batches stay inside sequences shorter
 than the minimum length

---
 hyperion/generators/sequence_batch_generator_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 207b7c8..f75e0a3 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -377,11 +377,11 @@ class SequenceBatchGeneratorV1(object):
                 max_seq_length = min(
                     max(self.min_seq_length,
                         remainder_seq_length-self.min_seq_length),
-                    self.max_seq_length)
+                    self.max_seq_length, remainder_seq_length)
                 min_seq_length = min(remainder_seq_length, self.min_seq_length)
                 seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
                 self.cur_frame[self.cur_seq] = min(
-                    full_seq_length - self.min_seq_length,
+                    max(full_seq_length - self.min_seq_length, 0),
                     first_frame + seq_length - self.seq_overlap)
             
             keys.append(key)
-- 
2.43.0


From 0c281703bb186d30e2ed2622cb58b723d8eb6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 066/219] fix: several passes per epoch of sequential batches
 without balanced weights

---
 hyperion/generators/sequence_batch_generator_v1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index f75e0a3..94b974a 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -368,6 +368,10 @@ class SequenceBatchGeneratorV1(object):
             full_seq_length = self.seq_lengths[self.cur_seq]
             remainder_seq_length =  full_seq_length - first_frame
             if self.cur_subseq[self.cur_seq] == self.num_subseqs[self.cur_seq]:
+                if np.all(self.cur_subseq == self.num_subseqs):
+                    # another pass through the list in the same epoch
+                    self.cur_subseq[:] = 0
+                    continue
                 self.cur_seq = (self.cur_seq + 1) % self.num_seqs
                 continue
             if self.cur_subseq[self.cur_seq] == self.num_subseqs[self.cur_seq]-1:
-- 
2.43.0


From 89d3218698a56cab6d830f6efb5326adb61a0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 067/219] fix: batches of full sequences that pass the end of
 the list

---
 hyperion/generators/sequence_batch_generator_v1.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 94b974a..115dcb1 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -317,14 +317,10 @@ class SequenceBatchGeneratorV1(object):
 
     
     def _read_full_seqs(self):
-        keys = list(self.u2c.key[self.cur_seq:self.cur_seq+self.batch_size])
-        self.cur_seq += self.batch_size
-        
-        if len(keys) < self.batch_size:
-            delta = self.batch_size - len(keys)
-            keys += self.u2c.key[:delta]
-            self.cur_seq = delta
-            assert len(keys) == self.batch_size
+        keys = []
+        for i in xrange(self.batch_size):
+            keys.append(self.u2c.key[self.cur_seq])
+            self.cur_seq = (self.cur_seq + 1) % self.num_seqs
 
         return keys, self.r.read(keys)
 
-- 
2.43.0


From 4f37a5620196e44f7c4fb7f9b16b1d272a5ca0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 068/219] fix: utt1hot of batches that are not whole groups of
 classes and utterances

---
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index b409f44..832d7c7 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -243,7 +243,7 @@ class SequenceBatchGeneratorV2(object):
 
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
-            _, utt_ids = np.unique(utt_idx, return_inverse=True)
+            _, utt_ids = np.unique(utt_idx[:self.batch_size], return_inverse=True)
             z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
-- 
2.43.0


From 31cc16f25427f5209cb6ecc08e467987d4253659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 069/219] fix: sequential batches of sequences shorter than the
 overlap

---
 hyperion/generators/sequence_batch_generator_v1.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 115dcb1..0566b29 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -380,9 +380,9 @@ class SequenceBatchGeneratorV1(object):
                     self.max_seq_length, remainder_seq_length)
                 min_seq_length = min(remainder_seq_length, self.min_seq_length)
                 seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
-                self.cur_frame[self.cur_seq] = min(
-                    max(full_seq_length - self.min_seq_length, 0),
-                    first_frame + seq_length - self.seq_overlap)
+                self.cur_frame[self.cur_seq] = max(0, min(
+                    full_seq_length - self.min_seq_length,
+                    first_frame + seq_length - self.seq_overlap))
             
             keys.append(key)
             seq_lengths.append(seq_length)
-- 
2.43.0


From fab20ccf98156a2580f84490ad1b48c18f6f1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 070/219] fix: room for all the parts of classes split at
 random

---
 hyperion/helpers/vector_class_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..ff16990 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -159,7 +159,8 @@ class VectorClassReader(object):
         num_classes = np.max(class_ids)+1
 
         shift = max_spc-overlap
-        new_indx = np.zeros(max_spc*int(np.max(num_spc)*num_classes/shift+1), dtype=int)
+        max_subclasses = np.ceil(np.maximum(num_spc - max_spc, 0)/shift) + 1
+        new_indx = np.zeros(max_spc*int(np.sum(max_subclasses)), dtype=int)
         new_class_ids = np.zeros_like(new_indx)
         
         j = 0
-- 
2.43.0


From 5e566643defb17b8bc7d8bc3607cda664b7338b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 071/219] fix: option random_1subclass of VectorClassReader

---
 hyperion/helpers/vector_class_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index ff16990..e6370b7 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -149,7 +149,7 @@ class VectorClassReader(object):
     def _split_classes(u2c, min_spc, max_spc, mode='sequential', overlap=0, rng=None):
         if max_spc is None:
             return u2c
-        if mode == 'random_1part':
+        if mode in ('random_1part', 'random_1subclass'):
             return VectorClassReader._filter_by_spc(u2c, min_spc, max_spc, 'random', rng)
 
         _, class_ids, num_spc = np.unique(u2c.info, return_inverse=True, return_counts=True)
-- 
2.43.0


From 0aa5ba78e0e6fe6a454869856e023ed8e7e68908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 072/219] fix: types of the class splitting options of
 VectorClassReader

---
 hyperion/helpers/vector_class_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index e6370b7..ea465a0 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -244,7 +244,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -255,7 +255,7 @@ class VectorClassReader(object):
                             default='random', type=str.lower,
                             choices = ['sequential', 'random', 'random_1subclass'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
-- 
2.43.0


From e63544bd20dfa6b1280fe5989388eb6e79ecca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 073/219] fix: VectorReader.filter_args keeps vlist_sep

---
 hyperion/helpers/vector_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From b8bd11bf2c90e56ad7582067541586e1bed908f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 074/219] fix: learning rate schedulers without warm-up

---
 hyperion/torch/lr_schedulers/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/lr_scheduler.py b/hyperion/torch/lr_schedulers/lr_scheduler.py
index ff59dd5..063aadd 100644
--- a/hyperion/torch/lr_schedulers/lr_scheduler.py
+++ b/hyperion/torch/lr_schedulers/lr_scheduler.py
@@ -45,7 +45,7 @@ class LRScheduler(object):
 
     @property
     def in_warmup(self):
-        return self.last_batch <= self.warmup_steps
+        return self.warmup_steps > 0 and self.last_batch <= self.warmup_steps
     
 
     def state_dict(self):
-- 
2.43.0


From 1306fbba487cb25a116a3a7038139440697977af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 075/219] fix: CosineLR starts from the base learning rate

---
 hyperion/torch/lr_schedulers/cos_lr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 7a8aa61..226a579 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -38,7 +38,7 @@ class CosineLR(LRScheduler):
     """
 
     def __init__(self, optimizer, T, T_mul=1, min_lr=0, warmup_steps=0,
-                 warm_restarts=False, gamma=1, last_restart=1, num_restarts = 0, 
+                 warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
         super(CosineLR, self).__init__(optimizer, min_lr, warmup_steps,
                                        last_epoch, last_batch, update_lr_on_batch)
-- 
2.43.0


From b698b590d0836bc33223a6659de49f458af0450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 076/219] fix: period of CosineLR with restarts is a whole
 number of epochs

---
 hyperion/torch/lr_schedulers/cos_lr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 226a579..8251afd 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -79,7 +79,8 @@ class CosineLR(LRScheduler):
     def epoch_end_step(self, metrics=None):
         if self.last_epoch==0 and self.update_lr_on_batch and self.warm_restarts:
             # assures that T period is equal to integer number of epochs
-            self.T = math.ceil(self.T/self.last_batch)*self.last_batch
+            num_batches = self.last_batch + 1
+            self.T = math.ceil(self.T/num_batches)*num_batches
             logging.info('readjusting cos_lr T to %d' % (self.T))
 
 
-- 
2.43.0


From 81af06e63041396d869eeed2a2d9e64b5b7db6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 077/219] fix: CosineLR stays above the minimum learning rate
 after restarts

---
 hyperion/torch/lr_schedulers/cos_lr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 8251afd..afd5eec 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -71,7 +71,7 @@ class CosineLR(LRScheduler):
         alpha = self.gamma ** self.num_restarts
         r = math.pi/self.T
 
-        return [eta_min + (alpha*eta_max - eta_min) *
+        return [eta_min + max(alpha*eta_max - eta_min, 0) *
                 (1 + math.cos(r * x)) / 2
                 for eta_max, eta_min in zip(self.base_lrs, self.min_lrs)]
 
-- 
2.43.0


From 4a1241ef4005dc46bc707cb1320eafe95cb6c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 078/219] fix: AdamCosineLR

---
 hyperion/torch/lr_schedulers/cos_lr.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index afd5eec..a081a59 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -89,24 +89,7 @@ class AdamCosineLR(CosineLR):
     def __init__(self, optimizer, T=1, T_mul=2, warmup_steps=0,
                  warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
-        super(AdamCosineLR, super).__init__(optimizer, T, T_mul, 0, warmup_steps,
-                 warm_restarts, last_restart, num_restarts, gamma,
+        super(AdamCosineLR, self).__init__(optimizer, T, T_mul, 0, warmup_steps,
+                 warm_restarts, gamma, last_restart, num_restarts,
                  last_epoch, last_batch, update_lr_on_batch)
 
-
-    def get_lr(self, step):
-        x = step - self.last_restart
-        if x > self.T:
-            if self.warm_restarts:
-                self.last_restart = step
-                x = 0
-                self.T *= T_mul
-                self.num_restarts += 1
-            else:
-                return self.min_lrs
-
-        alpha = gamma ** self.num_restarts
-        r = math.pi/self.T
-            
-        return [alpha * base_lr * 0.5 (1 + math.cos(r * x))
-                for base_lr in self.base_lrs]
-- 
2.43.0


From 0e8b6d0f1cf004affe938bac29d0d952e6ad2110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 079/219] fix: update_lr_on_batch of exponential learning rates

---
 hyperion/torch/lr_schedulers/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/factory.py b/hyperion/torch/lr_schedulers/factory.py
index c84a730..bf144a6 100644
--- a/hyperion/torch/lr_schedulers/factory.py
+++ b/hyperion/torch/lr_schedulers/factory.py
@@ -31,7 +31,7 @@ class LRSchedulerFactory(object):
             return ExponentialLR(
                 optimizer, decay_rate, decay_steps, hold_steps,
                 min_lr=min_lr, warmup_steps=warmup_steps, 
-                update_lr_on_batch=False)
+                update_lr_on_batch=update_lr_on_batch)
 
         if lrsch_type == 'cos_lr':
             return CosineLR(optimizer, T, T_mul, min_lr=min_lr,
-- 
2.43.0


From f1f5c6c938a67140257660320d710c431eeaa992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 080/219] fix: TorchTrainer without extra metrics

metrics=None, the default, raised AttributeError in the first batch.
---
 hyperion/torch/torch_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index d89aeaa..725a41a 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -40,7 +40,7 @@ class TorchTrainer(object):
 
         self.lr_scheduler = lr_scheduler
         
-        self.metrics = metrics
+        self.metrics = {} if metrics is None else metrics
         if device is None:
             device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
         self.device = device
-- 
2.43.0


From 585b9503b685568fe5a4b32aa4629dfc2fbd3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 081/219] fix: never leave an incomplete checkpoint

Training killed while it wrote a checkpoint could not be resumed:
load_last_checkpoint picked the truncated file and raised.
---
 hyperion/torch/torch_trainer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index 725a41a..28b7437 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -165,8 +165,12 @@ class TorchTrainer(object):
 
         checkpoint = self.checkpoint(logs)
         file_path = '%s/model_ep%04d.pth' % (self.exp_path, self.cur_epoch)
-            
-        torch.save(checkpoint, file_path)
+
+        # write to a temporary file first, so that an interruption never
+        # leaves an incomplete checkpoint
+        tmp_path = file_path + '.tmp'
+        torch.save(checkpoint, tmp_path)
+        os.rename(tmp_path, file_path)
 
 
     def load_checkpoint(self, file_path):
-- 
2.43.0


From e53f7172bb82b36a43922294af76eb44fd09e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 082/219] fix: CSVLogger appends to an existing log

append=True raised AttributeError (os.path.exist) when the file existed,
and a second fit wrote to the file handle of the first one.
---
 hyperion/torch/loggers/csv_logger.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperion/torch/loggers/csv_logger.py b/hyperion/torch/loggers/csv_logger.py
index 4ad551a..890fb9c 100644
--- a/hyperion/torch/loggers/csv_logger.py
+++ b/hyperion/torch/loggers/csv_logger.py
@@ -38,11 +38,12 @@ class CSVLogger(Logger):
     def on_train_begin(self, logs=None, **kwargs):
 
         file_dir = os.path.dirname(self.file_path) 
-        if not os.path.exists(file_dir):
+        if file_dir and not os.path.exists(file_dir):
             os.makedirs(file_dir)
         
+        self.append_header = True
         if self.append:
-            if os.path.exist(self.file_path):
+            if os.path.exists(self.file_path):
                 with open(self.file_path, 'r') as f:
                     self.append_header = len(f.readline())==0
 
@@ -50,6 +51,7 @@ class CSVLogger(Logger):
             self.csv_file = open(self.file_path, 'w')
         else:
             self.csv_file = open(self.file_path, 'a')
+        self.csv_writer = None
 
 
             
@@ -77,6 +79,6 @@ class CSVLogger(Logger):
         
     def on_train_end(self, logs=None, **kwargs):
         self.csv_file.close()
-        self.writer = None
+        self.csv_writer = None
 
         
-- 
2.43.0


From c2bfd94e0fa1086ea7a0854931b7634fb36a53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 083/219] fix: resumed training keeps the log of the previous
 epochs

The default CSV log is created before load_last_checkpoint sets cur_epoch,
so that a resumed training overwrote the lines of the epochs before.
Loggers are now told when the training ends, which closes the log.
---
 hyperion/torch/torch_trainer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index 28b7437..37d92bd 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -52,6 +52,12 @@ class TorchTrainer(object):
             os.makedirs(self.exp_path)
         
         val_logs = {}
+        if self.cur_epoch > 0:
+            # resumed training continues the log of the previous epochs
+            for logger in self.loggers:
+                if isinstance(logger, CSVLogger):
+                    logger.append = True
+
         self.loggers.on_train_begin(epochs=self.epochs)
         for epoch in xrange(self.cur_epoch, self.epochs):
             
@@ -72,7 +78,8 @@ class TorchTrainer(object):
 
             self.save_checkpoint(logs)
 
-            
+        self.loggers.on_train_end()
+
             
     def train_epoch(self, data_loader):
 
-- 
2.43.0


From c235f7de5500c11aaa9d36fcd72e7f4c1a850844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 084/219] fix: mean binary accuracy

It called item() on the matrix of all outputs instead of their mean.
---
 hyperion/torch/metrics/accuracy_functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/metrics/accuracy_functional.py b/hyperion/torch/metrics/accuracy_functional.py
index 853f765..770a416 100644
--- a/hyperion/torch/metrics/accuracy_functional.py
+++ b/hyperion/torch/metrics/accuracy_functional.py
@@ -78,7 +78,7 @@ def binary_accuracy(input, target, weight=None, reduction='mean', thr=0.5):
         return ok.sum().item()
 
     acc = ok.mean()/weight_mean
-    return ok.item()
+    return acc.item()
 
 
 def binary_accuracy_with_logits(input, target, weight=None, reduction='mean', thr=0):
-- 
2.43.0


From 9c4a6ce0b7453fc0e913e074d4bfa72736a0c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 085/219] fix: opt_loglr gives every score its own
 log-likelihood ratio

The ratios were put back in the order of the scores in place, which
overwrote ratios that were still to be moved.
---
 hyperion/metrics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..16d4c5e 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -151,7 +151,9 @@ def opt_loglr(tar, non, method='laplace'):
     llr = post_log_odds - prior_log_odds
     llr += 1e-6 * np.arange(n)/n
 
-    llr[sort_idx] = llr
+    llr_sorted = llr
+    llr = np.zeros_like(llr_sorted)
+    llr[sort_idx] = llr_sorted
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0


From 01fa162fcb1f7872daea9b63c1e1bcb2a8c1a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 086/219] fix: Cllr penalizes high ratios of non-target trials

The sign of the non-target log-likelihood ratios was missing.
---
 hyperion/metrics/cllr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/cllr.py b/hyperion/metrics/cllr.py
index fd9ce0e..1c1b9b2 100644
--- a/hyperion/metrics/cllr.py
+++ b/hyperion/metrics/cllr.py
@@ -25,7 +25,7 @@ def compute_cllr(tar, non):
 
     """
     c1 = np.mean(neglogsigmoid(tar))/np.log(2)
-    c2 = np.mean(neglogsigmoid(non))/np.log(2)
+    c2 = np.mean(neglogsigmoid(-non))/np.log(2)
 
     return (c1 + c2)/2
 
-- 
2.43.0


From 6add5a6d1f298d4013f02f80ed94c6f35203ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 087/219] fix: compute_area_under_rocch

It used the next instead of the previous point and always raised IndexError.
---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..6969614 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -204,7 +204,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i-1])
 
     return auc
 
-- 
2.43.0


From 59b03d2039d9f07fe98c867ceaf0cfcbb6727b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 088/219] fix: filter_roc

It raised NameError, left out the last point, and had no room for the
points of a curve with no straight sections.
---
 hyperion/metrics/roc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 6969614..83211d7 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -164,8 +164,10 @@ def filter_roc(p_miss,p_fa):
                             input vectors.  
     """
     out = 0
-    new_p_miss = np.copy(p_miss)
-    new_p_fa = np.copy(p_fa)
+    new_p_miss = np.zeros((len(p_miss)+1,))
+    new_p_fa = np.zeros((len(p_fa)+1,))
+    new_p_miss[0] = p_miss[0]
+    new_p_fa[0] = p_fa[0]
 
     for i in xrange(1,len(p_miss)):
         if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
@@ -180,8 +182,8 @@ def filter_roc(p_miss,p_fa):
     out = out+1
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    new_p_miss = new_p_miss[:out+1]
+    new_p_fa = new_p_fa[:out+1]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From cb59abff2b090e1884793734296fec0e6ae2c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 089/219] fix: compute_act_dcf with repeated priors

Ranks among the thresholds gave negative counts when two priors were equal.
---
 hyperion/metrics/dcf.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/hyperion/metrics/dcf.py b/hyperion/metrics/dcf.py
index d6dd9c5..514da46 100644
--- a/hyperion/metrics/dcf.py
+++ b/hyperion/metrics/dcf.py
@@ -100,20 +100,8 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     #thresholds
     t = - np.log(prior) + np.log(1-prior)
 
-    ttar = np.concatenate((t, tar))
-    ii = np.argsort(ttar, kind='mergesort')
-    r = np.zeros((num_priors + ntar), dtype='int32')
-    r[ii] = np.arange(1, num_priors + ntar + 1)
-    r = r[:num_priors]
-    n_miss = r - np.arange(num_priors, 0, -1)
-
-    
-    tnon = np.concatenate((t, non))
-    ii = np.argsort(tnon, kind='mergesort')
-    r = np.zeros((num_priors + nnon), dtype='int32')
-    r[ii] = np.arange(1, num_priors + nnon + 1)
-    r = r[:num_priors]
-    n_fa = nnon - r + np.arange(num_priors, 0, -1)
+    n_miss = np.searchsorted(np.sort(tar), t, side='left')
+    n_fa = nnon - np.searchsorted(np.sort(non), t, side='left')
 
     # n_miss2 = np.zeros((num_priors,), dtype='int32')
     # n_fa2 = np.zeros((num_priors,), dtype='int32')
-- 
2.43.0


From 3e04e008a2511584c5f70853576ff308a92150e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 090/219] fix: pavx with integer input

The means of the pooled values were truncated to integers.
---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 16d4c5e..2e75a90 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -64,7 +64,7 @@ def pavx(y):
     l = np.zeros(y.shape, dtype=int)
     # An interval of indices is represented by its left endpoint 
     # ("index") and its length "len" 
-    ghat = np.zeros_like(y)
+    ghat = np.zeros(y.shape, dtype=float_cpu())
 
     ci = 0
     index[ci] = 0
-- 
2.43.0


From b6cc81911235b1187724e62bfff3bf02e2278c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 091/219] fix: confusion matrix with different train and test
 labels

---
 hyperion/metrics/confusion_matrix.py | 31 ++++++----------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..7ba2e5a 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -67,32 +67,13 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     else:
         labels_test = list2ndarray(labels_test)
 
-    assert y_true.dtype == y_pred.dtype, 'y_true and y_pred labels does not have the same type'
-    assert labels_train.dtype == labels_test.dtype, 'Train and test labels does not have the same type'
-    assert labels_train.dtype == y_pred.dtype, 'Labels, y_true and y_pred does not have the same type'
-
+    # test and train labels are replaced by indexes, train indexes go after test indexes
     num_classes_test = len(labels_test)
-    
-    if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
-        y_true = np.asarray(['TEST_' + s for s in y_true])
-        y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
-    else:
-        raise Exception()
-
-
-    if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
-        labels_test = np.asarray(['TEST_' + s for s in labels_test])
-        labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
-    else:
-        raise Exception()
-
-    labels = np.concatenate((labels_test, labels_train))
+    test2idx = {label: i for i, label in enumerate(labels_test)}
+    train2idx = {label: num_classes_test + i for i, label in enumerate(labels_train)}
+    y_true = np.asarray([test2idx.get(label, -1) for label in y_true])
+    y_pred = np.asarray([train2idx.get(label, -1) for label in y_pred])
+    labels = np.arange(num_classes_test + len(labels_train))
     C = confusion_matrix(y_true, y_pred, labels, sample_weight)
     C = C[:num_classes_test, num_classes_test:]
     if normalize:
-- 
2.43.0


From a570a683c2d8c42f6a35f9edfb33c31fd0ae7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 092/219] fix: print_confusion_matrix imports sys

---
 hyperion/metrics/confusion_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 7ba2e5a..0c1c8a3 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,7 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
-- 
2.43.0


From 23dc1ece498b58e503f8a0e2bd2e5871d7cab392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 093/219] fix: H5Merger with compressed and empty files

---
 hyperion/io/h5_merger.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/hyperion/io/h5_merger.py b/hyperion/io/h5_merger.py
index cb491fe..bcd0b44 100644
--- a/hyperion/io/h5_merger.py
+++ b/hyperion/io/h5_merger.py
@@ -10,8 +10,8 @@ from six.moves import xrange
 import sys
 import numpy as np
 
-from .hyp_data_reader import HypDataReader as HR
-from .hyp_data_writer import HypDataWriter as HW
+from .h5_data_reader import SequentialH5FileDataReader as HR
+from .h5_data_writer import H5DataWriter as HW
 
 
 class H5Merger(object):
@@ -24,24 +24,21 @@ class H5Merger(object):
         self.chunk_size = chunk_size
 
     def merge(self):
-        hw = HW(self.output_file)
-        for h5_file in self.input_files:
-            self._merge_file(hw, h5_file)
+        with HW(self.output_file) as hw:
+            for h5_file in self.input_files:
+                self._merge_file(hw, h5_file)
 
 
     def _merge_file(self, hw, input_file):
-        hr = HR(input_file)
-        datasets = hr.get_datasets()
         if self.chunk_size is None:
-            chunk = len(datasets)
+            chunk = 0 # reads all
         else:
             chunk = self.chunk_size
-        
-        for first in xrange(0, len(datasets), chunk):
-            last = min(first+chunk, len(datasets))
-            keys = datasets[first:last]
-            x = hr.read(keys)
-            hw.write(keys, '', x)
+
+        with HR(input_file) as hr:
+            while not hr.eof():
+                keys, x = hr.read(chunk)
+                hw.write(keys, x)
     
     
     
-- 
2.43.0


From b07c9001939b63095fc2f1fae2ed895d86764312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 094/219] fix: read specifiers accept all documented options

---
 hyperion/io/rw_specifiers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 8cf1c54..7608cc8 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -301,7 +301,7 @@ class RSpecifier(object):
             assert len(fields[0]) > 0
             return cls(RSpecType.ARCHIVE, fields[0])
         elif len(fields) == 2:
-            options = fields[0].strip().split(',')
+            options = [o.strip() for o in fields[0].split(',')]
             archives = fields[1].strip().split(',')
             assert len(archives) == 1
 
@@ -328,7 +328,8 @@ class RSpecifier(object):
                     spec_type = RSpecType.SCRIPT
                 elif option == 'p':
                     permissive = True
-                elif option in ['o', 's', 'cs', 'bg']:
+                elif option in ['o', 's', 'cs', 'bg',
+                                'no', 'ns', 'ncs', 'np', 'b', 't']:
                     pass
                 else:
                     raise ValueError('Wrong wspecifier options %s'
-- 
2.43.0


From 19cda4f40b760171219e0b5381c841b93dc5c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 095/219] fix: CopyFeats.filter_args keeps compression and
 chunk size

---
 hyperion/io/copy_feats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/copy_feats.py b/hyperion/io/copy_feats.py
index d76369f..c7e9378 100644
--- a/hyperion/io/copy_feats.py
+++ b/hyperion/io/copy_feats.py
@@ -97,7 +97,8 @@ class CopyFeats(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts')
+        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts',
+                      'compress', 'compression_method', 'chunk_size')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 5974c12e3bb76d7c15303cd0b49d20a2e9653abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 096/219] fix: compression options of writers follow the prefix
 of the other options

---
 hyperion/io/copy_feats.py      | 4 ++--
 hyperion/io/data_rw_factory.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/copy_feats.py b/hyperion/io/copy_feats.py
index c7e9378..e32905a 100644
--- a/hyperion/io/copy_feats.py
+++ b/hyperion/io/copy_feats.py
@@ -131,6 +131,6 @@ class CopyFeats(object):
         parser.add_argument(p1+'num-parts', dest=(p2+'num_parts'), type=int, default=1,
                             help=('splits the list of files in num-parts and process part_idx'))
 
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 0357249..805f8a2 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -80,8 +80,8 @@ class DataWriterFactory(object):
             
         parser.add_argument(p1+'scp-sep', dest=(p2+'scp_sep'), default=' ',
                             help=('scp file field separator'))
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
 
 
-- 
2.43.0


From 7ba8a2a52abe4bd70891e17f791f3e9539b0f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 097/219] fix: programs with two docstrings compile in Python
 3.8 and later

---
 hyperion/bin/ark2hyp.py                              | 3 +--
 hyperion/bin/arkvad2nist.py                          | 3 +--
 hyperion/bin/compute-gmm-post.py                     | 3 +--
 hyperion/bin/eval-2class-performance.py              | 3 +--
 hyperion/bin/eval-cos-1vs1.py                        | 3 +--
 hyperion/bin/eval-elbo-ubm.py                        | 3 +--
 hyperion/bin/eval-linear-gbe-up.py                   | 3 +--
 hyperion/bin/eval-linear-gbe.py                      | 3 +--
 hyperion/bin/eval-linear-svmc.py                     | 3 +--
 hyperion/bin/eval-logistic-regression.py             | 3 +--
 hyperion/bin/eval-plda-1vs1.py                       | 3 +--
 hyperion/bin/eval-plda-nvs1.py                       | 3 +--
 hyperion/bin/eval-q-scoring-homo-gbe.py              | 3 +--
 hyperion/bin/eval-score-norm.py                      | 3 +--
 hyperion/bin/h5vad2nist.py                           | 3 +--
 hyperion/bin/init-ubm.py                             | 2 --
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 3 +--
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-eval-pdda-1vs1.py                 | 3 +--
 hyperion/bin/keras-eval-pdda-nvs1.py                 | 2 --
 hyperion/bin/keras-eval-seq-embed.py                 | 3 +--
 hyperion/bin/keras-eval-seq-q-embed.py               | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector.py      | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector2.py     | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector3.py     | 3 +--
 hyperion/bin/keras-extract-seq-embed-deprec.py       | 3 +--
 hyperion/bin/keras-extract-seq-embed.py              | 3 +--
 hyperion/bin/keras-extract-seq-embed2.py             | 3 +--
 hyperion/bin/keras-extract-seq-embed5.py             | 3 +--
 hyperion/bin/keras-extract-seq-q-embed.py            | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector-pt.py       | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector.py          | 3 +--
 hyperion/bin/keras-extract-tied-vae-embed.py         | 3 +--
 hyperion/bin/keras-extract-tvae-ivector.py           | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-att.py        | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 3 +--
 hyperion/bin/keras-train-cat-seq-meta-embed.py       | 3 +--
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-train-cat-tied-dvae.py            | 3 +--
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 3 +--
 hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py    | 3 +--
 hyperion/bin/keras-train-gmm-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-pdda.py                     | 3 +--
 hyperion/bin/keras-train-sup-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-tcvae-ivector.py            | 3 +--
 hyperion/bin/keras-train-tvae-ivector.py             | 3 +--
 hyperion/bin/merge-h5-files.py                       | 3 +--
 hyperion/bin/plot-vector-hist.py                     | 3 +--
 hyperion/bin/plot-vector-tsne.py                     | 3 +--
 hyperion/bin/train-cw-up.py                          | 3 +--
 hyperion/bin/train-cw.py                             | 3 +--
 hyperion/bin/train-gaussianizer.py                   | 3 +--
 hyperion/bin/train-lda.py                            | 3 +--
 hyperion/bin/train-linear-gbe-up.py                  | 3 +--
 hyperion/bin/train-linear-gbe.py                     | 3 +--
 hyperion/bin/train-linear-svmc.py                    | 3 +--
 hyperion/bin/train-logistic-regression.py            | 3 +--
 hyperion/bin/train-mvn.py                            | 3 +--
 hyperion/bin/train-nda.py                            | 3 +--
 hyperion/bin/train-pca.py                            | 3 +--
 hyperion/bin/train-plda.py                           | 3 +--
 hyperion/bin/train-q-scoring-homo-gbe.py             | 3 +--
 62 files changed, 60 insertions(+), 124 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index cca7a23..784d0f8 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to h5 format (deprecated, use copy-feats.py)
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 9a09582..2186efd 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5a16bf5..1720b37 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Computes GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index f47c805..aea9ef6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals EER, DCF, DET
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-cos-1vs1.py b/hyperion/bin/eval-cos-1vs1.py
index c8a0217..36f0e76 100755
--- a/hyperion/bin/eval-cos-1vs1.py
+++ b/hyperion/bin/eval-cos-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals cosine scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-elbo-ubm.py b/hyperion/bin/eval-elbo-ubm.py
index 9a4e960..d5e7bc7 100755
--- a/hyperion/bin/eval-elbo-ubm.py
+++ b/hyperion/bin/eval-elbo-ubm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evaluate the likelihood of the ubm on some data
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index 3aeec95..85a401a 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE with uncertainty propagation.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 7fdcd7e..9ff4413 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index a13a08f..7d4895e 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals SVM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 28cb9a0..635ae85 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals logistic regression
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-1vs1.py b/hyperion/bin/eval-plda-1vs1.py
index 35380da..4ead233 100755
--- a/hyperion/bin/eval-plda-1vs1.py
+++ b/hyperion/bin/eval-plda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index f12c13d..5da9200 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PLDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index de1b70c..5d4b2ab 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals Q-scoring back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 52d0076..c54ec4f 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Score Normalization
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 347fbff..f0e51cf 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index bbcf4be..5556315 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Initialize UBM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 6731b7c..89fb143 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 80a32b8..1c061b5 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts q-embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-1vs1.py b/hyperion/bin/keras-eval-pdda-1vs1.py
index e7d0bc9..6246bce 100755
--- a/hyperion/bin/keras-eval-pdda-1vs1.py
+++ b/hyperion/bin/keras-eval-pdda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-nvs1.py b/hyperion/bin/keras-eval-pdda-nvs1.py
index 8db98ed..ce6fe2d 100755
--- a/hyperion/bin/keras-eval-pdda-nvs1.py
+++ b/hyperion/bin/keras-eval-pdda-nvs1.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-embed.py b/hyperion/bin/keras-eval-seq-embed.py
index 6e2091e..142e813 100755
--- a/hyperion/bin/keras-eval-seq-embed.py
+++ b/hyperion/bin/keras-eval-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-q-embed.py b/hyperion/bin/keras-eval-seq-q-embed.py
index 4db30a0..52656ef 100755
--- a/hyperion/bin/keras-eval-seq-q-embed.py
+++ b/hyperion/bin/keras-eval-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
index e88b294..f8711ff 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
index 199d415..9ddc02b 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
index 4657c25..74decb5 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed-deprec.py b/hyperion/bin/keras-extract-seq-embed-deprec.py
index 606f419..08bb493 100755
--- a/hyperion/bin/keras-extract-seq-embed-deprec.py
+++ b/hyperion/bin/keras-extract-seq-embed-deprec.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed.py b/hyperion/bin/keras-extract-seq-embed.py
index 73300da..3ecce0f 100755
--- a/hyperion/bin/keras-extract-seq-embed.py
+++ b/hyperion/bin/keras-extract-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts x-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed2.py b/hyperion/bin/keras-extract-seq-embed2.py
index 0e7ffef..3b57040 100755
--- a/hyperion/bin/keras-extract-seq-embed2.py
+++ b/hyperion/bin/keras-extract-seq-embed2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed5.py b/hyperion/bin/keras-extract-seq-embed5.py
index dcc7320..626bab2 100755
--- a/hyperion/bin/keras-extract-seq-embed5.py
+++ b/hyperion/bin/keras-extract-seq-embed5.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index f8d7a08..5e0a2a6 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence Q embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector-pt.py b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
index 441007f..674134d 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector-pt.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector.py b/hyperion/bin/keras-extract-tcvae-ivector.py
index 1d54b49..3167f93 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index e793209..3b75603 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TVAE sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tvae-ivector.py b/hyperion/bin/keras-extract-tvae-ivector.py
index 0dac764..465f802 100755
--- a/hyperion/bin/keras-extract-tvae-ivector.py
+++ b/hyperion/bin/keras-extract-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-att.py b/hyperion/bin/keras-train-cat-seq-embed-att.py
index c7f1d67..3b035e9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-att.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-att.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vectors with attention
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index e788db4..99b6f7e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vector with LDE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index 4263ed6..b62d153 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE ??
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9c993b3..9e116b9 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with q-scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 87d06a9..b1feefb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with discriminative VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index bd0479b..c463522 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with supervised VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
index 8e61bfd..32e3332 100755
--- a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE with gmm posteriors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
index c897bb6..730beba 100755
--- a/hyperion/bin/keras-train-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE with GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-pdda.py b/hyperion/bin/keras-train-pdda.py
index f6cb09c..3aef7d8 100755
--- a/hyperion/bin/keras-train-pdda.py
+++ b/hyperion/bin/keras-train-pdda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PDDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-sup-tcvae-ivector.py b/hyperion/bin/keras-train-sup-tcvae-ivector.py
index dd1ca68..0ed93f0 100755
--- a/hyperion/bin/keras-train-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tcvae-ivector.py b/hyperion/bin/keras-train-tcvae-ivector.py
index e71911d..578d22a 100755
--- a/hyperion/bin/keras-train-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tvae-ivector.py b/hyperion/bin/keras-train-tvae-ivector.py
index 7e64e5a..ed3bf43 100755
--- a/hyperion/bin/keras-train-tvae-ivector.py
+++ b/hyperion/bin/keras-train-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/merge-h5-files.py b/hyperion/bin/merge-h5-files.py
index 2a2b6c0..0a95940 100755
--- a/hyperion/bin/merge-h5-files.py
+++ b/hyperion/bin/merge-h5-files.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Merges multiple hdf5 files into one file
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 6af79db..981d315 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plot histogram of i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 9aea1ff..63bd0ab 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plots TSNE embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index a4e7592..d66976f 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening with uncertainty prop.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index b5d3a55..9128e20 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 40996f3..22323f0 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Gaussianization for i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index be34061..da53891 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains LDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe-up.py b/hyperion/bin/train-linear-gbe-up.py
index f381482..6758c34 100755
--- a/hyperion/bin/train-linear-gbe-up.py
+++ b/hyperion/bin/train-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear GBE with uncertainty propagation
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe.py b/hyperion/bin/train-linear-gbe.py
index 4f0aefb..2036930 100755
--- a/hyperion/bin/train-linear-gbe.py
+++ b/hyperion/bin/train-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear Gaussian back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index bb4353d..b849fd0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear SVM classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 82985a4..61fecd4 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear logistic regression classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-mvn.py b/hyperion/bin/train-mvn.py
index a91863b..ca42e4f 100755
--- a/hyperion/bin/train-mvn.py
+++ b/hyperion/bin/train-mvn.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains global mean and variance normalization of i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index a8755fa..157e7f3 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains NDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-pca.py b/hyperion/bin/train-pca.py
index 2bdb27d..d657183 100755
--- a/hyperion/bin/train-pca.py
+++ b/hyperion/bin/train-pca.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PCA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-plda.py b/hyperion/bin/train-plda.py
index e5af64f..782818a 100755
--- a/hyperion/bin/train-plda.py
+++ b/hyperion/bin/train-plda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PLDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-q-scoring-homo-gbe.py b/hyperion/bin/train-q-scoring-homo-gbe.py
index 0ce739c..19d9def 100755
--- a/hyperion/bin/train-q-scoring-homo-gbe.py
+++ b/hyperion/bin/train-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Q-scoring back-end
 """
 from __future__ import absolute_import
-- 
2.43.0


From de95ddc107470d3e629020ec311ef028ae06d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 098/219] fix: AHC.compute_flat_clusters

---
 hyperion/clustering/ahc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..5d7a165 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -87,7 +87,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +98,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From 5667fc84515767d740f2264ba30ae135fa4b8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 099/219] fix: AHC.fit discards the flat clusters of a previous
 fit

---
 hyperion/clustering/ahc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 5d7a165..4d6c644 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -30,6 +30,7 @@ class AHC(HypModel):
         
     def fit(self, x, mask=None):
 
+        self.flat_clusters = None
         if mask is not None:
             x = copy(x)
             x[mask==False] = -1e10
-- 
2.43.0


From 13c80ac9374389c945465101f9846e9023ef6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 100/219] fix: AHC with distances joins masked elements last

---
 hyperion/clustering/ahc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 4d6c644..684a1b6 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -33,7 +33,10 @@ class AHC(HypModel):
         self.flat_clusters = None
         if mask is not None:
             x = copy(x)
-            x[mask==False] = -1e10
+            if self.metric == 'llr' or self.metric == 'prob':
+                x[mask==False] = -1e10
+            else:
+                x[mask==False] = 1e10
 
         idx = np.triu(np.ones_like(x, dtype=bool), k=1)
         scores = x[idx]
-- 
2.43.0


From 5308c6e4c6e0034572a8071539cbb0a6936ef26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 101/219] fix: opt_loglr gives equal scores equal ratios

---
 hyperion/metrics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 2e75a90..7a535b2 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -149,7 +149,9 @@ def opt_loglr(tar, non, method='laplace'):
     post_log_odds = np.log(p_opt) - np.log(1-p_opt)
     prior_log_odds = np.log(ntar/nnon)
     llr = post_log_odds - prior_log_odds
-    llr += 1e-6 * np.arange(n)/n
+    # the tiny slope keeps the order of the scores, equal scores have equal ratios
+    scores = scores[sort_idx]
+    llr += 1e-6 * np.searchsorted(scores, scores, side='left')/n
 
     llr_sorted = llr
     llr = np.zeros_like(llr_sorted)
-- 
2.43.0


From ff111738376a44fdd9d86053daa4c63f7ad117f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:36 +0000
Subject: [PATCH 102/219] fix: AHC impurity of a single cluster or class is
 zero

---
 hyperion/clustering/ahc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 684a1b6..2704452 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -117,8 +117,9 @@ class AHC(HypModel):
         h = np.zeros((N,), dtype=float_cpu())
         c = np.zeros((N,), dtype=float_cpu())
         for i in xrange(self.flat_clusters.shape[0]):
-            h[i] = homogeneity_score(labels_true, self.flat_clusters[i])
-            c[i] = completeness_score(labels_true, self.flat_clusters[i])
+            # the entropy of a single class or cluster may be computed as not exactly zero
+            h[i] = homogeneity_score(labels_true, self.flat_clusters[i]) if len(np.unique(labels_true)) > 1 else 1
+            c[i] = completeness_score(labels_true, self.flat_clusters[i]) if len(np.unique(self.flat_clusters[i])) > 1 else 1
 
         return 1-h, 1-c
     
-- 
2.43.0


From a51af210732d508750ec9b738326da27e5ac160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 103/219] fix: EnergyVAD with context

---
 hyperion/feats/energy_vad.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..7a3c006 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -105,28 +105,20 @@ class EnergyVAD(object):
             
 
         # compute VAD from logE
-        print(np.mean(logE))
         e_thr = self.vad_energy_threshold + self.vad_energy_mean_scale * np.mean(logE)
-        print(e_thr)
-        print(logE)
         vad = (logE > e_thr)
 
         context = self.vad_frames_context
         if context == 0:
             return vad
  
-        window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
-
-        h = np.ones((window,), dtype='float32')
-        num_count = np.convolve(vad.astype('float32'), h, 'same')
-        den_count_boundary = np.arange(context+1, window, dtype='float32')
-        num_count[:context] /= den_count_boundary
-        num_count[-context:] /= den_count_boundary[::-1]
-        num_count[context:-context] /= window
+        # proportion of frames above the threshold in the part of the window inside the file
+        num_frames = len(vad)
+        h = np.ones((2*context + 1,), dtype=float_cpu())
+        num_count = np.convolve(vad.astype(float_cpu()), h)[context:context+num_frames]
+        den_count = np.convolve(np.ones((num_frames,), dtype=float_cpu()), h)[context:context+num_frames]
         
-        vad = num_count > self.vad_proportion_threshold
+        vad = np.round(num_count)/np.round(den_count) > self.vad_proportion_threshold
         return vad
         
     
-- 
2.43.0


From 8b05bfd5794d5fa24327a87ec8ba93b6565dc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 104/219] fix: EnergyVAD.add_argparse_args imports str2bool

---
 hyperion/feats/energy_vad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 7a3c006..67179f6 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
-- 
2.43.0


From f134544c832ecd9142e3a3c72ac11ff049808a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 105/219] fix: FrameSelector.filter_args keeps tol_num_frames

---
 hyperion/feats/frame_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..77cea7f 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -66,7 +66,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
-- 
2.43.0


From 59bafb4149134c040c2d034b8e1924c709fb75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 106/219] fix: FrameSelector.select with numeric selector

---
 hyperion/feats/frame_selector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 77cea7f..7baa9f0 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -32,6 +32,7 @@ class FrameSelector(object):
         Returns:
           Feature matrix with selected frames.
         """
+        sel = np.asarray(sel).astype(bool, copy=False)
         num_frames = x.shape[0]
         num_frames_vad = sel.shape[0]
         if num_frames == num_frames_vad:
-- 
2.43.0


From 667c65b412ceb6683d59f5180a8768060b1bb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 107/219] fix: MeanVarianceNorm.filter_args without
 no_norm_mean

---
 hyperion/feats/feature_normalization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index c78dde5..dfbd2e4 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -230,8 +230,9 @@ class MeanVarianceNorm(object):
         neg_args2 = ('norm_mean',)
 
         for a,b in zip(neg_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From 7ef9c53404574fe394500a3c7fbc5f56c1f2d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 108/219] fix: variance normalization of constant features

---
 hyperion/feats/feature_normalization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index dfbd2e4..6084071 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -45,6 +45,7 @@ class MeanVarianceNorm(object):
 
         if self.norm_var:
             s_x = np.std(x, axis=0, keepdims=True)
+            s_x[s_x==0] = 1
             x = x/s_x
 
         return x
-- 
2.43.0


From 2dc9df3f54213e57e96de8dd0329e4db5bb7992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 109/219] fix: MFCC from log filter banks without energy

---
 hyperion/feats/mfcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..c2d9ea6 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
-- 
2.43.0


From 8eda0700e5ce081d317b651a38910e6fe6f30d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 110/219] fix: MFCC from fft keeps negative log-energy

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index c2d9ea6..55c9cd1 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -225,7 +225,7 @@ class MFCC(object):
             X = x
             F = np.abs(X)
             if self.use_energy:
-                logE = F[:,0]
+                logE = np.real(X[:,0])
         elif self._input_step == MFCCSteps.FFT_MAG:
             F = x
             if self.use_energy:
-- 
2.43.0


From 7d73707c6709ee9bae17269b1c7f3efe367ccc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 111/219] fix: compute-energy-vad program

---
 hyperion/bin/compute-energy-vad.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hyperion/bin/compute-energy-vad.py b/hyperion/bin/compute-energy-vad.py
index 03a1c60..e9313db 100755
--- a/hyperion/bin/compute-energy-vad.py
+++ b/hyperion/bin/compute-energy-vad.py
@@ -17,14 +17,13 @@ from six.moves import xrange
 
 from hyperion.hyp_defs import config_logger
 from hyperion.io import SequentialAudioReader as AR
-#from hyperion.io import SequentialDataReaderFactory as DRF
 from hyperion.io import DataWriterFactory as DWF
-from hyperion.feats import energy_vad
+from hyperion.feats.energy_vad import EnergyVAD
 
 def compute_vad(input_path, output_path,  **kwargs):
 
-    mfcc_args = EnergyVAD.filter_args(**kwargs)
-    mfcc = EnergVAD(**mfcc_args)
+    vad_args = EnergyVAD.filter_args(**kwargs)
+    vad = EnergyVAD(**vad_args)
     
     input_args = AR.filter_args(**kwargs)
     reader = AR(input_path, **input_args)
@@ -56,7 +55,7 @@ if __name__ == "__main__":
     parser.add_argument('--input', dest='input_path', required=True)
     parser.add_argument('--output', dest='output_path', required=True)
 
-    DRF.add_argparse_args(parser)
+    AR.add_argparse_args(parser)
     EnergyVAD.add_argparse_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int,
                         help='Verbose level')
-- 
2.43.0


From 750f33e7293389707273d4b5eafa298c8c621a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 112/219] fix: AudioReader accepts SegmentList objects

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index acf1b27..91718a0 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -44,7 +44,7 @@ class AudioReader(object):
             self.with_segments = False
         else:
             self.with_segments = True
-            if isinstance(file_path, SegmentList):
+            if isinstance(segments_path, SegmentList):
                 self.segments = segments_path
             else:
                 self.segments = SegmentList.load(segments_path, sep=' ', index_by_file=False)
-- 
2.43.0


From 0fc8daed3a52cbcf39513b3243d05f4429d7cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 113/219] fix: SequentialAudioReader reads all remaining
 segments

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 91718a0..0aeece3 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -220,7 +220,7 @@ class SequentialAudioReader(AudioReader):
           data: List of waveforms
         """
         if num_records == 0:
-            num_records = len(self.scp) - self.cur_item
+            num_records = (len(self.segments) if self.with_segments else len(self.scp)) - self.cur_item
 
         keys = []
         data = []
-- 
2.43.0


From 74213b15dd131a2550fc57193842fd8e780ce81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 114/219] fix: error message of segments outside of the
 recording

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 0aeece3..914db77 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -131,7 +131,7 @@ class AudioReader(object):
         s_beg = int(t_beg * fs_i)
         if s_beg >= num_samples_i:
             raise Exception('segment %s tbeg=%.2f (num_sample=%d) longer that wav file %s (num_samples=%d)' % (
-                key, tbeg, sbeg, file_id, num_samples_i))
+                segment['segment_id'], t_beg, s_beg, file_id, num_samples_i))
 
         s_end = int(t_end * fs_i)
         if s_end > num_samples_i or t_end < 0:
-- 
2.43.0


From 35cd67dc43176b7930df4ebe9bd0f8ecd972e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 115/219] fix: SequentialAudioReader.filter_args keeps
 wav_scale

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 914db77..7fa9e2d 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -251,7 +251,7 @@ class SequentialAudioReader(AudioReader):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('part_idx', 'num_parts')
+        valid_args = ('wav_scale', 'part_idx', 'num_parts')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 0aa20abd6f52023de5dccdead0c3fd721ed348de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 116/219] fix: w64 audio files

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 7fa9e2d..c6d2a28 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -20,7 +20,7 @@ from ..hyp_defs import float_cpu
 from ..utils import SCPList, SegmentList
 
 
-valid_ext = ['.wav', '.flac', '.ogg' , '.au', '.avr', '.caf', '.htk', '.iff', '.mat', '.mpc', '.oga', '.pvf', '.rf64', '.sd2', '.sds', '.sf', '.voc', 'w64', '.wve', '.xi']
+valid_ext = ['.wav', '.flac', '.ogg' , '.au', '.avr', '.caf', '.htk', '.iff', '.mat', '.mpc', '.oga', '.pvf', '.rf64', '.sd2', '.sds', '.sf', '.voc', '.w64', '.wve', '.xi']
 
 class AudioReader(object):
     """Class to read audio files from wav, flac or pipe
-- 
2.43.0


From 0ef81661dbb38332f79005e9feb4e30808d9ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 117/219] fix: constructors of score normalizations pass
 keyword arguments

---
 hyperion/score_norm/adapt_s_norm.py | 2 +-
 hyperion/score_norm/s_norm.py       | 2 +-
 hyperion/score_norm/score_norm.py   | 2 +-
 hyperion/score_norm/tz_norm.py      | 2 +-
 hyperion/score_norm/zt_norm.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..0448449 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..e3f7b05 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
-- 
2.43.0


From 429df4eab67985370dc67c6b4cfcb252e0030ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 118/219] fix: ZTNorm masks of cohort scores

---
 hyperion/score_norm/zt_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index e3f7b05..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From 93da986caca4f2a98400410b297a6a9e8d65897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 119/219] fix: ZNorm and TNorm with masks keep their inputs

---
 hyperion/score_norm/t_norm.py | 5 ++---
 hyperion/score_norm/z_norm.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..644cedd 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,10 +21,9 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
-            scores_coh_test[mask==False] = 0
             n_t = np.mean(mask, axis=0, keepdims=True)
-            mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
+            mu_t = np.mean(np.where(mask, scores_coh_test, 0), axis=0, keepdims=True)/n_t
+            s_t = np.sqrt(np.mean(np.where(mask, scores_coh_test - mu_t, 0)**2, axis=0, keepdims=True)/n_t)
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..35ed4d6 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,10 +22,9 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
-            scores_enr_coh[mask==False] = 0
             n_z = np.mean(mask, axis=1, keepdims=True)
-            mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
+            mu_z = np.mean(np.where(mask, scores_enr_coh, 0), axis=1, keepdims=True)/n_z
+            s_z = np.sqrt(np.mean(np.where(mask, scores_enr_coh - mu_z, 0)**2, axis=1, keepdims=True)/n_z)
 
         s_z[s_z<self.std_floor] = self.std_floor
         
-- 
2.43.0


From 4de02d95667f574667b1b4ba3ce20acbaeaaafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 120/219] fix: AdaptSNorm with masks

---
 hyperion/score_norm/adapt_s_norm.py | 57 +++++++++++++++++------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 0448449..7aa0dc4 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -33,49 +33,58 @@ class AdaptSNorm(ScoreNorm):
         else:
             nbest = self.nbest
 
-        if mask_coh_test is not None:
-            scores_coh_test[mask_coh_test == False] = 0
-        if mask_enr_coh is not None:
-            scores_enr_coh[mask_enr_coh == False] = 0
+        # masked scores are never among the best and have no weight in the statistics
+        rank_coh_test = scores_coh_test
+        rank_enr_coh = scores_enr_coh
+        masked = mask_coh_test is not None or mask_enr_coh is not None
+        if masked:
+            if mask_coh_test is None:
+                mask_coh_test = np.ones(scores_coh_test.shape, dtype=bool)
+            if mask_enr_coh is None:
+                mask_enr_coh = np.ones(scores_enr_coh.shape, dtype=bool)
+            mask_coh_test = np.asarray(mask_coh_test, dtype=bool)
+            mask_enr_coh = np.asarray(mask_enr_coh, dtype=bool)
+            rank_coh_test = np.where(mask_coh_test, scores_coh_test, -np.inf)
+            rank_enr_coh = np.where(mask_enr_coh, scores_enr_coh, -np.inf)
             
-        best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.flipud(np.argsort(rank_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[1]):
             best_idx_i = best_idx[:,i]
                 
-            mu_z = np.mean(scores_enr_coh[:, best_idx_i],
-                           axis=1, keepdims=True)
-
-            if mask_enr_coh is None:
+            if not masked:
+                mu_z = np.mean(scores_enr_coh[:, best_idx_i],
+                               axis=1, keepdims=True)
                 s_z = np.std(scores_enr_coh[:, best_idx_i],
                              axis=1, keepdims=True)
             else:
-                norm = np.mean(mask_enr_coh[:, best_idx_i],
-                               axis=1, keepdims=True)
-                mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
-                                      axis=1, keepdims=True)/norm - mu_z**2)
+                mask_i = mask_enr_coh[:, best_idx_i] & mask_coh_test[best_idx_i, i]
+                norm = np.mean(mask_i, axis=1, keepdims=True)
+                mu_z = np.mean(np.where(mask_i, scores_enr_coh[:, best_idx_i], 0),
+                               axis=1, keepdims=True)/norm
+                s_z = np.sqrt(np.mean(np.where(mask_i, scores_enr_coh[:, best_idx_i] - mu_z, 0)**2,
+                                      axis=1, keepdims=True)/norm)
 
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
-        best_idx = np.fliplr(np.argsort(scores_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.fliplr(np.argsort(rank_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
         scores_t_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[0]):
             best_idx_i = best_idx[i]
                 
-            mu_z = np.mean(scores_coh_test[best_idx_i,:],
-                           axis=0, keepdims=True)
-
-            if mask_coh_test is None:
+            if not masked:
+                mu_z = np.mean(scores_coh_test[best_idx_i,:],
+                               axis=0, keepdims=True)
                 s_z = np.std(scores_coh_test[best_idx_i,:],
                              axis=0, keepdims=True)
             else:
-                norm = np.mean(mask_coh_test[best_idx_i,:],
-                               axis=0, keepdims=True)
-                mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
-                                      axis=0, keepdims=True)/norm - mu_z**2)
+                mask_i = mask_coh_test[best_idx_i,:] & mask_enr_coh[i, best_idx_i][:,None]
+                norm = np.mean(mask_i, axis=0, keepdims=True)
+                mu_z = np.mean(np.where(mask_i, scores_coh_test[best_idx_i,:], 0),
+                               axis=0, keepdims=True)/norm
+                s_z = np.sqrt(np.mean(np.where(mask_i, scores_coh_test[best_idx_i,:] - mu_z, 0)**2,
+                                      axis=0, keepdims=True)/norm)
 
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
-- 
2.43.0


From 89154d3bd6d9409ebfa42ed3cd75a19df074d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 121/219] fix: AdaptSNorm applies std_floor

---
 hyperion/score_norm/adapt_s_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 7aa0dc4..1a3d8fb 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -65,6 +65,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(np.where(mask_i, scores_enr_coh[:, best_idx_i] - mu_z, 0)**2,
                                       axis=1, keepdims=True)/norm)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
@@ -86,6 +87,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(np.where(mask_i, scores_coh_test[best_idx_i,:] - mu_z, 0)**2,
                                       axis=0, keepdims=True)/norm)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
         
-- 
2.43.0


From 50eddc319122d9637edf8ee5e5884b350ab62490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 122/219] fix: save models in the current directory

---
 hyperion/hyp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..b4c7934 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -57,7 +57,7 @@ class HypModel(object):
     @abstractmethod
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir != '' and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
         with h5py.File(file_path,'w') as f:
             config=self.to_json()
-- 
2.43.0


From a6ea2488fe22b75ec7f71098fc1b1a683259fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 123/219] fix: load models with parameters that are not set

---
 hyperion/hyp_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index b4c7934..3687bfa 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -124,7 +124,8 @@ class HypModel(object):
         param_dict = {}
         for k in params:
             p_name = prefix + k
-            param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            # parameters that are None are not saved
+            param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k]) if p_name in f else None
         return param_dict
 
     
-- 
2.43.0


From 614c48a7c5fd13806da82af7c730f75900b26fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 124/219] fix: CentWhiten with diagonal whitening

---
 hyperion/transforms/cent_whiten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..4959ce5 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -32,7 +32,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
-- 
2.43.0


From a3ab39f2d68647f4aa3c6b880887531ab3faf08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 125/219] fix: load PCA, LDA and CentWhiten with their update
 flags

---
 hyperion/transforms/cent_whiten.py | 3 ++-
 hyperion/transforms/lda.py         | 3 ++-
 hyperion/transforms/pca.py         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 4959ce5..d6aba47 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -89,7 +89,8 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], update_mu=config['update_mu'],
+                   update_T=config['update_t'], name=config['name'])
 
     
     
diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..25f80fc 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,8 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], update_mu=config['update_mu'],
+                   update_T=config['update_t'], name=config['name'])
 
         
     # @classmethod
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..45a1316 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,8 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], update_mu=config['update_mu'],
+                   update_T=config['update_t'], name=config['name'])
     
 
     
-- 
2.43.0


From 27f27adcdc384e245f39fd6f759200fbf1278aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 126/219] fix: loading a transform list keeps the names of its
 members

---
 hyperion/pipeline/pipeline.py         | 5 ++++-
 hyperion/transforms/transform_list.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperion/pipeline/pipeline.py b/hyperion/pipeline/pipeline.py
index ab58940..ac0eff3 100644
--- a/hyperion/pipeline/pipeline.py
+++ b/hyperion/pipeline/pipeline.py
@@ -69,5 +69,8 @@ class Pipeline(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # the names in the file already have the prefix of the list
+        t_list = cls(transforms)
+        t_list.name = config['name']
+        return t_list
             
diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..53fffe3 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -82,5 +82,8 @@ class TransformList(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # the names in the file already have the prefix of the list
+        t_list = cls(transforms)
+        t_list.name = config['name']
+        return t_list
             
-- 
2.43.0


From 77b80a37321885200075cf91501f130cd3dfc5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 127/219] fix: SbSw keeps and loads its matrices

---
 hyperion/transforms/sb_sw.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
-- 
2.43.0


From 695071193dd2db135a54aa795df300dd12bf587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 128/219] fix: NAP.fit

---
 hyperion/transforms/nap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..f2e8904 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -27,16 +27,16 @@ class NAP(HypModel):
 
     
     def fit(self, x, U_dim, class_ids):
-        x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        xx = np.zeros(x.shape)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
             xx[idx, :] = (x[idx, :] - mu_i)/N
         xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+        _, s, Vt = la.svd(xx, full_matrices=False, overwrite_a=True)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
-- 
2.43.0


From d844d631db43b5db41ed0605ba5ebbb6384e2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 129/219] fix: Gaussianizer without max_vectors

---
 hyperion/transforms/gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..58ed0c3 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -50,7 +50,7 @@ class Gaussianizer(HypModel):
 
         x = np.zeros((1, x.shape[-1]), dtype=float_cpu())
 
-        if r.shape[0] > self.max_vectors:
+        if self.max_vectors is not None and r.shape[0] > self.max_vectors:
             index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)
             r = r[index, :]
 
-- 
2.43.0


From e9765fb7cd76a80996144d0a178948d0cef9a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 130/219] fix: LogisticRegression without priors

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..9e20cf2 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -162,7 +162,7 @@ class LogisticRegression(HypModel):
             self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors)/self.bias_scaling
 
 
             
-- 
2.43.0


From 0c48576848c97535e7f843ad151487af92bbc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 131/219] fix: load GaussCalibration

---
 hyperion/calibration/gauss_calibration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..d07a9b2 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -63,6 +63,12 @@ class GaussCalibration(HypModel):
         return self.a*x+self.b
 
 
+    def get_config(self):
+        config = {'prior': self.prior}
+        base_config = super(GaussCalibration, self).get_config()
+        return dict(list(base_config.items()) + list(config.items()))
+
+
     def save_params(self, f):
         params = {'mu1': self.mu1,
                   'mu2': self.mu2,
@@ -75,6 +81,7 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'],
+                   prior=config['prior'], name=config['name'])
 
     
-- 
2.43.0


From a9f08682f9ffbe782459029a8b0dea010f2e3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 132/219] fix: load Normal and GMM

---
 hyperion/pdfs/core/normal.py           | 2 +-
 hyperion/pdfs/core/normal_diag_cov.py  | 2 +-
 hyperion/pdfs/mixtures/gmm.py          | 2 +-
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..110ce6e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -207,7 +207,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..7575143 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..b634da9 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -250,7 +250,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..6d1f4a1 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -249,7 +249,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From b4813618c5e8be1bc72d392ab9b4f12f97dfdc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 133/219] fix: save and load KMeans

---
 hyperion/clustering/kmeans.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hyperion/clustering/kmeans.py b/hyperion/clustering/kmeans.py
index ce09a4e..9bd5e47 100644
--- a/hyperion/clustering/kmeans.py
+++ b/hyperion/clustering/kmeans.py
@@ -72,5 +72,23 @@ class KMeans(HypModel):
 
         index = np.argmin(err2, axis=-1)
         return index, err2[np.arange(x.shape[0]),index]
+
+
+    def get_config(self):
+        config = {'num_clusters': self.num_clusters,
+                  'rtol': self.rtol}
+        base_config = super(KMeans, self).get_config()
+        return dict(list(base_config.items()) + list(config.items()))
+
+
+    def save_params(self, f):
+        self._save_params_from_dict(f, {'mu': self.mu})
+
+
+    @classmethod
+    def load_params(cls, f, config):
+        params = cls._load_params_to_dict(f, config['name'], ['mu'])
+        return cls(num_clusters=config['num_clusters'], mu=params['mu'],
+                   rtol=config['rtol'], name=config['name'])
         
         
-- 
2.43.0


From 7affb89ca3351cd73ba9a47556dcbd783b82428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 134/219] fix: CentWhitenUP.predict keeps its input

---
 hyperion/transforms/cent_whiten_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..cb14cec 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -28,7 +28,7 @@ class CentWhitenUP(CentWhiten):
     def predict(self, x):
         x_dim = int(x.shape[-1]/2)
         m_x = x[:,:x_dim]
-        s2_x = x[:,x_dim:]
+        s2_x = np.copy(x[:,x_dim:])
         m_x = super(CentWhitenUP, self).predict(m_x)
         for i in xrange(x.shape[0]):
             s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
-- 
2.43.0


From 8a25da9bf53f55288738a9762813b3efdc08be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 135/219] fix: TorchModel.save

---
 hyperion/torch/torch_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/torch_model.py b/hyperion/torch/torch_model.py
index bb3e19e..6ff3291 100644
--- a/hyperion/torch/torch_model.py
+++ b/hyperion/torch/torch_model.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import os
+
 import torch
 import torch.nn as nn
 
@@ -22,12 +24,12 @@ class TorchModel(nn.Module):
 
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir != '' and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
 
         config = self.get_config()
         torch.save({'config': self.get_config(),
-                    'model_state_dict': self.state_dict()})
+                    'model_state_dict': self.state_dict()}, file_path)
 
 
     def get_reg_loss(self):
-- 
2.43.0


From 2c070573d171daca82013dca83aa59f804cc5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 136/219] fix: ModelLoader

---
 hyperion/model_loader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hyperion/model_loader.py b/hyperion/model_loader.py
index 165df87..ceee2f5 100644
--- a/hyperion/model_loader.py
+++ b/hyperion/model_loader.py
@@ -17,19 +17,27 @@ class ModelLoader(object):
     @staticmethod
     def get_object():
         obj_dict={ 'DiagNormal': DiagNormal,
+                   'NormalDiagCov': NormalDiagCov,
                    'Normal': Normal,
                    'DiagGMM': DiagGMM,
+                   'GMMDiagCov': GMMDiagCov,
+                   'GMMTiedDiagCov': GMMTiedDiagCov,
                    'GMM': GMM,
                    'FRPLDA': FRPLDA,
                    'SPLDA': SPLDA,
+                   'PLDA': PLDA,
                    'CentWhiten': CentWhiten,
+                   'CentWhitenUP': CentWhitenUP,
                    'LNorm': LNorm,
+                   'LNormUP': LNormUP,
                    'PCA': PCA,
                    'LDA': LDA,
+                   'NDA': NDA,
                    'NAP': NAP,
                    'SbSw': SbSw,
                    'MVN': MVN,
-                   'TransformList', TransformList}
+                   'Gaussianizer': Gaussianizer,
+                   'TransformList': TransformList}
         return obj_dict
         
     
-- 
2.43.0


From a18f3f1f26b72266f861c3c7b69829951d1bb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 137/219] fix: EM of GMM uses the updated component weights

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 1 +
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 6d1f4a1..b3c26d4 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -166,6 +166,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..8e8e484 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -99,6 +99,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
-- 
2.43.0


From 57cba82bceff3a1b7de0f5303e4a3f35fb369fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 138/219] fix: GMM.Mstep updates the component weights

---
 hyperion/pdfs/mixtures/gmm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index b634da9..3b0fabd 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -188,6 +188,10 @@ class GMM(ExpFamilyMixture):
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            self.pi = N/np.sum(N)
+            self._log_pi = None
+
         self._compute_nat_params()
 
 
-- 
2.43.0


From 28e9f5748461ce474fe0d537ffdbc0d5c5efef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 139/219] fix: GMM.Mstep keeps the precision matrices it was
 given

---
 hyperion/pdfs/mixtures/gmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 3b0fabd..a83789e 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -180,6 +180,7 @@ class GMM(ExpFamilyMixture):
                 C[k] = vec2symmat(S[k]/N[k])
                 C[k] -= np.outer(self.mu[k],self.mu[k])
             Sfloor = self.var_floor*np.mean(C, axis=0)
+            self.Lambda = np.zeros_like(C)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             for k in xrange(self.num_comp):
                 C[k] = fullcov_varfloor(C[k], cholfloor, F_is_chol=True)
-- 
2.43.0


From 81c6008e20d1bf0209ae32a4b3fe1bc2ff32dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 140/219] fix: variances of Gaussians when the means are not
 updated

---
 hyperion/pdfs/core/normal.py                | 3 ++-
 hyperion/pdfs/core/normal_diag_cov.py       | 2 +-
 hyperion/pdfs/mixtures/gmm.py               | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 110ce6e..c007614 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N, self.mu)
+            S += np.outer(self.mu,self.mu) - Fmu - Fmu.T
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 7575143..82be5bc 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N - 2*self.mu*F/N + self.mu**2
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index a83789e..3e21609 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -178,7 +178,8 @@ class GMM(ExpFamilyMixture):
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
                 C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
+                Fmu = np.outer(F[k]/N[k], self.mu[k])
+                C[k] += np.outer(self.mu[k],self.mu[k]) - Fmu - Fmu.T
             Sfloor = self.var_floor*np.mean(C, axis=0)
             self.Lambda = np.zeros_like(C)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index b3c26d4..4f8205a 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -151,7 +151,7 @@ class GMMDiagCov(ExpFamilyMixture):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 8e8e484..1d83646 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -83,7 +83,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
-- 
2.43.0


From d08c2678068b251808cec766bde302d5fdf6946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 141/219] fix: components with few samples in GMM.Mstep

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      |  9 ++++-----
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 10 ++++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 4f8205a..c82327f 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -146,25 +146,24 @@ class GMMDiagCov(ExpFamilyMixture):
     def Mstep(self, N, u_x):
 
         F, S = self.unstack_suff_stats(u_x)
+        N0 = N < self.min_N
 
         if self.update_mu:
             self.mu = F/N[:, None]
+            self.mu[N0] = 0
 
         if self.update_Lambda:
             S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
+            S[N0] = 1
             self.Lambda=1/S
             self._Sigma = S
             self._cholLambda = None
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
-            if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+            N = np.where(N0, 0, N)
             self.pi = N/np.sum(N)
             self._log_pi = None
             
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 1d83646..7bb354b 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -78,26 +78,24 @@ class GMMTiedDiagCov(GMMDiagCov):
     def Mstep(self, N, u_x):
 
         F, S = self.unstack_suff_stats(u_x)
+        N0 = N < self.min_N
 
         if self.update_mu:
             self.mu = F/N[:, None]
+            self.mu[N0] = 0
 
         if self.update_Lambda:
             S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
-            Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
+            Spool = np.sum(N[~N0, None]*S[~N0], axis=0)/np.sum(N[~N0])
             self.Lambda=1/Spool
             self._Sigma = Spool
             self._cholLambda = None
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
-            if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+            N = np.where(N0, 0, N)
             self.pi = N/np.sum(N)
             self._log_pi = None
             
-- 
2.43.0


From 1960745bb80f8d4973e428291a1194f79992c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 142/219] fix: accumulating given sufficient statistics keeps
 them

---
 hyperion/pdfs/core/exp_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..e4ebb0a 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = sample_weight[:, None] * u_x
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
-- 
2.43.0


From 1d738f8e4632d8b97a97a9cdf05f2ef5b1660e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 143/219] fix: sums of sufficient statistics

---
 hyperion/pdfs/core/exp_family.py             | 8 ++++----
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index e4ebb0a..bf02d3a 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..f50c1d3 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -407,11 +407,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
-- 
2.43.0


From 864cd419d7881bfc59e36cd1ab805e432ae3ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 144/219] fix: sufficient statistics of sliding windows

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index f50c1d3..d756ba9 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -300,7 +300,9 @@ class ExpFamilyMixture(PDF):
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
         if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
+            N, acc_u_x = self._accum_suff_stats_1batch(x[:frame_length], None if u_x is None else u_x[:frame_length],
+                                                       None if sample_weight is None else sample_weight[:frame_length])
+            return N[None], acc_u_x[None]
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -336,9 +338,9 @@ class ExpFamilyMixture(PDF):
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
         if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
+            return self._accum_suff_stats_sorttime_1batch(x, frame_length, frame_shift, sample_weight=sample_weight)
 
-        num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
+        num_segments_per_batch = max(1, np.floor((batch_size-frame_length)/frame_shift + 1))
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
         batch_shift = int(num_segments_per_batch*frame_shift)
 
@@ -347,7 +349,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
-- 
2.43.0


From 1e09db04b7e99b15fa40e8206cc1babf9ca6769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 145/219] fix: normalised sufficient statistics

---
 hyperion/pdfs/core/normal.py           |  8 ++++----
 hyperion/pdfs/mixtures/gmm.py          | 15 ++++++++-------
 hyperion/pdfs/mixtures/gmm_diag_cov.py |  4 ++--
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index c007614..e642ba1 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 3e21609..ffe367e 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,16 +153,17 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S_norm = np.zeros_like(S)
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
-                S[k] = symmat2vec(SS)
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
+                S_norm[k] = symmat2vec(SS)
         if return_order2:
-            return N, self.stack_suff_stats(F_norm, S)
+            return N, self.stack_suff_stats(F_norm, S_norm)
         return N, F_norm
 
     
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index c82327f..8021ea7 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,10 +132,10 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
-- 
2.43.0


From 95cf0ddaac7c85fca4542ab68b862a992acef605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 146/219] fix: splitting the components of GMM

---
 hyperion/pdfs/mixtures/gmm.py               | 8 +++++---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 6 ++++--
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index ffe367e..e44842b 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -208,7 +208,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
@@ -219,8 +219,10 @@ class GMM(ExpFamilyMixture):
                     std_dev = np.sum(v*factor, axis=1)
                     mu[K*g+k] += std_dev
 
-        config = self.get_config()
-        return GMM(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMM(pi=pi, mu=mu, Lambda=Lambda,
+                   x_dim=self.x_dim, var_floor=self.var_floor, min_N=self.min_N,
+                   update_pi=self.update_pi, update_mu=self.update_mu,
+                   update_Lambda=self.update_Lambda, name=self.name)
     
 
         
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 8021ea7..c73c22c 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -188,8 +188,10 @@ class GMMDiagCov(ExpFamilyMixture):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
-        return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda,
+                          x_dim=self.x_dim, var_floor=self.var_floor, min_N=self.min_N,
+                          update_pi=self.update_pi, update_mu=self.update_mu,
+                          update_Lambda=self.update_Lambda, name=self.name)
         
 
     
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 7bb354b..7846b06 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -119,8 +119,10 @@ class GMMTiedDiagCov(GMMDiagCov):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
-        return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
+        return GMMTiedDiagCov(pi=pi, mu=mu, Lambda=self.Lambda,
+                              x_dim=self.x_dim, var_floor=self.var_floor, min_N=self.min_N,
+                              update_pi=self.update_pi, update_mu=self.update_mu,
+                              update_Lambda=self.update_Lambda, name=self.name)
         
 
     
-- 
2.43.0


From d843567184f580420cd1bcdd013738dcbe1817b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 147/219] fix: GMMTiedDiagCov with one component

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 7846b06..528de88 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -56,7 +56,7 @@ class GMMTiedDiagCov(GMMDiagCov):
         if num_comp==1:
             self.pi=np.array([1], dtype=float_cpu())
             self.mu=np.mean(x, axis=0, keepdims=True)
-            self.Lambda=1/np.std(x, axis=0, keepdims=True)**2
+            self.Lambda=1/np.std(x, axis=0)**2
             return
 
         kmeans = KMeans(num_clusters=num_comp)
-- 
2.43.0


From 9367d43f4dc2a5dac893a1429115c65faec94f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 148/219] fix: log-likelihood of the best components

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index d756ba9..fb579d2 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -472,10 +472,9 @@ class ExpFamilyMixture(PDF):
         if nbest_mode == 'master':
             assert(isinstance(nbest, int))
             llk_k = np.dot(u_x, self.eta.T) - self.A + self.log_pi
-            nbest = np.argsort(llk_k)[:-(nbest+1):-1]
-            llk_k = llk_k[nbest]
+            llk_k = np.sort(llk_k, axis=-1)[:,-nbest:]
         else:
-            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A + self.log_pi
+            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A[nbest] + self.log_pi[nbest]
         llk = logsumexp(llk_k)
         return self.log_h(x) + llk
         
-- 
2.43.0


From f78c8ae0277b552b4a38dc73fb23d0758daa12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 149/219] fix: validation objective per sample of mixtures

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index fb579d2..4b460bc 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -84,7 +84,7 @@ class ExpFamilyMixture(PDF):
         if x_val is None:
             return elbo, elbo/x.shape[0]
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x_val.shape[0]
 
 
         
-- 
2.43.0


From 0b227aef147ddc36a34045555fc203240fbab6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 150/219] fix: precision of the sufficient statistics of
 sliding windows

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 4b460bc..170f89d 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -313,20 +313,12 @@ class ExpFamilyMixture(PDF):
         N = np.zeros((num_segments, K), float_cpu())
         acc_u_x = np.zeros((num_segments, K, self.eta.shape[1]), float_cpu())
 
-        start1 = int(frame_shift-1)
-        end1 = int((num_segments-1) * frame_shift)
-        start2 = int(start1 + frame_length)
-        end2 = int(end1 + frame_length)
-        cum_N = np.cumsum(z, axis=0)
-        N[0] = cum_N[frame_length-1]
-        N[1:] = (cum_N[start2:end2:frame_shift] -
-                 cum_N[start1:end1:frame_shift])
-        
-        for k in xrange(K):
-            cum_u_x_k = np.cumsum(z[:,k][:,None] * u_x, axis=0)
-            acc_u_x[0,k] = cum_u_x_k[frame_length-1]
-            acc_u_x[1:,k] = (cum_u_x_k[start2:end2:frame_shift] -
-                               cum_u_x_k[start1:end1:frame_shift])
+        # differences of cumulative sums would lose the small values
+        for s in xrange(num_segments):
+            z_s = z[s*frame_shift:s*frame_shift+frame_length]
+            u_x_s = u_x[s*frame_shift:s*frame_shift+frame_length]
+            N[s] = np.sum(z_s, axis=0)
+            acc_u_x[s] = np.dot(z_s.T, u_x_s)
 
         return N, acc_u_x
 
-- 
2.43.0


From ca4c61c0994b7bf1f999fa3bbc2624b5a249a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 151/219] fix: within-class covariance in the E-step of FRPLDA

---
 hyperion/pdfs/plda/frplda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..be027c0 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -147,6 +147,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
-- 
2.43.0


From f2a0b2468b053c026d210d70a9df2120b3fd6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 152/219] fix: between-class covariance of FRPLDA when the mean
 is not updated

---
 hyperion/pdfs/plda/frplda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index be027c0..97e98f2 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -222,7 +222,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
-- 
2.43.0


From c501005c2646c90368a8b3152d0b7ba64dcc730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 153/219] fix: centering of statistics in SPLDA.compute_py_g_x

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..5327dd2 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - np.outer(N, self.mu)
         
         M = F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From 36caedfa064ce30423d0ffad2ceb251eb309f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 154/219] fix: centering of statistics in PLDA.compute_py_g_x

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..40133fb 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - np.outer(N, self.mu)
         
         M=F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From faaf2f6d2b36a16aef405f42a1c1714e15956b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 155/219] fix: initialize SPLDA with diagonal covariance

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 5327dd2..1d6582f 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
-- 
2.43.0


From 9213d487f5b673970f72581f313765697a468195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 156/219] fix: SPLDA.llr_NvsM_book

---
 hyperion/pdfs/plda/splda.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 1d6582f..047d76c 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -328,14 +328,14 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -373,11 +373,11 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
-                
 
 
     def sample(self, num_classes, num_samples_per_class, rng=None, seed=1024):
-- 
2.43.0


From 6f3760eea1265e0032efdec9f777f7c00e333eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 157/219] fix: PLDA.llr_NvsM_book

---
 hyperion/pdfs/plda/plda.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 40133fb..7440003 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -470,18 +470,18 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -519,11 +519,11 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
-                
 
 
     def sample(self, num_classes, num_samples_per_class, rng=None, seed=1024):
-- 
2.43.0


From 9457fb66c019215d9105eae08c8b8c689b4aed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 158/219] fix: channel statistics in the E-step of PLDA

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 7440003..09868ed 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
-- 
2.43.0


From 61399c148b9ecc165614d2e2124fd8a211ec0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 159/219] fix: PLDA M-step when some parameters are not updated

---
 hyperion/pdfs/plda/plda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 09868ed..6ca9d5d 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
-- 
2.43.0


From cadfe97cf3a08a1a426d314db3a52493c76e46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 160/219] fix: scores of PLDA after weighted_avg_params

---
 hyperion/pdfs/plda/plda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 6ca9d5d..1371dab 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -572,6 +572,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
-- 
2.43.0


From 6b88d01d450d1ff4f118bb2c357a2a36cad564fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 161/219] fix: SPLDA minimum divergence when the mean is not
 updated

---
 hyperion/pdfs/plda/splda.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 047d76c..7c54b9c 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -241,7 +241,9 @@ class SPLDA(PLDABase):
             self.mu += np.dot(mu_y, self.V)
 
         if self.update_V:
-            Cov_y = Py/M - np.outer(mu_y, mu_y)
+            Cov_y = Py/M
+            if self.update_mu:
+                Cov_y = Cov_y - np.outer(mu_y, mu_y)
             chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
             self.V = np.dot(chol_Cov_y, self.V)
 
-- 
2.43.0


From 040e1f715f0f7cc171f641a098b0482e19b25285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 162/219] fix: PLDA.log_probx_g_y

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1371dab..8d055e9 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -402,7 +402,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
-- 
2.43.0


From 61007350fb8945e3126d9c622da975fd81fca2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 163/219] fix: residual variance of PLDA.sample

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 8d055e9..3392d29 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -533,7 +533,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
-- 
2.43.0


From 57835cb716331d044211b2587f280b7767f5af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 164/219] fix: PLDA statistics keep the posteriors they are
 given

---
 hyperion/pdfs/plda/plda_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..fb29827 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -224,7 +224,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = scal_factor*p_theta
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
-- 
2.43.0


From 4d4093f9adb8ad7a8a131e298fd0d472b76afd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 165/219] fix: PLDA training with sample weights

---
 hyperion/pdfs/plda/plda_base.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index fb29827..45ff86f 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -48,17 +48,17 @@ class PLDABase(PDF):
         
         assert(not(class_ids is  None and ptheta is None))
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert(not(class_ids_val is  None and ptheta_val is None))        
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
 
         if not self.is_init:
@@ -125,17 +125,17 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
@@ -174,24 +174,24 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
         if x0 is not None:
             assert not(class_ids0 is  None and ptheta0 is None)
             if class_ids0 is None:
-                D0 = self.compute_stats_soft(x0, ptheta0)
+                D0 = self.compute_stats_soft(x0, ptheta0, sample_weight0)
             else:
-                D0 = self.compute_stats_hard(x0, class_ids0)
+                D0 = self.compute_stats_hard(x0, class_ids0, sample_weight0)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
-- 
2.43.0


From fc3695a9cacc0004ee3071597ec16d97ee7aacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 166/219] fix: PLDA minimum divergence when some parameters are
 not updated

---
 hyperion/pdfs/plda/plda.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 3392d29..bbf351c 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -345,14 +345,20 @@ class PLDA(PLDABase):
             
     def MstepMD(self, stats):
         N, M, F, S, _, y_acc, Ry1, Ry, Cy, Py, Rz1, Rz, Ryz, Cz = stats
-        mu_y = y_acc/M
+        # offsets that mu does not take in and regressions that V does not take in are zero
+        mu_y = y_acc/M if self.update_mu else np.zeros_like(y_acc)
         Cov_y = Py/M - np.outer(mu_y, mu_y)
         chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
 
-        R = Ry - np.outer(Ry1,Ry1)/N
-        mult_iR = invert_pdmat(R, right_inv=True)[0]
-        H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
-        mu_z = (Rz1 - np.dot(Ry1, H.T))/N
+        if not self.update_V:
+            H = np.zeros_like(Ryz.T)
+        elif self.update_mu:
+            R = Ry - np.outer(Ry1,Ry1)/N
+            mult_iR = invert_pdmat(R, right_inv=True)[0]
+            H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        else:
+            H = invert_pdmat(Ry, right_inv=True)[0](Ryz.T)
+        mu_z = (Rz1 - np.dot(Ry1, H.T))/N if self.update_mu else np.zeros_like(Rz1)
         RzyH = np.dot(Ryz.T, H.T)
         Cov_z = ((Rz - RzyH - RzyH.T + np.dot(np.dot(H,Ry), H.T))/N -
                  np.outer(mu_z, mu_z))
-- 
2.43.0


From 75f13bc6b31592da160e09481c2fb5e2c8ab2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:46 +0000
Subject: [PATCH 167/219] fix: PLDA training options

---
 hyperion/helpers/plda_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..a5deb1b 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,7 +65,7 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
+        for a,b in zip(neg_args1, neg_args2):
             d[b] = not d[a]
             del d[a]
 
@@ -95,7 +95,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
-- 
2.43.0


From 7608ae76d57691b7594499eaa647f8b8b9931b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 168/219] fix: initialize FRPLDA with diagonal covariance

---
 hyperion/pdfs/plda/frplda.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 97e98f2..ea39b97 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -70,7 +70,10 @@ class FRPLDA(PLDABase):
         iW = C/N_tot
 
         B = invert_pdmat(iB, return_inv=True)[-1]
-        W = invert_pdmat(iW, return_inv=True)[-1]
+        if self.fullcov_W:
+            W = invert_pdmat(iW, return_inv=True)[-1]
+        else:
+            W = np.diag(1/np.diag(iW))
 
         self.mu = mu
         self.B = B
-- 
2.43.0


From 4f9479879e36d9b99310a88e100d10410062f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 169/219] fix: division into parts of the trials that are read

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/tracking_data_reader.py         | 2 +-
 hyperion/helpers/trial_data_reader.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 47db46f..620027e 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -38,7 +38,7 @@ class TrackingDataReader(object):
 
         segments = ExtSegmentList.load(segments_file)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             segments = segments.filter(ndx.seg_set)
         
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
-- 
2.43.0


From 5ea6b538814534c1acf3eecd80466326d214be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 170/219] fix: type of the model in eval-plda-nvs1

---
 hyperion/bin/eval-plda-nvs1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index 5da9200..8efece9 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -28,7 +28,7 @@ from hyperion.transforms import TransformList
 
 def eval_plda(iv_file, ndx_file, enroll_file, test_file,
               preproc_file,
-              model_file, score_file, pool_method, **kwargs):
+              model_file, score_file, plda_type, pool_method, **kwargs):
     
     if preproc_file is not None:
         preproc = TransformList.load(preproc_file)
-- 
2.43.0


From 858a4b9aac36b800d55f299f0c7d04f5162999fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 171/219] fix: posteriors of logistic regression without priors

---
 hyperion/classifiers/logistic_regression.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 9e20cf2..15afac8 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -126,10 +126,13 @@ class LogisticRegression(HypModel):
         
         y = np.dot(x, self.A) + self.b
 
+        if eval_type in ('log-post', 'post') and self.priors is not None:
+            y = y + np.log(self.priors)
+
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y, axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y)
         
         return y
         
-- 
2.43.0


From a79fda7e1aaac811f1bdddeea7cf3d4bb0aea5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 172/219] fix: sign of the log-posteriors of LinearSVMC

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..cb423b5 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,7 +77,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.log(1+np.exp(-s))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-- 
2.43.0


From aef5fe989357f30f59415010aa6dca6f4fbd1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 173/219] fix: order of the arguments in TrackingDataReader

---
 hyperion/helpers/tracking_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 620027e..df61373 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -72,7 +72,7 @@ class TrackingDataReader(object):
     def _read_single_utt(self, key):
         ndx = self.ndx.filter(self.ndx.model_set, [key])
         ndx_seg = ndx.apply_segmentation_to_test(self.segments)
-        enroll, ndx_seg = TrialNdx.parse_eval_set(self.enroll, ndx_seg)
+        ndx_seg, enroll = TrialNdx.parse_eval_set(ndx_seg, self.enroll)
         segments = self.segments.filter([key])
         return enroll, ndx_seg, segments
 
-- 
2.43.0


From 9d085afaca91f388e602b195fb6de6370d0800cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 174/219] fix: eval-score-norm

---
 hyperion/bin/eval-score-norm.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index c54ec4f..e08ddd1 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.score_norm import *
-from hyperion.utils.trial_scroes import TrialScores
+from hyperion.utils.trial_scores import TrialScores
 from hyperion.utils.trial_ndx import TrialNdx
 
 
@@ -33,43 +33,43 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
     scores_coh_coh = None
     
     if enr_coh_file is not None:
-        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = TrialScores.load(enr_coh_file)
+        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
 
     if coh_test_file is not None:
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = TrialScores.load(coh_test_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
         assert scores_enr_coh is not None and scores_coh_test is not None
-        ndx = TrialNdx(scores_coh_test.model_set, scores_enr_coh.seg_set)
         scores_coh_coh = TrialScores.load(coh_coh_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores_enr_coh.seg_set)
         scores_coh_coh = scores_coh_coh.align_with_ndx(ndx)
 
     return scores, scores_enr_coh, scores_coh_test, scores_coh_coh
 
 
 
-def score_norm(score_file, ouput_file, norm_type,
+def eval_score_norm(score_file, output_file, norm_type,
                enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
                adapt_coh=None):
 
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
         score_file, enr_coh_file, coh_test_file, coh_coh_file)
 
-    if norm_type == 't_norm':
+    if norm_type == 't-norm':
         assert scores_coh_test is not None
         norm = TNorm()
         scores_norm = norm.predict(scores.scores, scores_coh_test.scores)
 
-    if norm_type == 'z_norm':
+    if norm_type == 'z-norm':
         assert scores_enr_coh is not None
         norm = ZNorm()
         scores_norm = norm.predict(scores.scores, scores_enr_coh.scores)
 
-    if norm_type == 'zt_norm':
+    if norm_type == 'zt-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = ZTNorm()
@@ -78,17 +78,15 @@ def score_norm(score_file, ouput_file, norm_type,
                                    scores_enr_coh.scores,
                                    scores_coh_coh.scores)
 
-    if norm_type == 's_norm':
-        assert(scores_enr_coh is not None and scores_coh_test is not None
-               and scores_coh_coh is not None)
-        norm = SNorm()
+    if norm_type == 's-norm':
+        assert scores_enr_coh is not None and scores_coh_test is not None
+        norm = SNorm() if adapt_coh is None else AdaptSNorm(nbest=adapt_coh)
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
-                                   scores_enr_coh.scores,
-                                   scores_coh_coh.scores)
+                                   scores_enr_coh.scores)
 
     scores.scores = scores_norm
-    scores.save(ouput_file)
+    scores.save(output_file)
     
 
     
-- 
2.43.0


From 5e622171618acc13a31172822da689959781c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:41 +0000
Subject: [PATCH 175/219] fix: cohort of adaptive normalization in
 eval-score-norm

---
 hyperion/bin/eval-score-norm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index e08ddd1..163ca03 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -80,7 +80,12 @@ def eval_score_norm(score_file, output_file, norm_type,
 
     if norm_type == 's-norm':
         assert scores_enr_coh is not None and scores_coh_test is not None
-        norm = SNorm() if adapt_coh is None else AdaptSNorm(nbest=adapt_coh)
+        norm = SNorm()
+        if adapt_coh is not None:
+            # the best cohort models of a segment select among the cohort segments
+            ndx = TrialNdx(scores.model_set, scores_coh_test.model_set)
+            scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
+            norm = AdaptSNorm(nbest=adapt_coh)
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
                                    scores_enr_coh.scores)
-- 
2.43.0


From cf4521188b14394ce93287a502dc28ff226e3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:41 +0000
Subject: [PATCH 176/219] fix: format in which TrialNdx is saved

---
 hyperion/utils/trial_ndx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index 9deacb8..e289552 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -61,10 +61,10 @@ class TrialNdx(object):
           file_path: File to write the list.
         """
         file_base, file_ext = path.splitext(file_path)
-        if file_ext == '.txt' :
-            self.save_txt(file_path)
-        else:
+        if file_ext == '.h5' or file_ext == '.hdf5' :
             self.save_h5(file_path)
+        else:
+            self.save_txt(file_path)
 
             
     def save_h5(self, file_path):
-- 
2.43.0


From f4e0a9928bfcb9dbd6ec37fa4549d395e6933f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 177/219] fix: transforms did not export NSbSw, which train-nda
 imports

---
 hyperion/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/__init__.py b/hyperion/transforms/__init__.py
index d38753d..3cc1260 100644
--- a/hyperion/transforms/__init__.py
+++ b/hyperion/transforms/__init__.py
@@ -6,7 +6,7 @@ from __future__ import absolute_import
 
 from .cent_whiten import CentWhiten
 from .lnorm import LNorm
-from .sb_sw import SbSw
+from .sb_sw import SbSw, NSbSw
 from .pca import PCA
 from .lda import LDA
 from .nda import NDA
-- 
2.43.0


From b677bd0d2d9fe959fa4ff38aac60a6773d5cb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 178/219] fix: train-nda measured its output with the default
 K, failing with classes of less than 10 vectors

---
 hyperion/bin/train-nda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 157e7f3..518b794 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -49,7 +49,7 @@ def train_nda(iv_file, train_list, preproc_file,
     
     x = model.predict(x)
 
-    s_mat = NSbSw()
+    s_mat = NSbSw(K=K, alpha=alpha)
     s_mat.fit(x, class_ids)
     logging.debug(s_mat.Sb[:4,:4])
     logging.debug(s_mat.Sw[:4,:4])
-- 
2.43.0


From 0aba58273026b6ff1e299b1d3228845f9148363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 179/219] fix: train-lda used args.verbose without defining the
 option

---
 hyperion/bin/train-lda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index da53891..584b3e4 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -82,6 +82,8 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='lda')
+    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
+
     args=parser.parse_args()
     config_logger(args.verbose)
     del args.verbose
-- 
2.43.0


From a23bf283b788c62c83474d516f5d2cf694b0af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 180/219] fix: train-cw took the path of the input model as its
 mean

---
 hyperion/bin/train-cw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index 9128e20..9d0e487 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNorm.load(input_path)
         else:
-            return CentWhiten(input_path)
+            return CentWhiten.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-- 
2.43.0


From 1ae5fd29f0e1544eeb426446f90f2d5467d9d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 181/219] fix: train-cw-up took the path of the input model as
 its mean

---
 hyperion/bin/train-cw-up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index d66976f..7127715 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNormUP.load(input_path)
         else:
-            return CentWhitenUP(input_path)
+            return CentWhitenUP.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-- 
2.43.0


From 1b2d974bca3c3e862d85fb7029864fe47405edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 182/219] fix: train-gaussianizer looked for an undefined name
 in lists of transforms

---
 hyperion/bin/train-gaussianizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 22323f0..c83848c 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -24,10 +24,10 @@ from hyperion.pdfs.core import Normal
 from hyperion.transforms import TransformList, Gaussianizer
 
 
-def load_model(input_path, **kwargs):
+def load_model(input_path, name, **kwargs):
 
     if input_path is None:
-        return Gaussianizer(**kwargs)
+        return Gaussianizer(name=name, **kwargs)
 
     try:
         return Gaussianizer.load(input_path)
-- 
2.43.0


From f93701d3a2c35ee414b9d6fdbd7accade95e37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 183/219] fix: --update-mu and --update-t took any value as
 true

---
 hyperion/transforms/cent_whiten.py | 5 +++--
 hyperion/transforms/pca.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index d6aba47..a230d72 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -14,6 +14,7 @@ import scipy.linalg as la
 
 from ..hyp_model import HypModel
 from ..pdfs import Normal
+from ..utils.misc import str2bool
 
 class CentWhiten(HypModel):
     """Class to do centering and whitening of i-vectors.
@@ -133,11 +134,11 @@ class CentWhiten(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
 
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
 
         parser.add_argument('--name', dest='name', default='lnorm')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 45a1316..26d9807 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -14,6 +14,7 @@ import scipy.linalg as la
 
 from ..hyp_model import HypModel
 from ..pdfs import Normal
+from ..utils.misc import str2bool
 
 
 class PCA(HypModel):
@@ -128,10 +129,10 @@ class PCA(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
         parser.add_argument(p1+'pca-dim', dest=(p2+'pca_dim'), default=None,
                             type=int,
-- 
2.43.0


From d8593f255f9e28140d903cf3db79c504e71c9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 184/219] fix: PCA.fit ignored sample_weight

---
 hyperion/transforms/pca.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 26d9807..2863d4c 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -40,9 +40,12 @@ class PCA(HypModel):
     def fit(self, x=None, sample_weight=None, mu=None, C=None):
         
         if x is not None:
-            mu = np.mean(x, axis=0)
+            mu = np.average(x, axis=0, weights=sample_weight)
             delta = x - mu
-            C = np.dot(delta.T, delta)/x.shape[0]
+            if sample_weight is None:
+                C = np.dot(delta.T, delta)/x.shape[0]
+            else:
+                C = np.dot(delta.T*sample_weight, delta)/np.sum(sample_weight)
             # gauss = Normal(x_dim=x.shape[1])
             # gauss.fit(x=x, sample_weight=sample_weight)
             # mu = gauss.mu
-- 
2.43.0


From 3af7a81d9f5570615c8770c1c3b255d26e9af251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:05 +0000
Subject: [PATCH 185/219] fix: Gaussianizer.predict truncated its output with
 integer vectors

---
 hyperion/transforms/gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 58ed0c3..1173f21 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -34,7 +34,7 @@ class Gaussianizer(HypModel):
         y_map = erfinv(2*px_cum-1)*np.sqrt(2)
 
         r=self.r[1:]
-        y = np.zeros_like(x)
+        y = np.zeros(x.shape, dtype=float_cpu())
         for i in xrange(x.shape[1]):
             y_index = np.searchsorted(r[:,i], x[:,i])
             logging.debug(y_index)
-- 
2.43.0


From 2cd3131643750909b3c2fd71d52f0d8eb5ecdbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 186/219] fix: LinearGBE.eval_predictive added r instead of
 log(c r) to the log-determinant

---
 hyperion/classifiers/linear_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..8ef2652 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r)
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
-- 
2.43.0


From 9c37d94262334eab7f0c5fd4e4b35b284c0f1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 187/219] fix: LinearGBE adaptation gave nan means to the
 classes without data

---
 hyperion/classifiers/linear_gbe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index 8ef2652..ca337b4 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -182,12 +182,14 @@ class LinearGBE(HypModel):
         F = np.dot(p_theta.T, x)
 
         if self.update_mu:
-            xbar = F/N[:,None]
             if do_map:
+                # classes without data stay at the prior
+                xbar = np.where(N[:,None] > 0, F/np.where(N > 0, N, 1)[:,None], self.prior.mu)
                 alpha_mu = (N/(N+self.prior.beta))[:, None]
                 self.mu = (1-alpha_mu)*self.prior.mu + alpha_mu*xbar
                 self.beta = N+self.prior.beta
             else:
+                xbar = F/N[:,None]
                 self.mu = xbar
                 self.beta = N
         else:
-- 
2.43.0


From 86b6e4750b00cd7f22b3f7d1976035ee63dde62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 188/219] fix: LinearGBEUP sliced the vectors with a float
 index

---
 hyperion/classifiers/linear_gbe_up.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..1e23d7d 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,8 +42,8 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
-- 
2.43.0


From 8816b8d8e1bc4019fc565c1f445f91c2f102b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 189/219] fix: LinearGBEUP passed the square root of the floor
 as if it was the floor of the covariance

---
 hyperion/classifiers/linear_gbe_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 1e23d7d..380dd66 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -173,7 +173,7 @@ class LinearGBEUP(LinearGBE):
                 S /= (nu0+np.sum(N))
 
             x_s_mean=np.diag(np.mean(x_s, axis=0))
-            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1)
+            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1, F_is_chol=True)
             S -= x_s_mean
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
-- 
2.43.0


From 0c8680188a3180e217309703f774d1dfb2f9cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 190/219] fix: QScoringHomoGBE scaled its own precision instead
 of that of the prior

---
 hyperion/classifiers/q_scoring_homo_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..dea7e77 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -64,7 +64,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From 6ebca6c0d8860edf09a77fedb34443d4ad2ffa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 191/219] fix: LogisticRegression.fit changed the sample
 weights of the caller

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 15afac8..cc9040c 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -154,7 +154,7 @@ class LogisticRegression(HypModel):
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight*class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
-- 
2.43.0


From 0540e3a4d7ace722000e53663d1ebe26f6afa2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 192/219] fix: LogisticRegression multiplied by bias_scaling an
 intercept that had it already

---
 hyperion/classifiers/logistic_regression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index cc9040c..63b2f03 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -99,7 +99,7 @@ class LogisticRegression(HypModel):
             self.lr.coef_ = A.T
 
         if b is not None:
-            self.lr.intercept_ = b/self.bias_scaling
+            self.lr.intercept_ = b
 
 
     @property
@@ -108,7 +108,7 @@ class LogisticRegression(HypModel):
 
     @property
     def b(self):
-        return self.lr.intercept_*self.bias_scaling
+        return self.lr.intercept_
 
 
     def get_config(self):
@@ -162,10 +162,10 @@ class LogisticRegression(HypModel):
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
                 priors = self.priors[1]
-            self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors)
 
 
             
-- 
2.43.0


From f6e77d95045b58903b7acb83fe8322e60de5d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 193/219] fix: LinearSVMC multiplied by bias_scaling an
 intercept that had it already

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index cb423b5..5f65d05 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -60,7 +60,7 @@ class LinearSVMC(HypModel):
 
     @property
     def b(self):
-        return self.svm.intercept_*self.bias_scaling
+        return self.svm.intercept_
 
 
     def get_config(self):
-- 
2.43.0


From 7f4df139c16b9aef627bdcd0115ca850712e998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 194/219] fix: BinaryLogisticRegression ignored lambda_reg

---
 hyperion/classifiers/binary_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..7d7d61d 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,7 +21,7 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-- 
2.43.0


From 732a9447e9eb8191fa1ec11c91a247fd0eb0c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 195/219] fix: BinaryLogisticRegression ignored lr_seed

---
 hyperion/classifiers/binary_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 7d7d61d..b3735f7 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -25,7 +25,7 @@ class BinaryLogisticRegression(LogisticRegression):
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
-- 
2.43.0


From 22a8dc54c18df3d1913b307309bbbc2dd6bc7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 196/219] fix: LogisticRegression failed with priors given by
 class

---
 hyperion/classifiers/logistic_regression.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 63b2f03..6e58918 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -84,6 +84,9 @@ class LogisticRegression(HypModel):
 
         self.use_bias = use_bias
         self.bias_scaling = bias_scaling
+        if isinstance(priors, dict):
+            # json turns the keys into strings
+            priors = { int(k): v for k, v in priors.items() }
         self.priors = priors
         self.lambda_reg = lambda_reg
         self.multi_class = multi_class
@@ -127,7 +130,7 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type in ('log-post', 'post') and self.priors is not None:
-            y = y + np.log(self.priors)
+            y = y + np.log([self.priors[i] for i in xrange(len(self.priors))])
 
         if eval_type == 'log-post':
             y = np.log(softmax(y, axis=1)+1e-10)
@@ -148,7 +151,7 @@ class LogisticRegression(HypModel):
         if self.priors is None:
             priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
         else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+            priors = np.array([self.priors[i] for i in xrange(num_classes)])
         class_weights = priors/counts
         
         if sample_weight is None:
-- 
2.43.0


From 8d75628fcdfb34595920be74d7c2803f10074644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:44 +0000
Subject: [PATCH 197/219] fix: LogisticRegression could not be trained with two
 classes

---
 .../classifiers/binary_logistic_regression.py  |  2 ++
 hyperion/classifiers/logistic_regression.py    | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index b3735f7..989d5a6 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -13,6 +13,8 @@ from .logistic_regression import LogisticRegression
 
 class BinaryLogisticRegression(LogisticRegression):
 
+    _single_score = True
+
     def __init__(self, A=None, b=None, penalty='l2', lambda_reg=1e-6,
                  use_bias=True, bias_scaling=1, prior=0.5,
                  random_state=None, solver='liblinear', max_iter=100,
diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 6e58918..232737f 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -19,6 +19,9 @@ from ..utils.math import softmax
 
 class LogisticRegression(HypModel):
 
+    # two-class models give one score for each class
+    _single_score = False
+
     def __init__(self, A=None, b=None, penalty='l2', lambda_reg=1e-5,
                  use_bias=True, bias_scaling=1,
                  priors=None, random_state=None, solver='lbfgs', max_iter=100,
@@ -159,12 +162,23 @@ class LogisticRegression(HypModel):
         else:
             sample_weight = sample_weight*class_weights[class_ids]
             
+        if num_classes == 2 and len(getattr(self.lr, 'coef_', ())) == 2:
+            # scikit-learn keeps only the weights of the second class
+            self.lr.coef_ = self.lr.coef_[1:]
+            self.lr.intercept_ = self.lr.intercept_[1:]
+
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
+        if len(self.lr.coef_) == 1:
+            if self._single_score:
+                priors = priors[1]
+            else:
+                # one score for each of the two classes
+                self.lr.coef_ = np.vstack((-self.lr.coef_, self.lr.coef_))
+                self.lr.intercept_ = self.lr.intercept_*np.array([-1., 1.])
+
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
-            if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-- 
2.43.0


From af6f7e879e6b046220f6e831dfc069fa66143e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:44 +0000
Subject: [PATCH 198/219] fix: train-logistic-regression and train-linear-svmc
 failed to parse their arguments

---
 hyperion/bin/train-linear-svmc.py         | 2 +-
 hyperion/bin/train-logistic-regression.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index b849fd0..8ad2e13 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -51,7 +51,7 @@ if __name__ == "__main__":
 
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-        fromfile_prefix_chars='@',
+        fromfile_prefix_chars='@', conflict_handler='resolve',
         description='Train linear SVM classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 61fecd4..772adf3 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -51,7 +51,7 @@ if __name__ == "__main__":
 
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-        fromfile_prefix_chars='@',
+        fromfile_prefix_chars='@', conflict_handler='resolve',
         description='Train linear logistic regression classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
-- 
2.43.0


From 63221988b27b85965a5ef94b2514f32e585b62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:41 +0000
Subject: [PATCH 199/219] fix: segments-to-bin-vad and rttm-to-bin-vad failed
 without numbers of frames

---
 hyperion/bin/rttm-to-bin-vad.py     | 4 ++--
 hyperion/bin/segments-to-bin-vad.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index d3191c6..0d7eb03 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -41,10 +41,10 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
-        if part_idx == 1:
+        if part_idx == 1 and num_frames_file is not None:
             for file_id in utt2num_frames.index:
                 if not(file_id in segments_orig.uniq_file_id):
                     logging.warning('not speeech detected in %s, putting all to 1' % (file_id))
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 73e89d5..47a7d23 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -39,7 +39,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
             
-- 
2.43.0


From 584f4432a8dedc6af7c4e68937b12224a25f0319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:41 +0000
Subject: [PATCH 200/219] fix: segments-to-bin-vad and rttm-to-bin-vad did not
 find the numbers of frames of files named with digits

---
 hyperion/bin/rttm-to-bin-vad.py     | 2 +-
 hyperion/bin/segments-to-bin-vad.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index 0d7eb03..b6873c4 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -26,7 +26,7 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0, dtype={'file_id': str})
 
     segments = RTTM.load(rttm_file).to_segment_list()
     segments_orig = copy.deepcopy(segments)
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 47a7d23..15db160 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -25,7 +25,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0, dtype={'file_id': str})
 
     segments = SegmentList.load(segments_file)
     if num_parts  > 1:
-- 
2.43.0


From 4f14b44441905db82a8a20b646640423a682bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:41 +0000
Subject: [PATCH 201/219] fix: arkvad2nist did not import config_logger

---
 hyperion/bin/arkvad2nist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 2186efd..c51301b 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -18,6 +18,7 @@ import logging
 import numpy as np
 
 
+from hyperion.hyp_defs import config_logger
 from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
-- 
2.43.0


From aa93a3c5b2a8ef3236a0d9f2a6a9a4e7e96a03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:41 +0000
Subject: [PATCH 202/219] fix: arkvad2nist and h5vad2nist gave the boundaries
 of the intervals one frame early

---
 hyperion/bin/arkvad2nist.py | 4 ++--
 hyperion/bin/h5vad2nist.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index c51301b..a2fec8d 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -38,8 +38,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p+1
+        prev_stop = p+1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index f0e51cf..db20846 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -37,8 +37,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p+1
+        prev_stop = p+1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
-- 
2.43.0


From d848920d61b6fe0c741ae247fe2edf1e7d95c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:04 +0000
Subject: [PATCH 203/219] fix: KaldiDataReader ignored the offsets of the
 script file

---
 hyperion/io/kaldi_data_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bc7c3d3..58af252 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -24,13 +24,16 @@ class KaldiDataReader(object):
             self.cur_record=0
             
             scp = SCPList.load(file_path, sep=sep)
+            paths = scp.file_path
+            if scp.offset is not None:
+                  paths = ['%s:%d' % (v, o) for (v, o) in zip(paths, scp.offset)]
             if input_dir is None:
                   self.scp = OrderedDict((k, v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+                                         zip(scp.key, paths))
             else:
                   input_dir+='/'
                   self.scp = OrderedDict((k, input_dir+v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+                                         zip(scp.key, paths))
 
                   
       def read(self, keys=None, num_records=None, first_record=None, squeeze=False):
-- 
2.43.0


From 4bcd0f9d07240693315df61f398d9fcc3840c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:04 +0000
Subject: [PATCH 204/219] fix: KaldiDataReader.read of the remaining records
 left the reader in a wrong position

---
 hyperion/io/kaldi_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index 58af252..53c591f 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -44,7 +44,7 @@ class KaldiDataReader(object):
                         
                   if num_records is None:
                         keys = keys[self.cur_record:]
-                        self.cur_record = len(keys)
+                        self.cur_record = len(self.scp)
                   else:
                         final_record = min(self.cur_record+num_records, len(keys))
                         keys = keys[self.cur_record:final_record]
-- 
2.43.0


From 838b9b43bdc6944392132beaf132dd998108f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:04 +0000
Subject: [PATCH 205/219] fix: ark2hyp failed to write in the current directory

---
 hyperion/bin/ark2hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index 784d0f8..af64d3d 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -22,7 +22,7 @@ from hyperion.io import HypDataWriter, KaldiDataReader
 def ark2hyp(input_file, input_dir, output_file, field, chunk_size, squeeze):
 
     output_dir = os.path.dirname(output_file)
-    if not os.path.exists(output_dir):
+    if output_dir != '' and not os.path.exists(output_dir):
         os.makedirs(output_dir)
     
     ark_r = KaldiDataReader(input_file, input_dir)
-- 
2.43.0


From 1cd06de271272b4ee196831d8d1fe38f2eda3eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:35 +0000
Subject: [PATCH 206/219] fix: compute-gmm-post took --num-comp as a string

---
 hyperion/bin/compute-gmm-post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 1720b37..8dfebb8 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -98,7 +98,7 @@ if __name__ == "__main__":
     parser.add_argument('--preproc-file', dest='preproc_file', default=None)
     parser.add_argument('--model-file', dest='model_file', required=True)
     parser.add_argument('--output-path', dest='output_path', required=True)
-    parser.add_argument('--num-comp', dest='num_comp', default=10)
+    parser.add_argument('--num-comp', dest='num_comp', default=10, type=int)
 
     SR.add_argparse_eval_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
-- 
2.43.0


From 98ab0da6484a7e6f9b831af8e9562efac2cfe80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:35 +0000
Subject: [PATCH 207/219] fix: compute-gmm-post called logging.degug

---
 hyperion/bin/compute-gmm-post.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 8dfebb8..a654320 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -74,10 +74,10 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-            logging.degug(np.sort(r[0,:])[-12:])
-            logging.degug(np.sort(r2[0,:])[-12:])
-            logging.degug(np.argsort(r[0,:])[-12:])
-            logging.degug(np.argsort(r2[0,:])[-12:])
+            logging.debug(np.sort(r[0,:])[-12:])
+            logging.debug(np.sort(r2[0,:])[-12:])
+            logging.debug(np.argsort(r[0,:])[-12:])
+            logging.debug(np.argsort(r2[0,:])[-12:])
 
         hw.write([key], '.r', [r_s])
         hw.write([key], '.index', [index])
-- 
2.43.0


From 8f55b62b3bf384e6757e5992cd2272fd6ee4613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:35 +0000
Subject: [PATCH 208/219] fix: load_from_kaldi of a GMM with one component

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index c73c22c..f9b4b4c 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -283,7 +283,8 @@ class GMMDiagCov(ExpFamilyMixture):
                         line = f.readline()
                         fields = line.split()
                         if x_dim == 0:
-                            x_dim = len(fields)
+                            # the row ends with ] when there is one component
+                            x_dim = len(fields) - fields.count(']')
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                             eta2 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                         
-- 
2.43.0


From 11bd6516d428bc97ddf9c5d96c28578853c82f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:43 +0000
Subject: [PATCH 209/219] fix: compute-gmm-post called a method that does not
 exist

---
 hyperion/bin/compute-gmm-post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index a654320..ab85468 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -70,7 +70,7 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
     for i in xrange(sr.num_seqs):
         x, key = sr.read_next_seq()
         logging.info('Extracting i-vector %d/%d for %s, num_frames: %d' % (i, sr.num_seqs, key, x.shape[0]))
-        r = gmm.compute_z(x)
+        r = gmm.compute_pz(x)
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-- 
2.43.0


From fac1a2bb4e4357ce6d7e1713efb53e42018cc05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:38 +0000
Subject: [PATCH 210/219] fix: the readers of sequences ignored the transform
 given with preproc

---
 hyperion/helpers/sequence_post_reader.py |  9 +++++----
 hyperion/helpers/sequence_reader.py      | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..6f1143d 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -87,7 +87,7 @@ class SequencePostReader(SequenceReader):
         r = self.post_r.read([key], field='.r', return_tensor=False)[0]
         index = self.post_r.read([key], field='.index', return_tensor=False)[0]
         r = self.to_dense(r, index, self.num_comp)
-        return x, r, key
+        return self._apply_preproc(x), r, key
     
 
     
@@ -109,6 +109,7 @@ class SequencePostReader(SequenceReader):
             assert(len(keys)==self.batch_size)
 
         x = self.r.read(keys, field=self.field, return_tensor=False)
+        x = [self._apply_preproc(x_i) for x_i in x]
         r = self.post_r.read(keys, field='.r', return_tensor=False)
         index = self.post_r.read(keys, field='.index', return_tensor=False)
         r = self.to_dense_list(r, index, self.num_comp)
@@ -137,7 +138,7 @@ class SequencePostReader(SequenceReader):
                 index_i = self.post_r.read_slice(key, self.cur_frame[self.cur_seq],
                                                  seq_length_i, field='.index')
                 r_i = self.to_dense(r_i, index_i, self.num_comp)
-                x.append(x_i)
+                x.append(self._apply_preproc(x_i))
                 r.append(r_i)
                 keys.append(key)
                 self.cur_frame[self.cur_seq] += shift
@@ -182,7 +183,7 @@ class SequencePostReader(SequenceReader):
                 key = self.scp.file_path[i]
                 x_i, index = read_f(key, seq_length_i)
                 r_i = self._read_post_slice(key, index, seq_length_i)
-                x.append(x_i)
+                x.append(self._apply_preproc(x_i))
                 r.append(r_i)
                 keys.append(key)
             self.cur_seq +=1
@@ -221,7 +222,7 @@ class SequencePostReader(SequenceReader):
                 x_i, index = read_f(key, seq_length_i)
                 r_i = self._read_post_slice(key, index, seq_length_i)
                 
-                x.append(x_i)
+                x.append(self._apply_preproc(x_i))
                 r.append(r_i)
                 keys.append(key)
                 self.cur_subseq[self.cur_seq] += 1
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..1caa460 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -176,10 +176,18 @@ class SequenceReader(object):
 
 
     
+    def _apply_preproc(self, x):
+        if self.preproc is None:
+            return x
+        return self.preproc.predict(x)
+
+
+
     def read_next_seq(self):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
-        return self.r.read([key], field=self.field, return_tensor=False)[0], key
+        x = self.r.read([key], field=self.field, return_tensor=False)[0]
+        return self._apply_preproc(x), key
     
 
     
@@ -200,7 +208,8 @@ class SequenceReader(object):
                         break
             assert(len(keys)==self.batch_size)
                 
-        return self.r.read(keys, field=self.field, return_tensor=False), keys 
+        x = self.r.read(keys, field=self.field, return_tensor=False)
+        return [self._apply_preproc(x_i) for x_i in x], keys 
             
 
     
@@ -218,7 +227,7 @@ class SequenceReader(object):
                     self.max_seq_length)
                 x_i = self.r.read_slice(key, self.cur_frame[self.cur_seq],
                                         seq_length_i, field=self.field)
-                x.append(x_i)
+                x.append(self._apply_preproc(x_i))
                 keys.append(key)
                 self.cur_frame[self.cur_seq] += shift
                 self.cur_subseq[self.cur_seq] += 1
@@ -249,7 +258,7 @@ class SequenceReader(object):
             if num_subseqs[i] > 0:
                 seq_length_i = min(self.max_seq_length, seq_length[i])
                 x_i = read_f(self.scp.file_path[i], seq_length_i)
-                x.append(x_i)
+                x.append(self._apply_preproc(x_i))
                 keys.append(self.scp.file_path[i])
             self.cur_seq +=1
             
@@ -281,7 +290,7 @@ class SequenceReader(object):
                     x_i = read_f(self.scp.file_path[self.cur_seq], seq_length_i)
                 else:
                     x_i = read_f(self.scp.file_path[self.cur_seq], self.max_seq_length)
-                x.append(x_i)
+                x.append(self._apply_preproc(x_i))
                 keys.append(self.scp.file_path[self.cur_seq])
                 self.cur_subseq[self.cur_seq] += 1
 
-- 
2.43.0


From 96eb6345474ce49ca5b3b86ac2732257ff3aba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:55 +0000
Subject: [PATCH 211/219] fix: readers of sequences skipped the ones with the
 minimum length

---
 hyperion/helpers/sequence_post_reader.py | 2 +-
 hyperion/helpers/sequence_reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index 6f1143d..2489ec8 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -101,7 +101,7 @@ class SequencePostReader(SequenceReader):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 1caa460..7204521 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -201,7 +201,7 @@ class SequenceReader(object):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
-- 
2.43.0


From eb6848c2c7ca0ddf00f777d2112328fa783c1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:55 +0000
Subject: [PATCH 212/219] fix: readers of sequences stopped the search for the
 pieces of a batch too early

---
 hyperion/helpers/sequence_post_reader.py | 4 ++--
 hyperion/helpers/sequence_reader.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index 2489ec8..a6ac531 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -125,7 +125,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -211,7 +211,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 7204521..4b49d02 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -219,7 +219,7 @@ class SequenceReader(object):
         seq_length = self.seq_length
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -283,7 +283,7 @@ class SequenceReader(object):
         
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
-- 
2.43.0


From 2934e5dab6f4c8ba5afd1b797293d40ed2470a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:30 +0000
Subject: [PATCH 213/219] fix: SequenceReader failed with the default minimum
 length of its command line

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 4b49d02..9c0896b 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -352,7 +352,7 @@ class SequenceReader(object):
                             help=('keeps SUBSAMPLE %% of frames of the seq'))
 
         parser.add_argument(p1+'min-seq-length', dest=(p2+'min_seq_length'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum number of frames '
                                   'when we doing sequence splitting'))
         parser.add_argument(p1+'max-seq-length', dest=(p2+'max_seq_length'), type=int,
-- 
2.43.0


From 1b10cc11facf53ccd15f98f732ec8742803d2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:18 +0000
Subject: [PATCH 214/219] fix: adaptation of LinearGBEUP gave nan for classes
 without data

---
 hyperion/classifiers/linear_gbe_up.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 380dd66..ec6f031 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -130,12 +130,14 @@ class LinearGBEUP(LinearGBE):
         F = np.dot(p_theta.T, x)
 
         if self.update_mu:
-            xbar = F/N[:,None]
             if do_map:
+                # classes without data stay at the prior
+                xbar = np.where(N[:,None] > 0, F/np.where(N > 0, N, 1)[:,None], self.prior.mu)
                 alpha_mu = (N/(N+self.prior.beta))[:, None]
                 self.mu = (1-alpha_mu)*self.prior.mu + alpha_mu*xbar
                 self.beta = N+self.prior.beta
             else:
+                xbar = F/N[:,None]
                 self.mu = xbar
                 self.beta = N
         else:
-- 
2.43.0


From 21d4357dbb81a34244ea6de5b99e70dbf6d676c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:43 +0000
Subject: [PATCH 215/219] fix: PLDAFactory ignored the prefix of its option
 md-epochs

---
 hyperion/helpers/plda_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index a5deb1b..e5e79f3 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -129,7 +129,7 @@ class PLDAFactory(object):
                             choices=['ml+md', 'ml', 'md'],
                             help=('optimization type'))
 
-        parser.add_argument('--md-epochs', dest='md_epochs', default=None,
+        parser.add_argument(p1+'md-epochs', dest=(p2+'md_epochs'), default=None,
                             type=int, nargs = '+',
                             help=('epochs in which we do MD, if None we do it in all the epochs'))
 
-- 
2.43.0


From ade72d4a135e9788776af52264ffb5151906e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:43 +0000
Subject: [PATCH 216/219] fix: transforms lost their option name when they had
 a prefix

---
 hyperion/transforms/cent_whiten.py  | 2 +-
 hyperion/transforms/gaussianizer.py | 2 +-
 hyperion/transforms/pca.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index a230d72..a694d56 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -141,4 +141,4 @@ class CentWhiten(HypModel):
                             type=str2bool,
                             help=('updates whitening parameter'))
 
-        parser.add_argument('--name', dest='name', default='lnorm')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='lnorm')
diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 1173f21..6d004d7 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -120,4 +120,4 @@ class Gaussianizer(HypModel):
                             type=int,
                             help=('maximum number of background vectors'))
 
-        parser.add_argument('--name', dest='name', default='gauss')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='gauss')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 2863d4c..90f9fe6 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -141,4 +141,4 @@ class PCA(HypModel):
                             type=int,
                             help=('output dimension of PCA'))
 
-        parser.add_argument('--name', dest='name', default='pca')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='pca')
-- 
2.43.0


From 942f7132ff18bc70d28a46f87f34cd52e1741d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:54 +0000
Subject: [PATCH 217/219] fix: SequencePostReader evaluation had no option
 num-comp without a prefix

---
 hyperion/helpers/sequence_post_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index a6ac531..9d29669 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -303,9 +303,9 @@ class SequencePostReader(SequenceReader):
             p1 = '--' + prefix + '-'
             p2 = prefix + '_'
 
-            parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
-                                type=int,
-                                help=('number of GMM components'))
+        parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
+                            type=int,
+                            help=('number of GMM components'))
         
 
     
-- 
2.43.0


From 8a1f6bdf248e4f93b791fe6e2bd9b36efece65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:02 +0000
Subject: [PATCH 218/219] fix: log of the sigmoid and CLLR were infinite for
 single precision scores between -100 and -88

---
 hyperion/utils/math.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/hyperion/utils/math.py b/hyperion/utils/math.py
index 5d735bf..ff4156d 100644
--- a/hyperion/utils/math.py
+++ b/hyperion/utils/math.py
@@ -132,11 +132,7 @@ def logsigmoid(x):
       Returns:
         y = \log(sigmoid(x))
     """
-    e = np.exp(-x)
-    f = x < -100
-    log_p = -np.log(1+np.exp(-x))
-    log_p[f] = x[f]
-    return log_p
+    return -np.logaddexp(0, -x)
 
 
 
@@ -145,11 +141,7 @@ def neglogsigmoid(x):
       Returns:
         y = -\log(sigmoid(x))
     """
-    e = np.exp(-x)
-    f = x < -100
-    log_p = np.log(1+np.exp(-x))
-    log_p[f] = - x[f]
-    return log_p
+    return np.logaddexp(0, -x)
 
 
 def sigmoid(x):
-- 
2.43.0


From 8627e4202b1d29de24bcb2409bf8b007d375bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:46 +0000
Subject: [PATCH 219/219] fix: padding of waveforms failed when the frame shift
 is over half the frame length

---
 hyperion/feats/energy_vad.py | 2 +-
 hyperion/feats/mfcc.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 67179f6..5097acc 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -85,7 +85,7 @@ class EnergyVAD(object):
                 len_x = (num_frames-1)*self._shift + self._length
                 dlen_x = len_x - len(x)
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(0, int(dlen_x - dlen1_x))
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 55c9cd1..7c1bc99 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -250,7 +250,7 @@ class MFCC(object):
                 dlen_x = len_x - len(x)
                 #x = np.pad(x, (0, dlen_x), mode='reflect')
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(0, int(dlen_x - dlen1_x))
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
-- 
2.43.0

