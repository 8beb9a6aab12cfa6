From 7460f5725ecd66cd505e1dd6b9744ccc97ce15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 01/28] fix: predict converts events before selecting the
 columns of event_index

---
 kamrecsys/base/base.py  | 5 +++--
 kamrecsys/data/event.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..946380e 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,9 +248,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
+        iev = self.to_iid_event(eev)[:, self.event_index]
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        return np.squeeze(self.raw_predict(iev))
 
 
 # =============================================================================
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 677dcfa..31523df 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -100,7 +100,8 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             Shape of an input array is illegal
         """
         if missing_values is None:
-            missing_values = self.n_objects[self.event_otypes]
+            missing_values = [
+                len(self.eid[otype]) for otype in self.event_otypes]
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 6fbf86ecd3c809eed5ae787b480df2bdabdcec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 02/28] fix: to_iid_event accepts a single integer as
 missing_values

---
 kamrecsys/data/event.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 31523df..b8eea93 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -102,6 +102,8 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         if missing_values is None:
             missing_values = [
                 len(self.eid[otype]) for otype in self.event_otypes]
+        elif np.ndim(missing_values) == 0:
+            missing_values = [missing_values] * self.s_event
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 399836c91b92c2682c68a2a1049d430eaf290faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 03/28] fix: predict accepts external ids of any dtype

---
 kamrecsys/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 946380e..f25a071 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,7 +248,7 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)
+        eev = check_array(np.atleast_2d(eev), dtype=None)
         iev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(iev))
-- 
2.43.0


From 6a75b4bef2579fefaf960bdf9eaded15344984af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 04/28] fix: get_event_array does not apply event_index twice

---
 kamrecsys/item_finder/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..948bc5b 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -164,12 +164,11 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
         if sparse_type not in ['csr', 'csc', 'lil', 'array']:
             raise TypeError("illegal type of sparse matrices")
 
-        # get number of objects
-        n_objects = self.n_objects[self.event_otypes[self.event_index]]
-
-        # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        # get event data and numbers of objects, which have been already
+        # arranged according to event_index in fitting
+        ev, n_objects = self.get_event()
+        users = ev[:, 0]
+        items = ev[:, 1]
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From 67ef3f4e774956ef624cdcf0065a175d7b5ef0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 05/28] fix: repeated events are counted once in an implicit
 feedback matrix

---
 kamrecsys/item_finder/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 948bc5b..96a6a3e 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -167,6 +167,7 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
         # get event data and numbers of objects, which have been already
         # arranged according to event_index in fitting
         ev, n_objects = self.get_event()
+        ev = np.unique(ev, axis=0)
         users = ev[:, 0]
         items = ev[:, 1]
         scores = np.ones_like(users, dtype=int)
-- 
2.43.0


From 91b48c270e34851c485562f81b5150d3eb2fb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 06/28] fix: matrix factorization models can be fitted to a
 single user or item

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..d44c9cd 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..44e7e47 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From 4d07dd0031b012b33438f916c7f886b774190073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 07/28] fix: recommenders do not share id tables with their
 training data

---
 kamrecsys/data/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..09269ee 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -64,9 +64,9 @@ class ObjectUtilMixin(object):
             raise TypeError("input data must data.BaseData class")
 
         self.n_otypes = data.n_otypes
-        self.n_objects = data.n_objects
-        self.eid = data.eid
-        self.iid = data.iid
+        self.n_objects = data.n_objects.copy()
+        self.eid = data.eid.copy()
+        self.iid = data.iid.copy()
 
     def to_eid(self, otype, iid):
         """
-- 
2.43.0


From 97a4c2c59749804f48e63fa4f5313cc56b2133d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 08/28] fix: to_eid rejects negative internal ids

---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 09269ee..cf8f41d 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -90,6 +90,8 @@ class ObjectUtilMixin(object):
             an internal id is out of range
         """
         try:
+            if np.any(np.less(iid, 0)):
+                raise IndexError
             return self.eid[otype][iid]
         except IndexError:
             raise ValueError("Illegal internal id")
-- 
2.43.0


From b45fb8464bbe757e1d21fbc2410c84adf87d09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 09/28] fix: numbers of score levels and bins agree for
 fractional strides

---
 kamrecsys/data/event_with_score.py   |  3 ++-
 kamrecsys/metrics/__init__.py        |  2 ++
 kamrecsys/metrics/base.py            | 28 ++++++++++++++++++++++++++--
 kamrecsys/metrics/real.py            |  7 ++-----
 kamrecsys/metrics/score_predictor.py |  8 ++++----
 5 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..a304e96 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -155,7 +155,8 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
         self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+            int(np.round(
+                (score_domain[1] - score_domain[0]) / score_domain[2])) + 1)
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/__init__.py b/kamrecsys/metrics/__init__.py
index c3da229..dd8acde 100644
--- a/kamrecsys/metrics/__init__.py
+++ b/kamrecsys/metrics/__init__.py
@@ -19,6 +19,7 @@ import logging
 
 from .base import (
     generate_score_bins,
+    generate_score_levels,
     statistics_mean)
 from .real import (
     mean_absolute_error,
@@ -42,6 +43,7 @@ from .item_finder import (
 
 __all__ = [
     'generate_score_bins',
+    'generate_score_levels',
     'statistics_mean',
     'mean_absolute_error',
     'mean_squared_error',
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..556a6f7 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -42,6 +42,31 @@ __all__ = []
 # =============================================================================
 
 
+def generate_score_levels(score_domain):
+    """
+    Generate possible score levels from score_domain
+
+    The number of levels is derived by rounding, because strides such as 0.1
+    cannot be exactly represented by floating point numbers.
+
+    Parameters
+    ----------
+    score_domain : array-like, shape=(3,)
+        a triple of the minimum, the maximum, and strides of the score
+
+    Returns
+    -------
+    score_levels : array, shape=(n_score_levels,), dtype=float
+        a sequence of possible scores
+    """
+    n_strides = int(np.round(
+        (score_domain[1] - score_domain[0]) / score_domain[2]))
+
+    return np.hstack([
+        score_domain[0] + score_domain[2] * np.arange(n_strides, dtype=float),
+        score_domain[1]])
+
+
 def generate_score_bins(score_domain):
     """
     Generate histogram bins for scores from score_domain
@@ -57,8 +82,7 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
+    bins = generate_score_levels(score_domain)[:-1]
     bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
 
     return bins
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..e76adfd 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -21,7 +21,7 @@ import numpy as np
 from sklearn.utils import (
     as_float_array, assert_all_finite, check_consistent_length)
 
-from . import generate_score_bins
+from . import generate_score_bins, generate_score_levels
 
 # =============================================================================
 # Metadata variables
@@ -160,10 +160,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     if isinstance(score_domain, np.integer):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
-        scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
-             score_domain[1]])
+        scores = generate_score_levels(score_domain)
 
     # return statistics
     return hist, scores
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..8d89603 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -25,7 +25,9 @@ from sklearn.utils import (
 
 import sklearn.metrics as skm
 
-from . import mean_absolute_error, mean_squared_error, score_histogram
+from . import (
+    generate_score_levels, mean_absolute_error, mean_squared_error,
+    score_histogram)
 
 # =============================================================================
 # Metadata variables
@@ -141,9 +143,7 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
     stats['n_samples'] = y_true.size
 
     # a list of possible score levels
-    stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+    stats['score levels'] = generate_score_levels(score_domain)
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From 5153b302314d453deada903587e5037d6bd6ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 10/28] fix: score_histogram accepts a built-in int as the
 number of bins

---
 kamrecsys/metrics/real.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index e76adfd..ff9dcdf 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -147,7 +147,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(x)
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         bins = score_domain
     else:
         assert_all_finite(score_domain)
@@ -157,7 +157,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     hist, bins = np.histogram(x, bins=bins)
 
     # candidates of possible scores
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = generate_score_levels(score_domain)
-- 
2.43.0


From 6633559bc84108c00bf74533310b98638d9207f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 11/28] fix: variance_with_gamma_prior rejects non-finite or
 empty float arrays

---
 kamrecsys/metrics/real.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index ff9dcdf..9ea96cd 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -215,11 +215,12 @@ def variance_with_gamma_prior(
 
     # arrange inputs
     if force_all_finite:
+        assert_all_finite(x)
         x = as_float_array(x).ravel()
     else:
         x = np.compress(np.isfinite(x), x)
-        if x.size < 1:
-            raise ValueError('Found array with 0 sample.')
+    if x.size < 1:
+        raise ValueError('Found array with 0 sample.')
 
     # calc variance
     n = x.size
-- 
2.43.0


From d1962ea7b8b321ec934d0e0ce6e53a70ec677bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 12/28] fix: statistics_mean accepts lists of lists

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 556a6f7..cabed48 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -116,7 +116,7 @@ def statistics_mean(fun, *arg_list):
             args = [arg[k] for arg in arg_list]
             stats.append(fun(*args))
 
-    elif isinstance(arg_list[0], dict):
+    elif isinstance(arg_list[0], list):
 
         # in a case of list list, collect elements at the same position
         for k in xrange(len(arg_list[0])):
-- 
2.43.0


From 16e36ac39225535c3aa5f38eb20f8b9aad767983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 13/28] fix: metrics use the logger of this package

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index cabed48..dc2fad6 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -142,7 +142,7 @@ def statistics_mean(fun, *arg_list):
 # =============================================================================
 
 # init logging system
-logger = logging.getLogger('kamiers')
+logger = logging.getLogger('kamrecsys')
 if not logger.handlers:
     logger.addHandler(logging.NullHandler())
 
-- 
2.43.0


From 3196ffff0a124919fee9b7ebbd178f8f73689c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 14/28] fix: matrix factorization models do not modify options
 given by a caller

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index d44c9cd..fa63bc9 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -128,7 +128,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
@@ -503,7 +503,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 44e7e47..ab35b4d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -117,7 +117,7 @@ class PMF(BaseScorePredictor):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
-- 
2.43.0


From 3f8c01f0c08d8d03a1d78baf120aa2b19d545ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 15/28] fix: fitting by a derivative-free optimizer does not
 fail

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index fa63bc9..16711d1 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -383,7 +383,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
@@ -739,7 +739,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index ab35b4d..968e465 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -375,7 +375,7 @@ class PMF(BaseScorePredictor):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
-- 
2.43.0


From ea0d6958c627d083fb2ac4d6779ec3f4427d54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 16/28] fix: explicit item finders raise TypeError for data
 without scores

---
 kamrecsys/item_finder/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 96a6a3e..4834554 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -120,6 +120,9 @@ class BaseExplicitItemFinder(
         """
         super(BaseExplicitItemFinder, self).fit(data, event_index)
 
+        # set object information in data
+        self._set_score_info(data)
+
         # check whether scores are binary
         if (
                 (not np.array_equal(data.score_domain, [0, 1, 1])) or
@@ -127,9 +130,6 @@ class BaseExplicitItemFinder(
                 (data.n_score_levels != 2)):
             raise ValueError('Scores are not binary type')
 
-        # set object information in data
-        self._set_score_info(data)
-
 
 class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
     """
-- 
2.43.0


From d582537eb5b9001ad0ae70814778ac90aa151227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 17/28] fix: implicit item finders do not use explicit ratings

---
 kamrecsys/item_finder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 4834554..50baf91 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -137,7 +137,7 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
     """
 
     task_type = 'item_finder'
-    explicit_ratings = True
+    explicit_ratings = False
 
     def get_event_array(self, sparse_type='csr'):
         """
-- 
2.43.0


From f8aff55fde68c8eebc01d0cccd06c96bc808dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 18/28] fix: MultinomialPLSA reports convergence and iterations
 correctly

---
 kamrecsys/score_predictor/topic_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..aae726f 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -260,8 +260,8 @@ class MultinomialPLSA(BaseScorePredictor):
         tol = self.optimizer_kwargs['tol']
 
         # main loop
-        iter_no = 0
-        cur_loss = np.inf
+        iter_no = -1
+        cur_loss = pre_loss
         for iter_no in xrange(maxiter):
 
             # E-Step
@@ -288,7 +288,7 @@ class MultinomialPLSA(BaseScorePredictor):
                 break
             pre_loss = cur_loss
 
-        if iter_no >= maxiter - 1:
+        else:
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
-- 
2.43.0


From 23435f62a907d4fe24dab0872b0f45895fea1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 19/28] fix: json_decodable converts complex numbers to
 serializable ones

---
 kamrecsys/utils/kamexputils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index c49553d..3db2d7f 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -76,9 +76,7 @@ def json_decodable(x):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
                 x[k] = float(v)
-            elif isinstance(v, np.complexfloating):
-                x[k] = complex(v)
-            elif not isinstance(v, (bool, int, float, complex)):
+            elif not isinstance(v, (bool, int, float)):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
@@ -94,9 +92,7 @@ def json_decodable(x):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
                 x[k] = float(v)
-            elif isinstance(v, np.complexfloating):
-                x[k] = complex(v)
-            elif not isinstance(v, (bool, int, float, complex)):
+            elif not isinstance(v, (bool, int, float)):
                 x[k] = str(v)
 
 
-- 
2.43.0


From 18a7c32de571e4540ec7f7c041a4423f411d524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 20/28] fix: event files consisting of a single event can be
 loaded

---
 kamrecsys/datasets/base.py   | 6 ++++--
 kamrecsys/datasets/others.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..68fdc1a 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -89,7 +89,8 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
     else:
         dtype = np.dtype([('event', int, s_events),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -141,7 +142,8 @@ def load_event_with_score(
     else:
         dtype = np.dtype([('event', int, s_events), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
diff --git a/kamrecsys/datasets/others.py b/kamrecsys/datasets/others.py
index 3c13766..68fe61f 100644
--- a/kamrecsys/datasets/others.py
+++ b/kamrecsys/datasets/others.py
@@ -78,7 +78,8 @@ def load_pci_sample(infile=None):
     if infile is None:
         infile = os.path.join(SAMPLE_PATH, 'pci.event')
     dtype = np.dtype([('event', 'U18', 2), ('score', float)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data = EventWithScoreData(n_otypes=2, event_otypes=np.array([0, 1]))
     data.set_event(x['event'], x['score'], score_domain=(1.0, 5.0, 0.5))
     del x
-- 
2.43.0


From 37929912c2aa84f51329345d6028ca44dd7acd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 21/28] fix: testing records its ending time

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..ae79374 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
-- 
2.43.0


From db97be41d396b6e55a09f0e99c62a7b0e0036091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 22/28] fix: holdout_test keeps the test file in its results

---
 scripts/exp_recsys_util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index ae79374..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From 19feb2178cbc4956963fa2ae2033f569617ca5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 23/28] fix: do_task reports an invalid validation scheme

---
 scripts/exp_recsys_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..41c325f 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -320,7 +320,8 @@ def do_task(info, load_data, target_fold=None):
     elif info['condition']['scheme'] == 'cv':
         cv_test(info, load_data, target_fold=target_fold)
     else:
-        raise TypeError("Invalid validation scheme: {0:s}".format(opt.method))
+        raise TypeError("Invalid validation scheme: {0:s}".format(
+            info['condition']['scheme']))
 
     # output information
     outfile = info['condition']['out_file']
-- 
2.43.0


From 0c9b454fd342fcec46cc3be7cb52a5992ab63b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 24/28] fix: predicted scores of a single test event are kept
 as an array

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 41c325f..d056d53 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -129,7 +129,7 @@ def testing(rec, ev):
     logger.info("test_start_time = " + res_info['start_time'])
 
     # prediction
-    esc = rec.predict(ev)
+    esc = np.atleast_1d(rec.predict(ev))
 
     # set end and elapsed time
     end_time = datetime.datetime.now()
-- 
2.43.0


From 3250ebfaab5e971eed16480a2e21994daf371153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 25/28] fix: json files are loaded without an obsolete option

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From 213976ff9ee82665f392b81b685202d829c42827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 26/28] fix: model_selection works with recent versions of
 scikit-learn

---
 kamrecsys/model_selection/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..c100fb8 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -24,7 +24,6 @@ import numpy as np
 from sklearn.utils import indexable, check_random_state
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -86,7 +85,6 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         super(ShuffleSplitWithinGroups, self).__init__()
 
-        _validate_shuffle_split_init(test_size, train_size)
         self.n_splits = int(n_splits)
         self.test_size = test_size
         self.train_size = train_size
@@ -272,7 +270,9 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(
+            self.n_splits, shuffle=self.shuffle,
+            random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
-- 
2.43.0


From c7b0300e2b33c27bff2b5372d1f3b208e7817d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 27/28] fix: groups of cross validators can be specified by a
 list

---
 kamrecsys/model_selection/split.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index c100fb8..5dfb44f 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -131,6 +131,7 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples, dtype=int)
@@ -261,6 +262,7 @@ class KFoldWithinGroups(BaseCrossValidator):
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples)
-- 
2.43.0


From 52320c2feabf49e295ec636c9c451989042aa7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 28/28] fix: accept arrays of any shape in
 variance_with_gamma_prior

---
 kamrecsys/metrics/real.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 9ea96cd..945a04a 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -218,7 +218,8 @@ def variance_with_gamma_prior(
         assert_all_finite(x)
         x = as_float_array(x).ravel()
     else:
-        x = np.compress(np.isfinite(x), x)
+        x = np.asarray(x)
+        x = x[np.isfinite(x)]
     if x.size < 1:
         raise ValueError('Found array with 0 sample.')
 
-- 
2.43.0

