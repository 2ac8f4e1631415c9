From 11e572e6c6ceffabc169e0a24dce5dbdca1c6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 01/40] fix: include the op of a CompositeMetric in its
 fingerprint

Two CompositeMetrics with the same name_tmpl but different ops shared cached
results.
---
 metrics.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 430ec2e..69a8a6d 100644
--- a/metrics.py
+++ b/metrics.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 import copy
 import datetime
+import inspect
 import itertools
 from typing import Any, Iterable, List, Optional, Sequence, Text, Union
 
@@ -1412,10 +1413,18 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl'])
+        additional_fingerprint_attrs=['name_tmpl', 'op_fingerprint'])
     self.op = op
     self.columns = rename_columns
 
+  @property
+  def op_fingerprint(self):
+    """Identifies op. Same for the lambdas created from the same code."""
+    op = self.op
+    if not inspect.isfunction(op) or op.__closure__ or op.__defaults__:
+      return op
+    return (op.__module__, op.__code__)
+
   def rename_columns(self, rename_columns):
     self.columns = rename_columns
     return self
-- 
2.43.0


From 0c24ca543bb30aba6c72b87a6ebcfcaf8736d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 02/40] fix: only unfiltered Sum(x) / Count(x) shares the
 fingerprint of Mean(x)

Sum(x) * Count(x), filtered children, renamed columns and the filter of the
CompositeMetric were all ignored so they collided with Mean(x) in cache.
---
 metrics.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index 69a8a6d..d98cda7 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1649,9 +1649,18 @@ class CompositeMetric(Metric):
     # Make Sum(x) / Count(x) indistinguishable to Mean(x) in cache.
     s = self.children[0]
     c = self.children[1]
-    if isinstance(s, Sum) and isinstance(
-        c, Count) and s.var == c.var and s.where == c.where and not c.distinct:
-      return Mean(s.var, where=s.where_).get_fingerprint(attr_to_exclude)
+    if (
+        isinstance(s, Sum)
+        and isinstance(c, Count)
+        and s.var == c.var
+        and not c.distinct
+        # Filters of the children are not filters of the Mean in the cache key.
+        and not s.where_
+        and not c.where_
+        and not self.columns
+        and self.op_fingerprint == (s / c).op_fingerprint
+    ):
+      return Mean(s.var, where=self.where_).get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
 
 
-- 
2.43.0


From 9e602c6b77e398b17564543fa5ef2fa121e77220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 03/40] fix: include the prefix of MetricWithCI in the
 fingerprint

Also stop extending the additional_fingerprint_attrs list of the caller.
---
 operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 7cd42d8..c91a1d6 100644
--- a/operations.py
+++ b/operations.py
@@ -1667,8 +1667,8 @@ class MetricWithCI(Operation):
       raise ValueError('Confidence must be in (0, 1).')
     self.unit = unit
     self.confidence = confidence
-    additional_fingerprint_attrs = additional_fingerprint_attrs or []
-    additional_fingerprint_attrs += ['unit', 'confidence']
+    additional_fingerprint_attrs = list(additional_fingerprint_attrs or [])
+    additional_fingerprint_attrs += ['unit', 'confidence', 'prefix']
     super(MetricWithCI, self).__init__(
         child,
         name_tmpl,
-- 
2.43.0


From d7c9e84d4f84c455053ac55a6aa01aa89d9ed79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 04/40] fix: include everything that labels the result in
 fingerprints

Names of the children, name_tmpl and renamed columns decide the columns of the
cached result, so Metrics that differ in them cannot share cache.
---
 metrics.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index d98cda7..c5f5e92 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1038,8 +1038,11 @@ class Metric(object):
     if type(self).__name__ not in BUILT_INS and not self.cache_across_instances:
       fingerprint['id'] = id(self)
     if self.children:
+      # The names of the children can show up in the columns of the result.
       fingerprint['children'] = (
-          c.get_fingerprint(attr_to_exclude) if isinstance(c, Metric) else c
+          (c.name, c.get_fingerprint(attr_to_exclude))
+          if isinstance(c, Metric)
+          else c
           for c in self.children
       )
     if self.extra_split_by:
@@ -1118,7 +1121,14 @@ class MetricList(Metric):
       name = children[0].name
     else:
       name = tmpl.format(', '.join(m.name for m in children))
-    super(MetricList, self).__init__(name, children, where, name_tmpl)
+    super(MetricList, self).__init__(
+        name,
+        children,
+        where,
+        name_tmpl,
+        additional_fingerprint_attrs=[
+            'name_tmpl', 'columns', 'children_return_dataframe'
+        ])
     self.children_return_dataframe = children_return_dataframe
     self.names = [m.name for m in children]
     self.columns = rename_columns
@@ -1413,7 +1423,9 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl', 'op_fingerprint'])
+        additional_fingerprint_attrs=[
+            'name_tmpl', 'columns', 'op_fingerprint'
+        ])
     self.op = op
     self.columns = rename_columns
 
-- 
2.43.0


From 3e74aadde16a465e1f32cee46df77072b75ba4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 05/40] fix: compare the content of CacheKeys instead of their
 hashes

Colliding hashes, for example hash(-1) == hash(-2), made different CacheKeys
equal.
---
 utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index a7c29d5..5286a8d 100644
--- a/utils.py
+++ b/utils.py
@@ -402,7 +402,8 @@ class CacheKey:
     return new_key
 
   def __eq__(self, other):
-    return isinstance(other, CacheKey) and hash(self) == hash(other)
+    # Equal hashes are not enough. For example, hash(-1) == hash(-2).
+    return isinstance(other, CacheKey) and self.fingerprint == other.fingerprint
 
   def __hash__(self):
     return hash((
-- 
2.43.0


From 1e56bff7be9c3e6a1ad4219637f59081245f4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 06/40] fix: return a copy of the cached result

Postprocessing, for example applying name_tmpl, modified the cached result
in-place.
---
 metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index c5f5e92..c961ce3 100644
--- a/metrics.py
+++ b/metrics.py
@@ -356,7 +356,8 @@ class Metric(object):
 
   def get_cached(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-    return self.cache[key]
+    val = self.cache[key]
+    return val.copy() if isinstance(val, (pd.Series, pd.DataFrame)) else val
 
   def in_cache(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-- 
2.43.0


From f247a89a89325cb7d7d5092a6c75a307f7369ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 07/40] fix: include all options of the model in the
 fingerprint of Models

Lasso(positive=True) and Lasso(positive=False), for example, shared cache.
---
 models.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/models.py b/models.py
index 80ba026..ded3d1c 100644
--- a/models.py
+++ b/models.py
@@ -154,6 +154,17 @@ class Model(operations.Operation):
   def compute_on_sql_magic_mode(self, table, split_by, execute):
     raise NotImplementedError
 
+  def get_fingerprint(self, attr_to_exclude=()):
+    fingerprint = super(Model, self).get_fingerprint(attr_to_exclude)
+    # All options of the underlying model affect the fit.
+    if hasattr(self.model, 'get_params'):
+      params = tuple(
+          (k, tuple(v.items()) if isinstance(v, dict) else v)
+          for k, v in sorted(self.model.get_params().items())
+      )
+      fingerprint += (('model_params', params),)
+    return fingerprint
+
   @property
   def group_by(self):
     return self.extra_split_by
-- 
2.43.0


From 33a841ce78685455c608f0037151fc22988af52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 08/40] fix: do not reseed the global random state in the magic
 mode of Models

---
 models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/models.py b/models.py
index ded3d1c..e0474b6 100644
--- a/models.py
+++ b/models.py
@@ -754,7 +754,7 @@ class ElasticNet(Model):
     xs, sufficient_stats_elements, avgs, norms = get_sufficient_stats_elements(
         self, table, split_by, execute
     )
-    np.random.seed(
+    rng = np.random.RandomState(
         self.random_state if isinstance(self.random_state, int) else 42
     )
     coef = apply_algorithm_to_sufficient_stats_elements(
@@ -767,6 +767,7 @@ class ElasticNet(Model):
         self.fit_intercept,
         self.tol,
         self.max_iter,
+        rng,
     )
     if self.fit_intercept and self.normalize:
       coef = compute_normalized_coef(coef, norms, avgs, split_by)
@@ -777,7 +778,7 @@ class ElasticNet(Model):
 
 
 def compute_coef_for_elastic_net(
-    sufficient_stats_elements, xs, l1, l2, fit_intercept, tol, max_iter
+    sufficient_stats_elements, xs, l1, l2, fit_intercept, tol, max_iter, rng
 ):
   """Computes the coefficients for ElasticNet. Lasso is just a special case."""
   if fit_intercept:
@@ -787,7 +788,7 @@ def compute_coef_for_elastic_net(
   x_t_x, x_t_y = construct_matrix_from_elements(
       sufficient_stats_elements, fit_intercept
   )
-  init_guess = np.random.random(*x_t_y.shape)
+  init_guess = rng.random_sample(x_t_y.shape)
   coef = fista_for_elastic_net(
       init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
   )
@@ -1220,10 +1221,10 @@ class LogisticRegression(Model):
           hess[hess_diag_idx] += sql.Column(f'1 / ({n} * {self.c})')
       return grads, list(hess)
 
-    np.random.seed(
+    rng = np.random.RandomState(
         self.random_state if isinstance(self.random_state, int) else 42
     )
-    init_guess = np.random.random((len(conds) or 1, len(xs)))
+    init_guess = rng.random_sample((len(conds) or 1, len(xs)))
     if self.penalty in ('l1', 'elasticnet'):
       l1_ratio = self.l1_ratio if self.l1_ratio is not None else 1
       l1 = l1_ratio / self.c
-- 
2.43.0


From 05b4f32a03d3aa84db5b0e6264a728f262d238c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 09/40] fix: do not silently ignore positive in the magic mode
 of Lasso and ElasticNet

The unconstrained coefficients were returned. random_state of Lasso was not
passed to the optimization either.
---
 models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models.py b/models.py
index e0474b6..2846977 100644
--- a/models.py
+++ b/models.py
@@ -685,6 +685,8 @@ class Lasso(Model):
         self.name,
         tol=self.tol,
         max_iter=self.max_iter,
+        positive=self.model.positive,
+        random_state=self.random_state,
     ).compute_on_sql_magic_mode(table, split_by, execute)
 
 
@@ -749,6 +751,8 @@ class ElasticNet(Model):
       raise ValueError(
           f'l1_ratio must be between 0 and 1; got (l1_ratio={self.l1_ratio})'
       )
+    if self.model.positive:
+      raise ValueError('positive is not supported in magic mode!')
     l1 = self.l1_ratio * self.alpha
     l2 = (1 - self.l1_ratio) * self.alpha
     xs, sufficient_stats_elements, avgs, norms = get_sufficient_stats_elements(
-- 
2.43.0


From d46eba5191d58d1f3fbe6db279f1deac14ac7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 10/40] fix: do not leave _is_root_node set after generating
 the SQL of MetricWithCI

---
 operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index c91a1d6..fdf42f3 100644
--- a/operations.py
+++ b/operations.py
@@ -2056,11 +2056,14 @@ class MetricWithCI(Operation):
     if not isinstance(self, (Jackknife, Bootstrap)):
       raise NotImplementedError
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
-    # If self is not root, this function won't be called.
-    self._is_root_node = True
     if self.has_been_preaggregated or not self.can_precompute():
       if not self.where:
-        return super(MetricWithCI, self).to_sql(table, split_by)
+        # If self is not root, this function won't be called.
+        self._is_root_node = True
+        try:
+          return super(MetricWithCI, self).to_sql(table, split_by)
+        finally:
+          self._is_root_node = None
       table = sql.Sql(None, table, self.where)
       self_no_filter = copy.deepcopy(self)
       self_no_filter.where = None
-- 
2.43.0


From f3f78b16f1de2e90f1b91520b9eea32326d02f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 11/40] fix: apply name_tmpl of Distribution in the generated
 SQL

---
 operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index fdf42f3..812691d 100644
--- a/operations.py
+++ b/operations.py
@@ -264,7 +264,7 @@ class Distribution(Operation):
       col = sql.Column(c.alias) / sql.Column(
           c.alias, 'SUM({})', partition=split_by.aliases
       )
-      col.set_alias('Distribution of %s' % c.alias_raw)
+      col.set_alias(self.name_tmpl.format(c.alias_raw))
       columns.add(col)
     return sql.Sql(groupby.add(columns), child_table_alias), with_data
 
@@ -390,7 +390,7 @@ class CumulativeDistribution(Distribution):
           order=self.get_ordered_col(c.alias) if self.sort_by_values else order,
           window_frame='ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW',
       )
-      col.set_alias('Cumulative %s' % c.alias_raw)
+      col.set_alias(c.alias_raw)  # name_tmpl has been applied already.
       columns.add(col)
     return sql.Sql(columns, child_table_alias), with_data
 
-- 
2.43.0


From ca6f612691265e5343af603c1bf8dd89bc085c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 12/40] fix: ignore unobserved categories in weighted Quantile

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index c961ce3..e98e0d7 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2144,7 +2144,9 @@ class Quantile(SimpleMetric):
             [res],
             columns=[self.name_tmpl.format(self.var, q) for q in self.quantile])
 
-      aggregated_weight = df.groupby(split_by + [self.var])[self.weight].sum()
+      aggregated_weight = df.groupby(split_by + [self.var], observed=True)[
+          self.weight
+      ].sum()
       # See https://en.wikipedia.org/wiki/Percentile#Weighted_percentile.
       weighted_quantiles = (
           self.group(aggregated_weight, split_by).cumsum()
-- 
2.43.0


From 54b8cda5a7a66d67f8f215069bd7ff9d159e960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 13/40] fix: ignore unobserved categories in MH

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 812691d..08ba6c8 100644
--- a/operations.py
+++ b/operations.py
@@ -1258,7 +1258,7 @@ class MH(Comparison):
     kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
     weights = 1. / (na + nb)
     to_split = [i for i in ka.index.names if i not in self.stratified_by]
-    res = ((ka * nb * weights).groupby(to_split).sum() /
+    res = ((ka * nb * weights).groupby(to_split, observed=True).sum() /
            (kb * na * weights).groupby(to_split, observed=True).sum() - 1) * 100
     res.name = child.name
     to_split = [i for i in to_split if i not in self.extra_index]
-- 
2.43.0


From e2b0e0d0b392a024c1e6084e6995000f4c532231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 14/40] fix: restore the pandas option when displaying fails

---
 confidence_interval_display.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 667df7a..3838ba8 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -753,18 +753,17 @@ def display_formatted_df(formatted_df, extra_css=''):
     extra_css: Additional CSS to apply. You can use it to overwrite the default
       one.
   """
-  curr_max_colwidth = pd.get_option('display.max_colwidth')
-  pd.set_option('display.max_colwidth', None)  # So HTML won't get truncated.
-  df_html = formatted_df.to_html(
-      escape=False,
-      index=False,
-      index_names=False,
-      table_id='meterstick',
-      justify='center')
-  raw_html = '<style>%s</style><div id="meterstick-container">%s</div>' % (
-      CSS + extra_css, df_html)
-  display(HTML(raw_html))
-  pd.set_option('display.max_colwidth', curr_max_colwidth)
+  # So HTML won't get truncated.
+  with pd.option_context('display.max_colwidth', None):
+    df_html = formatted_df.to_html(
+        escape=False,
+        index=False,
+        index_names=False,
+        table_id='meterstick',
+        justify='center')
+    raw_html = '<style>%s</style><div id="meterstick-container">%s</div>' % (
+        CSS + extra_css, df_html)
+    display(HTML(raw_html))
 
 
 def render(
-- 
2.43.0


From 27bef97cf85f84525995dc9d909098721e68e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 15/40] fix: do not take the other columns of child as
 covariates in the mixed mode of PrePostChange and CUPED

---
 operations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index 08ba6c8..a6d044a 100644
--- a/operations.py
+++ b/operations.py
@@ -808,8 +808,9 @@ class PrePostChange(PercentChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(PrePostChange,
                   self).compute_children_sql(table, split_by, execute, mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    len_child = count_features(self.children[0][0])
+    covariates = child.iloc[:, len_child:]
+    child = child.iloc[:, :len_child]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
@@ -1039,8 +1040,9 @@ class CUPED(AbsoluteChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(CUPED, self).compute_children_sql(table, split_by, execute,
                                                     mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    len_child = count_features(self.children[0][0])
+    covariates = child.iloc[:, len_child:]
+    child = child.iloc[:, :len_child]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
-- 
2.43.0


From 2942d0e760b044eede7e0266d9e8539b891bcd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 16/40] fix: do not pass return_dataframe as batch_size to
 MetricWithCI

---
 metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index e98e0d7..8723d88 100644
--- a/metrics.py
+++ b/metrics.py
@@ -877,7 +877,7 @@ class Metric(object):
         mode,
         cache_key,
         self.cache,
-        return_dataframe,
+        return_dataframe=return_dataframe,
     )
 
   def get_equivalent(self, *auxiliary_cols):
-- 
2.43.0


From a9255ef7ab3f00e879235e803d1c69b7e6dade61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 17/40] fix: do not modify the display options of the caller

---
 confidence_interval_display.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 3838ba8..7f079c0 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -325,7 +325,7 @@ class MetricFormatter(object):
                metric_formats=None,
                if_flip_color=None,
                hide_null_ctrl=False):
-    metric_formats = metric_formats or {}
+    metric_formats = dict(metric_formats or {})
     metric_formats.setdefault('Value', 'absolute')
     metric_formats.setdefault('Ratio', 'absolute')
     self.if_flip_color = if_flip_color
@@ -696,9 +696,10 @@ def get_formatted_df(
     for i, d in enumerate(dims):
       col_rename[d] = 'Dim_%s' % (i + 1)
     dims = ['Dim_%s' % i for i in range(1, len(dims) + 1)]
-  sort_by = sort_by or []
-  for s in sort_by:
-    s['column'] = col_rename.get(s['column'], s['column'])
+  sort_by = [
+      {**s, 'column': col_rename.get(s['column'], s['column'])}
+      for s in sort_by or []
+  ]
   df_renamed = df.rename(columns=col_rename)
   formatted_df = _pre_aggregate_df(
       df_renamed,
-- 
2.43.0


From c82efc97b2205f21d8006b6f3c408235cd606fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 18/40] fix: display does not fail when all control values are
 inconsistent

---
 confidence_interval_display.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 7f079c0..a59417d 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -510,9 +510,10 @@ def add_control_rows(df, dims):
                             control_vals['min'] < thresh][['min']]
   valid_ctrl.reset_index(inplace=True)
   valid_ctrl['Experiment_Id'] = valid_ctrl['Control_Id']
-  if valid_ctrl.shape[0]:
-    new_ctrl_rows = curr_ctrl_rows.merge(
-        valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
+  if not valid_ctrl.shape[0]:
+    return df
+  new_ctrl_rows = curr_ctrl_rows.merge(
+      valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
   new_ctrl_rows['Value'] = new_ctrl_rows['Value'].fillna(new_ctrl_rows['min'])
   new_ctrl_rows.drop(columns='min', inplace=True)
   new_ctrl_rows['Is_Control'] = True
-- 
2.43.0


From 482376fd8a6f9a776dccf75567c70c5efa9c988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 19/40] fix: do not modify the query passed in as the table

---
 metrics.py | 4 +++-
 sql.py     | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 8723d88..d0ce824 100644
--- a/metrics.py
+++ b/metrics.py
@@ -697,8 +697,10 @@ class Metric(object):
         utils.get_extra_idx(self, return_superset=True)
     )
     with_data = sql.Datasources()
-    if isinstance(table, sql.Sql) and table.with_data:
+    if isinstance(table, sql.SqlComponent):
+      # The components of the query might get merged with others below.
       table = copy.deepcopy(table)
+    if isinstance(table, sql.Sql) and table.with_data:
       with_data = table.with_data
       table.with_data = None
     if not sql.Datasource(table).is_table:
diff --git a/sql.py b/sql.py
index 0240477..90be5a7 100644
--- a/sql.py
+++ b/sql.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 import collections
 from collections import abc
+import copy
 import functools
 import re
 from typing import Iterable, Optional, Text, Union
@@ -717,6 +718,10 @@ class Sql(SqlComponent):
     self.from_data = from_data
     from_data_table = from_data.table
     if isinstance(from_data_table, Sql) and not self.from_data.is_table:
+      # Both branches below move components out so don't touch the input.
+      from_data_table = copy.deepcopy(from_data_table)
+      from_data = Datasource(from_data_table, from_data.alias)
+      self.from_data = from_data
       if from_data_table.with_data:
         with_data_to_merge = from_data_table.with_data
         from_data_table.with_data = None
-- 
2.43.0


From 7186d50f6599a12cb58f8860e849ba18aa3224fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 20/40] fix: do not lose clauses when consolidating nested
 queries

---
 sql.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sql.py b/sql.py
index 90be5a7..89c785a 100644
--- a/sql.py
+++ b/sql.py
@@ -731,12 +731,19 @@ class Sql(SqlComponent):
         self.with_data.extend(with_data_to_merge)
       if not self.columns:
         # Consolidate outer and inner Sql if the outer Sql doesn't have columns.
-        self.columns = from_data_table.columns
-        self.where = Filters(from_data_table.where).add(self.where)
-        self.groupby = from_data_table.groupby
-        self.orderby = from_data_table.orderby
-        self.from_data = from_data_table.from_data
-      elif not from_data_table.columns:
+        # The filters can only be moved to the inner Sql if they still refer to
+        # the same columns there.
+        if not (self.groupby or self.orderby) and (
+            not self.where
+            or not from_data_table.groupby
+            and all(str(c) == c.expression for c in from_data_table.columns)
+        ):
+          self.columns = from_data_table.columns
+          self.where = Filters(from_data_table.where).add(self.where)
+          self.groupby = from_data_table.groupby
+          self.orderby = from_data_table.orderby
+          self.from_data = from_data_table.from_data
+      elif not from_data_table.columns and not from_data_table.groupby:
         # Consolidate outer and inner Sql if the inner Sql doesn't have columns.
         self.where = Filters(from_data_table.where).add(self.where)
         self.from_data = from_data_table.from_data
-- 
2.43.0


From 56bc1b5288f13f0b58b54993d5ce7292163dfacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 21/40] fix: always parenthesise filters containing OR

---
 sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 89c785a..9b6cbc8 100644
--- a/sql.py
+++ b/sql.py
@@ -183,7 +183,8 @@ class Filter(SqlComponent):
   def __str__(self):
     if not self.cond:
       return ''
-    return '(%s)' % self.cond if ' OR ' in self.cond.upper() else self.cond
+    has_or = re.search(r'\bOR\b', self.cond, re.IGNORECASE)
+    return '(%s)' % self.cond if has_or else self.cond
 
 
 class Filters(SqlComponents):
-- 
2.43.0


From 63c467e5e797ad696f775d39322a0c8f654a0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 22/40] fix: do not inherit the split_by and filters of the
 previous computation when a cache_key is given

---
 metrics.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index d0ce824..858ff36 100644
--- a/metrics.py
+++ b/metrics.py
@@ -339,8 +339,9 @@ class Metric(object):
       res = self.manipulate(raw_res, melted, return_dataframe, apply_name_tmpl)
       return self.final_compute(res, melted, return_dataframe, split_by, df)
     finally:
-      if cache_key is None:  # Only root metric can have None as cache_key
-        self.clean_up_cache()
+      # Only the root metric can have a key that has not been wrapped.
+      if not isinstance(cache_key, utils.CacheKey):
+        self.clean_up_cache(clear_cache=cache_key is None)
 
   def wrap_cache_key(self, key, split_by=None, where=None, slice_val=None):
     if key and not isinstance(key, utils.CacheKey) and self.cache_key:
@@ -419,7 +420,7 @@ class Metric(object):
     del melted, return_dataframe, split_by, df  # Useful in derived classes.
     return res
 
-  def clean_up_cache(self):
+  def clean_up_cache(self, clear_cache=True):
     """Flushes the cache when a Metric tree has been computed.
 
     A Metric and all the descendants form a tree. When a computation is started
@@ -430,8 +431,15 @@ class Metric(object):
     should only clean up at the end of the computation of the entry/top Metric.
     We recognize the top Metric by looking at the cache_key. All descendants
     will have it assigned as RESERVED_KEY but the entry Metric's will be None.
+    When a cache_key is given, the results are kept but the cache_keys of the
+    Metrics are still reset, otherwise the next computation would inherit the
+    split_by and filters of this one.
+
+    Args:
+      clear_cache: If to clear the cached results too.
     """
-    self.cache.clear()
+    if clear_cache:
+      self.cache.clear()
     for m in self.traverse():
       m.cache_key = None
 
-- 
2.43.0


From 4e29f43762fb0a45b75cee2dc62e36e71c04b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 23/40] fix: do not share the samples of Bootstraps on
 different units

---
 operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index a6d044a..a722ecb 100644
--- a/operations.py
+++ b/operations.py
@@ -2686,7 +2686,8 @@ class Bootstrap(MetricWithCI):
       for _ in range(self.n_replicates):
         resampled = units_grped.sample(frac=1, replace=True).index
         if use_cache:
-          cache_key = tuple(resampled)
+          # The same positions mean different data for other units.
+          cache_key = ('_RESERVED', 'Bootstrap', self.unit, tuple(resampled))
           if cache_key in sampled:
             yield cache_key, None
           else:
@@ -2853,7 +2854,10 @@ class PoissonBootstrap(Bootstrap):
         weights = self.get_sample_weight(n)
         cache_key = None
         if use_cache:
-          cache_key = tuple(weights)
+          # The same weights mean different data for other units.
+          cache_key = (
+              '_RESERVED', 'PoissonBootstrap', self.unit, tuple(weights)
+          )
           if cache_key in sampled:
             yielded = True
             yield cache_key, None
-- 
2.43.0


From d7796a30cb4ebf44439a11a962ae6e029102aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 24/40] fix: keep the key of the whole data when caching
 results on resamples

---
 metrics.py    | 3 ++-
 operations.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index 858ff36..4eeb3b7 100644
--- a/metrics.py
+++ b/metrics.py
@@ -345,7 +345,8 @@ class Metric(object):
 
   def wrap_cache_key(self, key, split_by=None, where=None, slice_val=None):
     if key and not isinstance(key, utils.CacheKey) and self.cache_key:
-      key = self.cache_key.replace_key(key)
+      # key only identifies a part of the data self.cache_key stands for.
+      key = self.cache_key.replace_key((self.cache_key.key, key))
     key = key or self.cache_key
     return utils.CacheKey(self, key, where or self.where_, split_by, slice_val)
 
diff --git a/operations.py b/operations.py
index a722ecb..97ead56 100644
--- a/operations.py
+++ b/operations.py
@@ -2388,7 +2388,9 @@ class Jackknife(MetricWithCI):
     key = cache_key.replace_split_by(split_by)
     self.save_to_cache(key, total)
 
-    key = cache_key.replace_key(('_RESERVED', 'Jackknife', self.unit))
+    key = cache_key.replace_key(
+        (cache_key.key, ('_RESERVED', 'Jackknife', self.unit))
+    )
     if not self.in_cache(key):
       each_bucket = utils.adjust_slices_for_loo(each_bucket, original_split_by,
                                                 df)
-- 
2.43.0


From 2a3c26c2422e9c62829ea09ba24bccf7969676f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 25/40] fix: do not take an empty split_by in a cache key for
 the one of the parent

---
 utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils.py b/utils.py
index 5286a8d..79fbd03 100644
--- a/utils.py
+++ b/utils.py
@@ -333,14 +333,15 @@ class CacheKey:
     self.metric = copy.deepcopy(metric)
     # `where` accumulates the filters so far and already includes metric.where.
     self.metric.where = None
-    split_by = (split_by,) if isinstance(split_by, str) else split_by or ()
+    split_by = (split_by,) if isinstance(split_by, str) else split_by
     where = [where] if isinstance(where, str) else where or []
     if isinstance(key, CacheKey):
       self.key = key.key
       self.where = key.where.copy()
       if where is not None:
         self.where.update(where)
-      self.split_by = tuple(split_by) if split_by else key.split_by[:]
+      # An empty split_by means no split while None means the same as in key.
+      self.split_by = key.split_by if split_by is None else tuple(split_by)
       self.slice_val = slice_val or {}
       self.extra_info = key.extra_info
       for k, v in key.slice_val:
@@ -350,7 +351,7 @@ class CacheKey:
     else:
       self.key = key
       self.where = set(where)
-      self.split_by = tuple(split_by)
+      self.split_by = tuple(split_by or ())
       self.slice_val = slice_val or {}
       self.extra_info = extra_info
     self.slice_val = tuple(sorted(self.slice_val.items()))
-- 
2.43.0


From 39d96094c73dde6540bbaa119f361ecbb9878181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 26/40] fix: look up the base of a cached change under the key
 of the current computation

---
 metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 4eeb3b7..700ea7e 100644
--- a/metrics.py
+++ b/metrics.py
@@ -329,10 +329,10 @@ class Metric(object):
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
       key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      self.cache_key = key
       if self.in_cache(key):
         raw_res = self.get_cached(key)
       else:
-        self.cache_key = key
         raw_res = compute_fn(df, split_by, *args, **kwargs)
         self.save_to_cache(key, raw_res)
 
-- 
2.43.0


From e44a990a010011b8fdfaf9f8eec40e9f007372e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 27/40] fix: keep index columns added by the child out of the
 shares of Distribution in SQL

---
 diversity.py  | 5 +++++
 operations.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/diversity.py b/diversity.py
index 8c0916e..507f8ff 100644
--- a/diversity.py
+++ b/diversity.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 from meterstick import operations
 from meterstick import sql
+from meterstick import utils
 import numpy as np
 import pandas as pd
 
@@ -38,6 +39,10 @@ class DiversityBase(operations.Distribution):
   def get_distribution_sql_and_columns(
       self, table, split_by, global_filter, indexes, local_filter, with_data
   ):
+    if utils.get_extra_idx(self, return_superset=True):
+      # The indexes added by the child are aggregated out in the result. It's
+      # not supported in SQL yet so fall back to the mixed mode.
+      raise NotImplementedError
     dist_sql, with_data = super(DiversityBase, self).get_sql_and_with_clause(
         table, split_by, global_filter, indexes, local_filter, with_data
     )
diff --git a/operations.py b/operations.py
index 97ead56..d5ce0f5 100644
--- a/operations.py
+++ b/operations.py
@@ -261,6 +261,9 @@ class Distribution(Operation):
     for c in child_sql.columns:
       if c.alias in groupby:
         continue
+      if c.alias in indexes.aliases:  # An index added by the child.
+        groupby.add(c.alias)
+        continue
       col = sql.Column(c.alias) / sql.Column(
           c.alias, 'SUM({})', partition=split_by.aliases
       )
-- 
2.43.0


From e4e3276cd35d8dd0b5bbf81a470d474da4f23bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 28/40] fix: reuse the full alias, suffix included, of an equal
 SQL column

---
 sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql.py b/sql.py
index 9b6cbc8..3658ac2 100644
--- a/sql.py
+++ b/sql.py
@@ -458,9 +458,10 @@ class Columns(SqlComponents):
     if isinstance(children, str):
       return self.add(Column(children))
     alias, expr = children.alias, children.expression
-    found = self.get_alias(expr)
+    found = next((c for c in self if c.expression == expr), None)
     if found:
-      children.set_alias(found)
+      children.set_alias(found.alias_raw)
+      children.suffix = found.suffix
       return self
     if alias not in self.aliases:
       self.children.append(children)
-- 
2.43.0


From 8ec245c7a606373938aacd0b1df60e9a1d40293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:28 +0000
Subject: [PATCH 29/40] fix: do not apply the name template of diversity
 metrics twice in SQL

---
 diversity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diversity.py b/diversity.py
index 507f8ff..7ce9a77 100644
--- a/diversity.py
+++ b/diversity.py
@@ -46,11 +46,12 @@ class DiversityBase(operations.Distribution):
     dist_sql, with_data = super(DiversityBase, self).get_sql_and_with_clause(
         table, split_by, global_filter, indexes, local_filter, with_data
     )
-    # Remove 'Distribution of ' in column names.
+    # Undo the name_tmpl in column names. It will be applied to the final result.
+    prefix, suffix = self.name_tmpl.split('{}')
     for c in dist_sql.columns:
       alias = c.alias_raw
-      if alias.startswith('Distribution of '):
-        c.set_alias(alias[len('Distribution of ') :])
+      if alias.startswith(prefix) and alias.endswith(suffix):
+        c.set_alias(alias[len(prefix) : len(alias) - len(suffix)])
     child_table = sql.Datasource(dist_sql, 'Distribution')
     child_table_alias = with_data.merge(child_table)
     return child_table_alias, dist_sql.columns, with_data
-- 
2.43.0


From 18831ee7c753e43898121ab80ca02d4fb5facf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 30/40] fix: apply rename_columns of MetricList in SQL when its
 children share a query

---
 metrics.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/metrics.py b/metrics.py
index 700ea7e..8e1b461 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1339,6 +1339,7 @@ class MetricList(Metric):
       for c in res.columns:
         if c not in indexes:
           c.alias_raw = name_tmpl.format(c.alias_raw)
+      self._rename_sql_columns([c for c in res.columns if c not in indexes])
       return res, with_data
 
     columns = sql.Columns(indexes.aliases)
@@ -1368,17 +1369,21 @@ class MetricList(Metric):
           )
 
     query = sql.Sql(columns, from_data)
-    if self.columns:
-      columns = query.columns[len(indexes):]
-      if len(columns) != len(self.columns):
-        raise ValueError(
-            'rename_columns has length %s but there are %s columns in '
-            'the result!' % (len(self.columns), len(columns)))
-      for col, rename in zip(columns, self.columns):
-        col.set_alias(rename)  # Modify in-place.
+    self._rename_sql_columns(query.columns[len(indexes):])
 
     return query, with_data
 
+  def _rename_sql_columns(self, columns):
+    """Applies rename_columns to the value columns of a query in-place."""
+    if not self.columns:
+      return
+    if len(columns) != len(self.columns):
+      raise ValueError(
+          'rename_columns has length %s but there are %s columns in '
+          'the result!' % (len(self.columns), len(columns)))
+    for col, rename in zip(columns, self.columns):
+      col.set_alias(rename)
+
   def __iter__(self):
     for m in self.children:
       yield m
-- 
2.43.0


From 76e8bda07a91dba37ce16ede459717f2789a47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:48 +0000
Subject: [PATCH 31/40] fix: keep units whose values are all NULL in the
 leave-one-out estimates of Jackknife in SQL

---
 operations.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/operations.py b/operations.py
index d5ce0f5..55aedef 100644
--- a/operations.py
+++ b/operations.py
@@ -3393,10 +3393,7 @@ def get_jackknife_data_fast(
     split_by,
     extra_index,
     unit AS meterstick_resample_idx,
-    # if needs_adjustment
     total.`sum(X)` - COALESCE(unit.`sum(X)`, 0) AS `sum(X)`
-    # else
-    total.`sum(X)` - unit.`sum(X)` AS `sum(X)`
   FROM
   TotalCount AS total
   RIGHT JOIN  # Or CROSS JOIN (SELECT DISTINCT unit FROM UnitSliceCount)
@@ -3430,13 +3427,9 @@ def get_jackknife_data_fast(
 
   columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
   columns_in_loo = sql.Columns()
-  # When there is any filter or Operation inside Jackknife, we need adjustments.
-  needs_adjustment = getattr(
-      metric, 'has_local_filter', False
-  ) or split_by != sql.Columns(indexes)
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
-      metric, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+      metric, columns_to_preagg, columns_in_loo, global_filter
   )
   metric.children = modified_jk.children
 
@@ -3487,7 +3480,6 @@ def modify_descendants_for_jackknife_fast(
     columns_to_preagg,
     columns_in_loo,
     global_filter,
-    needs_adjustment,
 ):
   """Gets the columns for leaf Metrics and modify them for fast Jackknife SQL.
 
@@ -3521,8 +3513,6 @@ def modify_descendants_for_jackknife_fast(
     columns_in_loo: A global container for all metric columns we need in LOO
       table. It's being added in-place.
     global_filter: The filters that can be applied to the whole Metric tree.
-    needs_adjustment: If we need to adjust the slices. See
-      utils.adjust_slices_for_loo() for more discussions.
 
   Returns:
     The modified metric tree.
@@ -3533,10 +3523,8 @@ def modify_descendants_for_jackknife_fast(
   metric = copy.deepcopy(metric)
   local_filter = sql.Filters(metric.where_)
   metric.where = None
-  if needs_adjustment:
-    tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
-  else:
-    tmpl = 'total_table.%s - unit_slice_table.%s'
+  # SUM is NULL in a unit that has no value, which doesn't change the total.
+  tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
   if isinstance(metric, (metrics.Sum, metrics.Count)):
     filters = sql.Filters(local_filter).remove(global_filter)
     c = sql.Column(metric.var).alias
@@ -3554,7 +3542,7 @@ def modify_descendants_for_jackknife_fast(
   new_children = []
   for m in metric.children:
     modified = modify_descendants_for_jackknife_fast(
-        m, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+        m, columns_to_preagg, columns_in_loo, global_filter
     )
     new_children.append(modified)
   metric.children = new_children
-- 
2.43.0


From 478ff00ccad06a67647059ad2ceea337d17f355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:16 +0000
Subject: [PATCH 32/40] fix: count a weighted quantile that falls on a value
 once in SQL

---
 metrics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index 8e1b461..e541730 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2242,9 +2242,9 @@ class Quantile(SimpleMetric):
       FROM QuantileWeights)
     2. For each quantile q, SELECT
     SUM(IF((prev_weight IS NULL AND q < weight) OR
-             (next_weight IS NULL AND q > weight),
+             (next_weight IS NULL AND q >= weight),
            val,
-           IF(q BETWEEN weight AND next_weight,
+           IF(q >= weight AND q < next_weight,
               (next_value * (q - weight) + (next_weight - q) * val) /
                 (next_weight - weight),
               0))).
@@ -2354,8 +2354,8 @@ class Quantile(SimpleMetric):
       )
       cols.add(
           sql.Column(
-              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} > {w}), {v},
-    IF({q} BETWEEN {w} AND {next_w}, {interp}, 0)))""",
+              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} >= {w}), {v},
+    IF({q} >= {w} AND {q} < {next_w}, {interp}, 0)))""",
               alias=f'{self.weight}-weighted quantile({self.var}, {q})',
           )
       )
-- 
2.43.0


From 1c8847cebcd349c240dd547b7cf20c1f3bfd6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 33/40] fix: truncate the percentile of Quantile in SQL after
 rounding the float error off

---
 metrics.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index e541730..6d6c522 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2192,21 +2192,26 @@ class Quantile(SimpleMetric):
     """Get SQL columns."""
     if self.weight:
       raise ValueError('SQL for weighted quantile should already be handled!')
+
+    def percentile(q):
+      # 100 * 0.29 is 28.999999999999996.
+      return int(round(100 * q, 9))
+
+    query = 'APPROX_QUANTILES({}, 100)[OFFSET(%s)]'
     if self.one_quantile:
       alias = 'quantile(%s, %s)' % (self.var, self.quantile)
       return sql.Column(
           self.var,
-          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % int(100 * self.quantile),
+          query % percentile(self.quantile),
           alias, local_filter)
 
-    query = 'APPROX_QUANTILES({}, 100)[OFFSET(%s)]'
     quantiles = []
     for q in self.quantile:
       alias = 'quantile(%s, %s)' % (self.var, q)
       if alias.startswith('0.'):
         alias = 'point_' + alias[2:]
       quantiles.append(
-          sql.Column(self.var, query % int(100 * q), alias, local_filter))
+          sql.Column(self.var, query % percentile(q), alias, local_filter))
     return sql.Columns(quantiles)
 
   def get_sql_and_with_clause(self, table, split_by, global_filter, indexes,
-- 
2.43.0


From 94af7e4449ff1caff6b0e727449c1825076cc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:35 +0000
Subject: [PATCH 34/40] fix: keep the order in which filters are added,
 whatever the hash seed

---
 metrics.py | 2 +-
 utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index 6d6c522..b06025b 100644
--- a/metrics.py
+++ b/metrics.py
@@ -276,7 +276,7 @@ class Metric(object):
     if not self.where_:
       self.where = where
     else:
-      self.where = tuple(set(list(self.where_) + where))
+      self.where = tuple(dict.fromkeys(list(self.where_) + where))
     return self
 
   def _compute_with_caching_and_postprocessing(
diff --git a/utils.py b/utils.py
index 79fbd03..d41c661 100644
--- a/utils.py
+++ b/utils.py
@@ -256,7 +256,7 @@ def push_filters_to_leaf(metric, is_root=True):
     return metric
   if is_root and metric.cache_key and metric.cache_key.where:
     metric = copy.deepcopy(metric)
-    metric.add_where(metric.cache_key.where)
+    metric.add_where(sorted(metric.cache_key.where))
   if not metric.children:
     return copy.deepcopy(metric)
   metric = copy.copy(metric)
-- 
2.43.0


From eda7abc347243188784bc0d32f2914d904291441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:35 +0000
Subject: [PATCH 35/40] fix: order the superset of extra indexes as the
 children have them

---
 utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/utils.py b/utils.py
index d41c661..ca056e3 100644
--- a/utils.py
+++ b/utils.py
@@ -166,9 +166,7 @@ def get_extra_idx(metric, return_superset=False):
   if len(set(children_idx)) > 1:
     if not return_superset:
       raise ValueError('Incompatible indexes!')
-    children_idx_superset = set()
-    children_idx_superset.update(*children_idx)
-    children_idx = [list(children_idx_superset)]
+    children_idx = [list(dict.fromkeys(i for c in children_idx for i in c))]
   if children_idx:
     extra_idx += list(children_idx[0])
   return tuple(extra_idx)
@@ -194,9 +192,7 @@ def get_extra_split_by(metric, return_superset=False):
   if len(set(children_idx)) > 1:
     if not return_superset:
       raise ValueError('Incompatible split_by!')
-    children_idx_superset = set()
-    children_idx_superset.update(*children_idx)
-    children_idx = [list(children_idx_superset)]
+    children_idx = [list(dict.fromkeys(i for c in children_idx for i in c))]
   if children_idx:
     extra_split_by += list(children_idx[0])
   return tuple(extra_split_by)
-- 
2.43.0


From f888f28789bb5a3ac520b093639b134cc059d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:35 +0000
Subject: [PATCH 36/40] fix: preaggregate leaf metrics in the order of the
 metric tree

---
 operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 55aedef..be8a4a9 100644
--- a/operations.py
+++ b/operations.py
@@ -3160,7 +3160,8 @@ def get_preaggregated_data(m, df, split_by):
   )
   original_idx = df.groupby(all_split_by, observed=True).first().iloc[:, [0]]
   filter_in_leaf = utils.push_filters_to_leaf(m)
-  leafs = metrics.MetricList(tuple(set(utils.get_leaf_metrics(filter_in_leaf))))
+  leafs = tuple(dict.fromkeys(utils.get_leaf_metrics(filter_in_leaf)))
+  leafs = metrics.MetricList(leafs)
   preagg_df = m.compute_util_metric_on(leafs, df, all_split_by)
   preagg_leafs = get_preaggregated_metric_tree(leafs)
   preagg_df.columns = [c.var for c in preagg_leafs]
-- 
2.43.0


From 2305c0e4420f32497ef6f5477c9b3bced1edf23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:35 +0000
Subject: [PATCH 37/40] fix: read the shards of a PCollection in order

---
 utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index ca056e3..b5a87c6 100644
--- a/utils.py
+++ b/utils.py
@@ -697,7 +697,8 @@ def pcollection_to_df_via_file_io(
   pipeline.run()
 
   res = []
-  for f in glob.glob(f'{output_path}-*'):  # output is sharded
+  # output is sharded
+  for f in sorted(glob.glob(f'{glob.escape(output_path)}-*')):
     res.append(pd.read_csv(f))
     if cleanup:
       os.remove(f)
-- 
2.43.0


From 9aae97410d1696163d39bea3583ca1e90d4436e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:17 +0000
Subject: [PATCH 38/40] fix: cumulate rows with the same value of over in the
 order SQL does

---
 operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index be8a4a9..49f51b3 100644
--- a/operations.py
+++ b/operations.py
@@ -330,7 +330,9 @@ class CumulativeDistribution(Distribution):
       dist = dist.reindex(order, level=level).dropna()
       res = self.group(dist, split_by).cumsum()
     elif not self.sort_by_values:
-      dist.sort_values(self.extra_index, ascending=self.ascending, inplace=True)
+      # The other levels order the rows that have the same self.extra_index.
+      levels = [i for i in dist.index.names if i not in split_by]
+      dist.sort_values(levels, ascending=self.ascending, inplace=True)
       res = self.group(dist, split_by).cumsum()
     else:
       cumsum = []
-- 
2.43.0


From 2c6e3f51eccb79e3f0571b598230ac1d6d3e7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:30 +0000
Subject: [PATCH 39/40] fix: forward precompute to sklearn in Lasso and
 ElasticNet

---
 models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/models.py b/models.py
index 2846977..e5df0c3 100644
--- a/models.py
+++ b/models.py
@@ -646,6 +646,7 @@ class Lasso(Model):
     """Initialize a sklearn.Lasso model."""
     model = linear_model.Lasso(
         alpha=alpha,
+        precompute=precompute,
         fit_intercept=fit_intercept,
         copy_X=copy_X,
         max_iter=max_iter,
@@ -718,6 +719,7 @@ class ElasticNet(Model):
     """Initialize a sklearn.ElasticNet model."""
     model = linear_model.ElasticNet(
         alpha=alpha,
+        precompute=precompute,
         l1_ratio=l1_ratio,
         fit_intercept=fit_intercept,
         copy_X=copy_X,
-- 
2.43.0


From a3a612525bc0f14f94cd18c06a05dfec23c7aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:30 +0000
Subject: [PATCH 40/40] fix: raise the intended ValueError for malformed
 auxiliary columns

---
 utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index b5a87c6..6174684 100644
--- a/utils.py
+++ b/utils.py
@@ -642,7 +642,7 @@ def parse_auxiliary_col(auxiliary_col, df: Optional[pd.DataFrame] = None):
                      auxiliary_col)
   if len(auxiliary_col) != 3:
     raise ValueError('auxiliary_col must be length-3 but got %s.' %
-                     auxiliary_col)
+                     (auxiliary_col,))
   col0, fn, col1 = auxiliary_col
   name0, col0 = parse_auxiliary_col(col0, df)
   name1, col1 = parse_auxiliary_col(col1, df)
@@ -666,6 +666,8 @@ def parse_auxiliary_col(auxiliary_col, df: Optional[pd.DataFrame] = None):
   elif fn == '**':
     name = 'POWER(%s, %s)' % (name0, name1)
     res = col0**col1 if df is not None else None
+  else:
+    raise ValueError('Unknown operator %r in auxiliary_col.' % (fn,))
   return name, res
 
 
-- 
2.43.0

