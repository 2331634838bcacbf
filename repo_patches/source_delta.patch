From 13b146b6e771111f6898c30071b1b4bd12c9a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 01/70] fix: source_target_merge keeps target values when the
 two halves differ in dtype

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..a4235e6 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -528,7 +528,7 @@ def source_target_merge(
 
                 arrays[index_is_empty] = (
                     default_masked_label *
-                    np.ones(shape_to_complete)
+                    np.ones(shape_to_complete, dtype=arrays[pair_index].dtype)
                 )
 
         # Check consistent number of samples in source-target arrays
@@ -582,7 +582,7 @@ def _merge_arrays(
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
         output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
+            np.concatenate((array_source, array_target))
         )
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
-- 
2.43.0


From e3d4c23c3257745a1729abc8f3cc3e2bc8271471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 02/70] fix: per_domain_split rejects arrays of inconsistent
 lengths

---
 skada/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/utils.py b/skada/utils.py
index a4235e6..5a624d3 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -359,7 +359,7 @@ def per_domain_split(
     if len(arrays) == 0:
         raise ValueError("At least one array required as input")
 
-    check_consistent_length(arrays)
+    check_consistent_length(*arrays, sample_domain)
 
     domain_idx = extract_domains_indices(sample_domain, False)
 
-- 
2.43.0


From 8dd26e59e666217c9c5e81de37ffd9502e3e7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 03/70] fix: allow_multi_target counts the target domains, not
 the sources

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 5a624d3..2858912 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -114,7 +114,7 @@ def check_X_y_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
 
@@ -217,7 +217,7 @@ def check_X_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
     
-- 
2.43.0


From 2c3c60cd175b40d10bed4d0bf80c98f6c598f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 04/70] fix: check_X_y_domain rejects domain labels of the
 wrong length

---
 skada/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/utils.py b/skada/utils.py
index 2858912..7d7393e 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -98,6 +98,7 @@ def check_X_y_domain(
     if np.isscalar(sample_domain):
         sample_domain = sample_domain*np.ones_like(y)
 
+    check_consistent_length(X, sample_domain)
     source_idx = extract_source_indices(sample_domain)
 
     # xxx(okachaiev): this needs to be re-written to accommodate for a
-- 
2.43.0


From 408f6e7fd2309c34b15fbff41c3815bf454c6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 05/70] fix: masking target labels no longer overwrites the
 caller's array

---
 skada/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..3626ca4 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -351,6 +351,7 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         if y is not None and routed_params.get('sample_domain') is not None:
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
+            y = y.copy()
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 2de19c0c7dbbe66e6bac360903ef18030de07197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 06/70] fix: PerDomain keeps the domain labels aligned when
 masked rows are dropped

---
 skada/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 3626ca4..4ffd9d2 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -473,7 +473,11 @@ class PerDomain(BaseSelector):
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
-        X, y, routed_params = self._remove_masked(X, y, routed_params)
+        # the domain labels have to follow the rows that are kept
+        X, y, routed_params = self._remove_masked(
+            X, y, {**routed_params, "_sample_domain": sample_domain}
+        )
+        sample_domain = routed_params.pop("_sample_domain")
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
             idx, = np.where(sample_domain == domain_label)
-- 
2.43.0


From 084bedb8e28f6ab1f56118533a3c95a5e458d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 07/70] fix: PerDomain and SelectSourceTarget accept
 transformers without fit_transform

---
 skada/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 4ffd9d2..3b00fbc 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -499,12 +499,10 @@ class PerDomain(BaseSelector):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-            if self.mask_target_labels:
-                y = self._auto_mask_target_labels(y, params)
-
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
             transform_params = _route_params(self.routing_.transform, method_params, self)
+            transform_params['sample_domain'] = method_params['sample_domain']
             # the output of the transform call is already merged into a single ndarray
             output = self.transform(X, **transform_params)
         return X_container.merge_in(output)
@@ -738,8 +736,8 @@ class SelectSourceTarget(BaseSelector):
         else:
             self.fit(X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            # parameters are routed separately to each of the fitted estimators
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
-- 
2.43.0


From 246730f66e309e8ec3a752ef114c39542f0a26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 08/70] fix: SelectSourceTarget exposes predict as its
 estimators do

---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index 3b00fbc..d238dff 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -773,6 +773,10 @@ class SelectSourceTarget(BaseSelector):
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     @available_if(_estimator_has('predict_proba', base_attr_name='source_estimator'))
     def predict_proba(self, X, **params):
         return self._route_to_estimator('predict_proba', X, **params)
-- 
2.43.0


From 7465ff0d05956ae3578af0172c0591db30a4897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 09/70] fix: merging per-domain outputs of different types
 loses no values

---
 skada/_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..f5dc7f3 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -171,6 +171,11 @@ def _remove_masked(X, y, params):
     return X, y, params
 
 
+def _widen(output, values):
+    """Give `output` a type that holds `values` as well as its own content."""
+    return output.astype(np.result_type(output.dtype, values.dtype), copy=False)
+
+
 def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
     assert len(domain_outputs), "At least a single domain has to be given"
     _, first_output = next(iter(domain_outputs.values()))
@@ -195,14 +200,17 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
                 y_output = np.zeros(
                     (n_samples, *domain_y.shape[1:]), dtype=domain_y.dtype
                 )
+            X_output = _widen(X_output, domain_X)
             X_output[idx] = domain_X
             if domain_y is not None:
+                y_output = _widen(y_output, domain_y)
                 y_output[idx] = domain_y
             for k, v in domain_params.items():
                 if k not in params_output:
                     params_output[k] = np.zeros(
                         (n_samples, *v.shape[1:]), dtype=v.dtype
                     )
+                params_output[k] = _widen(params_output[k], v)
                 params_output[k][idx] = v
         output = X_output, y_output, params_output
     else:
@@ -211,6 +219,7 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
             (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
         )
         for idx, domain_output in domain_outputs.values():
+            output = _widen(output, domain_output)
             output[idx] = domain_output
     return output
 
-- 
2.43.0


From 47f2b57afa943bb82987fbda921cce1f7a248af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 10/70] fix: an unknown default_selector name raises the
 intended ValueError

---
 skada/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 72305ff..c2a1704 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -127,7 +127,7 @@ def _wrap_with_selector(
             if selector_cls is None:
                 raise ValueError(
                     f"Unsupported `default_selector` name: {selector}."
-                    f"Use one of {_DEFAULT_SELECTORS.keys().join(', ')}"
+                    f"Use one of {', '.join(_DEFAULT_SELECTORS)}"
                 )
             estimator = selector_cls(estimator, mask_target_labels=mask_target_labels)
         else:
-- 
2.43.0


From 326e8a0f241002e0b52aa9587e9fbd50feb301f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 11/70] fix: nested pipelines with equally named steps can be
 combined

---
 skada/_pipeline.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index c2a1704..549204b 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -84,7 +84,7 @@ def make_da_pipeline(
     if not steps:
         raise TypeError("Missing 1 required positional argument: 'steps'")
 
-    names, estimators = [], []
+    names, estimators, user_names = [], [], set()
     for step in steps:
         name, estimator = step if isinstance(step, tuple) else (None, step)
         if isinstance(estimator, Pipeline) and isinstance(estimator[0], BaseSelector):
@@ -95,6 +95,7 @@ def make_da_pipeline(
                 names.append(nested_name)
                 estimators.append(nested_selector._unmark_as_final())
         else:
+            user_names.add(name)
             names.append(name)
             estimators.append(estimator)
     wrapped_estimators = _wrap_with_selectors(
@@ -105,10 +106,24 @@ def make_da_pipeline(
         (auto_name, step) if user_name is None else (user_name, step)
         for user_name, (auto_name, step) in zip(names, steps)
     ]
+    named_steps = _make_names_unique(named_steps, user_names)
     named_steps[-1][1]._mark_as_final()
     return Pipeline(named_steps, memory=memory, verbose=verbose)
 
 
+def _make_names_unique(named_steps, user_names):
+    """Rename the steps of nested pipelines (or auto-named ones) on a clash."""
+    taken, unique_steps = set(user_names), []
+    for name, step in named_steps:
+        unique_name, i = name, 2
+        while name not in user_names and unique_name in taken:
+            unique_name = f"{name}-{i}"
+            i += 1
+        taken.add(unique_name)
+        unique_steps.append((unique_name, step))
+    return unique_steps
+
+
 def _wrap_with_selector(
     estimator: BaseEstimator,
     selector: Union[str, Callable[[BaseEstimator], BaseSelector]],
-- 
2.43.0


From 33c98051ee22219eba05461ca4bb8e360ecd08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 12/70] fix: pack masks target labels of every numeric type,
 and tensors

---
 skada/datasets/_base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..ac2972a 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -338,6 +338,10 @@ class DomainAwareDataset:
                     y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
                     # make sure that the  mask is reused on the next iteration
                     mask, dtype = np.nan, y.dtype
+                else:
+                    y = _mask_labels(y)
+            if isinstance(y, np.ndarray) and not isinstance(X, np.ndarray):
+                y = torch.as_tensor(y, device=X.device)
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
@@ -584,6 +588,20 @@ class DomainAwareDataset:
 
 # xxx(okachaiev): putting `domain_names` first argument
 # so it's compatible with `partial`
+def _mask_labels(y):
+    """Mask for labels whose type is not one of the usual numpy ones."""
+    if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+        if y.is_floating_point():
+            return torch.full_like(y, np.nan)
+        return torch.full_like(y, -1, dtype=torch.promote_types(y.dtype, torch.int8))
+    if np.issubdtype(y.dtype, np.floating):
+        return np.full_like(y, np.nan)
+    if np.issubdtype(y.dtype, np.integer) or np.issubdtype(y.dtype, np.bool_):
+        return np.full_like(y, -1, dtype=np.promote_types(y.dtype, np.int8))
+    # there is no default mask for labels that are not numbers
+    return y
+
+
 def select_domain(
     domain_names: Dict[str, int],
     sample_domain: ArrayLike,
-- 
2.43.0


From 362ec535c8bfd5dbf7c35264cfaca9b6044529d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 13/70] fix: DomainAwareDataset keeps every domain it is given,
 labelled or not

---
 skada/datasets/_base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index ac2972a..866c6b4 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -112,7 +112,9 @@ class DomainAwareDataset:
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
             for d in domains:
-                if len(d) == 2:
+                if len(d) == 1:
+                    (X,), y, domain_name = d, None, None
+                elif len(d) == 2:
                     X, y = d
                     domain_name = None
                 elif len(d) == 3:
@@ -145,6 +147,8 @@ class DomainAwareDataset:
             assert domain_name not in self.domain_names_
         else:
             domain_name = f"_{len(self.domain_names_)+1}"
+            while domain_name in self.domain_names_:
+                domain_name = f"_{domain_name}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
@@ -169,10 +173,8 @@ class DomainAwareDataset:
             The updated dataset.
         """
         for domain_name in dataset.domain_names_:
-            # xxx(okachaiev): this needs to be more flexible
-            # as it should be possible to pass only X with y=None
-            # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
+            # a domain without labels is stored as `(X,)`
+            X, y = (*dataset.get_domain(domain_name), None)[:2]
             if names_mapping is not None:
                 domain_name = names_mapping.get(domain_name, domain_name)
             self.add_domain(X, y, domain_name)
-- 
2.43.0


From 8655972c2666a9a804d7b35143a40ba71907c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 14/70] fix: unlabelled domains get the mask of the task they
 are packed for

---
 skada/datasets/_base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 866c6b4..eb1f960 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -197,6 +197,18 @@ class DomainAwareDataset:
         domain_id = self.domain_names_[domain_name]
         return self.domains_[domain_id - 1]
 
+    def _missing_label(self, domain_names):
+        """Label of unlabelled domains: a NaN whenever the others are floating."""
+        for _, *labels in map(self.get_domain, domain_names):
+            for y in labels:
+                if hasattr(y, "is_floating_point"):
+                    is_floating = y.is_floating_point()
+                else:
+                    is_floating = np.issubdtype(np.asarray(y).dtype, np.floating)
+                if is_floating:
+                    return np.float64(np.nan)
+        return np.int32(-1)
+
     def select_domain(
         self, sample_domain: ArrayLike, domains: Union[str, Iterable[str]]
     ) -> ArrayLike:
@@ -300,12 +312,13 @@ class DomainAwareDataset:
                 DeprecationWarning,
             )
             mask_target_labels = train
+        missing = self._missing_label([*as_sources, *as_targets])
         for domain_name in as_sources:
             domain_id = self.domain_names_[domain_name]
             source = self.get_domain(domain_name)
             if len(source) == 1:
                 (X,) = source
-                y = -np.ones(X.shape[0], dtype=np.int32)
+                y = np.full(X.shape[0], missing)
             elif len(source) == 2:
                 X, y = source
             else:
@@ -324,7 +337,7 @@ class DomainAwareDataset:
                 (X,) = target
                 # xxx(okachaiev): for what it's worth, we should likely to
                 # move the decision about dtype to the very end of the list
-                y = -np.ones(X.shape[0], dtype=np.int32)
+                y = np.full(X.shape[0], missing)
             elif len(target) == 2:
                 X, y = target
             else:
-- 
2.43.0


From e3e2f220b4271b0b9e031b8150409bfd73e26398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 15/70] fix: pack_lodo honours return_type

---
 skada/datasets/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index eb1f960..283ba5e 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -519,7 +519,7 @@ class DomainAwareDataset:
 
     def pack_lodo(
         self,
-        return_X_y: bool = True,
+        return_X_y: Optional[bool] = None,
         return_type: Literal[
             "auto", "array", "tensor", "DeepDADataset", "Bunch"
         ] = "auto",
@@ -562,7 +562,7 @@ class DomainAwareDataset:
             domain_names : dict
                 The names of domains and associated domain labels.
 
-        (X, y, sample_domain) : tuple if `return_X_y=True`
+        (X, y, sample_domain) : tuple of ArrayLike if `return_type` asks for it
             Tuple of (data, target, sample_domain), see the description above.
         """
         return self.pack(
-- 
2.43.0


From f72eb6d47d90372adbd2bc2c67d63fff2353ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 16/70] fix: DiscriminatorReweight weights by the target over
 source ratio, not its inverse

---
 skada/_reweight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..17a4357 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -356,8 +356,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         # as we only use this array for indexing
         (source_idx,) = np.where(source_idx)
         probas = self.domain_classifier_.predict_proba(X[source_idx])[:, 1]
-        probas = np.clip(probas, EPS, 1.0)
-        source_weights = (1 - probas) / probas
+        # density ratio of the target (class 1) over the source (class 0)
+        probas = np.clip(probas, 0.0, 1.0 - EPS)
+        source_weights = probas / (1 - probas)
         source_weights /= source_weights.mean()
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
         weights[source_idx] = source_weights
-- 
2.43.0


From d3144f00805b09d7d798cc9536f0fa491b1eca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 17/70] fix: NearestNeighborReweight counts the neighbours of
 the target rows only

---
 skada/_reweight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 17a4357..50841df 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -805,9 +805,9 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
 
     def compute_weights(self, X, y=None, *, sample_domain=None, **params):
         X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
-        source_idx = extract_source_indices(sample_domain)
+        source_mask = extract_source_indices(sample_domain)
         # xxx(okachaiev): do we need np.where here?
-        (source_idx,) = np.where(source_idx)
+        (source_idx,) = np.where(source_mask)
         indices_source = np.arange(X[source_idx].shape[0])
         if np.array_equal(self.X_source_fit, X[source_idx]):
             estimator = self.estimator_
@@ -815,7 +815,7 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
             estimator = clone(self.base_estimator)
             estimator.fit(X[source_idx], indices_source)
         weights = np.ones(X.shape[0])
-        weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
+        weights[source_idx] = self._get_weights(X[source_idx], X[~source_mask])
         return weights
 
 
-- 
2.43.0


From 6508416158323932540872fe8cf81b82dc39dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 18/70] fix: KLIEPReweight keeps its gamma parameter, so that
 refitting rescales it

---
 skada/_reweight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 50841df..4d60c69 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -485,9 +485,9 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From 2fa2bba6425997c6575d51505b95f41b94510cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 19/70] fix: TransferComponentAnalysis solves the generalized
 eigenproblem it states

---
 skada/_subspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..db3edfa 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -298,16 +298,16 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
 
         A = np.eye(ns + nt) + self.mu * K @ L @ K
         B = K @ H @ K
-        solution = np.linalg.solve(A, B)
 
-        eigvals, eigvects = np.linalg.eigh(solution)
+        # A^{-1} B is not symmetric: solve the generalized symmetric problem
+        eigvals, eigvects = scipy.linalg.eigh(B, A)
 
         if self.n_components is None:
             n_components = min(X.shape[0], X.shape[1])
         else:
             n_components = self.n_components
         selected_components = np.argsort(np.abs(eigvals))[::-1][:n_components]
-        self.eigvects_ = np.real(eigvects[:, selected_components])
+        self.eigvects_ = eigvects[:, selected_components]
         return self
 
     def fit_transform(self, X, y=None, *, sample_domain=None, **params):
-- 
2.43.0


From 310032fbca653714b77aca5d3a2ec5c52522cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 20/70] fix: TCA and TJM return the fitted rows in the order
 they were given

---
 skada/_subspace.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index db3edfa..7eb16c3 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -362,7 +362,10 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
         if np.array_equal(X_source, self.X_source_) and np.array_equal(
             X_target, self.X_target_
         ):
-            X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
+            # K_ is ordered source first
+            X_ = self.K_ @ self.eigvects_
+            ns = X_source.shape[0]
+            X_, _ = source_target_merge(X_[:ns], X_[ns:], sample_domain=sample_domain)
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -524,6 +527,9 @@ class TransferJointMatchingAdapter(BaseAdapter):
         ):
             K = self._get_kernel_matrix(X_source, X_target)
             X_ = K @ self.A_
+            # K is ordered source first
+            ns = X_source.shape[0]
+            X_, _ = source_target_merge(X_[:ns], X_[ns:], sample_domain=sample_domain)
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
-- 
2.43.0


From 7c4f7f94229525699ab863a9ccf40a9e5e93162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 21/70] fix: TransferJointMatching penalises the source rows
 whatever their position

---
 skada/_subspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 7eb16c3..d6a933a 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -21,7 +21,6 @@ from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
 from .utils import (
     check_X_domain,
-    extract_source_indices,
     source_target_merge,
     source_target_split,
     torch_minimize,
@@ -584,7 +583,8 @@ class TransferJointMatchingAdapter(BaseAdapter):
         self.X_target_ = X_target
 
         n = X.shape[0]
-        source_mask = extract_source_indices(sample_domain)
+        # K, A and G are ordered source first
+        source_mask = np.arange(n) < X_source.shape[0]
 
         H = np.identity(n) - 1 / n * np.ones((n, n))
         K = self._get_kernel_matrix(X_source, X_target)
-- 
2.43.0


From 20f0d7f15629c9802b9c4ed9d93aee16cf96321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 22/70] fix: TransferJointMatching alternates until the loss
 settles

---
 skada/_subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index d6a933a..f77fb37 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -636,7 +636,7 @@ class TransferJointMatchingAdapter(BaseAdapter):
                 print(f"Constraint satisfaction: {cond}, dist={dist:.3e}")
                 print(f"Error of generalized eigendecomposition: {error_eigv:.3e}")
 
-            if last_loss == 0 or np.abs(last_loss - loss_total) / last_loss < self.tol:
+            if np.abs(last_loss - loss_total) <= self.tol * np.abs(last_loss):
                 break
             else:
                 last_loss = loss_total
-- 
2.43.0


From 2455ff4915efea61a0bc9ace48d2c8aef9b88383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 23/70] fix: MultiLinearMongeAlignment no longer truncates the
 mapped values of integer data

---
 skada/_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..b1017b7 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -691,7 +691,7 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
             X, sample_domain, allow_multi_source=True, allow_multi_target=True
         )
         idx = extract_domains_indices(sample_domain)
-        X_adapt = X.copy()
+        X_adapt = np.empty(X.shape, dtype=np.result_type(X, np.float32))
 
         for domain, sel in idx.items():
             A, b = self.mappings_[domain]
-- 
2.43.0


From 0fbbb88253d5680385f5357bd8074ee8647093a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 24/70] fix: DeepEmbeddedValidation weights each validation
 sample by its own weight

---
 skada/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..b6bba34 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -465,6 +465,8 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         )
 
         error = self._loss_func(y_val, y_pred)
+        # one column, as the weights: (n, 1) * (n,) would broadcast to (n, n)
+        error = np.asarray(error).reshape(-1, 1)
         assert weights.shape[0] == error.shape[0]
 
         weighted_error = weights * error
-- 
2.43.0


From ee569592036530bda4412324a58407d59989f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 25/70] fix: MaNoScorer computes its criterion without
 modifying the logits

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index b6bba34..b106d9f 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -918,7 +918,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
     @staticmethod
     def _stable_softmax(logits):
         """Compute softmax function."""
-        logits -= np.max(logits, axis=1, keepdims=True)
+        logits = logits - np.max(logits, axis=1, keepdims=True)
         exp_logits = np.exp(logits)
         exp_logits /= np.sum(exp_logits, axis=1, keepdims=True)
         return exp_logits
-- 
2.43.0


From 24d347378c957ebfd1f71a707cb087858fb8f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 26/70] fix: CircularValidation makes source domain 0 a target
 of the backward problem

---
 skada/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index b106d9f..8aa63d4 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -625,7 +625,10 @@ class CircularValidation(_BaseDomainAwareScorer):
                 le.fit(y_pred_target)
                 y_pred_target = le.transform(y_pred_target)
 
-            backward_sample_domain = -sample_domain
+            # swap the roles; domain 0 is a source too, hence the shift
+            backward_sample_domain = np.where(
+                source_idx, -sample_domain - 1, -sample_domain
+            )
 
             backward_y = np.zeros_like(y)
             backward_y[~source_idx] = y_pred_target
-- 
2.43.0


From 127c1b507a47d995af24eb268747900e61caa204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 27/70] fix: subsamplers keep everything for train_size=1.0, as
 documented

---
 skada/transformers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index f7be92f..068bd4c 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -10,6 +10,12 @@ from .model_selection import StratifiedDomainShuffleSplit
 from .utils import check_X_y_domain
 
 
+def _keeps_all(train_size, n_samples):
+    # a proportion of 1 keeps everything, a count of 1 does not
+    is_whole = isinstance(train_size, float) and train_size == 1.0
+    return is_whole or train_size >= n_samples
+
+
 class Subsampler(BaseAdapter):
     """Transformer that subsamples the data.
 
@@ -47,7 +53,7 @@ class Subsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
@@ -112,7 +118,7 @@ class DomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
@@ -175,7 +181,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
-- 
2.43.0


From d1dfd262fe0e167c950e7f37f220c3b551b8c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 28/70] fix: GradualEstimator keeps the announced number of
 pairs when the plan has ties

---
 skada/_gradual_da.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..fa49295 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -149,8 +149,11 @@ class GradualEstimator(DAEstimator):
         # Get the self.alpha * (n + m) largest coefficients of gamma
         self.max_index = int(min(self.alpha * (n + m), gamma.size - 1))
 
-        threshold = np.sort(gamma.flatten())[-self.max_index - 1]
-        return gamma >= threshold
+        # equal coefficients must not add more samples than announced
+        largest = np.argsort(-gamma, axis=None, kind="stable")[: self.max_index + 1]
+        mask = np.zeros(gamma.size, dtype=bool)
+        mask[largest] = True
+        return mask.reshape(n, m)
 
     def _advanced_cut_off_gamma(self, gamma):
         """Cut off the OT mapping to keep at least one value per row and column."""
-- 
2.43.0


From d310eaba26dbd402a323c3e3e5b73f2c7e4d4ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 29/70] fix: GradualEstimator fits a copy of its base
 estimator, of any kind

---
 skada/_gradual_da.py | 57 ++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index fa49295..284ef50 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -115,7 +116,7 @@ class GradualEstimator(DAEstimator):
         else:
             mask_gamma = self._cut_off_gamma(gamma)
         source = sample_domain >= 0
-        if not self.base_estimator:
+        if self.base_estimator is None:
             default_params = {
                 "hidden_layer_sizes": (100,),
                 "activation": "relu",
@@ -125,20 +126,24 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            self.base_estimator_ = MLPClassifier(**default_params)
+        else:
+            self.base_estimator_ = clone(self.base_estimator)
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            # -1 (or no such parameter) means that iterations are not limited
+            if getattr(self.base_estimator_, "max_iter", -1) > 0:
+                self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -201,7 +206,7 @@ class GradualEstimator(DAEstimator):
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -229,14 +234,10 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -251,16 +252,12 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -275,18 +272,14 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -303,10 +296,6 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From e41a90c1d0a892a72d2bd2a590e80c2ff3b263c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 30/70] fix: DASVMClassifier stops instead of failing once
 every target row is added

---
 skada/_self_labeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..c55c790 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -131,7 +131,8 @@ class DASVMClassifier(DAEstimator):
             decisions[~indices_list] = df
             decisions = np.array([-decisions + 1, decisions + 1]).T
         else:
-            decisions = np.ones(X.shape[0])
+            # no point is left, hence none in the margin
+            decisions = np.ones((X.shape[0], 2))
         return decisions
 
     def fit(self, X, y=None, sample_domain=None):
-- 
2.43.0


From 76e70b78ce5fb246115b7711d8427c2083319e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 31/70] fix: DASVMClassifier probabilities come from the
 adapted classifier

---
 skada/_self_labeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index c55c790..a40be9f 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -170,7 +170,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
@@ -294,7 +294,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From 07e0967edfd5abe5b8a5fa9909e86e4df316d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 32/70] fix: DASVMClassifier discards and adds k points per
 class, not one

---
 skada/_self_labeling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index a40be9f..059b366 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -95,6 +95,8 @@ class DASVMClassifier(DAEstimator):
         # depending on the values of d
         condition = np.logical_and(~indices_list, cond_array)
         for _ in range(min(self.k, math.ceil(sum(condition) / self.n_class))):
+            # do not choose again the points chosen by the iterations before
+            condition = np.logical_and(~indices_list, cond_array)
             idx = np.unique(np.argmax(d[condition], axis=0))
             # We need to get all those indices to be take into account
             # the fact that the some previous points weren't in the list
-- 
2.43.0


From 13373670b81ec0bbeca29796321b1d48d89d1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 33/70] fix: JCPOTLabelProp gives each target row its own label
 when there are several targets

---
 skada/_ot.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..6cc56a5 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -949,7 +949,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
     def fit_transform(self, X, y, sample_domain=None, *, sample_weight=None):
         X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
 
-        sources, targets = per_domain_split(X, y, sample_domain=sample_domain)
+        sources, _ = per_domain_split(X, y, sample_domain=sample_domain)
 
         Xs = [X for X, y in sources.values()]
         ys = [y for X, y in sources.values()]
@@ -958,9 +958,8 @@ class JCPOTLabelPropAdapter(BaseAdapter):
             Xs = Xs * 2
             ys = ys * 2
 
-        Xt = [X for X, y in targets.values()]
-
-        Xt = np.concatenate(Xt, axis=0)
+        # in the order of the rows, as the labels are put back in that order
+        Xt = X[sample_domain < 0]
 
         self.ot_adapter_ = ot.da.JCPOTTransport(
             reg_e=self.reg,
-- 
2.43.0


From 2148cc2e805186f6f13cc5ed5b6ebd26c34be06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:54 +0000
Subject: [PATCH 34/70] fix: JCPOTLabelProp propagates the class labels, not
 their numbers

---
 skada/_ot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 6cc56a5..21a370b 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -954,6 +954,10 @@ class JCPOTLabelPropAdapter(BaseAdapter):
         Xs = [X for X, y in sources.values()]
         ys = [y for X, y in sources.values()]
 
+        # JCPOT numbers the classes 0, 1, ... and so must the labels it is given
+        self.classes_ = np.unique(np.concatenate(ys))
+        ys = [np.searchsorted(self.classes_, y) for y in ys]
+
         if len(ys) == 1:
             Xs = Xs * 2
             ys = ys * 2
@@ -975,7 +979,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         self.yh_continuous_ = yh
 
-        yh = np.argmax(yh, axis=1)
+        yh = self.classes_[np.argmax(yh, axis=1)]
 
         yout = -np.ones_like(y)
         yout[sample_domain < 0] = yh
-- 
2.43.0


From 32c2d4ce9809622b0681ee94432d0fb7989e7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 35/70] fix: skada.__all__ names the subsamplers that exist

---
 skada/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..b39a7d0 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -132,8 +132,9 @@ __all__ = [
     "JDOTClassifier",
     "OTLabelPropAdapter",
 
-    "SubsampleTransformer",
-    "DomainStratifiedSubsampleTransformer",
+    "Subsampler",
+    "DomainSubsampler",
+    "StratifiedDomainSubsampler",
 
     "make_da_pipeline",
 
-- 
2.43.0


From 50d1e982dde87dbfcdd7532eecedd2664a376afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 36/70] fix: JDOTRegressor accepts allow_source, as pipelines
 pass it

---
 skada/_ot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 21a370b..6d6cd02 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -592,7 +592,9 @@ class JDOTRegressor(DAEstimator):
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
 
-    def predict(self, X, sample_domain=None, *, sample_weight=None):
+    def predict(
+        self, X, sample_domain=None, *, sample_weight=None, allow_source=False
+    ):
         """Predict using the model"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
@@ -602,7 +604,9 @@ class JDOTRegressor(DAEstimator):
             )
         return self.estimator_.predict(X)
 
-    def score(self, X, y, sample_domain=None, *, sample_weight=None):
+    def score(
+        self, X, y, sample_domain=None, *, sample_weight=None, allow_source=False
+    ):
         """Return the coefficient of determination R^2 of the prediction"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
-- 
2.43.0


From cd1930dd0560f1b717a85f68f0a4ae2699bfeb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 37/70] fix: JDOT estimators return themselves from fit

---
 skada/_ot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index 6d6cd02..2e80c5e 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -591,6 +591,7 @@ class JDOTRegressor(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(
         self, X, sample_domain=None, *, sample_weight=None, allow_source=False
@@ -725,6 +726,7 @@ class JDOTClassifier(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
-- 
2.43.0


From ef74cba95764da106b072a1a61f810a17c86eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 38/70] fix: the hinge cost of JDOT depends on the label of
 binary problems

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 2e80c5e..28085c0 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -73,7 +73,7 @@ def get_jdot_class_cost_matrix(Ys, Xt, estimator=None, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yt_pred = estimator.decision_function(Xt)
             if len(Yt_pred.shape) == 1:
-                Yt_pred = np.repeat(Yt_pred.reshape(-1, 1), 2, axis=1)
+                Yt_pred = np.stack([-Yt_pred, Yt_pred], axis=1)
             M = np.maximum(0, 1 - Ys[:, None, :] * Yt_pred[None, :, :]).sum(2)
         else:
             raise ValueError(
@@ -184,7 +184,7 @@ def get_tgt_loss_jdot_class(Xh, yh, wh, estimator, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yh_pred = estimator.decision_function(Xh)
             if len(Yh_pred.shape) == 1:  # handle binary classification
-                Yh_pred = np.repeat(Yh_pred.reshape(-1, 1), 2, axis=1)
+                Yh_pred = np.stack([-Yh_pred, Yh_pred], axis=1)
             loss = np.sum(np.maximum(0, 1 - yh * Yh_pred), 1).dot(wh)
         else:
             raise ValueError(
-- 
2.43.0


From dfcd69a25af4ee258f52302399c949d21af5fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 39/70] fix: dataset generators accept a RandomState instance
 as documented

---
 skada/datasets/_samples_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index fc3d272..3ff507d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -12,6 +12,7 @@ from scipy import signal
 from scipy.fftpack import irfft, rfft
 from scipy.stats import multivariate_normal
 from sklearn.datasets import make_blobs
+from sklearn.utils import check_random_state
 
 from ._base import DomainAwareDataset
 
@@ -339,7 +340,7 @@ def make_shifted_blobs(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     X_source, y_source = make_blobs(
         n_samples=n_samples,
@@ -491,7 +492,7 @@ def make_shifted_datasets(
             A unifying view on dataset shift in classification.
             Pattern recognition, 45(1):521-530.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
@@ -680,7 +681,7 @@ def make_dataset_from_moons_distribution(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     dataset = DomainAwareDataset(domains=[])
     sources = []
@@ -814,7 +815,7 @@ def make_variable_frequency_dataset(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     input_size = 3000
     fs = 100
     highest_frequency = 15
-- 
2.43.0


From 12bd36a21e82311b8c51d3425ce325a7c1fa8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 40/70] fix: moons dataset generator accepts the end position
 1.0

---
 skada/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 3ff507d..c53dd37 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -213,7 +213,7 @@ def _generate_data_from_moons(n_samples, index, rng):
     inner_circ_x = 1 - np.cos(np.linspace(0, np.pi, n_samples_circ))
     inner_circ_y = 1 - np.sin(np.linspace(0, np.pi, n_samples_circ)) - 0.5
 
-    index = int(index * n_samples_circ)
+    index = min(int(index * n_samples_circ), n_samples_circ - 1)
     cov = [[0.01, 0], [0, 0.01]]
     center1 = np.array([outer_circ_x[index], outer_circ_y[index]])
     center2 = np.array([inner_circ_x[index], inner_circ_y[index]])
-- 
2.43.0


From 076bfe3f1cd90d8cbbd9f630bef65f206d2fa25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 41/70] fix: variable frequency dataset scales channels, not
 time points, by the channel weights

---
 skada/datasets/_samples_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index c53dd37..c3d3515 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -260,8 +260,8 @@ def _generate_signal_with_peak_frequency(
                 X_filtered = signal.sosfilt(sos, X_random[i])
 
                 for j in range(n_channels):
-                    X_fft = rfft(X_filtered[:, j])
-                    X_filtered[:, j] = irfft(X_fft * channel_weights[j])
+                    X_fft = rfft(X_filtered[j])
+                    X_filtered[j] = irfft(X_fft * channel_weights[j])
                 X_new[i] += X_filtered
         X.append(X_new)
         y.append([n_class for _ in range(n_samples)])
-- 
2.43.0


From 306d631a3de2fea2ea9837b67905b8f76c2b22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 42/70] fix: subspace shift accepts the documented scalar
 mu_regression and sigma_regression

---
 skada/datasets/_samples_generator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index c3d3515..354d04f 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -493,14 +493,15 @@ def make_shifted_datasets(
             Pattern recognition, 45(1):521-530.
     """
     rng = check_random_state(random_state)
-    X_source, y_source = _generate_data_2d_classif(
-        n_samples_source,
-        rng,
-        mu_regression,
-        sigma_regression,
-        regression_scaling_constant,
-        label,
-    )
+    if shift != "subspace":
+        X_source, y_source = _generate_data_2d_classif(
+            n_samples_source,
+            rng,
+            mu_regression,
+            sigma_regression,
+            regression_scaling_constant,
+            label,
+        )
 
     if shift == "covariate_shift":
         n_samples_target_temp = n_samples_target * 100
-- 
2.43.0


From 9576f5f64e057f3bac87d23ffd0f47f4a0059cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 43/70] fix: DeepDADataset.merge(out=False) updates the sample
 indices

---
 skada/deep/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..c088638 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1142,6 +1142,7 @@ class DeepDADataset(Dataset):
                     f"no label, it must be represented by {_NO_LABEL_}) and, "
                     "optionally, a weight."
                 )
+                self._sample_idx = self._infer_sample_idx()
         else:
             raise TypeError("Can only merge two instances of DeepDADataset")
 
-- 
2.43.0


From beb1182625f0a0851221ed42e34f97a9db7582c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 44/70] fix: unlabelled DeepDADataset keeps integer labels when
 merged with labelled data

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index c088638..a6ee50f 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1056,7 +1056,7 @@ class DeepDADataset(Dataset):
             sample_domain = to_tensor(sample_domain, self.device)
 
         if y is None or len(y) == 0:
-            y = torch.full((len(X),), _NO_LABEL_, dtype=torch.float)
+            y = torch.full((len(X),), _NO_LABEL_, dtype=torch.int64)
             has_y = torch.full((len(X),), False, dtype=torch.bool)
         else:
             y = check_array(
-- 
2.43.0


From 969cf4b3db740ac4ea289272ece7ddb0f1b590eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 45/70] fix: DomainAwareNet.score compares the predictions with
 the labels of the rows it predicts

---
 skada/deep/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index a6ee50f..6005da5 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -702,9 +702,9 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
             X = X.select_target()
 
         return accuracy_score(
-            y,
-            self.predict(X, sample_domain, allow_source=allow_source),
-            sample_weight=sample_weight,
+            X.y,
+            self.predict(X, allow_source=allow_source),
+            sample_weight=X.sample_weight if X.has_weights else None,
         )
 
     def feature_iter(
-- 
2.43.0


From fb600e15a1efa32eaee48e24cf8068b8f60256ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 46/70] fix: sample weights in the deep loss follow the rows of
 the base loss (domain 0, train_on_target)

---
 skada/deep/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 6005da5..b7ec270 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -886,7 +886,10 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            mask = X["sample_domain"] >= 0
+            if getattr(self.criterion_, "train_on_target", False):
+                mask = ~mask
+            sample_weight = sample_weight[mask]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From f1b7a2a94ba47da39b2226f5225338905ac560b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 47/70] fix: DomainAwareModule predicts with base modules that
 take no sample_weight

---
 skada/deep/base.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index b7ec270..8c90b60 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -436,12 +436,12 @@ class DomainAwareModule(torch.nn.Module):
         return_features=False,
         sample_idx=None,
     ):
-        if is_fit:
-            if sample_weight is not None:
-                y_pred = self.base_module_(X, sample_weight=sample_weight)
-            else:
-                y_pred = self.base_module_(X)
+        if sample_weight is not None:
+            y_pred = self.base_module_(X, sample_weight=sample_weight)
+        else:
+            y_pred = self.base_module_(X)
 
+        if is_fit:
             if self.layer_name is not None:
                 features = self.intermediate_layers[self.layer_name]
             else:
@@ -455,12 +455,9 @@ class DomainAwareModule(torch.nn.Module):
             return (y_pred, domain_pred, features, sample_domain, sample_idx)
         else:
             if return_features:
-                return (
-                    self.base_module_(X, sample_weight=sample_weight),
-                    self.intermediate_layers[self.layer_name],
-                )
+                return y_pred, self.intermediate_layers[self.layer_name]
             else:
-                return self.base_module_(X, sample_weight=sample_weight)
+                return y_pred
 
 
 class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
-- 
2.43.0


From a2994165045f51854752b5359e749e14ee4e83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 48/70] fix: DomainClassifier outputs the probability of the
 target domain (softmax over one unit is constant)

---
 skada/deep/modules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index 3563d1a..7deabdc 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -178,8 +178,9 @@ class DomainClassifier(nn.Module):
             nn.BatchNorm1d(100),
             nn.ReLU(),
             nn.Linear(100, n_classes),
-            nn.Softmax(),
+            nn.Sigmoid() if n_classes == 1 else nn.Softmax(dim=1),
         )
+        self.n_classes = n_classes
         self.alpha = alpha
 
     def forward(self, x, sample_weight=None):
@@ -193,7 +194,8 @@ class DomainClassifier(nn.Module):
             Parameter for the reverse layer.
         """
         reverse_x = GradientReversalLayer.apply(x, self.alpha)
-        return self.classifier(reverse_x).squeeze()
+        output = self.classifier(reverse_x)
+        return output.squeeze(1) if self.n_classes == 1 else output
 
 
 class MNISTtoUSPSNet(nn.Module):
-- 
2.43.0


From 3e8f00e64ca849102129154a5c8c8d46cf76f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 49/70] fix: ModifiedCrossEntropyLoss uses each row's own
 target class

---
 skada/deep/_adversarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..dfc3156 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -411,7 +411,7 @@ class ModifiedCrossEntropyLoss(torch.nn.Module):
         smooth_prob = (1 - self.smoothing) * prob + self.smoothing / num_classes
 
         # Gather probabilities of the target classes
-        target_prob = smooth_prob[..., target]
+        target_prob = smooth_prob.gather(-1, target.unsqueeze(-1)).squeeze(-1)
 
         # Compute log(1 - probability) for the target class
         log_one_minus_prob = torch.log(1 - target_prob)
-- 
2.43.0


From cacd24d4cb7d86da3ea6e037cf3c2c7883729eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 50/70] fix: MemoryBank adds the momentum term to the memory

---
 skada/deep/callbacks.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..e194bce 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -157,14 +157,16 @@ class MemoryBank(Callback):
             outputs_target = softmax_out**2 / ((softmax_out**2).sum(dim=0))
 
             new_memory_features = (
-                1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+                (1.0 - self.momentum)
+                * net.criterion__adapt_criterion.memory_features[batch_idx]
+                + self.momentum * features_t.clone()
+            )
 
             new_memory_outputs = (
-                1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+                (1.0 - self.momentum)
+                * net.criterion__adapt_criterion.memory_outputs[batch_idx]
+                + self.momentum * outputs_target.clone()
+            )
 
         net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
         net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
-- 
2.43.0


From cef11629109c3f7baea6c03e3c654149e3a305c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 51/70] fix: deepjdot_loss accepts batches with different
 numbers of source and target rows

---
 skada/deep/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 98c70c4..d865423 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -105,12 +105,12 @@ def deepjdot_loss(
     """
     dist = torch.cdist(features_s, features_t, p=2) ** 2
 
-    y_target_matrix = y_pred_t.repeat(len(y_pred_t), 1, 1).permute(1, 2, 0)
+    y_target_matrix = y_pred_t.repeat(len(y_s), 1, 1).permute(1, 2, 0)
 
     if criterion is None:
         criterion = torch.nn.CrossEntropyLoss(reduction="none")
 
-    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_s), 1)).T
+    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_pred_t), 1)).T
     M = reg_dist * dist + reg_cl * loss_target
 
     # Compute the loss
-- 
2.43.0


From 04731fe9c0372d5f040c6d9ddd8de9dcdabc2787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 52/70] fix: nap_loss only excludes a sample's own memory entry
 from its neighbors

---
 skada/deep/losses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index d865423..3d4eb4e 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -499,7 +499,9 @@ def nap_loss(features_t, y_pred_t, memory_features, memory_outputs, sample_idx_t
         The number of nearest neighbors.
     """
     dis = torch.cdist(features_t.detach(), memory_features, p=2) ** 2
-    dis[..., sample_idx_t] = float("+inf")
+    # a sample is not its own neighbor
+    rows = torch.arange(len(features_t), device=features_t.device)
+    dis[rows, sample_idx_t] = float("+inf")
 
     # Get top-K neighbors
     _, top_k_indices = torch.topk(-dis, k=K, dim=1)
-- 
2.43.0


From f4720129778e309e21214143fcdf44d90821713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 53/70] fix: cdd_loss discards ambiguous samples by their
 similarity to each centroid

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 3d4eb4e..fd89d8b 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -254,7 +254,7 @@ def cdd_loss(
 
     # Discard ambiguous target samples
     similarities = F.cosine_similarity(
-        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0)
+        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0), dim=2
     )
     mask_t = 0.5 * (1 - similarities.max(dim=1)[0]) < distance_threshold
     features_t = features_t[mask_t]
-- 
2.43.0


From 243746b0728d3bbfa586906d986d9ecaf08d273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 54/70] fix: cdd_loss averages the kernel over the pairs of
 each class pair

---
 skada/deep/losses.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index fd89d8b..6759e19 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -284,7 +284,7 @@ def cdd_loss(
     intraclass = 0
     interclass = 0
     for c1 in range(n_classes):
-        for c2 in range(c1, n_classes):
+        for c2 in range(n_classes):
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
@@ -293,7 +293,8 @@ def cdd_loss(
                 # e1 measure the intra-class domain discrepancy
                 # Thus if mask_c1_c1.sum() = 0 --> e1 = 0
                 if mask_c1_c1.sum() > 0:
-                    e1 = (kernel_ss * mask_c1_c1).sum() / (mask_c1_c1.sum() ** 2)
+                    mask_ss = mask_c1_c1.unsqueeze(1) * mask_c1_c1.unsqueeze(0)
+                    e1 = (kernel_ss * mask_ss).sum() / mask_ss.sum()
                 else:
                     e1 = 0
 
@@ -304,7 +305,8 @@ def cdd_loss(
                 # e2 measure the intra-class domain discrepancy
                 # Thus if mask_c2_c2.sum() = 0 --> e2 = 0
                 if mask_c2_c2.sum() > 0:
-                    e2 = (kernel_tt * mask_c2_c2).sum() / (mask_c2_c2.sum() ** 2)
+                    mask_tt = mask_c2_c2.unsqueeze(1) * mask_c2_c2.unsqueeze(0)
+                    e2 = (kernel_tt * mask_tt).sum() / mask_tt.sum()
                 else:
                     e2 = 0
 
@@ -317,7 +319,7 @@ def cdd_loss(
                 # e3 measure the inter-class domain discrepancy
                 # Thus if mask_c1_c2.sum() = 0 --> e3 = 0
                 if mask_c1_c2.sum() > 0:
-                    e3 = (kernel_st * mask_c1_c2).sum() / (mask_c1_c2.sum() ** 2)
+                    e3 = (kernel_st * mask_c1_c2).sum() / mask_c1_c2.sum()
                 else:
                     e3 = 0
 
-- 
2.43.0


From 53417470d98fc9186205e52549415297808c9def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:08 +0000
Subject: [PATCH 55/70] fix: DomainAwareNet.score keeps explicitly given labels
 and weights, restricted to the predicted rows

---
 skada/deep/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 8c90b60..751cc70 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -695,13 +695,17 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
             The mean accuracy score.
         """
         X = self._prepare_input(X, y, sample_domain, sample_weight)
+        y = to_numpy(X.y) if y is None else np.asarray(y)
         if not allow_source:
-            X = X.select_target()
+            mask = to_numpy(X.sample_domain < 0)
+            y = y[mask]
+            if sample_weight is not None:
+                sample_weight = np.asarray(sample_weight)[mask]
 
         return accuracy_score(
-            X.y,
+            y,
             self.predict(X, allow_source=allow_source),
-            sample_weight=X.sample_weight if X.has_weights else None,
+            sample_weight=sample_weight,
         )
 
     def feature_iter(
-- 
2.43.0


From 770c8538ffdf916f29b8b4f203ff541ff549645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:08 +0000
Subject: [PATCH 56/70] fix: DeepDADataset.select on missing weights raises a
 clear error

---
 skada/deep/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 751cc70..a738fb9 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1333,8 +1333,9 @@ class DeepDADataset(Dataset):
         elif on == "sample_domain":
             mask = condition(self.sample_domain)
         elif on == "sample_weight":
-            if self.has_weights:
-                mask = condition(self.sample_weight)
+            if not self.has_weights:
+                raise ValueError("The dataset has no sample weights to select on.")
+            mask = condition(self.sample_weight)
         else:
             raise ValueError(
                 "'on' argument must be one of "
-- 
2.43.0


From 404f0f7adb997770dfd6ec73fb6bceb4ee291765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 57/70] fix: check_generator does not reseed the global torch
 generator

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..8a8cd37 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -52,9 +52,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From 6cc711abdab12fad4d1d3653c52673b7f5c6ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 58/70] fix: SphericalKMeans draws its initial centroids from
 random_state

---
 skada/deep/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 8a8cd37..40f788b 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -160,11 +160,13 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator=None):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
+            indices = torch.randperm(
+                n_samples, generator=generator, device=self.device
+            )[:self.n_clusters]
             centroids = X[indices]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
@@ -198,8 +200,13 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = None
+                if self.random_state is not None:
+                    generator = torch.Generator(device=self.device)
+                    generator.manual_seed(int(self.random_state))
+
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From 397ab27c0065351a4491bf0fed0a72a543f47cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:55 +0000
Subject: [PATCH 59/70] fix: pack returns numpy data as tensors or
 DeepDADataset when asked to

---
 skada/datasets/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 283ba5e..c8099ca 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -388,8 +388,8 @@ class DomainAwareDataset:
                     "torch is required to return data as tensors. "
                     "Please install torch to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
@@ -404,8 +404,8 @@ class DomainAwareDataset:
                     "torch and skorch are required to return data as DeepDADataset. "
                     "Please install them to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
-- 
2.43.0


From 54822f18704adb8e32bd97c836801f71a387c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:39 +0000
Subject: [PATCH 60/70] fix: CDANModule accepts sample weights, as the other
 modules do

---
 skada/deep/_adversarial.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index dfc3156..058f579 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -248,10 +248,13 @@ class CDANModule(DomainAwareModule):
         sample_idx=None,
         is_fit=False,
         return_features=False,
+        sample_weight=None,
     ):
-        if is_fit:
-            # predict
+        if sample_weight is not None:
+            y_pred = self.base_module_(X, sample_weight=sample_weight)
+        else:
             y_pred = self.base_module_(X)
+        if is_fit:
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
@@ -284,9 +287,9 @@ class CDANModule(DomainAwareModule):
             )
         else:
             if return_features:
-                return self.base_module_(X), self.intermediate_layers[self.layer_name]
+                return y_pred, self.intermediate_layers[self.layer_name]
             else:
-                return self.base_module_(X)
+                return y_pred
 
 
 def CDAN(
-- 
2.43.0


From cbdd36358d2698af5dbe399a382a834f1014a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:39 +0000
Subject: [PATCH 61/70] fix: clones of CDANModule keep max_features and
 random_state

---
 skada/deep/_adversarial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 058f579..06495a7 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -241,6 +241,12 @@ class CDANModule(DomainAwareModule):
         self.max_features = max_features
         self.random_state = random_state
 
+    def get_params(self, deep=True):
+        params = super().get_params(deep=deep)
+        params["max_features"] = self.max_features
+        params["random_state"] = self.random_state
+        return params
+
     def forward(
         self,
         X,
-- 
2.43.0


From abe55fd19a106652806a9e746d3557d14879289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:14 +0000
Subject: [PATCH 62/70] fix: unlabelled skorch datasets are unlabelled for
 DomainAwareNet

---
 skada/deep/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index a738fb9..9d1feeb 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -856,7 +856,8 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
                 )
 
         result = {"X": np.array(X), "sample_domain": np.array(sample_domain)}
-        y = np.array(y)
+        # skorch replaces missing labels by a dummy value
+        y = None if getattr(dataset, "y", y) is None else np.array(y)
         if has_sample_weight:
             result["sample_weight"] = np.array(sample_weight)
         return result, y
-- 
2.43.0


From faa163d85891c98790a3ad0892d5c98e34ede3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:13 +0000
Subject: [PATCH 63/70] fix: deepcoral_loss does not center the data when
 assume_centered is set

---
 skada/deep/losses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 6759e19..c97e7a1 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -44,8 +44,9 @@ def deepcoral_loss(features, features_target, assume_centered=False):
     if not assume_centered:
         features = features - features.mean(0)
         features_target = features_target - features_target.mean(0)
-    cov = torch.cov(features.T)
-    cov_target = torch.cov(features_target.T)
+    # torch.cov would center the data in any case
+    cov = features.T @ features / (len(features) - 1)
+    cov_target = features_target.T @ features_target / (len(features_target) - 1)
     divergence = mse_loss(cov, cov_target, reduction="sum")
     dim = features.shape[1]
     loss = (1 / (4 * (dim**2))) * divergence
-- 
2.43.0


From 0a4698411e7145c209054afb7a93c1099e507e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:22 +0000
Subject: [PATCH 64/70] fix: cdd_loss considers all classes, not as many as the
 batch holds

---
 skada/deep/losses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index c97e7a1..471faf1 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -241,8 +241,6 @@ def cdd_loss(
            In Proceedings of the IEEE/CVF Conference on Computer Vision
            and Pattern Recognition (pp. 4893-4902).
     """
-    n_classes = len(y_s.unique())
-
     # Use pre-computed target_kmeans
     if type(target_kmeans) is not SphericalKMeans:
         raise ValueError(
@@ -250,6 +248,9 @@ def cdd_loss(
             "A fitted SphericalKMeans should be provided."
         )
 
+    # one cluster per class: the batch may not hold all the classes
+    n_classes = len(target_kmeans.cluster_centers_)
+
     # Predict clusters for target samples
     cluster_labels_t = target_kmeans.predict(features_t)
 
-- 
2.43.0


From f6637643410d46e7e969be56363734f08ca04a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:22 +0000
Subject: [PATCH 65/70] fix: CountEpochs restarts the schedule of SPA with each
 fit

---
 skada/deep/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index e194bce..e1c1b7b 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -175,9 +175,9 @@ class MemoryBank(Callback):
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, *args, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion__adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-- 
2.43.0


From 65b59324a3d86a5458031dd8394aa62def0b4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:48 +0000
Subject: [PATCH 66/70] fix: CAN and SPA leave the given list of callbacks as
 it was

---
 skada/deep/_divergence.py      | 2 +-
 skada/deep/_graph_alignment.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..4be4306 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = [*callbacks, ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..437ba06 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = [*callbacks, MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From 116960f028b85057a917b27e9b2f7b8e13122dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:17 +0000
Subject: [PATCH 67/70] fix: CDAN and SPA follow the data type of the model

---
 skada/deep/_adversarial.py | 2 +-
 skada/deep/callbacks.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 06495a7..b8d2fbf 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -186,7 +186,7 @@ class CDANLoss(BaseDALoss):
         **kwargs,
     ):
         """Compute the domain adaptation loss"""
-        dtype = torch.float32
+        dtype = domain_pred_s.dtype
 
         # create domain label
         domain_label = torch.zeros(
diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index e1c1b7b..391b5d2 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -115,7 +115,7 @@ class MemoryBank(Callback):
         memory_features = torch.rand(
             (n_target_samples, n_features),
             device=net.device,
-            dtype=torch.float32,
+            dtype=torch.as_tensor(features_sample).dtype,
         )
         memory_features = memory_features / torch.linalg.norm(
             memory_features, dim=1, keepdim=True
@@ -126,7 +126,7 @@ class MemoryBank(Callback):
             torch.ones(
                 (n_target_samples, n_classes),
                 device=net.device,
-                dtype=torch.float32,
+                dtype=torch.as_tensor(pred_sample).dtype,
             )
             / n_classes
         )
-- 
2.43.0


From a2858b60cb76ccd2da29aa6296325061ad4538af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:17 +0000
Subject: [PATCH 68/70] fix: FLDA and LPP of TransferSubspaceLearning minimise
 the criterion they are named after

---
 skada/_subspace.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index f77fb37..f484a41 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -822,21 +822,19 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             cov = self._torch_cov(X_source)
             loss = -torch.trace(W.T @ cov @ W)
         elif base_method == "flda":
-            classes = torch.unique(y_source)
-            classes_means = torch.stack(
-                [torch.mean(X_source[y_source == c], dim=0) for c in classes]
-            )
-            classes_n_samples = torch.stack([torch.sum(y_source == c) for c in classes])
-            classes_means = classes_means * torch.sqrt(classes_n_samples).reshape(-1, 1)
-            S_W = self._torch_cov(classes_means)
-            S_B = self._torch_cov(X_source)
+            # replace each sample by the mean of its class
+            means = torch.zeros_like(X_source)
+            for c in torch.unique(y_source):
+                means[y_source == c] = torch.mean(X_source[y_source == c], dim=0)
+            S_W = self._torch_cov(X_source - means)
+            S_B = self._torch_cov(means)
             loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_B @ W)
         elif base_method == "lpp":
             # E is the Gaussian kernel if (y_source)_i == (y_source)_j and 0 otherwise
             E = torch.exp(-torch.cdist(X_source, X_source) / self.length_scale)
             E = E * (y_source[:, None] == y_source[None, :])
             D = torch.diag(torch.sum(E, dim=1))
-            loss = -2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
+            loss = 2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
 
         return loss
 
-- 
2.43.0


From 741f89fbf06c9220e450be2cf70b8df742793bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:17 +0000
Subject: [PATCH 69/70] fix: Gaussian kernels of TransferSubspaceLearning take
 squared distances

---
 skada/_subspace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index f484a41..8247f2d 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -806,9 +806,9 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         L_11 = torch.linalg.cholesky(torch.linalg.inv(sigma_11))
         L_12 = torch.linalg.cholesky(torch.linalg.inv(sigma_12))
         L_22 = torch.linalg.cholesky(torch.linalg.inv(sigma_22))
-        Kss = torch.exp(-0.5 * torch.cdist(Z_source @ L_11, Z_source @ L_11))
-        Kst = torch.exp(-0.5 * torch.cdist(Z_source @ L_12, Z_target @ L_12))
-        Ktt = torch.exp(-0.5 * torch.cdist(Z_target @ L_22, Z_target @ L_22))
+        Kss = torch.exp(-0.5 * torch.cdist(Z_source @ L_11, Z_source @ L_11) ** 2)
+        Kst = torch.exp(-0.5 * torch.cdist(Z_source @ L_12, Z_target @ L_12) ** 2)
+        Ktt = torch.exp(-0.5 * torch.cdist(Z_target @ L_22, Z_target @ L_22) ** 2)
 
         return torch.mean(Kss) + torch.mean(Ktt) - 2 * torch.mean(Kst)
 
@@ -831,7 +831,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_B @ W)
         elif base_method == "lpp":
             # E is the Gaussian kernel if (y_source)_i == (y_source)_j and 0 otherwise
-            E = torch.exp(-torch.cdist(X_source, X_source) / self.length_scale)
+            E = torch.exp(-(torch.cdist(X_source, X_source) ** 2) / self.length_scale)
             E = E * (y_source[:, None] == y_source[None, :])
             D = torch.diag(torch.sum(E, dim=1))
             loss = 2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
-- 
2.43.0


From 3b4cad4e78bd339833abfb236431184605beea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:17 +0000
Subject: [PATCH 70/70] fix: MMDLSConSMapping regresses the map on the kernel
 of the labels

---
 skada/_mapping.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index b1017b7..59dee35 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -1051,8 +1051,12 @@ class MMDLSConSMappingAdapter(BaseAdapter):
         d = X_source.shape[1]
 
         # compute omega
-        L = torch.exp(-self.gamma * torch.cdist(X_source, X_source, p=2))
-        omega = L @ torch.linalg.inv(L + self.reg_k * torch.eye(m))
+        # L is the kernel matrix of the labels
+        if discrete:
+            L = (y_source[:, None] == y_source[None, :]).to(X_source.dtype)
+        else:
+            L = torch.exp(-self.gamma * (y_source[:, None] - y_source[None, :]) ** 2)
+        omega = torch.linalg.solve(L + self.reg_k * torch.eye(m), L).T
 
         # compute R
         if discrete:
@@ -1062,7 +1066,7 @@ class MMDLSConSMappingAdapter(BaseAdapter):
                 R[:, i] = (y_source == c).int()
         else:
             self.classes_ = None
-            R = L @ torch.linalg.inv(L + self.reg_k * torch.eye(m))
+            R = omega
 
         # solve the optimization problem
         # min_{G, H} MMD(W \odot X^s + B, X^t)
-- 
2.43.0

