From 7027d0a052a4520b15bb0f6555c071845f1ae0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 01/35] fix: memoise PiecewiseLinear.log_likelihood like every
 other module

---
 spflow/modules/leaves/piecewise_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index 0abce99..d400f36 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -19,7 +19,7 @@ from torch import Tensor, nn
 from spflow.exceptions import OptionalDependencyError, ShapeError, UnsupportedOperationError
 from spflow.meta.data.scope import Scope
 from spflow.modules.leaves.leaf import LeafModule
-from spflow.utils.cache import Cache
+from spflow.utils.cache import Cache, cached
 from spflow.utils.domain import DataType, Domain
 from spflow.utils.histogram import get_bin_edges_torch
 from spflow.utils.sampling_context import SamplingContext
@@ -661,6 +661,7 @@ class PiecewiseLinear(LeafModule):
         self.domains = None
         self._distribution_cache = None
 
+    @cached
     def log_likelihood(
         self,
         data: Tensor,
-- 
2.43.0


From 648d61e398ca65b50b325c36f5878e856c37221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 02/35] fix: impute missing Categorical entries with category
 0, which exists for every K

---
 spflow/modules/leaves/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/categorical.py b/spflow/modules/leaves/categorical.py
index 52b7a4e..6ea5dc7 100644
--- a/spflow/modules/leaves/categorical.py
+++ b/spflow/modules/leaves/categorical.py
@@ -106,7 +106,7 @@ class Categorical(LeafModule):
     @property
     def _supported_value(self):
         """Fallback value for unsupported data."""
-        return 1
+        return 0
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Categorical]:
-- 
2.43.0


From 02e0cde6f914534111caab1a44d8022c9470b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 03/35] fix: marginalize missing evidence in TensorizedQPC
 instead of evaluating leaves on NaN

---
 spflow/zoo/pic/tensorized/qpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/pic/tensorized/qpc.py b/spflow/zoo/pic/tensorized/qpc.py
index 2cfb8ba..e71252d 100644
--- a/spflow/zoo/pic/tensorized/qpc.py
+++ b/spflow/zoo/pic/tensorized/qpc.py
@@ -493,7 +493,11 @@ class TensorizedQPC(Module):
 
         # Leaf parameterization and leaf log-likelihoods.
         leaf_param = self.input_net(z_quad, n_chunks=self.config.n_chunks)  # (V,K,P)
-        leaf_ll = self._leaf_log_likelihood(data, leaf_param)  # (B,V,K)
+        missing = torch.isnan(data)
+        leaf_ll = self._leaf_log_likelihood(data.masked_fill(missing, 0.0), leaf_param)  # (B,V,K)
+        # Missing evidence (NaN) is marginalized: an unobserved variable contributes log(1) = 0.
+        leaf_missing = missing[:, self._leaf_vars.to(device=data.device)]  # (B,V)
+        leaf_ll = leaf_ll.masked_fill(rearrange(leaf_missing, "b v -> b v 1"), 0.0)
 
         # Initial folded outputs for leaf regions: (F0, K, B)
         x0 = rearrange(leaf_ll, "b v k -> v k b").contiguous()
-- 
2.43.0


From c557d24770b97030d1cc482522bebe3ff268b658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 04/35] fix: treat NaN interval bounds as unbounded for leaves
 whose support excludes infinity

---
 spflow/modules/leaves/leaf.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 185229b..49513d5 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -516,27 +516,24 @@ class LeafModule(Module, ABC):
                 f"The underlying distribution {dist.__class__.__name__} has no cdf() method."
             )
 
-        # Handle NaN bounds as -inf/+inf
-        low_for_cdf = torch.where(
-            torch.isnan(low_expanded),
-            torch.full_like(low_expanded, float("-inf")),
-            low_expanded,
-        )
-        high_for_cdf = torch.where(
-            torch.isnan(high_expanded),
-            torch.full_like(high_expanded, float("inf")),
-            high_expanded,
-        )
+        # NaN bounds are unbounded. The CDF is evaluated at a supported value there and replaced by its
+        # limit, since +-inf lies outside the support of many distributions.
+        low_open = torch.isnan(low_expanded)
+        high_open = torch.isnan(high_expanded)
+        low_fill = rearrange(self._supported_value_for_imputation(low_scoped), "b f -> b f 1 1")
+        high_fill = rearrange(self._supported_value_for_imputation(high_scoped), "b f -> b f 1 1")
 
         # Compute CDF values
         try:
-            cdf_high = dist.cdf(high_for_cdf)
-            cdf_low = dist.cdf(low_for_cdf)
+            cdf_high = dist.cdf(torch.where(high_open, high_fill, high_expanded))
+            cdf_low = dist.cdf(torch.where(low_open, low_fill, low_expanded))
         except NotImplementedError:
             raise NotImplementedError(
                 f"{self.__class__.__name__} does not support interval inference. "
                 f"The underlying distribution {dist.__class__.__name__} does not implement cdf()."
             )
+        cdf_high = torch.where(high_open, torch.ones_like(cdf_high), cdf_high)
+        cdf_low = torch.where(low_open, torch.zeros_like(cdf_low), cdf_low)
 
         # P(low <= X <= high) = CDF(high) - CDF(low)
         prob = torch.clamp(cdf_high - cdf_low, min=1e-40)  # Numerical stability
-- 
2.43.0


From 8cad48e2b9cd3dd20782d3d13b41972fa2bdc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 05/35] fix: reject interval evidence on conditional leaves
 instead of ignoring their parameter_fn

---
 spflow/modules/leaves/leaf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 49513d5..fd0828a 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -424,6 +424,10 @@ class LeafModule(Module, ABC):
         """
         # Dispatch on IntervalEvidence
         if isinstance(data, IntervalEvidence):
+            if self.is_conditional:
+                raise UnsupportedOperationError(
+                    f"{self.__class__.__name__} does not support interval inference for conditional parameters."
+                )
             return self._log_likelihood_interval(data.low, data.high, cache)
 
         if data.dim() != 2:
-- 
2.43.0


From 5424101dc5820fc7ca248495a35f872bf5ad0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 06/35] fix: sample the repetition of RepetitionMixingLayer
 from the requested channel's weights

---
 spflow/modules/sums/repetition_mixing_layer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 2a58ee3..40abaef 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,7 +9,12 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
-from spflow.utils.sampling_context import SamplingContext, sample_from_logits
+from spflow.utils.sampling_context import (
+    SamplingContext,
+    index_tensor,
+    repeat_channel_index,
+    sample_from_logits,
+)
 
 
 class RepetitionMixingLayer(Sum):
@@ -136,7 +141,13 @@ class RepetitionMixingLayer(Sum):
             log_posterior = log_posterior.log_softmax(dim=3)
             logits = log_posterior
 
-        rep_logits = logits.sum(-2)
+        # Each requested output channel mixes the repetitions with its own weights
+        c_idxs = repeat_channel_index(
+            sampling_ctx.channel_index, "b f co -> b f co r", r=int(logits.shape[-1])
+        )
+        rep_logits = index_tensor(
+            logits, index=c_idxs, dim=2, is_differentiable=sampling_ctx.is_differentiable
+        )
         rep_samples = sample_from_logits(
             logits=rep_logits,
             dim=-1,
-- 
2.43.0


From 61ae917022ee168ddc2735888e1027f33d1a12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 07/35] fix: validate RepetitionMixingLayer constructor weights
 over repetitions, the axis it mixes

---
 spflow/modules/sums/repetition_mixing_layer.py | 5 +++--
 spflow/modules/sums/sum.py                     | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 40abaef..cfe2672 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -24,6 +24,9 @@ class RepetitionMixingLayer(Sum):
     Extends Sum with RAT-SPN specific optimizations.
     """
 
+    # Needed by the Sum constructor to normalize and validate the weights over repetitions
+    sum_dim: int = 2
+
     def __init__(
         self,
         inputs: Module,
@@ -44,8 +47,6 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
-        self.sum_dim = 2
-
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index b8934b2..fd321e2 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -43,6 +43,8 @@ class Sum(Module):
         logits (Parameter): Unnormalized log-weights for gradient optimization.
     """
 
+    sum_dim: int = 1
+
     def __init__(
         self,
         inputs: Module | list[Module],
@@ -105,7 +107,6 @@ class Sum(Module):
         else:
             self.inputs = inputs
 
-        self.sum_dim = 1
         self.scope = self.inputs.scope
 
         # ========== 5. SHAPE COMPUTATION (early, so shapes can be reused below) ==========
-- 
2.43.0


From 10bf087051010b42e49738eda35b76b262726d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 08/35] fix: RatSPN and Einet choose the root node from its
 posterior when sampling with evidence

---
 spflow/zoo/einet/einet.py | 5 +++++
 spflow/zoo/rat/rat_spn.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 5605810..5806304 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -454,6 +454,11 @@ class Einet(Module, Classifier):
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)
 
+            # With evidence, choose the root from the posterior given the cached likelihoods.
+            root_lls = cache.get("log_likelihood", self.root_node.inputs)
+            if root_lls is not None:
+                logits = logits + rearrange(root_lls, "b 1 co 1 -> b 1 co")
+
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
             else:
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 21c08b4..840a8c2 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -302,6 +302,11 @@ class RatSPN(Module, Classifier):
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)  # shape [b, 1, n_root_nodes]
 
+            # With evidence, choose the root from the posterior given the cached likelihoods.
+            root_lls = cache.get("log_likelihood", self.root_node.inputs)
+            if root_lls is not None:
+                logits = logits + rearrange(root_lls, "b 1 co 1 -> b 1 co")
+
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
             else:
-- 
2.43.0


From 0ec2c911c47fa1109438b49c962d9aaf679bba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 09/35] fix: WeightedSum routes by the posterior of its inputs
 when sampling with evidence

---
 spflow/zoo/pic/weighted_sum.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spflow/zoo/pic/weighted_sum.py b/spflow/zoo/pic/weighted_sum.py
index 8281293..b50375c 100644
--- a/spflow/zoo/pic/weighted_sum.py
+++ b/spflow/zoo/pic/weighted_sum.py
@@ -251,6 +251,18 @@ class WeightedSum(Module):
         weights = weights.gather(dim=3, index=idxs)
         weights = rearrange(weights, "b f ci 1 -> b f ci")
 
+        # With evidence, route by the posterior given the cached input likelihoods
+        input_lls = cache.get("log_likelihood", self.inputs)
+        if input_lls is not None:
+            indices = repeat(
+                rearrange(sampling_ctx.repetition_index, "... -> (...)"),
+                "b -> b f ci 1",
+                f=num_features,
+                ci=num_input_channels,
+            )
+            input_lls = rearrange(torch.gather(input_lls, dim=-1, index=indices), "b f ci 1 -> b f ci")
+            weights = weights * torch.exp(input_lls - input_lls.amax(dim=-1, keepdim=True))
+
         # Sample from categorical distribution
         if sampling_ctx.is_mpe:
             new_channel_index = torch.argmax(weights, dim=-1)
-- 
2.43.0


From a8615d4e3175830e3d2442c715750afeddb0456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 10/35] fix: keep weights of the remaining features when
 marginalizing sum layers

---
 spflow/modules/sums/elementwise_sum.py | 14 ++++++++++----
 spflow/modules/sums/sum.py             |  9 ++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 6b587dd..9acfd22 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -269,10 +269,16 @@ class ElementwiseSum(Module):
 
             # if marginalized input is not None
             if marg_input:
-                indices = [self.scope.query.index(el) for el in list(mutual_rvs)]
-                mask = torch.ones(len(module_scope.query), device=module_weights.device, dtype=torch.bool)
-                mask[indices] = False
-                module_weights = module_weights[mask]
+                # Keep the weights of the features that still depend on a variable, per repetition
+                module_weights = torch.stack(
+                    [
+                        module_weights[
+                            [i for i, s in enumerate(self.feature_to_scope[:, r]) if set(s.query) - mutual_rvs], ..., r
+                        ]
+                        for r in range(self.out_shape.repetitions)
+                    ],
+                    dim=-1,
+                )
 
         else:
             marg_input = self.inputs
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index fd321e2..733138e 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -485,8 +485,8 @@ class Sum(Module):
                         [not scope.empty() for scope in feature_to_scope_r], device=self.device
                     ).bool()
 
-                    # Apply mask to weights for this repetition: (out_features, in_channels, out_channels)
-                    masked_weights_r = module_weights[:, :, :, r][mask]
+                    # Apply mask to weights for this repetition: (out_features, ..., out_channels)
+                    masked_weights_r = module_weights[..., r][mask]
                     masked_weights_list.append(masked_weights_r)
 
                 # Stack weights back along the repetition dimension
@@ -503,8 +503,7 @@ class Sum(Module):
                         if w.shape[0] < max_features:
                             padding = torch.zeros(
                                 max_features - w.shape[0],
-                                w.shape[1],
-                                w.shape[2],
+                                *w.shape[1:],
                                 device=w.device,
                                 dtype=w.dtype,
                             )
@@ -519,4 +518,4 @@ class Sum(Module):
             return None
 
         else:
-            return Sum(inputs=marg_input, weights=module_weights)
+            return self.__class__(inputs=marg_input, weights=module_weights)
-- 
2.43.0


From 438218ad52be1b10043aa1ae61cbd94152cc7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 11/35] fix: SumConv.marginalize keeps its weights

---
 spflow/modules/conv/sum_conv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 46018a7..e63299f 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -554,9 +554,12 @@ class SumConv(Module):
 
         # For now, return a new SumConv with marginalized input
         # Note: This is a simplified implementation
-        return SumConv(
+        marg_module = SumConv(
             inputs=marg_input,
             out_channels=self.out_shape.channels,
             kernel_size=self.kernel_size,
             num_repetitions=self.out_shape.repetitions,
         )
+        marg_module.to(self.logits.device, self.logits.dtype)
+        marg_module.logits.data = self.logits.detach().clone()
+        return marg_module
-- 
2.43.0


From 5576db46b1db3e6dd7a254c5b8e1b2242f495c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 12/35] fix: marginalized leaves keep their configuration

---
 spflow/modules/leaves/binomial.py         |  6 +++++
 spflow/modules/leaves/histogram.py        |  6 ++++-
 spflow/modules/leaves/leaf.py             |  7 +++++-
 spflow/modules/leaves/piecewise_linear.py | 29 +++++++++++++++++++++++
 spflow/modules/leaves/uniform.py          |  3 +++
 5 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/binomial.py b/spflow/modules/leaves/binomial.py
index edaf756..22bd460 100644
--- a/spflow/modules/leaves/binomial.py
+++ b/spflow/modules/leaves/binomial.py
@@ -89,6 +89,12 @@ class Binomial(LeafModule):
         self._logits = nn.Parameter(logits_tensor)
         self.differentiable_sampling_method = differentiable_sampling_method
 
+    def _marginalized_config(self):
+        return {
+            **super()._marginalized_config(),
+            "differentiable_sampling_method": self.differentiable_sampling_method,
+        }
+
     @property
     def total_count(self) -> Tensor:
         """Returns the number of trials."""
diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index b3b65fc..724abf2 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -344,5 +344,9 @@ class Histogram(LeafModule):
             return None
 
         return Histogram(
-            scope=self.scope.copy(), bin_edges=self.bin_edges.detach().clone(), logits=self.logits.detach()
+            scope=self.scope.copy(),
+            bin_edges=self.bin_edges.detach().clone(),
+            logits=self.logits.detach(),
+            min_prob=self._min_prob,
+            validate_args=self._validate_args,
         )
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index fd0828a..0272652 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Optional, Dict, Callable, Iterable, Union
+from typing import Any, Optional, Dict, Callable, Iterable, Union
 
 import numpy as np
 import torch
@@ -1116,5 +1116,10 @@ class LeafModule(Module, ABC):
         # Construct new object of the same class as the leaves
         return self.__class__(
             scope=scope_marg,
+            **self._marginalized_config(),
             **marg_params_dict,
         )
+
+    def _marginalized_config(self) -> dict[str, Any]:
+        """Return the non-parameter constructor arguments a marginalized leaf keeps."""
+        return {"validate_args": self._validate_args}
diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index d400f36..1e42e31 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -480,6 +480,35 @@ class PiecewiseLinear(LeafModule):
         """
         return {"xs": self.xs, "ys": self.ys}
 
+    def marginalize(self, marg_rvs: list[int], prune: bool = True, cache=None) -> Optional["PiecewiseLinear"]:
+        """Structurally marginalize specified variables.
+
+        Args:
+            marg_rvs: Variable indices to marginalize.
+            prune: Unused (for interface consistency).
+            cache: Unused (for interface consistency).
+
+        Returns:
+            Marginalized leaf or None if fully marginalized.
+        """
+        del prune, cache
+        keep = [i for i, q in enumerate(self.scope.query) if q not in marg_rvs]
+        if not keep:
+            return None
+
+        marg_leaf = PiecewiseLinear(
+            scope=Scope([self.scope.query[i] for i in keep]),
+            out_channels=self.out_shape.channels,
+            num_repetitions=self.out_shape.repetitions,
+            alpha=self.alpha,
+        )
+        if self.is_initialized:
+            marg_leaf.xs = [[[leaf[i] for i in keep] for leaf in rep] for rep in self.xs]
+            marg_leaf.ys = [[[leaf[i] for i in keep] for leaf in rep] for rep in self.ys]
+            marg_leaf.domains = [self.domains[i] for i in keep]
+            marg_leaf.is_initialized = True
+        return marg_leaf
+
     def _compute_parameter_estimates(self, data: Tensor, weights: Tensor, bias_correction: bool) -> dict:
         """Not implemented for PiecewiseLinear - use initialize() instead."""
         raise NotImplementedError("PiecewiseLinear does not support MLE. Use initialize() instead.")
diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index e4b212a..60d607e 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -71,6 +71,9 @@ class Uniform(LeafModule):
         self.end_next = torch.nextafter(high, high.new_tensor(float("inf")))
         self._support_outside = high.new_tensor(support_outside, dtype=torch.bool)
 
+    def _marginalized_config(self):
+        return {**super()._marginalized_config(), "support_outside": bool(self._support_outside)}
+
     @property
     def _supported_value(self):
         """Fallback value for unsupported data."""
-- 
2.43.0


From 600903d03fb27ecf539a85760d8959d64b39d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 13/35] fix: broadcast single-channel inputs in
 ElementwiseSum's EM step

log_likelihood repeats a one-channel input over all input channels, the EM
step stacked the cached likelihoods without doing so and raised.
---
 spflow/modules/sums/elementwise_sum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 9acfd22..a519d90 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -534,6 +534,8 @@ class ElementwiseSum(Module):
                 inp_ll = cache.get("log_likelihood", inp)
                 if inp_ll is None:
                     raise MissingCacheError("Input log-likelihoods not found in cache.")
+                if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                    inp_ll = repeat(inp_ll, "b f 1 r -> b f ci r", ci=self.in_shape.channels)
                 input_lls.append(inp_ll)
             input_lls = torch.stack(input_lls, dim=3)
 
-- 
2.43.0


From a1b222b2dfcff7c2e2d249dd6e9f967043949325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 14/35] fix: route samples to the only channel of
 single-channel ElementwiseSum inputs

A one-channel input is broadcast over all input channels, but sampling handed
it the routed-to channel index, which is out of range for that input.
---
 spflow/modules/sums/elementwise_sum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index a519d90..3ebab54 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -448,8 +448,15 @@ class ElementwiseSum(Module):
 
         for i, inp in enumerate(self.inputs):
             child_mask = sampling_ctx.mask & (selected_input == i)
+            child_channels = cids_in_channels_per_input
+            if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                # The input's only channel is broadcast over all input channels.
+                if sampling_ctx.is_differentiable:
+                    child_channels = child_channels.sum(dim=-1, keepdim=True)
+                else:
+                    child_channels = torch.zeros_like(child_channels)
             sampling_ctx_cpy = sampling_ctx.with_routing(
-                channel_index=cids_in_channels_per_input,
+                channel_index=child_channels,
                 mask=child_mask,
             )
 
-- 
2.43.0


From fafa725255a816607188e32acf5b4057c54163d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 15/35] fix: normalize MLE sample weights per estimated
 component

The weights of all features, channels and repetitions together were scaled to the
number of samples, so with bias correction a leaf with several components divided
by a too small (or negative) count and its scale collapsed.
---
 spflow/modules/leaves/cltree.py |  3 ++-
 spflow/modules/leaves/leaf.py   |  5 ++++-
 spflow/utils/leaves.py          | 13 +++++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 6b9245e..a140ee8 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -23,7 +23,7 @@ from spflow.exceptions import InvalidParameterError, ShapeError, UnsupportedOper
 from spflow.meta import Scope
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.utils.cache import Cache, cached
-from spflow.utils.leaves import apply_nan_strategy
+from spflow.utils.leaves import apply_nan_strategy, normalize_component_weights
 
 
 @dataclass(frozen=True)
@@ -418,6 +418,7 @@ class CLTree(LeafModule):
         if nan_strategy is None:
             nan_strategy = "ignore"
         scoped, weights = apply_nan_strategy(nan_strategy, scoped, self.device, weights)
+        weights = normalize_component_weights(weights)
         if scoped.shape[0] < 2:
             raise InvalidParameterError("CLTree requires at least 2 complete samples for MLE.")
 
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 0272652..869b4a9 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -14,7 +14,7 @@ from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
-from spflow.utils.leaves import apply_nan_strategy, parse_leaf_args
+from spflow.utils.leaves import apply_nan_strategy, normalize_component_weights, parse_leaf_args
 from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
 from spflow.utils.sampling_context import index_one_hot, index_tensor, repeat_repetition_index
 
@@ -576,6 +576,9 @@ class LeafModule(Module, ABC):
         # Step 2: Apply NaN strategy (drop/impute)
         scoped_data, normalized_weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
 
+        # Step 3: Every feature/channel/repetition is estimated on its own, so normalize each one to N
+        normalized_weights = normalize_component_weights(normalized_weights)
+
         return scoped_data, normalized_weights
 
     def maximum_likelihood_estimation(
diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index e07700f..a6672af 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -90,6 +90,19 @@ def apply_nan_strategy(
     return scope_data, weights
 
 
+def normalize_component_weights(weights: Tensor) -> Tensor:
+    """Rescale sample weights so that every estimated component's weights sum to the number of samples.
+
+    Args:
+        weights: Sample weights with the samples along the first dimension.
+
+    Returns:
+        Weights of the same shape whose sum over the first dimension is the number of samples.
+    """
+    totals = weights.sum(dim=0, keepdim=True).clamp_min(1e-30)
+    return weights * (weights.shape[0] / totals)
+
+
 def init_parameter(param: Tensor | None, event_shape: tuple[int, ...], init: Callable) -> Tensor:
     """Initialize parameter tensor (uses init function if None).
 
-- 
2.43.0


From afbe20a89ece68138ff73c8fb39b64440d6b8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 16/35] fix: keep Bernoulli and Geometric probability estimates
 below one

All-ones (all-zeros) data gave probs=1, i.e. infinite logits and NaN log-likelihoods.
---
 spflow/modules/leaves/bernoulli.py | 2 +-
 spflow/modules/leaves/geometric.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index cd21076..773ec2c 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -122,7 +122,7 @@ class Bernoulli(LeafModule):
         p_est = n_success / n_total
 
         # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
diff --git a/spflow/modules/leaves/geometric.py b/spflow/modules/leaves/geometric.py
index 6160511..7fbf8bb 100644
--- a/spflow/modules/leaves/geometric.py
+++ b/spflow/modules/leaves/geometric.py
@@ -127,7 +127,7 @@ class Geometric(LeafModule):
             p_est = p_est - (p_est * (1 - p_est) / n_total)
 
         # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
-- 
2.43.0


From 80b9075093d0236da22df1fbb4243d97de452d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 17/35] fix: estimate the Laplace location by the weighted
 median

The unweighted median ignored sample weights (EM responsibilities) and replaced the
location parameter by one of a different shape for multi-channel leaves.
---
 spflow/modules/leaves/laplace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/laplace.py b/spflow/modules/leaves/laplace.py
index 404340e..c45b70f 100644
--- a/spflow/modules/leaves/laplace.py
+++ b/spflow/modules/leaves/laplace.py
@@ -97,7 +97,12 @@ class Laplace(LeafModule):
         n_total = weights.sum(dim=0)
 
         # ---- 1. Correct Laplace MLE for loc: weighted median ----
-        loc_est = torch.median(data, dim=0).values
+        sorted_data, order = torch.sort(data, dim=0)
+        cumulative = weights.gather(0, order.expand_as(weights)).cumsum(dim=0)
+        # First (lower) sample at which half of the total weight is reached, up to rounding.
+        below_half = cumulative < (0.5 - 1e-6) * n_total
+        median_idx = below_half.sum(dim=0, keepdim=True).clamp_max(data.shape[0] - 1)
+        loc_est = sorted_data.expand_as(weights).gather(0, median_idx).squeeze(0)
 
         # ---- 2. Correct Laplace MLE for scale ----
         abs_dev = torch.abs(data - loc_est)
-- 
2.43.0


From 732a82cf13f7ce61f2c02180cf54b7d0aa837d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 18/35] fix: keep Exponential and Gamma estimates finite on
 degenerate data

All-zero (Exponential) and constant (Gamma) data divided by zero, giving an infinite
rate and NaN log-likelihoods.
---
 spflow/modules/leaves/exponential.py | 4 +++-
 spflow/modules/leaves/gamma.py       | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/exponential.py b/spflow/modules/leaves/exponential.py
index 665cb5a..4decc87 100644
--- a/spflow/modules/leaves/exponential.py
+++ b/spflow/modules/leaves/exponential.py
@@ -98,7 +98,9 @@ class Exponential(LeafModule):
         if bias_correction:
             n_total = n_total - 1
 
-        rate_est = n_total / (weights * data).sum(0)
+        # All-zero data has no finite rate: bound the total away from zero before dividing.
+        data_total = _handle_mle_edge_cases((weights * data).sum(0), lb=0.0)
+        rate_est = n_total / data_total
 
         # Handle edge cases (NaN, zero, or near-zero rate) before broadcasting
         rate_est = _handle_mle_edge_cases(rate_est, lb=0.0)
diff --git a/spflow/modules/leaves/gamma.py b/spflow/modules/leaves/gamma.py
index 908fc48..b32f3db 100644
--- a/spflow/modules/leaves/gamma.py
+++ b/spflow/modules/leaves/gamma.py
@@ -141,6 +141,8 @@ class Gamma(LeafModule):
         mean_ln_x = (weights * data_log).sum(dim=0) / n_total
 
         theta_est = mean_xlnx - mean_x * mean_ln_x
+        # (Nearly) constant data has zero spread up to rounding: bound theta before dividing by it.
+        theta_est = _handle_mle_edge_cases(theta_est, lb=0.0)
         concentration_est = mean_x / theta_est
         rate_est = 1 / theta_est
 
-- 
2.43.0


From f5a117de0e86d906edbf4bacb822dfe50238ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 19/35] fix: learn_spn accepts a single leaf module together
 with a scope

---
 spflow/learn/learn_spn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 8323844..1647604 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -230,7 +230,9 @@ def learn_spn(
                 scope = leaf_modules[0].scope
         else:
             scope = leaf_modules.scope
-            leaf_modules = [leaf_modules]
+
+    if not isinstance(leaf_modules, list):
+        leaf_modules = [leaf_modules]
 
     # Verify that all indices in scope are valid for the data
     # if len(scope.query) > 0 and max(scope.query) >= data.shape[1]:
-- 
2.43.0


From 361e6452057820b52f93e3e1b16c50fd1986cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 20/35] fix: learn_cnet mixes only the values that occur in the
 slice

---
 spflow/learn/cnet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 8edc05a..04f3703 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -248,6 +248,10 @@ def learn_cnet(
         if len(non_empty) == 1:
             return branches[non_empty[0][0]]
 
+        # Values that never occur have zero weight, which Sum does not admit: keep the others only
+        branches = [branches[i] for i, _ in non_empty]
+        weights_list = [w for _, w in non_empty]
+
         # Create Sum node over branches
         # Weight shape needs to account for each child's out_channels
         # Sum expects: (features, in_channels, out_channels, repetitions)
-- 
2.43.0


From 4e325787d3315685bbea12de37028fcec7a8607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 21/35] fix: randomly initialized HCLT transitions have one
 output per hidden state

---
 spflow/zoo/hclt/learn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/hclt/learn.py b/spflow/zoo/hclt/learn.py
index 0a45733..409683b 100644
--- a/spflow/zoo/hclt/learn.py
+++ b/spflow/zoo/hclt/learn.py
@@ -67,7 +67,10 @@ def _build_hclt_from_tree(
                 continue
             child_sub = build_subtree(ch, node)
             weights = None if init != "uniform" else uniform_sum_weights(num_hidden_cats, num_hidden_cats)
-            trans = Sum(inputs=child_sub) if weights is None else Sum(inputs=child_sub, weights=weights)
+            if weights is None:
+                trans = Sum(inputs=child_sub, out_channels=num_hidden_cats)
+            else:
+                trans = Sum(inputs=child_sub, weights=weights)
             child_msgs.append(trans)
 
         if not child_msgs:
-- 
2.43.0


From ceb77d29006ebb3b91b4d00a993d579a6b59ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 22/35] fix: SamplingContext(num_samples=...) sets its device

---
 spflow/utils/sampling_context.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index af8cc66..3a21ec7 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -271,6 +271,7 @@ class SamplingContext:
                 channel_index = torch.zeros((num_samples, 1), dtype=torch.long, device=device)
                 repetition_index = torch.zeros((num_samples,), dtype=torch.long, device=device)
             mask = torch.full((num_samples, 1), True, dtype=torch.bool, device=device)
+            self.device = channel_index.device
             self.update(
                 channel_index=channel_index,
                 mask=mask,
-- 
2.43.0


From 1f6ee8745690b5be828c8e4558b57156fffe283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 23/35] fix: equal scopes hash equally whatever order their
 variables are listed in

---
 spflow/meta/data/scope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index 71cfe0e..9aed4a5 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -118,6 +118,10 @@ class Scope:
         """
         return self.equal_query(other) and self.equal_evidence(other)
 
+    def __hash__(self) -> int:
+        """Hashes the scope consistently with ``__eq__``, i.e. independent of variable order."""
+        return hash((frozenset(self.query), frozenset(self.evidence)))
+
     def __len__(self) -> int:
         """Returns the number of query variables in the scope.
 
-- 
2.43.0


From 2b9442310d91c51bff1cbcc2f0ea0f75bc6d4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 24/35] fix: keep the latent permutation of ConvPcJointEncoder
 in sync with its state dict

---
 spflow/zoo/apc/encoders/convpc_joint_encoder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/spflow/zoo/apc/encoders/convpc_joint_encoder.py b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
index 578b718..130b0dc 100644
--- a/spflow/zoo/apc/encoders/convpc_joint_encoder.py
+++ b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
@@ -184,21 +184,22 @@ class _LatentFeaturePacking(Module):
             repetitions=inputs.out_shape.repetitions,
         )
         self.target_features = target_features
-        self.perm = perm
-        self.perm_inv = perm_inv
+        # Buffers, so that the permutation follows `.to()` and is restored by `load_state_dict()`.
+        self.register_buffer("perm", perm)
+        self.register_buffer("perm_inv", perm_inv)
 
         base_f2s = np.empty((target_features, self.out_shape.repetitions), dtype=object)
         for r in range(self.out_shape.repetitions):
             for f in range(target_features):
                 base_f2s[f, r] = Scope([])
         base_f2s[: self.in_shape.features, :] = inputs.feature_to_scope
-        if self.perm is not None:
-            base_f2s = base_f2s[self.perm.detach().cpu().numpy(), :]
-        self._feature_to_scope = base_f2s
+        self._unpermuted_feature_to_scope = base_f2s
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-        return self._feature_to_scope
+        if self.perm is None:
+            return self._unpermuted_feature_to_scope
+        return self._unpermuted_feature_to_scope[self.perm.detach().cpu().numpy(), :]
 
     @cached
     def log_likelihood(self, data: Tensor, cache: Cache | None = None) -> Tensor:
-- 
2.43.0


From 0e7ee55663d5e357df8d34280f7873049d1fdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 25/35] fix: PICSum weights are part of the module's state

---
 spflow/zoo/pic/pipeline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/pic/pipeline.py b/spflow/zoo/pic/pipeline.py
index 4fbed5f..4892374 100644
--- a/spflow/zoo/pic/pipeline.py
+++ b/spflow/zoo/pic/pipeline.py
@@ -98,7 +98,11 @@ class PICSum(Module):
             raise InvalidParameterError("PICSum weights must sum to 1.")
 
         self.inputs = nn.ModuleList(list(inputs))
-        self.weights = weights
+        if isinstance(weights, nn.Parameter):
+            self.weights = weights
+        else:
+            # Buffer, so that the weights follow `.to()` and are part of the state dict.
+            self.register_buffer("weights", weights)
         self.latent_scope = latent_scope
 
         # All children represent the same observed region X.
-- 
2.43.0


From 0268669fef15cd346777173bb0ef375b8fa6d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 26/35] fix: keep the segment axis in the histogram inner
 product

Squeezing the selected densities collapsed the segment axis when the merged
bin edges form a single segment, so the product of multi-channel single-bin
histograms came back with the wrong shape.
---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 3550579..940633b 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -335,8 +335,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         in2 = (mids >= edges2[0]) & (mids < edges2[-1])
         mask = (in1 & in2).to(dtype=torch.float64)
 
-        d1 = dens1.index_select(-1, idx1).squeeze(-1)  # (F,Ca,1,R,S)
-        d2 = dens2.index_select(-1, idx2).squeeze(-1)  # (F,1,Cb,R,S)
+        d1 = dens1.index_select(-1, idx1)  # (F,Ca,1,R,S)
+        d2 = dens2.index_select(-1, idx2)  # (F,1,Cb,R,S)
         prod = d1 * d2  # (F,Ca,Cb,R,S)
         out = torch.sum(prod * rearrange(seg_len * mask, "s -> 1 1 1 1 s"), dim=-1)
         return out
-- 
2.43.0


From c10c247b8745983cd7ff06d96ed0fbee84653356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:35 +0000
Subject: [PATCH 27/35] fix: keep NaN for missing entries in leave-one-out
 weight of evidence

---
 spflow/measures/weight_of_evidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/weight_of_evidence.py b/spflow/measures/weight_of_evidence.py
index 98c5b48..bdacede 100644
--- a/spflow/measures/weight_of_evidence.py
+++ b/spflow/measures/weight_of_evidence.py
@@ -203,7 +203,7 @@ def weight_of_evidence_leave_one_out(
             repetition_agg=repetition_agg,
         )
 
-        out[:, j] = w
+        out[:, j] = torch.where(score_mask[:, j], w, out[:, j])
 
     return out
 
-- 
2.43.0


From 896f6fe1fcbde0aedff7f74d8acfa4c333636fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 28/35] fix: define the Bernoulli mode for a success
 probability of one half

---
 spflow/modules/leaves/bernoulli.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index 773ec2c..d7a06b5 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -89,7 +89,7 @@ class Bernoulli(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Bernoulli]:
-        return torch.distributions.Bernoulli
+        return _Bernoulli
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
@@ -194,7 +194,16 @@ class Bernoulli(LeafModule):
         return torch.log(torch.clamp(total_prob, min=1e-40))
 
 
-class BernoulliWithDifferentiableSampling(torch.distributions.Bernoulli):
+class _Bernoulli(torch.distributions.Bernoulli):
+    """Bernoulli distribution whose mode is defined for every success probability."""
+
+    @property
+    def mode(self) -> Tensor:
+        # torch reports NaN when both outcomes are equally likely, which would leave MPE entries unfilled
+        return (self.probs >= 0.5).to(self.probs)
+
+
+class BernoulliWithDifferentiableSampling(_Bernoulli):
     """Bernoulli distribution class that supports differentiable sampling via RelaxedBernoulli."""
 
     def sample(self, sample_shape=torch.Size()):
-- 
2.43.0


From 5f8dd4b8466271b7e8391293bf7db85b4f1b7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 29/35] fix: single-input Einsum and Linsum layers merge the
 sampling mask in their split's own order

---
 spflow/modules/einsum/einsum_layer.py | 2 +-
 spflow/modules/einsum/linsum_layer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index f348048..95874e7 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -566,7 +566,7 @@ class EinsumLayer(Module):
         else:
             # Single input with Split module - use generic merge_split_indices
             full_indices = self.inputs.merge_split_tensors(left_indices, right_indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_indices(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 01b925a..f7e7a9f 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -434,7 +434,7 @@ class LinsumLayer(Module):
             # Single input with Split module - use generic merge_split_indices
             # For LinsumLayer, both left and right use the same indices (linear combination)
             full_indices = self.inputs.merge_split_tensors(indices, indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_indices(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
-- 
2.43.0


From 5ea6a07327abebd6a9a8bc4aa9c5854ef7dc91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 30/35] fix: reject channel concatenation of inputs whose
 features stand for different variables

---
 spflow/modules/ops/cat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spflow/modules/ops/cat.py b/spflow/modules/ops/cat.py
index 787a9a1..abd2823 100644
--- a/spflow/modules/ops/cat.py
+++ b/spflow/modules/ops/cat.py
@@ -50,6 +50,12 @@ class Cat(Module):
                 raise ValueError("All inputs must have the same number of features.")
             if not Scope.all_equal([module.scope for module in self.inputs]):
                 raise ValueError("All inputs must have the same scope.")
+            # Channels are concatenated position by position, so feature f must stand for the same variables in
+            # every input (a single feature covers the whole scope).
+            if self.inputs[0].out_shape.features > 1:
+                feature_to_scope = self.inputs[0].feature_to_scope
+                if not all(np.array_equal(feature_to_scope, module.feature_to_scope) for module in self.inputs[1:]):
+                    raise ValueError("All inputs must have the same feature to scope mapping.")
 
             # Scope is the same as all inputs
             self._scope = self.inputs[0].scope
-- 
2.43.0


From b42da0ce3bdab200862cdc6a8146b6962e87166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 31/35] fix: reject mixing repetitions whose features stand for
 different variables

---
 spflow/modules/sums/repetition_mixing_layer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index cfe2672..2f17c6d 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -5,7 +5,12 @@ import torch
 from einops import rearrange, repeat
 from torch import Tensor
 
-from spflow.exceptions import InvalidParameterCombinationError, MissingCacheError, ShapeError
+from spflow.exceptions import (
+    InvalidParameterCombinationError,
+    MissingCacheError,
+    ScopeError,
+    ShapeError,
+)
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
@@ -47,6 +52,14 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
+        # A mixture over repetitions needs every repetition to cover the same variables at each feature
+        # (a single feature covers the whole scope in every repetition).
+        if self.in_shape.features > 1:
+            feature_to_scope = self.inputs.feature_to_scope
+            for rep in range(1, feature_to_scope.shape[1]):
+                if not np.array_equal(feature_to_scope[:, 0], feature_to_scope[:, rep]):
+                    raise ScopeError("All repetitions of the input must have the same feature to scope mapping.")
+
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
-- 
2.43.0


From 2030d36c2d7ee8f3288a4ba54a6813b44600db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 32/35] fix: reject inner products of modules that list their
 variables in different orders

---
 spflow/utils/inner_product_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 940633b..e47de9b 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -51,6 +51,9 @@ from spflow.utils.domain import DataType
 def _ensure_same_scope(a: Module, b: Module) -> None:
     if a.scope != b.scope:
         raise ShapeError(f"Scopes must match: {a.scope} vs {b.scope}.")
+    # Features are paired by position, so both sides must list their variables in the same order.
+    if tuple(a.scope.query) != tuple(b.scope.query):
+        raise ShapeError(f"Scopes must list their variables in the same order: {a.scope} vs {b.scope}.")
 
 
 def _leaf_event_shape_ok(a: LeafModule, b: LeafModule) -> None:
-- 
2.43.0


From 632994abb6b5fe270d4f49e3d84c12203957a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:31 +0000
Subject: [PATCH 33/35] fix: unseeded sklearn sampling repeated the same draws

SPFlowDensityEstimator.sample always forked the random state, so without
a random_state every call returned the same samples.
---
 spflow/interfaces/sklearn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/interfaces/sklearn.py b/spflow/interfaces/sklearn.py
index 7a06a3d..1bdd500 100644
--- a/spflow/interfaces/sklearn.py
+++ b/spflow/interfaces/sklearn.py
@@ -7,6 +7,7 @@ estimators will.
 
 from __future__ import annotations
 
+from contextlib import nullcontext
 from dataclasses import dataclass
 import math
 from typing import Any, Literal
@@ -291,7 +292,8 @@ class SPFlowDensityEstimator(BaseEstimator, DensityMixin):
         if device.type == "cuda":
             cuda_devices = [device.index or 0]
 
-        with torch.random.fork_rng(devices=cuda_devices):
+        # Without a seed the draws must advance the caller's random state.
+        with torch.random.fork_rng(devices=cuda_devices) if seed is not None else nullcontext():
             if seed is not None:
                 torch.manual_seed(seed)
             with torch.no_grad():
-- 
2.43.0


From 67f9f5a202541b2a0bbdfe4ff06c323ba81a35d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:27 +0000
Subject: [PATCH 34/35] fix: permuted latents were sampled with the routing of
 other latents

---
 spflow/zoo/apc/encoders/convpc_joint_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/zoo/apc/encoders/convpc_joint_encoder.py b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
index 130b0dc..2941fa1 100644
--- a/spflow/zoo/apc/encoders/convpc_joint_encoder.py
+++ b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
@@ -231,7 +231,7 @@ class _LatentFeaturePacking(Module):
         )
 
         ctx_features = sampling_ctx.channel_index.shape[1]
-        if ctx_features == self.in_shape.features:
+        if ctx_features == self.in_shape.features and ctx_features != self.target_features:
             return self.inputs._sample(data=data, cache=cache, sampling_ctx=sampling_ctx)
         if ctx_features == 1:
             num_target_features = self.target_features
-- 
2.43.0


From 73ab765b30f2ab4caeba2e1afc8d1dd214c4cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:50 +0000
Subject: [PATCH 35/35] fix: sampling through a padded product routed the wrong
 channels

ProdConv._sample trimmed the spread routing to the first in_features entries of the
padded grid instead of cutting off the padding, so with padding (e.g. a ConvPc whose
image size is not a multiple of its target size) positions were sampled with the
channel and mask of other windows.
---
 spflow/modules/conv/prod_conv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 6c4e282..1bff3ef 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -289,8 +289,11 @@ class ProdConv(Module):
                         f"Got upsampled width {upsampled_features}, expected padded width "
                         f"{expected_padded_features}, input width {in_features}."
                     )
-                channel_idx = sampling_ctx.channel_index[:, :in_features].contiguous()
-                mask = sampling_ctx.mask[:, :in_features].contiguous()
+                padded_hw = (self._input_h + 2 * self.padding_h, self._input_w + 2 * self.padding_w)
+                rows = slice(self.padding_h, self.padding_h + self._input_h)
+                cols = slice(self.padding_w, self.padding_w + self._input_w)
+                channel_idx = sampling_ctx.channel_index.unflatten(1, padded_hw)[:, rows, cols].flatten(1, 2)
+                mask = sampling_ctx.mask.unflatten(1, padded_hw)[:, rows, cols].flatten(1, 2)
                 sampling_ctx.update(
                     channel_index=channel_idx,
                     mask=mask,
-- 
2.43.0

