From c8c4b090f11f496ae32618a264f174b2b2c2b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 01/81] fix: check split product shapes along the feature
 dimension

ElementwiseProduct/OuterProduct passed (features, channels) to
Split.get_out_shapes, which splits dim 1 (features). Valid split products
with e.g. 4 features and 3 channels were rejected with ShapeError.
---
 .../modules/products/elementwise_product.py   |  7 ++-----
 spflow/modules/products/outer_product.py      | 19 +++----------------
 2 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index ee2d008..458b6a1 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -102,11 +102,8 @@ class ElementwiseProduct(BaseProduct):
                 raise ValueError("num_splits must be the same for all inputs")
             out_f = self.inputs[0].out_shape.features
             out_c = self.inputs[0].out_shape.channels
-            if out_f == 1:
-                out_f_computed = 1
-            else:
-                out_f_computed = int(out_f // self.num_splits)
-            shapes = inputs[0].get_out_shapes((out_f_computed, out_c))
+            # Features (not channels) are distributed over the splits.
+            shapes = inputs[0].get_out_shapes((out_c, out_f))
         else:
             shapes = [(inp.out_shape.features, inp.out_shape.channels) for inp in inputs]
 
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 9544c37..a3fdbcd 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -96,25 +96,12 @@ class OuterProduct(BaseProduct):
         Raises:
             ValueError: If input shapes are not broadcastable.
         """
-        # Compute out_features locally
-        input_features = self.inputs[0].out_shape.features
-        if self.input_is_split:
-            out_features = int(input_features // self.num_splits)
-        else:
-            out_features = input_features
-
-        # Compute out_channels as product of input channels
-        ocs = 1
-        for inp in self.inputs:
-            ocs *= inp.out_shape.channels
-        if len(self.inputs) == 1:
-            ocs = ocs**self.num_splits
-        out_channels = ocs
-
         if self.input_is_split:
             if self.num_splits != self.inputs[0].num_splits:
                 raise ValueError("num_splits must be the same for all inputs")
-            shapes = self.inputs[0].get_out_shapes((out_features, out_channels))
+            # Features (not channels) are distributed over the splits.
+            in_shape = self.inputs[0].out_shape
+            shapes = self.inputs[0].get_out_shapes((in_shape.channels, in_shape.features))
         else:
             shapes = [(inp.out_shape.features, inp.out_shape.channels) for inp in self.inputs]
 
-- 
2.43.0


From 8cdaa20c675f6f9a811352ebc3c422c29d1fd309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 02/81] fix: normalize RepetitionMixingLayer weights over
 repetitions on construction

sum_dim was switched to the repetition axis only after Sum.__init__ had
validated and normalized the initial weights over the channel axis, so valid
weights were rejected and weights normalized over the wrong axis accepted.
---
 spflow/modules/sums/repetition_mixing_layer.py | 5 +++--
 spflow/modules/sums/sum.py                     | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 2a58ee3..3d6d0b4 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -19,6 +19,9 @@ class RepetitionMixingLayer(Sum):
     Extends Sum with RAT-SPN specific optimizations.
     """
 
+    # Weights have shape (features, channels, repetitions) and mix over repetitions.
+    _SUM_DIM = 2
+
     def __init__(
         self,
         inputs: Module,
@@ -39,8 +42,6 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
-        self.sum_dim = 2
-
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index b8934b2..cc6340b 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -43,6 +43,9 @@ class Sum(Module):
         logits (Parameter): Unnormalized log-weights for gradient optimization.
     """
 
+    # Dimension of the weight tensor that is mixed over (and therefore normalized).
+    _SUM_DIM = 1
+
     def __init__(
         self,
         inputs: Module | list[Module],
@@ -105,7 +108,7 @@ class Sum(Module):
         else:
             self.inputs = inputs
 
-        self.sum_dim = 1
+        self.sum_dim = self._SUM_DIM
         self.scope = self.inputs.scope
 
         # ========== 5. SHAPE COMPUTATION (early, so shapes can be reused below) ==========
-- 
2.43.0


From 11cf500362e3db534d6f6c9c8b71e688d734f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 03/81] fix: RepetitionMixingLayer samples the repetition of
 the requested channel

The repetition logits were summed over all channels, so models with more than
one channel (multi-class RAT-SPNs/Einets) drew repetitions from the product of
the per-class mixing weights.
---
 .../modules/sums/repetition_mixing_layer.py   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 3d6d0b4..207defb 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,7 +9,12 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
-from spflow.utils.sampling_context import SamplingContext, sample_from_logits
+from spflow.utils.sampling_context import (
+    SamplingContext,
+    index_tensor,
+    repeat_channel_index,
+    sample_from_logits,
+)
 
 
 class RepetitionMixingLayer(Sum):
@@ -137,7 +142,18 @@ class RepetitionMixingLayer(Sum):
             log_posterior = log_posterior.log_softmax(dim=3)
             logits = log_posterior
 
-        rep_logits = logits.sum(-2)
+        # Select the mixing weights of the channel requested by the parent.
+        channel_index = repeat_channel_index(
+            sampling_ctx.channel_index,
+            "b f co -> b f r co",
+            r=int(logits.shape[3]),
+        )
+        rep_logits = index_tensor(
+            rearrange(logits, "b f co r -> b f r co"),
+            index=channel_index,
+            dim=3,
+            is_differentiable=sampling_ctx.is_differentiable,
+        )
         rep_samples = sample_from_logits(
             logits=rep_logits,
             dim=-1,
-- 
2.43.0


From 7ad9786f0eec3f68c8c70a74528bcfa36e98b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 04/81] fix: condition the sampled class on evidence in
 multi-class RatSPN and Einet

The class was drawn from the prior even when the evidence log-likelihoods were
cached, and RatSPN routed to class 0 whenever it was sampled as a sub-module.
---
 spflow/zoo/einet/einet.py |  5 +++++
 spflow/zoo/rat/rat_spn.py | 39 ++++++++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 5605810..136269a 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -454,6 +454,11 @@ class Einet(Module, Classifier):
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)
 
+            # Condition the class on the evidence if its log-likelihoods are available.
+            class_lls = cache["log_likelihood"].get(self.root_node.inputs) if "log_likelihood" in cache else None
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
+
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
             else:
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 21c08b4..b031fff 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -290,23 +290,6 @@ class RatSPN(Module, Classifier):
             return_leaf_params=return_leaf_params,
         )
 
-        # Draw root routing for public sampling entrypoint.
-        if self.n_root_nodes > 1:
-            logits = self.root_node.logits
-            if logits.ndim == 4 and logits.shape[-1] == 1:
-                logits = logits.squeeze(-1)
-            if logits.shape != (1, self.n_root_nodes, 1):
-                raise InvalidParameterError(
-                    f"Expected logits shape (1, {self.n_root_nodes}, 1), but got {logits.shape}"
-                )
-            logits = rearrange(logits, "1 co 1 -> 1 1 co")
-            logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)  # shape [b, 1, n_root_nodes]
-
-            if sampling_ctx.is_mpe:
-                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
-            else:
-                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
-
         samples = self._sample(
             data=data,
             sampling_ctx=sampling_ctx,
@@ -322,6 +305,28 @@ class RatSPN(Module, Classifier):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> torch.Tensor:
+        # Draw the class (root) routing.
+        if self.n_root_nodes > 1:
+            logits = self.root_node.logits
+            if logits.ndim == 4 and logits.shape[-1] == 1:
+                logits = logits.squeeze(-1)
+            if logits.shape != (1, self.n_root_nodes, 1):
+                raise InvalidParameterError(
+                    f"Expected logits shape (1, {self.n_root_nodes}, 1), but got {logits.shape}"
+                )
+            logits = rearrange(logits, "1 co 1 -> 1 1 co")
+            logits = repeat(logits, "1 1 co -> b 1 co", b=data.shape[0])  # shape [b, 1, n_root_nodes]
+
+            # Condition the class on the evidence if its log-likelihoods are available.
+            class_lls = cache["log_likelihood"].get(self.root_node.inputs) if "log_likelihood" in cache else None
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
+
+            if sampling_ctx.is_mpe:
+                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
+            else:
+                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
+
         # if the model only has one root node, we can directly sample from the mixing layer
         if self.n_root_nodes > 1:
             sample_root = self.root_node.inputs
-- 
2.43.0


From 8f4b783e1ab0cec59cf7952886d055556c4b5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 05/81] fix: EinsumLayer returns -inf instead of NaN for
 impossible evidence

If all channels of an input have log-likelihood -inf, subtracting the channel
maximum produced NaN.
---
 spflow/modules/einsum/einsum_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index f348048..43d4b95 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -369,10 +369,13 @@ class EinsumLayer(Module):
         positive-space probabilities using the bandwidth-aware schedule selected
         above, and the removed maxima are added back after ``log``.
         """
+        # Inputs without any probability mass (-inf in all channels) must not be shifted by -inf.
         left_max = left_ll.amax(dim=2, keepdim=True)
+        left_max = left_max.masked_fill(torch.isneginf(left_max), 0.0)
         left_prob = torch.exp(left_ll - left_max)
 
         right_max = right_ll.amax(dim=2, keepdim=True)
+        right_max = right_max.masked_fill(torch.isneginf(right_max), 0.0)
         right_prob = torch.exp(right_ll - right_max)
 
         weights = self._normalized_weights()
-- 
2.43.0


From c509d0715e5138f158574fb55ce155b1c96f9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 06/81] fix: OuterProduct over a split reports Scope objects in
 feature_to_scope

The split branch was unreachable (inputs is a ModuleList), so entries were
numpy arrays instead of joined scopes and consumers rejected the module.
---
 spflow/modules/products/outer_product.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index a3fdbcd..44caff9 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -135,17 +135,15 @@ class OuterProduct(BaseProduct):
     def feature_to_scope(self) -> list[Scope]:
         out = []
         for r in range(self.out_shape.repetitions):
-            if isinstance(self.inputs, Split):
-                scope_lists_r = self.inputs.feature_to_scope[
-                    ..., r
-                ]  # Shape: (num_features_per_split, num_splits)
-                scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
+            if self.input_is_split:
+                split = self.inputs if isinstance(self.inputs, Split) else self.inputs[0]
+                scope_lists_r = split.feature_to_scope[..., r]  # Shape: (num_features_per_split, num_splits)
+                outer_product_r = list(scope_lists_r)
             else:
                 scope_lists_r = [
                     module.feature_to_scope[..., r] for module in self.inputs
                 ]  # Shape: (num_features_per_split, num_splits)
-
-            outer_product_r = list(product(*scope_lists_r))
+                outer_product_r = list(product(*scope_lists_r))
 
             feature_to_scope_r = []
             for scopes_r in outer_product_r:
-- 
2.43.0


From 2e0f4354eaa52699a9411dd34370c497ece55bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 07/81] fix: keep layer parameters under structural
 marginalization

Einsum/Linsum layers re-drew random weights, elementwise sums masked weights by
variable position instead of feature, repetition mixing turned into a plain sum,
index splits lost their indices and leaves lost validate_args.
---
 spflow/modules/einsum/einsum_layer.py         | 52 +++++++++++++++++++
 spflow/modules/einsum/linsum_layer.py         | 21 ++++++++
 spflow/modules/leaves/leaf.py                 |  1 +
 spflow/modules/ops/split_by_index.py          | 32 ++++++++++++
 spflow/modules/sums/elementwise_sum.py        |  8 +--
 .../modules/sums/repetition_mixing_layer.py   | 26 ++++++++++
 6 files changed, 137 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 43d4b95..609e90f 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -35,7 +35,9 @@ from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
+from spflow.modules.ops.split_by_index import SplitByIndex
 from spflow.modules.ops.split_consecutive import SplitConsecutive
+from spflow.modules.ops.split_interleaved import SplitInterleaved
 from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
@@ -47,6 +49,36 @@ from spflow.utils.sampling_context import (
 )
 
 
+def surviving_features(module: Module, marg_rvs: set[int]) -> list[int]:
+    """Return the indices of the features that keep variables when ``marg_rvs`` are marginalized."""
+    return [f for f, scope in enumerate(module.feature_to_scope[:, 0]) if set(scope.query) - marg_rvs]
+
+
+def surviving_pairs(split: Split, marg_input: Module, marg_rvs: set[int]) -> tuple[list[int], Split] | None:
+    """Match a marginalized input of a split layer with the left/right pairs of the original split.
+
+    Returns:
+        The surviving output features and the split that restores their pairing, or None if some pair
+        lost only one of its two features.
+    """
+    order = torch.arange(split.inputs.out_shape.features)
+    if isinstance(split, SplitByIndex):
+        left, right = split.indices
+    elif isinstance(split, SplitInterleaved):
+        left, right = order[0::2].tolist(), order[1::2].tolist()
+    else:
+        left, right = (half.tolist() for half in order.chunk(2))
+    survivors = surviving_features(split.inputs, marg_rvs)
+    keep = [f for f, idx in enumerate(left) if idx in survivors]
+    if keep != [f for f, idx in enumerate(right) if idx in survivors]:
+        return None
+    if marg_input.out_shape.features != 2 * len(keep):
+        return None
+    position = {idx: pos for pos, idx in enumerate(survivors)}
+    indices = [[position[half[f]] for f in keep] for half in (left, right)]
+    return keep, SplitByIndex(inputs=marg_input, indices=indices)
+
+
 class EinsumLayer(Module):
     """EinsumLayer combining product and sum operations efficiently.
 
@@ -679,6 +711,17 @@ class EinsumLayer(Module):
                 return left_marg
             else:
                 # Both still exist - create new EinsumLayer with marginalized children
+                left_keep = surviving_features(self.inputs[0], mutual_rvs)
+                right_keep = surviving_features(self.inputs[1], mutual_rvs)
+                if left_keep == right_keep and (
+                    left_marg.out_shape.features == right_marg.out_shape.features == len(left_keep)
+                ):
+                    return EinsumLayer(
+                        inputs=[left_marg, right_marg],
+                        out_channels=self.out_shape.channels,
+                        num_repetitions=self.out_shape.repetitions,
+                        weights=self.weights[left_keep].detach(),
+                    )
                 return EinsumLayer(
                     inputs=[left_marg, right_marg],
                     out_channels=self.out_shape.channels,
@@ -695,6 +738,15 @@ class EinsumLayer(Module):
             if marg_input.out_shape.features % 2 != 0:
                 # Odd number of features - can't use EinsumLayer
                 return marg_input
+            pairs = surviving_pairs(self.inputs, marg_input, mutual_rvs)
+            if pairs is not None:
+                keep, split = pairs
+                return EinsumLayer(
+                    inputs=split,
+                    out_channels=self.out_shape.channels,
+                    num_repetitions=self.out_shape.repetitions,
+                    weights=self.weights[keep].detach(),
+                )
             return EinsumLayer(
                 inputs=marg_input,
                 out_channels=self.out_shape.channels,
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 01b925a..305f333 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -21,6 +21,7 @@ from spflow.exceptions import (
     ShapeError,
 )
 from spflow.meta.data import Scope
+from spflow.modules.einsum.einsum_layer import surviving_features, surviving_pairs
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
@@ -536,6 +537,17 @@ class LinsumLayer(Module):
                 return left_marg
             else:
                 # Both still exist - create new LinsumLayer with marginalized children
+                left_keep = surviving_features(self.inputs[0], mutual_rvs)
+                right_keep = surviving_features(self.inputs[1], mutual_rvs)
+                if left_keep == right_keep and (
+                    left_marg.out_shape.features == right_marg.out_shape.features == len(left_keep)
+                ):
+                    return LinsumLayer(
+                        inputs=[left_marg, right_marg],
+                        out_channels=self.out_shape.channels,
+                        num_repetitions=self.out_shape.repetitions,
+                        weights=self.weights[left_keep].detach(),
+                    )
                 return LinsumLayer(
                     inputs=[left_marg, right_marg],
                     out_channels=self.out_shape.channels,
@@ -552,6 +564,15 @@ class LinsumLayer(Module):
             if marg_input.out_shape.features % 2 != 0:
                 # Odd number of features - can't use LinsumLayer
                 return marg_input
+            pairs = surviving_pairs(self.inputs, marg_input, mutual_rvs)
+            if pairs is not None:
+                keep, split = pairs
+                return LinsumLayer(
+                    inputs=split,
+                    out_channels=self.out_shape.channels,
+                    num_repetitions=self.out_shape.repetitions,
+                    weights=self.weights[keep].detach(),
+                )
             return LinsumLayer(
                 inputs=marg_input,
                 out_channels=self.out_shape.channels,
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 185229b..50d6cdc 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -1115,5 +1115,6 @@ class LeafModule(Module, ABC):
         # Construct new object of the same class as the leaves
         return self.__class__(
             scope=scope_marg,
+            validate_args=self._validate_args,
             **marg_params_dict,
         )
diff --git a/spflow/modules/ops/split_by_index.py b/spflow/modules/ops/split_by_index.py
index b0cf984..6b9dd82 100644
--- a/spflow/modules/ops/split_by_index.py
+++ b/spflow/modules/ops/split_by_index.py
@@ -270,3 +270,35 @@ class SplitByIndex(Split):
             sampling_ctx=sampling_ctx,
         )
         return data
+
+    def marginalize(
+        self,
+        marg_rvs: list[int],
+        prune: bool = True,
+        cache: Cache | None = None,
+    ) -> Module | None:
+        """Marginalize out specified random variables, keeping the surviving features in their split.
+
+        Args:
+            marg_rvs: List of random variable indices to marginalize.
+            prune: Whether to prune the resulting module.
+            cache: Cache for intermediate results.
+
+        Returns:
+            Marginalized module or None if fully marginalized.
+        """
+        if not set(self.scope.query).intersection(marg_rvs):
+            return self
+
+        marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
+        if marg_input is None or (prune and marg_input.out_shape.features == 1):
+            return marg_input
+
+        survivors = [
+            f
+            for f, scope in enumerate(self.inputs.feature_to_scope[:, 0])
+            if set(scope.query) - set(marg_rvs)
+        ]
+        position = {f: pos for pos, f in enumerate(survivors)}
+        indices = [[position[f] for f in group if f in position] for group in self.indices]
+        return SplitByIndex(inputs=marg_input, indices=[group for group in indices if group], dim=self.dim)
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 6b587dd..80b357e 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -269,9 +269,11 @@ class ElementwiseSum(Module):
 
             # if marginalized input is not None
             if marg_input:
-                indices = [self.scope.query.index(el) for el in list(mutual_rvs)]
-                mask = torch.ones(len(module_scope.query), device=module_weights.device, dtype=torch.bool)
-                mask[indices] = False
+                # keep the weights of the features that still depend on some variable
+                mask = torch.tensor(
+                    [bool(set(scope.query) - mutual_rvs) for scope in self.feature_to_scope[:, 0]],
+                    device=module_weights.device,
+                )
                 module_weights = module_weights[mask]
 
         else:
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 207defb..d2e7ef4 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -260,3 +260,29 @@ class RepetitionMixingLayer(Sum):
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
+
+    def marginalize(
+        self,
+        marg_rvs: list[int],
+        prune: bool = True,
+        cache: Cache | None = None,
+    ) -> RepetitionMixingLayer | None:
+        """Marginalize out specified random variables.
+
+        Args:
+            marg_rvs: List of random variables to marginalize.
+            prune: Whether to prune the module.
+            cache: Optional cache dictionary.
+
+        Returns:
+            RepetitionMixingLayer | None: Marginalized layer or None if fully marginalized.
+        """
+        marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
+        if marg_input is None:
+            return None
+
+        mask = torch.tensor(
+            [bool(set(scope.query) - set(marg_rvs)) for scope in self.inputs.feature_to_scope[:, 0]],
+            device=self.device,
+        )
+        return RepetitionMixingLayer(inputs=marg_input, weights=self.weights[mask])
-- 
2.43.0


From 030173ee9cb0507cf3735e45f72e28b8674633e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 08/81] fix: route samples of single-channel ElementwiseSum
 inputs to channel 0

---
 spflow/modules/sums/elementwise_sum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 80b357e..285c4ab 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -444,8 +444,15 @@ class ElementwiseSum(Module):
 
         for i, inp in enumerate(self.inputs):
             child_mask = sampling_ctx.mask & (selected_input == i)
+            child_channel_index = cids_in_channels_per_input
+            if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                # The single channel of this input is broadcast over all input channels.
+                if sampling_ctx.is_differentiable:
+                    child_channel_index = child_channel_index.sum(dim=-1, keepdim=True)
+                else:
+                    child_channel_index = torch.zeros_like(child_channel_index)
             sampling_ctx_cpy = sampling_ctx.with_routing(
-                channel_index=cids_in_channels_per_input,
+                channel_index=child_channel_index,
                 mask=child_mask,
             )
 
-- 
2.43.0


From 697ce41c11ae7e9359f65b676d04036e239fea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 09/81] fix: do not write through a broadcast view when routing
 ElementwiseProduct samples

---
 spflow/modules/products/elementwise_product.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 458b6a1..5dea458 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -191,7 +191,8 @@ class ElementwiseProduct(BaseProduct):
 
         num_inputs = len(self.inputs)
         if not output_ids.is_floating_point():
-            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs)
+            # repeat() may return a view onto output_ids, which must not be written to.
+            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs).clone()
             for i, inp in enumerate(self.inputs):
                 if int(inp.out_shape.channels) == 1:
                     mapped[..., i] = 0
-- 
2.43.0


From eaac9a93cbbf4c45b063c9e83a06091ab198e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 10/81] fix: keep the feature routing mask aligned with the
 split in einsum and linsum sampling

---
 spflow/modules/einsum/einsum_layer.py | 2 +-
 spflow/modules/einsum/linsum_layer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 609e90f..a4ff69a 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -601,7 +601,7 @@ class EinsumLayer(Module):
         else:
             # Single input with Split module - use generic merge_split_indices
             full_indices = self.inputs.merge_split_tensors(left_indices, right_indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 305f333..639bda9 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -435,7 +435,7 @@ class LinsumLayer(Module):
             # Single input with Split module - use generic merge_split_indices
             # For LinsumLayer, both left and right use the same indices (linear combination)
             full_indices = self.inputs.merge_split_tensors(indices, indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
-- 
2.43.0


From a07089a63a905b2ae84c690ef725769c0ea4b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 11/81] fix: sample with evidence that excludes a mixture
 branch

---
 spflow/modules/conv/sum_conv.py                | 1 +
 spflow/modules/einsum/einsum_layer.py          | 1 +
 spflow/modules/einsum/linsum_layer.py          | 1 +
 spflow/modules/sums/elementwise_sum.py         | 1 +
 spflow/modules/sums/repetition_mixing_layer.py | 1 +
 spflow/modules/sums/sum.py                     | 1 +
 spflow/utils/sampling_context.py               | 6 ++++++
 7 files changed, 12 insertions(+)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 46018a7..214b9ef 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -396,6 +396,7 @@ class SumConv(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=rearrange(sampling_ctx.mask, "b f -> (b f)"),
         )
         if sampling_ctx.is_differentiable:
             sampled_channels = rearrange(
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index a4ff69a..d77382e 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -576,6 +576,7 @@ class EinsumLayer(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
 
         # Unravel indices to (i, j) pairs
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 639bda9..2b1a46a 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -419,6 +419,7 @@ class LinsumLayer(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
 
         # Sample from left and right children with same channel index
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 285c4ab..2366b5e 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -436,6 +436,7 @@ class ElementwiseSum(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
         if sampling_ctx.is_differentiable:
             selected_input = cids_stack.argmax(dim=-1)
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index d2e7ef4..0c21b9f 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -160,6 +160,7 @@ class RepetitionMixingLayer(Sum):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
         if rep_logits.shape[1] != 1:
             raise ShapeError(
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index cc6340b..b6e407f 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -374,6 +374,7 @@ class Sum(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
 
         update_channel_index_strict(sampling_ctx, new_channel_index)
diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index af8cc66..bd981e4 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1150,6 +1150,7 @@ def sample_from_logits(
     is_mpe: bool,
     is_differentiable: bool,
     tau: float = 1.0,
+    mask: torch.Tensor | None = None,
 ):
     """
     Samples from logits based on the specified mode of operation. Supports non-differentiable
@@ -1163,10 +1164,15 @@ def sample_from_logits(
         is_differentiable (bool): If True, uses SIMPLE for differentiable sampling. If False,
             performs non-differentiable sampling.
         tau (float): Temperature for differentiable sampling.
+        mask (torch.Tensor | None): Active routes, shaped like `logits` without its last dimension. Inactive
+            routes may have been excluded by the evidence and then carry no posterior mass (NaN logits). Their
+            choice is never used.
 
     Returns:
         torch.Tensor: The sampled indices or transformed tensor based on the mode of operation.
     """
+    if mask is not None:
+        logits = logits.masked_fill(~mask.unsqueeze(-1), 0.0)
     if not is_differentiable:
         if not is_mpe:
             # Sample from categorical distribution defined by weights to obtain indices into input channels
-- 
2.43.0


From a557d82cd67fc535b55ec8aac1eabc2446b6c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 12/81] fix: condition on the evidence passed to sample and mpe
 as documented

---
 spflow/modules/module.py                | 8 ++++++++
 spflow/modules/wrapper/image_wrapper.py | 3 +++
 spflow/zoo/rat/rat_spn.py               | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/spflow/modules/module.py b/spflow/modules/module.py
index 9dc8490..1d0dfbe 100644
--- a/spflow/modules/module.py
+++ b/spflow/modules/module.py
@@ -172,6 +172,11 @@ class Module(nn.Module, ABC):
 
         return data
 
+    @staticmethod
+    def _has_partial_evidence(data: Tensor) -> bool:
+        """Return whether data contains both observed values and missing entries."""
+        return bool(torch.isnan(data).any().item() and torch.isfinite(data).any().item())
+
     @abstractmethod
     def log_likelihood(
         self,
@@ -229,6 +234,9 @@ class Module(nn.Module, ABC):
         data = self._prepare_sample_data(num_samples=num_samples, data=data)
         if cache is None:
             cache = Cache()
+        if getattr(self, "inputs", None) is not None and self._has_partial_evidence(data):
+            # Conditional sampling through inputs needs forward log-likelihoods in the cache.
+            self.log_likelihood(data, cache=cache)
         sampling_ctx = SamplingContext(
             num_samples=data.shape[0],
             device=data.device,
diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index 04c181c..76993c7 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -279,6 +279,9 @@ class ImageWrapper(Wrapper):
 
         # Flatten data to 2D for processing
         flat_data = self.flatten(data)
+        if self._has_partial_evidence(flat_data):
+            # Conditional sampling needs forward log-likelihoods in the cache.
+            self.module.log_likelihood(flat_data, cache=cache)
 
         self.module._sample(
             data=flat_data,
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index b031fff..126f164 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -282,6 +282,9 @@ class RatSPN(Module, Classifier):
         data = self._prepare_sample_data(num_samples=num_samples, data=data)
         if cache is None:
             cache = Cache()
+        if self._has_partial_evidence(data):
+            # Conditional sampling needs forward log-likelihoods in the cache.
+            self.log_likelihood(data, cache=cache)
         batch_size = data.shape[0]
         sampling_ctx = SamplingContext(
             num_samples=batch_size,
-- 
2.43.0


From a98a6fc5b0ae911bcd8e715770e17f2da4c98ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 13/81] fix: do not modify tensors saved for the backward pass
 when marginalizing missing leaf entries

---
 spflow/modules/leaves/leaf.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 50d6cdc..e4bbb36 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -469,11 +469,6 @@ class LeafModule(Module, ABC):
             marg_mask_for_log_prob = torch.broadcast_to(marg_mask_for_log_prob, log_prob.shape)
             log_prob[marg_mask_for_log_prob] = 0.0
 
-        # Set marginalized scope data back to NaNs
-        if has_marginalizations:
-            marg_mask_for_data = rearrange(marg_mask, "b f -> b f 1 1")
-            data_q[marg_mask_for_data] = torch.nan
-
         return log_prob
 
     def _log_likelihood_interval(
-- 
2.43.0


From 316a971d103e7ec7b9ddc4f1bafc681c70ed6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 14/81] fix: refresh the einsum evaluation weight cache after
 writes through parameter data

---
 spflow/modules/einsum/einsum_layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index d77382e..390b5d4 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -233,7 +233,7 @@ class EinsumLayer(Module):
 
         # Register logits parameter
         self.logits = nn.Parameter(torch.zeros(self.weights_shape))
-        self._eval_weight_cache: tuple[int, Tensor] | None = None
+        self._eval_weight_cache: tuple[Tensor, Tensor] | None = None
 
         # Set weights via property (converts to logits)
         self.weights = weights
@@ -344,20 +344,20 @@ class EinsumLayer(Module):
             return weights.unflatten(-1, (self._left_channels, self._right_channels))
 
         cache_entry = self._eval_weight_cache
-        current_version = self.logits._version
         if cache_entry is not None:
-            cached_version, cached_weights = cache_entry
+            # Compare values: writes through ``self.logits.data`` do not bump the version counter.
+            cached_logits, cached_weights = cache_entry
             if (
-                cached_version == current_version
-                and cached_weights.device == self.logits.device
+                cached_weights.device == self.logits.device
                 and cached_weights.dtype == self.logits.dtype
+                and torch.equal(cached_logits, self.logits)
             ):
                 return cached_weights
 
         flat_logits = self.logits.flatten(start_dim=-2)
         weights = torch.nn.functional.softmax(flat_logits, dim=-1)
         normalized = weights.unflatten(-1, (self._left_channels, self._right_channels))
-        self._eval_weight_cache = (current_version, normalized)
+        self._eval_weight_cache = (self.logits.detach().clone(), normalized)
         return normalized
 
     def _use_factored_probability_contraction(self, device: torch.device) -> bool:
-- 
2.43.0


From 1f2eee52222e4f82cec08ca705ce394ad09f84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 15/81] fix: missing entries of leaves whose support differs
 between channels

---
 spflow/modules/leaves/leaf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index e4bbb36..cad484d 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -451,6 +451,14 @@ class LeafModule(Module, ABC):
         # event_shape is always [features, out_channels, num_repetitions].
         data_q = rearrange(data_q, "b f -> b f 1 1")
 
+        if has_marginalizations:
+            supported_value = self._supported_value
+            if isinstance(supported_value, Tensor) and supported_value.shape == torch.Size(self.event_shape):
+                # The support may differ between channels and repetitions: impute each with its own value.
+                data_q = torch.where(
+                    rearrange(marg_mask, "b f -> b f 1 1"), supported_value.to(data_q), data_q
+                )
+
         if self.is_conditional:
             # Get evidence
             data_e = data[:, self.scope.evidence].to(device=self.device)
-- 
2.43.0


From 80eff4df390fd9dcef7351d31dba3087b5719903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 16/81] fix: Categorical imputes a category that always exists

---
 spflow/modules/leaves/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/categorical.py b/spflow/modules/leaves/categorical.py
index 52b7a4e..6ea5dc7 100644
--- a/spflow/modules/leaves/categorical.py
+++ b/spflow/modules/leaves/categorical.py
@@ -106,7 +106,7 @@ class Categorical(LeafModule):
     @property
     def _supported_value(self):
         """Fallback value for unsupported data."""
-        return 1
+        return 0
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Categorical]:
-- 
2.43.0


From e8e73cafdc41d25ef9155914f8277cfa5fcac51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 17/81] fix: Hypergeometric sampling with parameters differing
 between channels

---
 spflow/modules/leaves/hypergeometric.py | 34 +++++++++----------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index d663452..87d35da 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -169,28 +169,18 @@ class _HypergeometricDistribution:
         sample_shape = n_samples + self.event_shape
         data = torch.zeros(sample_shape, device=self.K.device)
 
-        # Generate random indices for each sample, scope, and leaves
-        rand_indices = torch.argsort(
-            torch.rand(*sample_shape, self.N.max().to(torch.int32).item(), device=self.K.device), dim=-1
-        )
-
-        # Use broadcasting to create masks where draws are of interest
-        expanded_k_shape = (*n_samples, *self.K.shape)
-        expanded_n_shape = (*n_samples, *self.n.shape)
-        K_expanded = torch.broadcast_to(rearrange(self.K, "... -> 1 ..."), expanded_k_shape)
-        n_expanded = torch.broadcast_to(rearrange(self.n, "... -> 1 ..."), expanded_n_shape)
-
-        # Create a mask for the "drawn" indices, considering the first K indices as objects of interest
-        drawn_mask = rand_indices < rearrange(K_expanded, "... -> ... 1")
-
-        # Count the "drawn" indices for each sample, within the first 'n' draws
-        n_drawn = drawn_mask[..., : n_expanded.max().to(torch.int32).item()].sum(dim=-1)
-
-        # Adjust the shape of n_drawn to match the desired sample shape
-        n_drawn_shape_adjusted = n_drawn[..., : self.n.shape[-1]]
-
-        # Ensure the counts do not exceed the limits defined by n and K for each scope and leaves
-        data = torch.where(n_drawn_shape_adjusted < n_expanded, n_drawn_shape_adjusted, n_expanded)
+        # Random order of the population for each sample, scope, and leaf. Items beyond the population size of
+        # the leaf (populations may differ between channels and repetitions) are moved to the end.
+        population = self.N.max().to(torch.int32).item()
+        items = torch.arange(population, device=self.K.device)
+        keys = torch.rand(*sample_shape, population, device=self.K.device)
+        keys = keys.masked_fill(items >= rearrange(self.N, "... -> ... 1"), float("inf"))
+        rand_indices = torch.argsort(keys, dim=-1)
+
+        # The first K items are the objects of interest, the first n positions are the draws
+        drawn_mask = rand_indices < rearrange(self.K, "... -> ... 1")
+        drawn_mask = drawn_mask & (items < rearrange(self.n, "... -> ... 1"))
+        data = drawn_mask.sum(dim=-1).to(self.n.dtype)
 
         return data
 
-- 
2.43.0


From ef06400b24f5c23a51bd2eb362363f0fa986af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 18/81] fix: log-probabilities of leaves with success
 probability zero or one

---
 spflow/modules/leaves/bernoulli.py         | 13 ++++++++++++-
 spflow/modules/leaves/binomial.py          | 15 ++++++++++++++-
 spflow/modules/leaves/negative_binomial.py | 13 ++++++++++++-
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index cd21076..f074565 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -89,7 +89,7 @@ class Bernoulli(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Bernoulli]:
-        return torch.distributions.Bernoulli
+        return _Bernoulli
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
@@ -220,3 +220,14 @@ class BernoulliWithDifferentiableSampling(torch.distributions.Bernoulli):
         samples_oh = SIMPLE(logits=two_class_logits, dim=-1, is_mpe=False)
         samples = samples_oh[..., 1]  # Extract class "1".
         return samples
+
+
+class _Bernoulli(torch.distributions.Bernoulli):
+    """Bernoulli distribution whose log-probabilities are also defined for ``p=0`` and ``p=1``."""
+
+    def log_prob(self, value: Tensor) -> Tensor:
+        log_prob = super().log_prob(value)
+        if torch.isfinite(self.logits).all():
+            return log_prob
+        certain = torch.where(value == (self.logits > 0), 0.0, float("-inf")).to(log_prob.dtype)
+        return torch.where(torch.isinf(self.logits), certain, log_prob)
diff --git a/spflow/modules/leaves/binomial.py b/spflow/modules/leaves/binomial.py
index edaf756..50bf564 100644
--- a/spflow/modules/leaves/binomial.py
+++ b/spflow/modules/leaves/binomial.py
@@ -131,7 +131,7 @@ class Binomial(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Binomial]:
-        return torch.distributions.Binomial
+        return _Binomial
 
     def params(self) -> dict[str, Tensor]:
         """Returns distribution parameters."""
@@ -266,3 +266,16 @@ class BinomialWithDifferentiableSamplingSIMPLE(torch.distributions.Binomial):
 
         samples_oh = SIMPLE(logits=logits, dim=-1, is_mpe=False)
         return (samples_oh * k).sum(dim=-1)
+
+
+class _Binomial(torch.distributions.Binomial):
+    """Binomial distribution whose log-probabilities are also defined for ``p=0`` and ``p=1``."""
+
+    def log_prob(self, value: Tensor) -> Tensor:
+        log_prob = super().log_prob(value)
+        if torch.isfinite(self.logits).all():
+            return log_prob
+        # All trials fail (p=0) or succeed (p=1)
+        certain_count = torch.where(self.logits > 0, self.total_count, torch.zeros_like(self.total_count))
+        certain = torch.where(value == certain_count, 0.0, float("-inf")).to(log_prob.dtype)
+        return torch.where(torch.isinf(self.logits), certain, log_prob)
diff --git a/spflow/modules/leaves/negative_binomial.py b/spflow/modules/leaves/negative_binomial.py
index dabe979..935ba43 100644
--- a/spflow/modules/leaves/negative_binomial.py
+++ b/spflow/modules/leaves/negative_binomial.py
@@ -121,7 +121,7 @@ class NegativeBinomial(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.NegativeBinomial]:
-        return torch.distributions.NegativeBinomial
+        return _NegativeBinomial
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
@@ -217,3 +217,14 @@ class NegativeBinomialWithDifferentiableSamplingSIMPLE(torch.distributions.Negat
 
         samples_oh = SIMPLE(logits=logits, dim=-1, is_mpe=False)
         return (samples_oh * k).sum(dim=-1)
+
+
+class _NegativeBinomial(torch.distributions.NegativeBinomial):
+    """Negative binomial distribution whose log-probabilities are also defined for ``p=0``."""
+
+    def log_prob(self, value: Tensor) -> Tensor:
+        log_prob = super().log_prob(value)
+        if torch.isfinite(self.logits).all():
+            return log_prob
+        certain = torch.where(value == 0, 0.0, float("-inf")).to(log_prob.dtype)
+        return torch.where(self.logits == float("-inf"), certain, log_prob)
-- 
2.43.0


From 760a88ca0e0603511e87b82c2cce71328bde93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 19/81] fix: interval evidence with bounds outside of the
 support or missing

Leaves that use the distribution's CDF raised an error when a bound was
missing or lay outside of the support (LogNormal, Gamma, Exponential).
---
 spflow/modules/leaves/leaf.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index cad484d..b8d4814 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -533,8 +533,8 @@ class LeafModule(Module, ABC):
 
         # Compute CDF values
         try:
-            cdf_high = dist.cdf(high_for_cdf)
-            cdf_low = dist.cdf(low_for_cdf)
+            cdf_high = self._interval_cdf(dist, high_for_cdf)
+            cdf_low = self._interval_cdf(dist, low_for_cdf)
         except NotImplementedError:
             raise NotImplementedError(
                 f"{self.__class__.__name__} does not support interval inference. "
@@ -546,6 +546,23 @@ class LeafModule(Module, ABC):
 
         return torch.log(prob)
 
+    def _interval_cdf(self, dist: torch.distributions.Distribution, bound: Tensor) -> Tensor:
+        """Evaluate the CDF at interval bounds, which may lie outside of the support.
+
+        Args:
+            dist: Distribution of this leaf.
+            bound: Bounds broadcastable to the event shape; may be infinite.
+
+        Returns:
+            CDF values: zero below the support and one at positive infinity.
+        """
+        support = getattr(dist, "support", torch.distributions.constraints.real)
+        above = bound == float("inf")
+        inside = support.check(bound) & ~above
+        supported_value = torch.as_tensor(self._supported_value, dtype=bound.dtype, device=bound.device)
+        cdf = dist.cdf(torch.where(inside, bound, supported_value))
+        return torch.where(inside, cdf, above.to(cdf.dtype))
+
     def _prepare_mle_data(
         self,
         data: Tensor,
-- 
2.43.0


From d81decbc2d66253b50d87842537ccd420ca821e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 20/81] fix: location estimate of Laplace leaves ignores the
 weights

The estimate is documented as the weighted median, but the median of the
unweighted data was stored.
---
 spflow/modules/leaves/laplace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/laplace.py b/spflow/modules/leaves/laplace.py
index 404340e..ab8d110 100644
--- a/spflow/modules/leaves/laplace.py
+++ b/spflow/modules/leaves/laplace.py
@@ -97,7 +97,12 @@ class Laplace(LeafModule):
         n_total = weights.sum(dim=0)
 
         # ---- 1. Correct Laplace MLE for loc: weighted median ----
-        loc_est = torch.median(data, dim=0).values
+        values, weights_full = torch.broadcast_tensors(data, weights)
+        values, order = torch.sort(values, dim=0)
+        cum_weights = torch.gather(weights_full, 0, order).cumsum(dim=0)
+        is_median = cum_weights >= 0.5 * cum_weights[-1:] * (1 - 1e-6)
+        first = is_median.to(torch.uint8).argmax(dim=0, keepdim=True)
+        loc_est = torch.gather(values, 0, first).squeeze(0)
 
         # ---- 2. Correct Laplace MLE for scale ----
         abs_dev = torch.abs(data - loc_est)
-- 
2.43.0


From dba74d4caf1e5edeef097cd9720f6d37afedd148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 21/81] fix: leaf estimates depend on the number of features
 and channels

The weights were normalized over all features, channels and repetitions
at once, so the number of observations in bias corrections was too small
by that factor (the variance estimate could even become negative).
---
 spflow/modules/leaves/leaf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index b8d4814..2c77391 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -595,6 +595,10 @@ class LeafModule(Module, ABC):
         # Step 2: Apply NaN strategy (drop/impute)
         scoped_data, normalized_weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
 
+        # Step 3: Every feature, channel and repetition is an estimation problem of its own
+        totals = normalized_weights.sum(dim=0, keepdim=True)
+        normalized_weights = normalized_weights * (scoped_data.shape[0] / totals)
+
         return scoped_data, normalized_weights
 
     def maximum_likelihood_estimation(
-- 
2.43.0


From 4d4610b6f9764fb7c31974c803bbe799775850b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 22/81] fix: exponential and gamma estimates of constant data
 are infinite

---
 spflow/modules/leaves/exponential.py | 2 +-
 spflow/modules/leaves/gamma.py       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/exponential.py b/spflow/modules/leaves/exponential.py
index 665cb5a..0363296 100644
--- a/spflow/modules/leaves/exponential.py
+++ b/spflow/modules/leaves/exponential.py
@@ -98,7 +98,7 @@ class Exponential(LeafModule):
         if bias_correction:
             n_total = n_total - 1
 
-        rate_est = n_total / (weights * data).sum(0)
+        rate_est = n_total / (weights * data).sum(0).clamp_min(1e-8)
 
         # Handle edge cases (NaN, zero, or near-zero rate) before broadcasting
         rate_est = _handle_mle_edge_cases(rate_est, lb=0.0)
diff --git a/spflow/modules/leaves/gamma.py b/spflow/modules/leaves/gamma.py
index 908fc48..2068277 100644
--- a/spflow/modules/leaves/gamma.py
+++ b/spflow/modules/leaves/gamma.py
@@ -140,7 +140,8 @@ class Gamma(LeafModule):
         mean_x = (weights * data).sum(dim=0) / n_total
         mean_ln_x = (weights * data_log).sum(dim=0) / n_total
 
-        theta_est = mean_xlnx - mean_x * mean_ln_x
+        # Zero for constant data (up to rounding)
+        theta_est = (mean_xlnx - mean_x * mean_ln_x).clamp_min(1e-8)
         concentration_est = mean_x / theta_est
         rate_est = 1 / theta_est
 
-- 
2.43.0


From 7db0971f183ccdd63f83531b6ed38da52860815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 23/81] fix: PiecewiseLinear samples do not follow the density

Samples within an interval were drawn uniformly although the density is
linear there, and samples of discrete variables were indices into the
domain instead of its values.
---
 spflow/modules/leaves/piecewise_linear.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index 0abce99..3c3a4db 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -291,6 +291,7 @@ class PiecewiseLinearDist:
         assert self._cdf_lengths is not None
         assert self._cdf_padded is not None
         assert self._xs_padded is not None
+        assert self._ys_padded is not None
 
         num_samples = sample_shape[0] if isinstance(sample_shape, torch.Size) else sample_shape[0]
         flat_samples = torch.empty(
@@ -317,8 +318,15 @@ class PiecewiseLinearDist:
             cdf1 = self._cdf_padded.gather(dim=1, index=indices)
             x0 = xs_cont.gather(dim=1, index=indices - 1)
             x1 = xs_cont.gather(dim=1, index=indices)
-            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)
-            cont_samples = x0 + slope * (uniforms - cdf0)
+            ys_cont = self._ys_padded[self._continuous_flat_indices]
+            y0 = ys_cont.gather(dim=1, index=indices - 1)
+            y1 = ys_cont.gather(dim=1, index=indices)
+            # The density is linear within an interval: invert its quadratic CDF (area / total area).
+            width = x1 - x0
+            fraction = ((uniforms - cdf0) / (cdf1 - cdf0 + 1e-8)).clamp(0.0, 1.0)
+            root = torch.sqrt(y0**2 + (y1**2 - y0**2) * fraction)
+            offset = width * (y0 + y1) * fraction / (y0 + root).clamp_min(1e-12)
+            cont_samples = x0 + torch.minimum(offset, width)
             flat_samples[:, self._continuous_flat_indices] = cont_samples.transpose(0, 1)
 
         continuous_lookup = set(self._continuous_flat_indices.tolist())
@@ -333,7 +341,8 @@ class PiecewiseLinearDist:
             if self.domains[i_feature].data_type != DataType.DISCRETE:
                 raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
             dist = torch.distributions.Categorical(probs=ys_i[1:-1])
-            flat_samples[:, flat_idx] = dist.sample(sample_shape)
+            values = self.xs[i_repetition][i_leaf][i_feature][i_channel][1:-1]
+            flat_samples[:, flat_idx] = values[dist.sample(sample_shape)]
 
         return self._reshape_flat_with_batch(flat_samples)
 
-- 
2.43.0


From 6e326359ead790833d0fcff64c1bc8368f3c60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 24/81] fix: the most probable value of a fair Bernoulli leaf
 is NaN

---
 spflow/modules/leaves/bernoulli.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index f074565..ab38bb7 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -194,7 +194,23 @@ class Bernoulli(LeafModule):
         return torch.log(torch.clamp(total_prob, min=1e-40))
 
 
-class BernoulliWithDifferentiableSampling(torch.distributions.Bernoulli):
+class _Bernoulli(torch.distributions.Bernoulli):
+    """Bernoulli distribution whose log-probabilities and mode are defined for every success probability."""
+
+    def log_prob(self, value: Tensor) -> Tensor:
+        log_prob = super().log_prob(value)
+        if torch.isfinite(self.logits).all():
+            return log_prob
+        certain = torch.where(value == (self.logits > 0), 0.0, float("-inf")).to(log_prob.dtype)
+        return torch.where(torch.isinf(self.logits), certain, log_prob)
+
+    @property
+    def mode(self) -> Tensor:
+        """Most probable outcome; both outcomes are modes for ``p=0.5``."""
+        return (self.logits >= 0).to(self.logits.dtype)
+
+
+class BernoulliWithDifferentiableSampling(_Bernoulli):
     """Bernoulli distribution class that supports differentiable sampling via RelaxedBernoulli."""
 
     def sample(self, sample_shape=torch.Size()):
@@ -220,14 +236,3 @@ class BernoulliWithDifferentiableSampling(torch.distributions.Bernoulli):
         samples_oh = SIMPLE(logits=two_class_logits, dim=-1, is_mpe=False)
         samples = samples_oh[..., 1]  # Extract class "1".
         return samples
-
-
-class _Bernoulli(torch.distributions.Bernoulli):
-    """Bernoulli distribution whose log-probabilities are also defined for ``p=0`` and ``p=1``."""
-
-    def log_prob(self, value: Tensor) -> Tensor:
-        log_prob = super().log_prob(value)
-        if torch.isfinite(self.logits).all():
-            return log_prob
-        certain = torch.where(value == (self.logits > 0), 0.0, float("-inf")).to(log_prob.dtype)
-        return torch.where(torch.isinf(self.logits), certain, log_prob)
-- 
2.43.0


From 807eb815c74e5bef98a50db3e8cd83be70fba072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 25/81] fix: EM fails on ElementwiseSum with single-channel
 inputs

---
 spflow/modules/sums/elementwise_sum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 2366b5e..ac32c66 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -538,6 +538,11 @@ class ElementwiseSum(Module):
                 inp_ll = cache.get("log_likelihood", inp)
                 if inp_ll is None:
                     raise MissingCacheError("Input log-likelihoods not found in cache.")
+
+                # Prepare for broadcasting (see log_likelihood)
+                if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                    inp_ll = repeat(inp_ll, "b f 1 r -> b f ci r", ci=self.in_shape.channels)
+
                 input_lls.append(inp_ll)
             input_lls = torch.stack(input_lls, dim=3)
 
-- 
2.43.0


From f80a3964b197fccc0a76fdb032b5c59d2e8c85eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 26/81] fix: EM of SumConv mixes up the weights of its kernel
 positions

---
 spflow/modules/conv/sum_conv.py | 43 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 214b9ef..d2d48bf 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -483,17 +483,26 @@ class SumConv(Module):
             else:
                 log_grads = torch.log(module_lls_grad + 1e-10)
 
-            # Current log weights: (out_c, in_c, k, k, reps)
-            # Average over kernel spatial dims for simplicity
-            log_weights = self.log_weights.mean(dim=(2, 3))  # (out_c, in_c, reps)
+            # Bring the kernel weights of every pixel into place:
+            # (out_c, in_c, k, k, reps) -> (1, features, out_c, in_c, reps)
+            num_features = input_lls.shape[1]
+            H = W = int(num_features**0.5)
+            K = self.kernel_size
+            # As in log_likelihood, grids smaller than the kernel only use position [0, 0]
+            kh_len = kw_len = K if H >= K and W >= K else 1
+            log_weights = repeat(
+                self.log_weights[:, :, :kh_len, :kw_len],
+                "co ci kh kw r -> 1 (oh kh ow kw) co ci r",
+                oh=H // kh_len,
+                ow=W // kw_len,
+            )
 
             # Reshape for broadcasting:
-            # log_weights: (1, 1, out_c, in_c, reps)
+            # log_weights: (1, features, out_c, in_c, reps)
             # log_grads: (batch, features, out_c, 1, reps)
             # input_lls: (batch, features, 1, in_c, reps)
             # module_lls: (batch, features, out_c, 1, reps)
 
-            log_weights = rearrange(log_weights, "co ci r -> 1 1 co ci r")
             log_grads = rearrange(log_grads, "b f co r -> b f co 1 r")
             input_lls = rearrange(input_lls, "b f ci r -> b f 1 ci r")
             module_lls = rearrange(module_lls, "b f co r -> b f co 1 r")
@@ -503,20 +512,22 @@ class SumConv(Module):
             log_expectations = log_weights + log_grads + input_lls - module_lls
             # Shape: (batch, features, out_c, in_c, reps)
 
-            # Sum over batch and features dimensions
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (features, out_c, in_c, reps)
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (out_c, in_c, reps)
+            # Sum over the batch and over the pixels that share a kernel position
+            log_expectations = rearrange(
+                log_expectations,
+                "b (oh kh ow kw) co ci r -> (b oh ow) co ci kh kw r",
+                oh=H // kh_len,
+                kh=kh_len,
+                kw=kw_len,
+            ).logsumexp(dim=0)
 
             # Normalize over in_channels (sum dimension for this module)
             # The sum_dim for SumConv is dimension 1 (in_channels)
-            log_expectations = torch.log_softmax(log_expectations, dim=1)
-
-            # Update log_weights: need to expand to full kernel shape
-            # Current shape: (out_c, in_c, reps)
-            # Target shape: (out_c, in_c, k, k, reps)
-            k = self.kernel_size
-            new_log_weights = rearrange(log_expectations, "co ci r -> co ci 1 1 r")
-            new_log_weights = repeat(new_log_weights, "co ci 1 1 r -> co ci kh kw r", kh=k, kw=k)
+            log_expectations = torch.log_softmax(log_expectations, dim=self.sum_dim)
+
+            # Kernel positions without pixels keep their weights
+            new_log_weights = self.log_weights.clone()
+            new_log_weights[:, :, :kh_len, :kw_len] = log_expectations
 
             # Set new weights
             self.logits.data = new_log_weights.contiguous()
-- 
2.43.0


From 4e06f7e948bfe430ec3dc6db5e0d0139e003aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 27/81] fix: components without probability mass turn gradients
 and EM updates into NaN

---
 spflow/modules/conv/sum_conv.py                | 18 ++++++++++++------
 spflow/modules/einsum/einsum_layer.py          | 14 ++++++++++++--
 spflow/modules/einsum/linsum_layer.py          | 12 +++++++++---
 spflow/modules/leaves/cltree.py                |  5 +++--
 spflow/modules/sums/elementwise_sum.py         | 11 +++++++++--
 spflow/modules/sums/repetition_mixing_layer.py | 11 +++++++++--
 spflow/modules/sums/sum.py                     | 11 +++++++++--
 spflow/utils/projections.py                    | 18 ++++++++++++++++++
 8 files changed, 81 insertions(+), 19 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index d2d48bf..e5903e7 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -16,7 +16,7 @@ from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
-from spflow.utils.projections import proj_convex_to_real
+from spflow.utils.projections import masked_logsumexp, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -215,7 +215,7 @@ class SumConv(Module):
 
             # Weighted sum over input channels: logsumexp over dim 3 (in_channels)
             weighted_lls = ll + log_weights
-            result = torch.logsumexp(weighted_lls, dim=3)  # (batch, features, out_c, reps)
+            result = masked_logsumexp(weighted_lls, dim=3)  # (batch, features, out_c, reps)
 
             return result
 
@@ -241,7 +241,7 @@ class SumConv(Module):
 
         # Weighted sum over input channels: logsumexp over dim 2 (in_channels)
         weighted_lls = ll + log_weights
-        result = torch.logsumexp(weighted_lls, dim=2)  # (batch, out_c, H//K, W//K, K, K, reps)
+        result = masked_logsumexp(weighted_lls, dim=2)  # (batch, out_c, H//K, W//K, K, K, reps)
 
         # Invert the patch transformation and flatten spatial dimensions.
         result = rearrange(result, "b co oh ow kh kw r -> b (oh kh ow kw) co r")
@@ -461,6 +461,9 @@ class SumConv(Module):
                     "Module log-likelihoods not found in cache. Call log_likelihood first."
                 )
 
+            # Samples without any probability mass (-inf) contribute nothing
+            module_lls_finite = module_lls.masked_fill(torch.isneginf(module_lls), 0.0)
+
             # input_lls shape: (batch, features, in_channels, reps)
             # module_lls shape: (batch, features, out_channels, reps)
             # log_weights shape: (out_channels, in_channels, k, k, reps)
@@ -505,7 +508,7 @@ class SumConv(Module):
 
             log_grads = rearrange(log_grads, "b f co r -> b f co 1 r")
             input_lls = rearrange(input_lls, "b f ci r -> b f 1 ci r")
-            module_lls = rearrange(module_lls, "b f co r -> b f co 1 r")
+            module_lls = rearrange(module_lls_finite, "b f co r -> b f co 1 r")
 
             # Compute log expectations
             # This follows the standard EM derivation for mixture models
@@ -523,11 +526,14 @@ class SumConv(Module):
 
             # Normalize over in_channels (sum dimension for this module)
             # The sum_dim for SumConv is dimension 1 (in_channels)
+            is_unused = torch.isneginf(log_expectations).all(dim=self.sum_dim, keepdim=True)
             log_expectations = torch.log_softmax(log_expectations, dim=self.sum_dim)
 
-            # Kernel positions without pixels keep their weights
+            # Kernel positions without pixels, or responsible for no sample at all, keep their weights
             new_log_weights = self.log_weights.clone()
-            new_log_weights[:, :, :kh_len, :kw_len] = log_expectations
+            new_log_weights[:, :, :kh_len, :kw_len] = torch.where(
+                is_unused, new_log_weights[:, :, :kh_len, :kw_len], log_expectations
+            )
 
             # Set new weights
             self.logits.data = new_log_weights.contiguous()
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 390b5d4..f29ebd5 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -412,7 +412,11 @@ class EinsumLayer(Module):
 
         weights = self._normalized_weights()
         prob = self._contract_probabilities(left_prob, right_prob, weights)
-        return torch.log(prob) + left_max + right_max
+
+        # Outputs without any probability mass get a gradient of zero instead of NaN.
+        is_empty = prob == 0
+        log_prob = torch.log(prob.masked_fill(is_empty, 1.0)).masked_fill(is_empty, float("-inf"))
+        return log_prob + left_max + right_max
 
     @cached
     def log_likelihood(
@@ -631,6 +635,9 @@ class EinsumLayer(Module):
             if module_lls is None:
                 raise MissingCacheError("Module log-likelihoods not in cache. Call log_likelihood first.")
 
+            # Samples without any probability mass (-inf) contribute nothing
+            module_lls_finite = module_lls.masked_fill(torch.isneginf(module_lls), 0.0)
+
             # E-step: compute expected counts
             log_weights = rearrange(self.log_weights, "f co r i j -> 1 f co r i j")
 
@@ -641,7 +648,7 @@ class EinsumLayer(Module):
             log_grads = torch.log(module_lls.grad + 1e-10)
 
             log_grads = rearrange(log_grads, "b f co r -> b f co r 1 1")
-            module_lls = rearrange(module_lls, "b f co r -> b f co r 1 1")
+            module_lls = rearrange(module_lls_finite, "b f co r -> b f co r 1 1")
 
             # Joint input log-likelihood
             joint_input_ll = left_ll + right_ll  # (B, D, 1, R, I, J)
@@ -653,6 +660,9 @@ class EinsumLayer(Module):
             # Normalize to get new log weights
             flat_expectations = rearrange(log_expectations, "f co r i j -> f co r (i j)")
             flat_log_weights = torch.nn.functional.log_softmax(flat_expectations, dim=-1)
+            # Sum nodes that are responsible for no sample at all keep their weights
+            is_unused = torch.isneginf(flat_expectations).all(dim=-1, keepdim=True)
+            flat_log_weights = torch.where(is_unused, self.log_weights.flatten(-2), flat_log_weights)
             new_log_weights = rearrange(
                 flat_log_weights,
                 "f co r (i j) -> f co r i j",
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 2b1a46a..21aa444 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -27,7 +27,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached
-from spflow.utils.projections import proj_convex_to_real
+from spflow.utils.projections import masked_logsumexp, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -292,7 +292,7 @@ class LinsumLayer(Module):
         weighted_ll = prod_ll + log_weights
 
         # LogSumExp over input channels (dim=3)
-        log_prob = torch.logsumexp(weighted_ll, dim=3)  # (N, D, O, R)
+        log_prob = masked_logsumexp(weighted_ll, dim=3)  # (N, D, O, R)
 
         return log_prob
 
@@ -465,6 +465,9 @@ class LinsumLayer(Module):
             if module_lls is None:
                 raise MissingCacheError("Module log-likelihoods not in cache. Call log_likelihood first.")
 
+            # Samples without any probability mass (-inf) contribute nothing
+            module_lls_finite = module_lls.masked_fill(torch.isneginf(module_lls), 0.0)
+
             # E-step: compute expected counts
             log_weights = rearrange(self.log_weights, "f co r ci -> 1 f co r ci")
 
@@ -477,7 +480,7 @@ class LinsumLayer(Module):
             log_grads = torch.log(module_lls.grad + 1e-10)
 
             log_grads = rearrange(log_grads, "b f co r -> b f co r 1")
-            module_lls = rearrange(module_lls, "b f co r -> b f co r 1")
+            module_lls = rearrange(module_lls_finite, "b f co r -> b f co r 1")
 
             # Compute log expectations
             log_expectations = log_weights + log_grads + prod_ll - module_lls
@@ -485,6 +488,9 @@ class LinsumLayer(Module):
 
             # Normalize to get new log weights
             new_log_weights = torch.nn.functional.log_softmax(log_expectations, dim=-1)
+            # Sum nodes that are responsible for no sample at all keep their weights
+            is_unused = torch.isneginf(log_expectations).all(dim=-1, keepdim=True)
+            new_log_weights = torch.where(is_unused, self.log_weights, new_log_weights)
 
             # M-step: update weights
             self.log_weights = new_log_weights
diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 6b9245e..4235188 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -24,6 +24,7 @@ from spflow.meta import Scope
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.utils.cache import Cache, cached
 from spflow.utils.leaves import apply_nan_strategy
+from spflow.utils.projections import masked_logsumexp
 
 
 @dataclass(frozen=True)
@@ -381,7 +382,7 @@ class CLTree(LeafModule):
                     xi = int(obs_val[i].item())
                     msg = score[:, :, xi, :]  # (C,R,K)
                 else:
-                    msg = torch.logsumexp(score, dim=2)  # (C,R,K)
+                    msg = masked_logsumexp(score, dim=2)  # (C,R,K)
 
                 child_sum[p] += msg
 
@@ -391,7 +392,7 @@ class CLTree(LeafModule):
                 xr = int(obs_val[root].item())
                 ll = root_score[:, :, xr]  # (C,R)
             else:
-                ll = torch.logsumexp(root_score, dim=2)  # (C,R)
+                ll = masked_logsumexp(root_score, dim=2)  # (C,R)
 
             out[n, 0, :, :] = ll
 
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index ac32c66..0483490 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -19,6 +19,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import (
+    masked_logsumexp,
     proj_convex_to_real,
 )
 from spflow.utils.sampling_context import (
@@ -511,7 +512,7 @@ class ElementwiseSum(Module):
         weighted_lls = ll + log_weights  # shape: (B, F, IC, OC)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)
+        output = masked_logsumexp(weighted_lls, dim=self.sum_dim + 1)
         output = rearrange(output, "b f ci co r -> b f (ci co) r")
 
         return output
@@ -551,6 +552,9 @@ class ElementwiseSum(Module):
             if module_lls is None:
                 raise MissingCacheError("Module log-likelihood not found in cache.")
 
+            # Samples without any probability mass (-inf) contribute nothing
+            module_lls_finite = module_lls.masked_fill(torch.isneginf(module_lls), 0.0)
+
             log_weights = rearrange(self.log_weights, "f ci co i r -> 1 f ci co i r")
             input_lls = rearrange(input_lls, "b f ci i r -> b f ci 1 i r")
             log_grads = rearrange(
@@ -560,7 +564,7 @@ class ElementwiseSum(Module):
                 co=self._num_sums,
             )
             module_lls = rearrange(
-                module_lls,
+                module_lls_finite,
                 "b f (ci co) r -> b f ci co 1 r",
                 ci=self.in_shape.channels,
                 co=self._num_sums,
@@ -568,7 +572,10 @@ class ElementwiseSum(Module):
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
             log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
+            # Sum nodes that are responsible for no sample at all keep their weights
+            is_unused = torch.isneginf(log_expectations).all(dim=self.sum_dim, keepdim=True)
             log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
+            log_expectations = torch.where(is_unused, self.log_weights, log_expectations)
 
             # ----- maximization step -----
             self.log_weights = log_expectations
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 0c21b9f..c0195e1 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,6 +9,7 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
+from spflow.utils.projections import masked_logsumexp
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -210,7 +211,7 @@ class RepetitionMixingLayer(Sum):
         weighted_lls = ll + log_weights  # shape: (B, F, OC, R) + (1, F, OC, R) = (B, F, R, OC)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)  # shape: (B, F, OC, R)
+        output = masked_logsumexp(weighted_lls, dim=self.sum_dim + 1)  # shape: (B, F, OC, R)
 
         # Repetition axis is mixed out, so re-introduce singleton repetition dimension.
         return rearrange(output, "b f co -> b f co 1")
@@ -249,12 +250,18 @@ class RepetitionMixingLayer(Sum):
                     "Module log-likelihoods not found in cache. Call log_likelihood first."
                 )
 
+            # Samples without any probability mass (-inf) contribute nothing
+            module_lls_finite = module_lls.masked_fill(torch.isneginf(module_lls), 0.0)
+
             log_weights = rearrange(self.log_weights, "f co r -> 1 f co r")
             log_grads = torch.log(module_lls.grad)
 
-            log_expectations = log_weights + log_grads + input_lls - module_lls
+            log_expectations = log_weights + log_grads + input_lls - module_lls_finite
             log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
+            # Sum nodes that are responsible for no sample at all keep their weights
+            is_unused = torch.isneginf(log_expectations).all(dim=self.sum_dim, keepdim=True)
             log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
+            log_expectations = torch.where(is_unused, self.log_weights, log_expectations)
 
             # ----- maximization step -----
             self.log_weights = log_expectations
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index b6e407f..055a997 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -16,6 +16,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
 from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import (
+    masked_logsumexp,
     proj_convex_to_real,
 )
 from spflow.utils.sampling_context import (
@@ -278,7 +279,7 @@ class Sum(Module):
         weighted_lls = ll + log_weights  # shape: (B, F, IC, OC, R)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)
+        output = masked_logsumexp(weighted_lls, dim=self.sum_dim + 1)
 
         return output
 
@@ -422,14 +423,20 @@ class Sum(Module):
                     "Module log-likelihoods not found in cache. Call log_likelihood first."
                 )
 
+            # Samples without any probability mass (-inf) contribute nothing
+            module_lls_finite = module_lls.masked_fill(torch.isneginf(module_lls), 0.0)
+
             log_weights = rearrange(self.log_weights, "f ci co r -> 1 f ci co r")
             log_grads = rearrange(torch.log(module_lls.grad), "b f co r -> b f 1 co r")
             input_lls = rearrange(input_lls, "b f ci r -> b f ci 1 r")
-            module_lls = rearrange(module_lls, "b f co r -> b f 1 co r")
+            module_lls = rearrange(module_lls_finite, "b f co r -> b f 1 co r")
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
             log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
+            # Sum nodes that are responsible for no sample at all keep their weights
+            is_unused = torch.isneginf(log_expectations).all(dim=self.sum_dim, keepdim=True)
             log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
+            log_expectations = torch.where(is_unused, self.log_weights, log_expectations)
 
             # ----- maximization step -----
             self.log_weights = log_expectations
diff --git a/spflow/utils/projections.py b/spflow/utils/projections.py
index 27c3475..7061f3b 100644
--- a/spflow/utils/projections.py
+++ b/spflow/utils/projections.py
@@ -140,3 +140,21 @@ def proj_bounded_to_real(
     else:
         # project from right-bounded interval
         return torch.log(ub - x)
+
+
+def masked_logsumexp(values: Tensor, dim: int) -> Tensor:
+    """Log-sum-exp whose gradient is zero, instead of NaN, where all terms are -inf.
+
+    A mixture without any probability mass at a sample contributes nothing to an enclosing
+    mixture, so it must not spoil the gradients of the components that do.
+
+    Args:
+        values: Log-space terms.
+        dim: Dimension to sum over.
+
+    Returns:
+        Tensor: Log of the summed exponentials, with ``dim`` removed.
+    """
+    is_empty = torch.isneginf(values).all(dim=dim)
+    output = torch.logsumexp(values.masked_fill(is_empty.unsqueeze(dim), 0.0), dim=dim)
+    return output.masked_fill(is_empty, float("-inf"))
-- 
2.43.0


From fbeef16315d5a176c9b3dc7b1e2792f34765bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 28/81] fix: EM updates a module with several parents more than
 once

---
 spflow/modules/conv/sum_conv.py               |  3 ++-
 spflow/modules/einsum/einsum_layer.py         |  3 ++-
 spflow/modules/einsum/linsum_layer.py         |  3 ++-
 spflow/modules/leaves/leaf.py                 |  3 ++-
 spflow/modules/sums/elementwise_sum.py        |  3 ++-
 .../modules/sums/repetition_mixing_layer.py   |  3 ++-
 spflow/modules/sums/sum.py                    |  3 ++-
 spflow/utils/cache.py                         | 24 +++++++++++++++++++
 8 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index e5903e7..5b34479 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -15,7 +15,7 @@ from torch.nn import functional as F
 from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import masked_logsumexp, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -425,6 +425,7 @@ class SumConv(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index f29ebd5..2414a2e 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -38,7 +38,7 @@ from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_by_index import SplitByIndex
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.modules.ops.split_interleaved import SplitInterleaved
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -613,6 +613,7 @@ class EinsumLayer(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 21aa444..ecf5f1b 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -26,7 +26,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import masked_logsumexp, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -443,6 +443,7 @@ class LinsumLayer(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 2c77391..aedef26 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -13,7 +13,7 @@ from spflow.meta.data.interval_evidence import IntervalEvidence
 from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.leaves import apply_nan_strategy, parse_leaf_args
 from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
 from spflow.utils.sampling_context import index_one_hot, index_tensor, repeat_repetition_index
@@ -360,6 +360,7 @@ class LeafModule(Module, ABC):
 
         return param_est
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: torch.Tensor,
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 0483490..eee4744 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -17,7 +17,7 @@ from spflow.exceptions import (
 from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import (
     masked_logsumexp,
     proj_convex_to_real,
@@ -517,6 +517,7 @@ class ElementwiseSum(Module):
 
         return output
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index c0195e1..23f6197 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -8,7 +8,7 @@ from torch import Tensor
 from spflow.exceptions import InvalidParameterCombinationError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import masked_logsumexp
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -216,6 +216,7 @@ class RepetitionMixingLayer(Sum):
         # Repetition axis is mixed out, so re-introduce singleton repetition dimension.
         return rearrange(output, "b f co -> b f co 1")
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 055a997..189a432 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -14,7 +14,7 @@ from spflow.exceptions import (
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import (
     masked_logsumexp,
     proj_convex_to_real,
@@ -389,6 +389,7 @@ class Sum(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/utils/cache.py b/spflow/utils/cache.py
index 2d1f094..e67a51f 100644
--- a/spflow/utils/cache.py
+++ b/spflow/utils/cache.py
@@ -133,3 +133,27 @@ def cached(func: Callable[..., T]) -> Callable[..., T]:
         return result
 
     return wrapper
+
+
+def once_per_cache(func: Callable[..., None]) -> Callable[..., None]:
+    """Decorator for updates that must run once per traversal, even on modules with several parents.
+
+    An update such as an EM step uses the values cached by the preceding forward pass; applying it
+    again after the parameters changed would mix new parameters with old values.
+
+    Args:
+        func: The method to decorate. It must take a ``cache`` keyword argument.
+
+    Returns:
+        Decorated method that does nothing when it already ran on the module for the given cache.
+    """
+    method_name = func.__name__
+
+    @functools.wraps(func)
+    def wrapper(self: Module, *args, cache: Cache, **kwargs) -> None:
+        if cache.get(method_name, self):
+            return
+        func(self, *args, cache=cache, **kwargs)
+        cache.set(method_name, self, True)
+
+    return wrapper
-- 
2.43.0


From 1156d7ca09dbe6efd70d7563b1c44e6869e276a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 29/81] fix: randomized dependence coefficient fails on
 strongly dependent columns

Rounding can push the squared correlation of a single projection slightly above
one; the search for a valid number of projections then ends at zero projections
and raises. LearnSPN with its default partitioning failed on duplicated or
constant columns.
---
 spflow/utils/rdc.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spflow/utils/rdc.py b/spflow/utils/rdc.py
index cc8af52..0fdebc4 100644
--- a/spflow/utils/rdc.py
+++ b/spflow/utils/rdc.py
@@ -85,7 +85,7 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
         if torch.is_complex(eigs):
             # Check if imaginary parts are negligible (numerical precision issues)
             max_imag = torch.max(torch.abs(torch.imag(eigs)))
-            if max_imag > 1e-8:
+            if max_imag > 1e-8 and k > 1:
                 # Significant imaginary parts indicate numerical issues
                 ub -= 1
                 k = (ub + lb) // 2
@@ -98,8 +98,8 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
             # Real eigenvalues - use original logic
             eigenvals_valid = 0 <= torch.min(eigs) and torch.max(eigs) <= 1
 
-        # Binary search if k is too large
-        if not eigenvals_valid:
+        # Binary search if k is too large; a single projection is only invalid due to rounding
+        if not eigenvals_valid and k > 1:
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -114,9 +114,9 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
 
     # Return the square root of the maximum eigenvalue (using real part if complex)
     if torch.is_complex(eigs):
-        return torch.sqrt(torch.max(torch.real(eigs)))
+        return torch.sqrt(torch.max(torch.real(eigs)).clamp(0.0, 1.0))
     else:
-        return torch.sqrt(torch.max(eigs))
+        return torch.sqrt(torch.max(eigs).clamp(0.0, 1.0))
 
 
 def cca_loop(k, C):
@@ -147,7 +147,7 @@ def cca_loop(k, C):
         if torch.is_complex(eigs):
             # Check if imaginary parts are negligible (numerical precision issues)
             max_imag = torch.max(torch.abs(torch.imag(eigs)))
-            if max_imag > 1e-8:
+            if max_imag > 1e-8 and k > 1:
                 # Significant imaginary parts indicate numerical issues
                 ub -= 1
                 k = (ub + lb) // 2
@@ -160,8 +160,8 @@ def cca_loop(k, C):
             # Real eigenvalues - use original logic
             eigenvals_valid = 0 <= torch.min(eigs) and torch.max(eigs) <= 1
 
-        # Binary search if k is too large
-        if not eigenvals_valid:
+        # Binary search if k is too large; a single projection is only invalid due to rounding
+        if not eigenvals_valid and k > 1:
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -176,9 +176,9 @@ def cca_loop(k, C):
 
     # Return the square root of the maximum eigenvalue (using real part if complex)
     if torch.is_complex(eigs):
-        return torch.sqrt(torch.max(torch.real(eigs)))
+        return torch.sqrt(torch.max(torch.real(eigs)).clamp(0.0, 1.0))
     else:
-        return torch.sqrt(torch.max(eigs))
+        return torch.sqrt(torch.max(eigs).clamp(0.0, 1.0))
 
 
 def rankdata_ordinal(x):
@@ -272,8 +272,8 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
 
         eigs = np.linalg.eigvals(np.dot(np.dot(np.linalg.pinv(Cxx), Cxy), np.dot(np.linalg.pinv(Cyy), Cyx)))
 
-        # Binary search if k is too large
-        if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
+        # Binary search if k is too large; a single projection is only invalid due to rounding
+        if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1) and k > 1:
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -285,7 +285,7 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
         else:
             k = (ub + lb) // 2
 
-    return np.sqrt(np.max(eigs))
+    return np.sqrt(np.clip(np.max(np.real(eigs)), 0.0, 1.0))
 
 
 def cca_loop_np(k, C):
@@ -310,8 +310,8 @@ def cca_loop_np(k, C):
 
         eigs = np.linalg.eigvals(np.dot(np.dot(np.linalg.pinv(Cxx), Cxy), np.dot(np.linalg.pinv(Cyy), Cyx)))
 
-        # Binary search if k is too large
-        if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
+        # Binary search if k is too large; a single projection is only invalid due to rounding
+        if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1) and k > 1:
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -323,4 +323,4 @@ def cca_loop_np(k, C):
         else:
             k = (ub + lb) // 2
 
-    return np.sqrt(np.max(eigs))
+    return np.sqrt(np.clip(np.max(np.real(eigs)), 0.0, 1.0))
-- 
2.43.0


From 3e2a94dcca3553e1d188e288086ebc902eacf852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 30/81] fix: LearnSPN with a single leaf module and an explicit
 scope fails

---
 spflow/learn/learn_spn.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 8323844..b8ed4b6 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -218,19 +218,18 @@ def learn_spn(
     Raises:
         ValueError: If arguments are invalid or scopes are not disjoint.
     """
+    if isinstance(leaf_modules, LeafModule):
+        leaf_modules = [leaf_modules]
+
     if scope is None:
-        if isinstance(leaf_modules, list):
-            if len(leaf_modules) > 1:
-                if not Scope.all_pairwise_disjoint([module.scope for module in leaf_modules]):
-                    raise ValueError("Leaf modules must have disjoint scopes.")
-                scope = leaf_modules[0].scope
-                for leaf in leaf_modules[1:]:
-                    scope = scope.join(leaf.scope)
-            else:
-                scope = leaf_modules[0].scope
+        if len(leaf_modules) > 1:
+            if not Scope.all_pairwise_disjoint([module.scope for module in leaf_modules]):
+                raise ValueError("Leaf modules must have disjoint scopes.")
+            scope = leaf_modules[0].scope
+            for leaf in leaf_modules[1:]:
+                scope = scope.join(leaf.scope)
         else:
-            scope = leaf_modules.scope
-            leaf_modules = [leaf_modules]
+            scope = leaf_modules[0].scope
 
     # Verify that all indices in scope are valid for the data
     # if len(scope.query) > 0 and max(scope.query) >= data.shape[1]:
-- 
2.43.0


From 87fb76e1b11fcc4b0c0fb6e084a24f0d5c6351f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 31/81] fix: Prometheus leaves out decompositions when an
 affinity is zero

Pairs of zero affinity (for example with a constant column) were dropped from
the graph, so the spanning tree was only a forest and the partitions with few
components were never generated.
---
 spflow/learn/prometheus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spflow/learn/prometheus.py b/spflow/learn/prometheus.py
index da6cae4..e58a586 100644
--- a/spflow/learn/prometheus.py
+++ b/spflow/learn/prometheus.py
@@ -26,7 +26,7 @@ import numpy as np
 import networkx as nx
 import torch
 from fast_pytorch_kmeans import KMeans
-from networkx import connected_components, from_numpy_array, maximum_spanning_tree
+from networkx import connected_components, maximum_spanning_tree
 
 from spflow.exceptions import InvalidParameterError, InvalidTypeError, UnsupportedOperationError
 from spflow.meta.data.scope import Scope
@@ -147,7 +147,10 @@ def _mst_partitions_from_affinity(affinity: torch.Tensor) -> list[list[list[int]
     if d <= 1:
         return []
 
-    graph = from_numpy_array(np.asarray(affinity.detach().cpu().numpy()))
+    # Add every edge explicitly: from_numpy_array would leave out pairs of zero affinity.
+    graph = nx.Graph()
+    graph.add_nodes_from(range(d))
+    graph.add_weighted_edges_from((i, j, affinity[i, j].item()) for i, j in combinations(range(d), 2))
     tree = maximum_spanning_tree(graph, weight="weight")
 
     edges_sorted = sorted(tree.edges(data=True), key=lambda e: float(e[2].get("weight", 0.0)))
-- 
2.43.0


From 41a91181ece0fadb34bb910ee454e208dd2b1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 32/81] fix: CNet learning fails when a category does not occur

Sum weights have to be positive, so branches of categories without data are left
out of the mixture.
---
 spflow/learn/cnet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 8edc05a..fa71f31 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -248,6 +248,10 @@ def learn_cnet(
         if len(non_empty) == 1:
             return branches[non_empty[0][0]]
 
+        # Branches without data have no probability mass and cannot be part of the Sum
+        branches = [branches[i] for i, _ in non_empty]
+        weights_list = [w for _, w in non_empty]
+
         # Create Sum node over branches
         # Weight shape needs to account for each child's out_channels
         # Sum expects: (features, in_channels, out_channels, repetitions)
-- 
2.43.0


From 501a49c395b8d3bca318d1d15f38fd416b08a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 33/81] fix: CNets with a leaf of a single instance cannot be
 evaluated

A tree leaf reached by one row only was left without a structure, so evaluating
the learned model raised an error.
---
 spflow/learn/cnet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index fa71f31..75b468c 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -308,6 +308,9 @@ def _create_leaf(
         )
         if data_slice.shape[0] >= 2:
             leaf.maximum_likelihood_estimation(data_slice)
+        elif data_slice.shape[0] == 1:
+            # CLTree estimation needs at least two samples
+            leaf.maximum_likelihood_estimation(data_slice.expand(2, -1))
         return leaf
     else:
         # Use Categorical for single variable
-- 
2.43.0


From f581b08db5ed4ac15b4c600ff264d8bceb3395bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 34/81] fix: smoothing of CLTree estimates depends on features
 and channels

Weights were normalized over all features, channels and repetitions at once, so
the counts of a tree with several channels were too small against alpha.
---
 spflow/modules/leaves/cltree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 4235188..c8e8ad3 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -422,6 +422,9 @@ class CLTree(LeafModule):
         if scoped.shape[0] < 2:
             raise InvalidParameterError("CLTree requires at least 2 complete samples for MLE.")
 
+        # Counts of every channel and repetition sum to the number of samples
+        weights = weights * (scoped.shape[0] / weights.sum(dim=0, keepdim=True).clamp_min(1e-12))
+
         _validate_discrete_values(scoped, K=self.K)
         return scoped, weights
 
-- 
2.43.0


From 2f808e2127b382ac67c4fb79b88eb5528ae9e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 35/81] fix: pruning nested sums changes the distribution

The weights of the outer sum were indexed by child instead of by input channel,
so pruning failed or gave wrong weights for sums with several output channels;
concatenations of features were flattened as if they concatenated channels.
---
 spflow/learn/learn_spn.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index b8ed4b6..4957ed7 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -37,7 +37,7 @@ def prune_sums(node):
         child = node.inputs
         new_children = []
         new_weights = []
-        if isinstance(child, Cat):
+        if isinstance(child, Cat) and child.dim == 2:
             # prune if all children of the cat module are sums
             all_sums = all(isinstance(c, Sum) for c in child.inputs)
             if all_sums:
@@ -48,13 +48,17 @@ def prune_sums(node):
             # if we have new children, we need to update the weights
             current_weights = node.weights
             updated_weights = []
-            for i in range(len(new_weights)):
+            start = 0
+            for child_weights in new_weights:
+                # every child occupies as many input channels of the node as it has output channels
+                end = start + child_weights.shape[2]
                 updated_weights.append(
-                    new_weights[i] * current_weights[:, i, :].unsqueeze(1),
+                    torch.einsum("fior,focr->ficr", child_weights, current_weights[:, start:end]),
                 )
+                start = end
             updated_weights = torch.concatenate(updated_weights, dim=1)
 
-            all_cat = all(isinstance(c, Cat) for c in new_children)
+            all_cat = all(isinstance(c, Cat) and c.dim == 2 for c in new_children)
             if all_cat:
                 # if cat(cat) -> cat
                 node.inputs = Cat([input_elem for c in new_children for input_elem in c.inputs], dim=2)
-- 
2.43.0


From 4aa70470e7d83fe546e1aca6442128b6e7d8df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 36/81] fix: LearnSPN may recurse without end

When clustering does not separate the rows (identical rows, or both initial
centroids in the same spot), the learner called itself with the same data. On
binary data this often ended at the recursion limit.
---
 spflow/learn/learn_spn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 4957ed7..caf3336 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -364,10 +364,14 @@ def learn_spn(
                     for labels in labels_per_channel:
                         inputs_per_channel = []
 
+                        # a single cluster is the same data again: only retry to partition it, do not cluster it
+                        cluster_ids = torch.unique(labels)
+                        min_instances = min_instances_slice if len(cluster_ids) > 1 else data.shape[0] + 1
+
                         # Recurse for each label
                         #
                         # for each cluster, create a substructure
-                        for cluster_id in torch.unique(labels):
+                        for cluster_id in cluster_ids:
                             sub_structure = learn_spn(
                                 data[labels == cluster_id, :],
                                 leaf_modules=leaf_modules,
@@ -376,7 +380,7 @@ def learn_spn(
                                 clustering_method=clustering_method,
                                 partitioning_method=partitioning_method,
                                 min_features_slice=min_features_slice,
-                                min_instances_slice=min_instances_slice,
+                                min_instances_slice=min_instances,
                             )
                             inputs_per_channel.append(sub_structure)
 
-- 
2.43.0


From 62e3c440900666e5dbfd4fb8128ff0651d7c3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 37/81] fix: topk_mst(minimize=False) enumerates only the first
 tree

---
 spflow/zoo/hclt/topk_mst.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spflow/zoo/hclt/topk_mst.py b/spflow/zoo/hclt/topk_mst.py
index d5ed65a..a518205 100644
--- a/spflow/zoo/hclt/topk_mst.py
+++ b/spflow/zoo/hclt/topk_mst.py
@@ -107,22 +107,22 @@ def mst_with_constraints(
     reuse[:, :] = weights
 
     n = int(weights.shape[0])
+    worst = np.inf if minimize else -np.inf
     if dropout_prob > 0.0:
         rng = rng or np.random.default_rng()
         mask = rng.random((n, n)) < dropout_prob
         mask = np.triu(mask, k=1)
-        reuse[mask] = np.inf
-        reuse[(mask.T)] = np.inf
+        reuse[mask] = worst
+        reuse[(mask.T)] = worst
 
     included = {_canon_edge(e) for e in included_edges}
     excluded = {_canon_edge(e) for e in excluded_edges}
 
+    # Forced edges must sort first and forbidden edges last under either objective.
     for a, b in included:
-        reuse[a, b] = -np.inf
-        reuse[b, a] = -np.inf
+        reuse[a, b] = reuse[b, a] = -worst
     for a, b in excluded:
-        reuse[a, b] = np.inf
-        reuse[b, a] = np.inf
+        reuse[a, b] = reuse[b, a] = worst
 
     mst = kruskal_mst_complete(reuse, minimize=minimize)
     mst_set = set(mst)
@@ -175,7 +175,9 @@ def topk_mst(
         return (tuple(mst_edges), tuple(included_edges), tuple(excluded_edges))
 
     heap: list[tuple[float, tuple, list[Edge], list[Edge], list[Edge]]] = []
-    heappush(heap, (float(total0), key_for(mst0, [], []), mst0, [], []))
+    # The heap pops the smallest entry first: order by the total, negated when maximizing.
+    sign = 1.0 if minimize else -1.0
+    heappush(heap, (sign * float(total0), key_for(mst0, [], []), mst0, [], []))
 
     out: list[list[Edge]] = []
     while heap and len(out) < num_trees:
@@ -217,6 +219,6 @@ def topk_mst(
                 continue
             inc = list(included_edges)
             exc = list(excluded_edges)
-            heappush(heap, (float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
+            heappush(heap, (sign * float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
 
     return out
-- 
2.43.0


From 9efd0f847dece04fd0165dd8bf372029f384a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 38/81] fix: CLTree MLE learns the structure of permuted
 columns

---
 spflow/modules/leaves/cltree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index c8e8ad3..1065910 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -307,7 +307,10 @@ class CLTree(LeafModule):
                 "fit_structure requires complete data without NaNs (use nan_strategy='ignore')."
             )
         _validate_discrete_values(scoped, K=self.K)
+        self._fit_structure_scoped(scoped, sample_weights=sample_weights)
 
+    def _fit_structure_scoped(self, scoped: Tensor, *, sample_weights: Tensor | None = None) -> None:
+        """Learn the structure from complete data whose columns are already in scope order."""
         x = scoped.to(dtype=torch.long)
         mi = self._compute_mutual_information(x, sample_weights=sample_weights)
         parents_list = _prim_maximum_spanning_tree(mi.to(dtype=mi.dtype), root=0)
@@ -443,7 +446,7 @@ class CLTree(LeafModule):
         # Learn structure once (shared across channels/repetitions).
         if not self._has_learned_structure():
             w_scalar = weights[:, 0].sum(dim=(1, 2)).detach()  # (N,)
-            self.fit_structure(data=scoped, sample_weights=w_scalar)
+            self._fit_structure_scoped(scoped, sample_weights=w_scalar)
 
         parents = self.parents.tolist()
         root = parents.index(-1)
-- 
2.43.0


From 68feeda47e46befde19fec6587a810a20dda9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 39/81] fix: randomly initialized HCLT transitions ignore the
 parent state

---
 spflow/zoo/hclt/learn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/hclt/learn.py b/spflow/zoo/hclt/learn.py
index 0a45733..1ac77d7 100644
--- a/spflow/zoo/hclt/learn.py
+++ b/spflow/zoo/hclt/learn.py
@@ -67,7 +67,12 @@ def _build_hclt_from_tree(
                 continue
             child_sub = build_subtree(ch, node)
             weights = None if init != "uniform" else uniform_sum_weights(num_hidden_cats, num_hidden_cats)
-            trans = Sum(inputs=child_sub) if weights is None else Sum(inputs=child_sub, weights=weights)
+            # One output channel per hidden state of the parent.
+            trans = (
+                Sum(inputs=child_sub, out_channels=num_hidden_cats)
+                if weights is None
+                else Sum(inputs=child_sub, weights=weights)
+            )
             child_msgs.append(trans)
 
         if not child_msgs:
-- 
2.43.0


From d4c81cb28e121d74be351c325967bcd0b4ef8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 40/81] fix: Factorize turns zero likelihoods into NaN

---
 spflow/modules/rat/factorize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 652d802..8af01b3 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -162,7 +162,14 @@ class Factorize(BaseProduct):
             cache=cache,
         )  # lls[0] shape: [batch_size, num_features, num_channel, num_repetitions]
 
-        output = torch.einsum("bicr, ior->bocr", lls[0], self.indices)
+        # Infinite values must only reach their own group: the contraction would turn inf * 0 into NaN.
+        infinite = torch.isinf(lls[0])
+        output = torch.einsum("bicr, ior->bocr", lls[0].masked_fill(infinite, 0.0), self.indices)
+        if infinite.any():
+            members = (self.indices > 0).to(lls[0].dtype)
+            for value in (float("inf"), float("-inf")):
+                hits = torch.einsum("bicr, ior->bocr", (lls[0] == value).to(lls[0].dtype), members)
+                output = torch.where(hits > 0, output + value, output)
         return output
 
     def _sample(
-- 
2.43.0


From 55c94413dc6c192aff5619b3889c7bcd05d4ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 41/81] fix: marginalizing Factorize draws new random groups

The remaining features stay in their groups and layers above keep the weights of groups that lost all of
their features (in some repetition).
---
 spflow/modules/einsum/einsum_layer.py         | 12 +++++----
 spflow/modules/einsum/linsum_layer.py         |  4 +--
 spflow/modules/rat/factorize.py               | 27 ++++++++++++++-----
 .../modules/sums/repetition_mixing_layer.py   |  2 ++
 spflow/modules/sums/sum.py                    |  6 +++--
 5 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 2414a2e..c7960cb 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -49,8 +49,10 @@ from spflow.utils.sampling_context import (
 )
 
 
-def surviving_features(module: Module, marg_rvs: set[int]) -> list[int]:
-    """Return the indices of the features that keep variables when ``marg_rvs`` are marginalized."""
+def surviving_features(module: Module, marg_module: Module, marg_rvs: set[int]) -> list[int]:
+    """Return the indices of the features of ``module`` that exist in its marginalization ``marg_module``."""
+    if marg_module.out_shape.features == module.out_shape.features:
+        return list(range(module.out_shape.features))
     return [f for f, scope in enumerate(module.feature_to_scope[:, 0]) if set(scope.query) - marg_rvs]
 
 
@@ -68,7 +70,7 @@ def surviving_pairs(split: Split, marg_input: Module, marg_rvs: set[int]) -> tup
         left, right = order[0::2].tolist(), order[1::2].tolist()
     else:
         left, right = (half.tolist() for half in order.chunk(2))
-    survivors = surviving_features(split.inputs, marg_rvs)
+    survivors = surviving_features(split.inputs, marg_input, marg_rvs)
     keep = [f for f, idx in enumerate(left) if idx in survivors]
     if keep != [f for f, idx in enumerate(right) if idx in survivors]:
         return None
@@ -723,8 +725,8 @@ class EinsumLayer(Module):
                 return left_marg
             else:
                 # Both still exist - create new EinsumLayer with marginalized children
-                left_keep = surviving_features(self.inputs[0], mutual_rvs)
-                right_keep = surviving_features(self.inputs[1], mutual_rvs)
+                left_keep = surviving_features(self.inputs[0], left_marg, mutual_rvs)
+                right_keep = surviving_features(self.inputs[1], right_marg, mutual_rvs)
                 if left_keep == right_keep and (
                     left_marg.out_shape.features == right_marg.out_shape.features == len(left_keep)
                 ):
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index ecf5f1b..2e2e5c7 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -545,8 +545,8 @@ class LinsumLayer(Module):
                 return left_marg
             else:
                 # Both still exist - create new LinsumLayer with marginalized children
-                left_keep = surviving_features(self.inputs[0], mutual_rvs)
-                right_keep = surviving_features(self.inputs[1], mutual_rvs)
+                left_keep = surviving_features(self.inputs[0], left_marg, mutual_rvs)
+                right_keep = surviving_features(self.inputs[1], right_marg, mutual_rvs)
                 if left_keep == right_keep and (
                     left_marg.out_shape.features == right_marg.out_shape.features == len(left_keep)
                 ):
diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 8af01b3..1fdba75 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -41,6 +41,7 @@ class Factorize(BaseProduct):
         inputs: list[Module] | Module,
         depth: int,
         num_repetitions: int,
+        indices: Tensor | None = None,
     ) -> None:
         """Initialize factorize module.
 
@@ -48,6 +49,8 @@ class Factorize(BaseProduct):
             inputs: Leaf modules or single module to factorize.
             depth: Depth parameter (output features = 2^depth).
             num_repetitions: Number of parallel randomizations.
+            indices: Optional factorization matrix (num_features, 2^depth, num_repetitions). Drawn at
+                random if not given.
         """
         if isinstance(inputs, list):
             if len(inputs) > 1:
@@ -57,9 +60,10 @@ class Factorize(BaseProduct):
         super().__init__(inputs=inputs)
 
         self.depth = depth
-        indices = self._factorize(
-            depth, num_repetitions
-        )  # shape: [num_features_in, num_features_out, num_repetitions]
+        if indices is None:
+            indices = self._factorize(
+                depth, num_repetitions
+            )  # shape: [num_features_in, num_features_out, num_repetitions]
         self.register_buffer("indices", indices.to(torch.get_default_dtype()))
         # Sampling can optionally use a dedicated mapping (defaults to forward mapping).
         self.register_buffer("sampling_indices", self.indices.clone())
@@ -87,7 +91,8 @@ class Factorize(BaseProduct):
             for o in range(self.out_shape.features):
                 mask = indices[:, o, r] > 0
                 scopes = f2s_inputs[mask, r]
-                out[o, r] = Scope.join_all(scopes)
+                # A group can lose all of its features by marginalization.
+                out[o, r] = Scope.join_all(scopes) if len(scopes) > 0 else Scope([])
 
         return out
 
@@ -307,10 +312,18 @@ class Factorize(BaseProduct):
         if marg_child is None:
             return None
 
-        # Prune: if child has only one feature, factorization is redundant - return child directly
-        elif prune and marg_child.out_shape.features == 1:
+        # Prune: if a single group has only one feature, factorization is redundant - return child directly
+        elif prune and self.depth == 0 and marg_child.out_shape.features == 1:
             return marg_child
         else:
+            # The remaining features stay in their groups. Groups without features are kept (their
+            # log-likelihood is zero) because they differ between repetitions.
+            survivors = [
+                bool(set(scope.query) - mutual_rvs) for scope in self.inputs[0].feature_to_scope[:, 0]
+            ]
             return Factorize(
-                inputs=[marg_child], depth=self.depth, num_repetitions=self.out_shape.repetitions
+                inputs=[marg_child],
+                depth=self.depth,
+                num_repetitions=self.out_shape.repetitions,
+                indices=self.indices[torch.tensor(survivors, device=self.indices.device)],
             )
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 23f6197..9f696cf 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -289,6 +289,8 @@ class RepetitionMixingLayer(Sum):
         marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
         if marg_input is None:
             return None
+        if marg_input.out_shape.features == self.inputs.out_shape.features:
+            return RepetitionMixingLayer(inputs=marg_input, weights=self.weights)
 
         mask = torch.tensor(
             [bool(set(scope.query) - set(marg_rvs)) for scope in self.inputs.feature_to_scope[:, 0]],
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 189a432..dcf6ee1 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -478,8 +478,10 @@ class Sum(Module):
             # marginalize input modules
             marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
 
-            # if marginalized input is not None
-            if marg_input:
+            # if the marginalized input did not keep features without variables, drop their weights
+            if marg_input and not any(
+                scope is not None and scope.empty() for scope in marg_input.feature_to_scope.flatten()
+            ):
                 # Apply mask to weights per-repetition
                 masked_weights_list = []
                 for r in range(self.out_shape.repetitions):
-- 
2.43.0


From 39701e1ec474786f6943fcc95da3ab6a68a0a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 42/81] fix: ProdConv sampling ignores the offset of padded
 inputs

---
 spflow/modules/conv/prod_conv.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 6c4e282..c8406d7 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -289,8 +289,13 @@ class ProdConv(Module):
                         f"Got upsampled width {upsampled_features}, expected padded width "
                         f"{expected_padded_features}, input width {in_features}."
                     )
-                channel_idx = sampling_ctx.channel_index[:, :in_features].contiguous()
-                mask = sampling_ctx.mask[:, :in_features].contiguous()
+                # The padding surrounds the input on all sides.
+                rows = torch.arange(self._input_h) + self.padding_h
+                cols = torch.arange(self._input_w) + self.padding_w
+                inner = (rows[:, None] * (self._input_w + 2 * self.padding_w) + cols[None, :]).flatten()
+                inner = inner.to(sampling_ctx.channel_index.device)
+                channel_idx = sampling_ctx.channel_index[:, inner].contiguous()
+                mask = sampling_ctx.mask[:, inner].contiguous()
                 sampling_ctx.update(
                     channel_index=channel_idx,
                     mask=mask,
-- 
2.43.0


From 625acc8e15dfea0a265dad78f77f4b317df1b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 43/81] fix: scopes built from tensors miss duplicates and
 overlaps

---
 spflow/meta/data/scope.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index 71cfe0e..e7a5769 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -50,16 +50,24 @@ class Scope:
         if evidence is None:
             evidence = []
 
+        if hasattr(query, "tolist"):
+            # Numpy arrays and torch tensors
+            query = query.tolist()
+
         if isinstance(query, int):
             query = [query]
         elif not isinstance(query, (list, tuple)):
-            # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
+            # Handle other iterables like ranges, etc.
             query = list(query)
 
+        if hasattr(evidence, "tolist"):
+            # Numpy arrays and torch tensors
+            evidence = evidence.tolist()
+
         if isinstance(evidence, int):
             evidence = [evidence]
         elif not isinstance(evidence, (list, tuple)):
-            # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
+            # Handle other iterables like ranges, etc.
             evidence = list(evidence)
 
         if len(query) == 0 and len(evidence) != 0:
-- 
2.43.0


From bd1ee38cab97abf74e8ba30c33c4f2173961405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 44/81] fix: equal scopes may have different hashes

---
 spflow/meta/data/scope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index e7a5769..70aacfb 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -126,6 +126,10 @@ class Scope:
         """
         return self.equal_query(other) and self.equal_evidence(other)
 
+    def __hash__(self) -> int:
+        """Hash consistent with equality, i.e., independent of the order of the RVs."""
+        return hash((frozenset(self.query), frozenset(self.evidence)))
+
     def __len__(self) -> int:
         """Returns the number of query variables in the scope.
 
-- 
2.43.0


From 9b469173dcac09d33883acd5d2f56415be722cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 45/81] fix: statistics and tree view omit the circuit of Einet
 and NaiveBayes models

---
 spflow/utils/module_display.py  | 9 ++++-----
 spflow/utils/structure_stats.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/spflow/utils/module_display.py b/spflow/utils/module_display.py
index e2db66f..6aed96c 100644
--- a/spflow/utils/module_display.py
+++ b/spflow/utils/module_display.py
@@ -231,11 +231,10 @@ def _get_module_children(module: Module) -> list[tuple[str, Module]]:
             else:
                 children.append(("inputs", inputs))
 
-    # Check for root_node attribute (RAT-SPN modules)
-    if module.__class__.__name__ == "RatSPN":
-        root_node = module.root_node
-        if root_node is not None and isinstance(root_node, Module):
-            children.append(("root_node", root_node))
+    # Check for root_node attribute (composite models, e.g. RAT-SPN modules)
+    root_node = getattr(module, "root_node", None)
+    if isinstance(root_node, Module):
+        children.append(("root_node", root_node))
 
     return children
 
diff --git a/spflow/utils/structure_stats.py b/spflow/utils/structure_stats.py
index d8ae6a2..329b0b3 100644
--- a/spflow/utils/structure_stats.py
+++ b/spflow/utils/structure_stats.py
@@ -88,7 +88,7 @@ def _iter_structure_children(module: Module) -> list[Module]:
     - Skips ``Cat`` wrappers by yielding their inputs directly.
     - Expands ``nn.ModuleList`` inputs into individual child modules.
     - Includes wrapped modules via the ``Wrapper.module`` attribute.
-    - Includes ``RatSPN.root_node`` as a child.
+    - Includes ``root_node`` of composite models (e.g. ``RatSPN``, ``Einet``) as a child.
 
     Args:
         module: Module whose children should be returned.
@@ -129,10 +129,9 @@ def _iter_structure_children(module: Module) -> list[Module]:
             else:
                 children.append(inputs)
 
-    if module.__class__.__name__ == "RatSPN":
-        root_node = getattr(module, "root_node", None)
-        if isinstance(root_node, Module):
-            children.append(root_node)
+    root_node = getattr(module, "root_node", None)
+    if isinstance(root_node, Module):
+        children.append(root_node)
 
     return children
 
-- 
2.43.0


From b7c6587cba29f44e3928ddc1440a3d1a2591f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 46/81] fix: tree view and graph omit wrapped modules

---
 spflow/utils/module_display.py |  5 +++++
 spflow/utils/visualization.py  | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/spflow/utils/module_display.py b/spflow/utils/module_display.py
index 6aed96c..5109cec 100644
--- a/spflow/utils/module_display.py
+++ b/spflow/utils/module_display.py
@@ -189,6 +189,11 @@ def _get_module_children(module: Module) -> list[tuple[str, Module]]:
     """
     children = []
 
+    # Check for wrapped module (wrappers, e.g. ImageWrapper)
+    wrapped = getattr(module, "module", None)
+    if isinstance(wrapped, Module):
+        children.append(("module", wrapped))
+
     # Check for input attribute (unified for all modules now)
     if hasattr(module, "inputs") and module.inputs is not None:
         inputs = module.inputs
diff --git a/spflow/utils/visualization.py b/spflow/utils/visualization.py
index decc7e8..a4323dd 100644
--- a/spflow/utils/visualization.py
+++ b/spflow/utils/visualization.py
@@ -329,6 +329,23 @@ def _build_graph(
     )
     graph.add_node(node)
 
+    # Traverse the wrapped module of wrappers (e.g. ImageWrapper)
+    wrapped = getattr(module, "module", None)
+    if isinstance(wrapped, Module):
+        child_id = _build_graph(
+            wrapped,
+            graph,
+            show_scope,
+            show_shape,
+            show_params,
+            visited,
+            parent_id=node_id,
+            skip_ops=skip_ops,
+        )
+        if child_id is not None:
+            edge = pydot.Edge(str(child_id), str(node_id))
+            graph.add_edge(edge)
+
     # Traverse inputs if they exist
     # Check for input attribute (unified)
     if hasattr(module, "inputs") and module.inputs is not None:
-- 
2.43.0


From 117d424931d70d169ec10df82c8a35f0bb070e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 47/81] fix: exact entropy of models with scopes other than
 0..D-1

---
 spflow/measures/information_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/information_theory.py b/spflow/measures/information_theory.py
index 140e409..0016a9f 100644
--- a/spflow/measures/information_theory.py
+++ b/spflow/measures/information_theory.py
@@ -58,7 +58,7 @@ def entropy(
         if grid.dim() == 1:
             grid = grid.unsqueeze(1)
 
-        d = len(model.scope.query)
+        d = max(max(model.scope.query), max(rvs)) + 1
         data = torch.full((grid.shape[0], d), torch.nan, device=model.device, dtype=torch.get_default_dtype())
         for j, rv in enumerate(rvs):
             data[:, rv] = grid[:, j]
-- 
2.43.0


From b10c2f2641034060a592738926df5e1e833a5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 48/81] fix: leave-one-out weight of evidence scores missing
 features

---
 spflow/measures/weight_of_evidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/weight_of_evidence.py b/spflow/measures/weight_of_evidence.py
index 98c5b48..dbe4b33 100644
--- a/spflow/measures/weight_of_evidence.py
+++ b/spflow/measures/weight_of_evidence.py
@@ -203,7 +203,7 @@ def weight_of_evidence_leave_one_out(
             repetition_agg=repetition_agg,
         )
 
-        out[:, j] = w
+        out[:, j] = torch.where(score_mask[:, j], w, torch.nan)
 
     return out
 
-- 
2.43.0


From 98a926e71e91a8e1f4c28ff972d9de1c535af289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:26 +0000
Subject: [PATCH 49/81] fix: exact measures reject Einet, RAT-SPN and naive
 Bayes models

---
 spflow/measures/_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spflow/measures/_utils.py b/spflow/measures/_utils.py
index e61f1ba..cf5d810 100644
--- a/spflow/measures/_utils.py
+++ b/spflow/measures/_utils.py
@@ -76,6 +76,13 @@ def iter_modules(module: Module) -> Iterator[Module]:
     """Yield all modules in a probabilistic circuit (pre-order)."""
     yield module
 
+    # Nested circuit of composite models (e.g. Einet) and wrapped module of wrappers (e.g. ImageWrapper)
+    for name in ("root_node", "module"):
+        nested = getattr(module, name, None)
+        if isinstance(nested, Module):
+            yield from iter_modules(nested)
+            return
+
     inputs = None
     if hasattr(module, "inputs"):
         try:
-- 
2.43.0


From 2c5801aa2806dab2395e9213a3e62f0afdf6b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 50/81] fix: Monte Carlo measures sample only the first channel
 of multi-channel models

---
 spflow/measures/_utils.py             | 31 +++++++++++++++++++++++++++
 spflow/measures/information_theory.py | 13 ++++++++---
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/spflow/measures/_utils.py b/spflow/measures/_utils.py
index cf5d810..e3503bb 100644
--- a/spflow/measures/_utils.py
+++ b/spflow/measures/_utils.py
@@ -13,6 +13,8 @@ from spflow.modules.leaves.bernoulli import Bernoulli
 from spflow.modules.leaves.categorical import Categorical
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.modules.module import Module
+from spflow.utils.cache import Cache
+from spflow.utils.sampling_context import SamplingContext
 
 
 def as_scope(scope: Scope | int | Iterable[int] | None) -> Scope:
@@ -194,3 +196,32 @@ def fork_rng(seed: int | None, device: torch.device) -> torch.random.fork_rng:
     ctx = torch.random.fork_rng(devices=devices, enabled=True)
     # Caller enters/exits context; we seed after entering.
     return ctx
+
+
+def sample_reduced(
+    model: Module,
+    num_samples: int,
+    *,
+    channel_agg: str,
+    repetition_agg: str,
+) -> Tensor:
+    """Sample from the distribution that :func:`reduce_log_likelihood` evaluates.
+
+    Several channels (repetitions) are aggregated as a uniform mixture unless the aggregation
+    is "first", so each sample is drawn from a random channel (repetition) of the model.
+    """
+    channels = 1 if channel_agg == "first" else model.out_shape.channels
+    repetitions = 1 if repetition_agg == "first" else model.out_shape.repetitions
+    if channels == 1 and repetitions == 1:
+        return model.sample(num_samples=num_samples)
+
+    device = model.device
+    features = model.out_shape.features
+    channel_index = torch.randint(channels, (num_samples, 1), device=device).expand(-1, features).contiguous()
+    sampling_ctx = SamplingContext(
+        channel_index=channel_index,
+        mask=torch.ones_like(channel_index, dtype=torch.bool),
+        repetition_index=torch.randint(repetitions, (num_samples,), device=device),
+    )
+    data = model._prepare_sample_data(num_samples=num_samples, data=None)
+    return model._sample(data=data, sampling_ctx=sampling_ctx, cache=Cache())
diff --git a/spflow/measures/information_theory.py b/spflow/measures/information_theory.py
index 0016a9f..dd08534 100644
--- a/spflow/measures/information_theory.py
+++ b/spflow/measures/information_theory.py
@@ -11,6 +11,7 @@ from spflow.measures._utils import (
     fork_rng,
     infer_discrete_domains,
     reduce_log_likelihood,
+    sample_reduced,
 )
 from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
@@ -80,7 +81,9 @@ def entropy(
     with fork_rng(seed, model.device) as _:
         if seed is not None:
             torch.manual_seed(seed)
-        samples = model.sample(num_samples=num_samples)
+        samples = sample_reduced(
+            model, num_samples, channel_agg=channel_agg, repetition_agg=repetition_agg
+        )
 
     d = samples.shape[1]
     evidence = torch.full((num_samples, d), torch.nan, device=samples.device, dtype=samples.dtype)
@@ -143,7 +146,9 @@ def mutual_information(
     with fork_rng(seed, model.device) as _:
         if seed is not None:
             torch.manual_seed(seed)
-        samples = model.sample(num_samples=num_samples)
+        samples = sample_reduced(
+            model, num_samples, channel_agg=channel_agg, repetition_agg=repetition_agg
+        )
 
     d = samples.shape[1]
     x_rvs = list(x_scope.query)
@@ -228,7 +233,9 @@ def conditional_mutual_information(
     with fork_rng(seed, model.device) as _:
         if seed is not None:
             torch.manual_seed(seed)
-        samples = model.sample(num_samples=num_samples)
+        samples = sample_reduced(
+            model, num_samples, channel_agg=channel_agg, repetition_agg=repetition_agg
+        )
 
     d = samples.shape[1]
     x_rvs = list(x_scope.query)
-- 
2.43.0


From d9518a19a119b719ffd941412c63775017e76209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 51/81] fix: inner products of Poisson leaves with large rates
 are NaN

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 3550579..8245532 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -198,8 +198,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         l1 = rearrange(a.rate.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(0.0)
         l2 = rearrange(b.rate.to(dtype=torch.float64), "f co r -> f 1 co r").clamp_min(0.0)
         z = 2.0 * torch.sqrt((l1 * l2).clamp_min(0.0))
-        i0 = getattr(torch, "i0", torch.special.i0)
-        return torch.exp(-(l1 + l2)) * i0(z)
+        # Scaled Bessel function: i0(z) overflows for large rates.
+        return torch.exp(z - (l1 + l2)) * torch.special.i0e(z)
 
     if isinstance(a, Gamma) and isinstance(b, Gamma):
         a1 = rearrange(a.concentration.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(1e-30)
-- 
2.43.0


From f9baa53ef7a89ae61c23e8371ee8d20d4d39de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 52/81] fix: gradients of inner products of Laplace leaves with
 equal scales are NaN

---
 spflow/utils/inner_product_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 8245532..778d09d 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -177,7 +177,9 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         exp2 = torch.exp(-d / b2)
         term_tails = (exp1 + exp2) / (4.0 * (b1 + b2))
         same = torch.isclose(b1, b2)
-        term_mid = (exp1 - exp2) / (4.0 * (b1 - b2))
+        # Avoid 0/0 in the unused branch: it would turn gradients into NaN.
+        diff = torch.where(same, torch.ones_like(d), b1 - b2)
+        term_mid = (exp1 - exp2) / (4.0 * diff)
         term_mid_same = torch.exp(-d / b1) * d / (4.0 * b1.pow(2))
         return torch.where(same, term_tails + term_mid_same, term_tails + term_mid)
 
-- 
2.43.0


From 2a943520b611cc3d00a2997d8e611527a3c3ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 53/81] fix: signed sums underflow next to zero-weight terms of
 large magnitude

---
 spflow/utils/signed_semiring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/utils/signed_semiring.py b/spflow/utils/signed_semiring.py
index 106a05a..510ba0b 100644
--- a/spflow/utils/signed_semiring.py
+++ b/spflow/utils/signed_semiring.py
@@ -52,6 +52,9 @@ def signed_logsumexp(
     if logabs_terms.numel() == 0:
         raise ValueError("signed_logsumexp requires at least one term.")
 
+    # Terms with sign 0 contribute nothing and must not determine the scale.
+    logabs_terms = torch.where(sign_terms == 0, float("-inf"), logabs_terms)
+
     # m = max(a_i) for stability (treat -inf properly)
     m = torch.max(logabs_terms, dim=dim, keepdim=True).values
 
-- 
2.43.0


From b2f541801001347e514f173672e59c2da699e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 54/81] fix: normalizers of squared circuits below 1e-30 are
 clamped

---
 spflow/modules/sos/socs.py         | 2 +-
 spflow/utils/inner_product_core.py | 2 +-
 spflow/zoo/sos/exp_socs.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sos/socs.py b/spflow/modules/sos/socs.py
index 9c1064a..f701f91 100644
--- a/spflow/modules/sos/socs.py
+++ b/spflow/modules/sos/socs.py
@@ -136,7 +136,7 @@ class SOCS(Module):
             z_parts.append(diag.permute(0, 2, 1))  # (F, C, R)
 
         Z = reduce(torch.stack(z_parts, dim=0), "n f c r -> f c r", "sum")
-        logZ = torch.log(torch.clamp(Z, min=1e-30))
+        logZ = torch.log(torch.clamp(Z, min=torch.finfo(Z.dtype).tiny))
         cache.set("socs_logZ", self, logZ)
         cache.extras["socs_logZ"] = logZ
         return logZ
diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 778d09d..78d8c06 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -607,7 +607,7 @@ def log_self_inner_product_scalar(
         module, module, cache=cache, signed_sum_types=signed_sum_types, memo_key=memo_key
     )
     z = torch.clamp(k[0, 0, 0, 0], min=0.0)
-    return torch.log(z.clamp_min(1e-30))
+    return torch.log(z.clamp_min(torch.finfo(z.dtype).tiny))
 
 
 def _get_triple_memo(cache: Cache, *, memo_key: str) -> dict[tuple[int, int, int], Tensor]:
diff --git a/spflow/zoo/sos/exp_socs.py b/spflow/zoo/sos/exp_socs.py
index acea7f9..0c27706 100644
--- a/spflow/zoo/sos/exp_socs.py
+++ b/spflow/zoo/sos/exp_socs.py
@@ -77,7 +77,7 @@ class ExpSOCS(Module):
             )
         Z = reduce(torch.stack(z_parts), "... ->", "sum")
         Z = torch.clamp(Z, min=0.0)
-        logZ = torch.log(Z.clamp_min(1e-30))
+        logZ = torch.log(Z.clamp_min(torch.finfo(Z.dtype).tiny))
 
         cache.set("exp_socs_logZ", self, logZ)
         cache.extras["exp_socs_logZ"] = logZ
-- 
2.43.0


From 119026dcd8ea333e59143294c157898999cf4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 55/81] fix: SOS models with unbalanced region trees require
 equally many input and sum units

---
 spflow/zoo/sos/models.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/spflow/zoo/sos/models.py b/spflow/zoo/sos/models.py
index 82b8cfc..80f5ba7 100644
--- a/spflow/zoo/sos/models.py
+++ b/spflow/zoo/sos/models.py
@@ -38,6 +38,8 @@ class _CircuitConfig:
     num_variables: int
     non_monotonic: bool
     non_monotonic_inputs: bool
+    # Mix leaves that are siblings of inner regions to num_sum_units channels.
+    align_leaf_units: bool = False
 
 
 def _default_generator(seed: int) -> torch.Generator:
@@ -181,15 +183,23 @@ def _make_signed_sum(
     )
 
 
+def _make_sum(inputs: Module, cfg: _CircuitConfig, *, generator: torch.Generator) -> Module:
+    if cfg.non_monotonic:
+        return _make_signed_sum(inputs, out_channels=cfg.num_sum_units, cfg=cfg, generator=generator)
+    return Sum(inputs=inputs, out_channels=cfg.num_sum_units, num_repetitions=inputs.out_shape.repetitions)
+
+
 def _instantiate_tree(node: _TreeNode, cfg: _CircuitConfig, *, generator: torch.Generator) -> Module:
     if not node.children:
         return _make_leaf(node.scope, cfg, generator=generator)
 
     children = [_instantiate_tree(ch, cfg, generator=generator) for ch in node.children]
-    prod = Product(children)
-    if cfg.non_monotonic:
-        return _make_signed_sum(prod, out_channels=cfg.num_sum_units, cfg=cfg, generator=generator)
-    return Sum(inputs=prod, out_channels=cfg.num_sum_units, num_repetitions=prod.out_shape.repetitions)
+    if cfg.align_leaf_units and any(sub.children for sub in node.children):
+        children = [
+            ch if sub.children else _make_sum(ch, cfg, generator=generator)
+            for sub, ch in zip(node.children, children)
+        ]
+    return _make_sum(Product(children), cfg, generator=generator)
 
 
 def _finalize_scalar(
@@ -424,6 +434,7 @@ class SOSModel(Module):
             num_variables=num_variables,
             non_monotonic=True,
             non_monotonic_inputs=bool(non_monotonic_inputs),
+            align_leaf_units=num_input_units != num_sum_units,
         )
 
         comps: list[Module] = []
@@ -558,6 +569,8 @@ class ExpSOSModel(Module):
 
         num_states = _resolve_num_states(input_layer, input_layer_kwargs)
 
+        # All circuits need the same structure, so that triple products are defined.
+        align = num_input_units != num_sum_units or mono_num_input_units != mono_num_sum_units
         comp_cfg = _CircuitConfig(
             num_input_units=num_input_units,
             num_sum_units=num_sum_units,
@@ -566,6 +579,7 @@ class ExpSOSModel(Module):
             num_variables=num_variables,
             non_monotonic=True,
             non_monotonic_inputs=bool(non_monotonic_inputs),
+            align_leaf_units=align,
         )
 
         mono_cfg = _CircuitConfig(
@@ -576,6 +590,7 @@ class ExpSOSModel(Module):
             num_variables=num_variables,
             non_monotonic=False,
             non_monotonic_inputs=False,
+            align_leaf_units=align,
         )
 
         # ExpSOS uses one region graph for both monotone and non-monotone circuits.
-- 
2.43.0


From 57513b52465abe94c7141f1592eb7afc821be099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 56/81] fix: proposals of signed components with several
 channels cannot be built

---
 spflow/learn/build_socs.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/spflow/learn/build_socs.py b/spflow/learn/build_socs.py
index 25d6708..5d0cae9 100644
--- a/spflow/learn/build_socs.py
+++ b/spflow/learn/build_socs.py
@@ -124,12 +124,7 @@ def build_abs_weight_proposal(component: Module, *, eps: float = 1e-8) -> Module
         w = node.weights.detach()
         w = torch.abs(w) + w.new_tensor(float(eps))
         w = w / w.sum(dim=1, keepdim=True).clamp_min(1e-12)
-        return Sum(
-            inputs=node.inputs,
-            out_channels=node.out_shape.channels,
-            num_repetitions=node.out_shape.repetitions,
-            weights=w,
-        )
+        return Sum(inputs=node.inputs, weights=w)
 
     def _is_signed_categorical(node: torch.nn.Module) -> bool:
         return (
-- 
2.43.0


From 62e8b28926b01ea4ccae84e7dd472115f804e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 57/81] fix: products of single-bin histogram leaves have the
 wrong shape

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 78d8c06..5673c88 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -337,8 +337,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         in2 = (mids >= edges2[0]) & (mids < edges2[-1])
         mask = (in1 & in2).to(dtype=torch.float64)
 
-        d1 = dens1.index_select(-1, idx1).squeeze(-1)  # (F,Ca,1,R,S)
-        d2 = dens2.index_select(-1, idx2).squeeze(-1)  # (F,1,Cb,R,S)
+        d1 = dens1.index_select(-1, idx1)  # (F,Ca,1,R,S)
+        d2 = dens2.index_select(-1, idx2)  # (F,1,Cb,R,S)
         prod = d1 * d2  # (F,Ca,Cb,R,S)
         out = torch.sum(prod * rearrange(seg_len * mask, "s -> 1 1 1 1 s"), dim=-1)
         return out
-- 
2.43.0


From fa875ba6a0282acaf43c37002edb0962d734e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 58/81] fix: image wrapper of circuits whose variables are
 unsorted or not 0..n-1 mixes up pixels

---
 spflow/modules/wrapper/image_wrapper.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index 76993c7..30bf838 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -73,6 +73,8 @@ class ImageWrapper(Wrapper):
         self.num_channel = num_channel
         self.height = height
         self.width = width
+        # Variable of each pixel, in flattening order.
+        self._pixel_variables = sorted(module.scope.query)
         if len(module.scope.query) != height * width * num_channel:
             raise StructureError(
                 f"Module out_features {module.out_shape.features} does not match the expected size "
@@ -101,6 +103,15 @@ class ImageWrapper(Wrapper):
 
         return rearrange(tensor, "b c h w -> b (c h w)")
 
+    def _to_module_data(self, flat: Tensor) -> Tensor:
+        """Move flattened pixels to the data columns of the wrapped module's variables."""
+        variables = self._pixel_variables
+        if variables == list(range(len(variables))):
+            return flat
+        data = flat.new_full((flat.shape[0], variables[-1] + 1), float("nan"))
+        data[:, variables] = flat
+        return data
+
     def to_image_format(self, tensor: torch.Tensor, batch: bool = True):
         """Convert 2D tensor to 4D image format.
 
@@ -168,7 +179,7 @@ class ImageWrapper(Wrapper):
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
 
-        data = self.flatten(data)
+        data = self._to_module_data(self.flatten(data))
         self.module._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
 
     @cached
@@ -200,7 +211,7 @@ class ImageWrapper(Wrapper):
             raise ShapeError(
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
-        data = self.flatten(data)
+        data = self._to_module_data(self.flatten(data))
 
         log_prob = self.module.log_likelihood(data, cache=cache)
 
@@ -278,7 +289,7 @@ class ImageWrapper(Wrapper):
         )
 
         # Flatten data to 2D for processing
-        flat_data = self.flatten(data)
+        flat_data = self._to_module_data(self.flatten(data))
         if self._has_partial_evidence(flat_data):
             # Conditional sampling needs forward log-likelihoods in the cache.
             self.module.log_likelihood(flat_data, cache=cache)
@@ -288,7 +299,7 @@ class ImageWrapper(Wrapper):
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        image = self.to_image_format(flat_data)
+        image = self.to_image_format(flat_data[:, self._pixel_variables])
         if return_leaf_params:
             return image, sampling_ctx.leaf_param_records()
         return image
@@ -299,13 +310,13 @@ class ImageWrapper(Wrapper):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> Tensor:
-        flat_data = self.flatten(data)
+        flat_data = self._to_module_data(self.flatten(data))
         self.module._sample(
             data=flat_data,
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        return self.to_image_format(flat_data)
+        return self.to_image_format(flat_data[:, self._pixel_variables])
 
     def marginalize(
         self,
@@ -326,7 +337,7 @@ class ImageWrapper(Wrapper):
         """
 
         marg_rvs = []
-        scope = torch.as_tensor(self.scope.query, dtype=torch.long)
+        scope = torch.as_tensor(self._pixel_variables, dtype=torch.long)
 
         scope = self.to_image_format(scope, batch=False)
 
-- 
2.43.0


From ee4e180caa88a15844853e6005d4703dc5b7d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 59/81] fix: NaiveBayes.sample(data=...) ignores the evidence
 when drawing the class

---
 spflow/zoo/naive_bayes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/zoo/naive_bayes.py b/spflow/zoo/naive_bayes.py
index 7f9bba6..96151b0 100644
--- a/spflow/zoo/naive_bayes.py
+++ b/spflow/zoo/naive_bayes.py
@@ -223,6 +223,9 @@ class NaiveBayes(Module, Classifier):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> Tensor:
+        # Conditional sampling needs forward log-likelihoods in the cache.
+        if self._has_partial_evidence(data):
+            self.log_likelihood(data, cache=cache)
         return self.root_node._sample(data=data, sampling_ctx=sampling_ctx, cache=cache)
 
     def _expectation_maximization_step(
-- 
2.43.0


From 91ec14d2ef2e78e2f7cb68be72e775402466b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 60/81] fix: unseeded calls of the estimator's sample() always
 return the same samples

---
 spflow/interfaces/sklearn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/interfaces/sklearn.py b/spflow/interfaces/sklearn.py
index 7a06a3d..5fd2100 100644
--- a/spflow/interfaces/sklearn.py
+++ b/spflow/interfaces/sklearn.py
@@ -7,6 +7,7 @@ estimators will.
 
 from __future__ import annotations
 
+from contextlib import ExitStack
 from dataclasses import dataclass
 import math
 from typing import Any, Literal
@@ -291,8 +292,10 @@ class SPFlowDensityEstimator(BaseEstimator, DensityMixin):
         if device.type == "cuda":
             cuda_devices = [device.index or 0]
 
-        with torch.random.fork_rng(devices=cuda_devices):
+        with ExitStack() as stack:
             if seed is not None:
+                # Only seeded calls leave the global RNG untouched; unseeded ones must advance it.
+                stack.enter_context(torch.random.fork_rng(devices=cuda_devices))
                 torch.manual_seed(seed)
             with torch.no_grad():
                 samples = self.model_.sample(num_samples=n_samples)
-- 
2.43.0


From bb33e0dd734f163d8ed601ce492c0d9e20a671ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:25 +0000
Subject: [PATCH 61/81] fix: RDC of multivariate inputs raises

---
 spflow/utils/rdc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spflow/utils/rdc.py b/spflow/utils/rdc.py
index 0fdebc4..f592d17 100644
--- a/spflow/utils/rdc.py
+++ b/spflow/utils/rdc.py
@@ -47,14 +47,14 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
 
     # Add a vector of ones so that w.x + b is just a dot product
     O = torch.ones(cx.shape[0], 1, device=cx.device, dtype=cx.dtype)
-    X = torch.stack([cx, O], dim=1)
-    Y = torch.stack([cy, O], dim=1)
+    X = torch.cat([cx, O], dim=1)
+    Y = torch.cat([cy, O], dim=1)
 
     # Random linear projections
     Rx = (s / X.shape[1]) * torch.randn(X.shape[1], k, device=X.device, dtype=X.dtype)
     Ry = (s / Y.shape[1]) * torch.randn(Y.shape[1], k, device=Y.device, dtype=Y.dtype)
-    X = torch.mm(X.squeeze(-1), Rx)
-    Y = torch.mm(Y.squeeze(-1), Ry)
+    X = torch.mm(X, Rx)
+    Y = torch.mm(Y, Ry)
 
     # Apply non-linear function to random projections
     fX = f(X)
-- 
2.43.0


From 26b3517436b7ebf3f4f777683c8c146c69a34ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:30 +0000
Subject: [PATCH 62/81] fix: rdc_np raises for n > 1 and for inputs with
 different numbers of columns

---
 spflow/utils/rdc.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/spflow/utils/rdc.py b/spflow/utils/rdc.py
index f592d17..75c4666 100644
--- a/spflow/utils/rdc.py
+++ b/spflow/utils/rdc.py
@@ -224,8 +224,19 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
         values = []
         for i in range(n):
             try:
-                values.append(rdc(x, y, f, k, s, 1))
-            except np.linalg.LinAlgError:
+                values.append(
+                    float(
+                        rdc(
+                            torch.as_tensor(x),
+                            torch.as_tensor(y),
+                            lambda t: torch.as_tensor(f(t.cpu().numpy())),
+                            k,
+                            s,
+                            1,
+                        )
+                    )
+                )
+            except (np.linalg.LinAlgError, torch.linalg.LinAlgError):
                 pass
         return np.median(values)
 
@@ -245,7 +256,7 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
 
     # Random linear projections
     Rx = (s / X.shape[1]) * torch.randn(X.shape[1], k).cpu().numpy()
-    Ry = (s / Y.shape[1]) * torch.randn(X.shape[1], k).cpu().numpy()
+    Ry = (s / Y.shape[1]) * torch.randn(Y.shape[1], k).cpu().numpy()
     X = np.dot(X, Rx)
     Y = np.dot(Y, Ry)
 
-- 
2.43.0


From 9d7669ed5fa6400df9d66c0f70e223d2cc16989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 63/81] fix: differentiable conditional sampling is NaN next to
 an impossible branch

---
 spflow/utils/sampling_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index bd981e4..e17487c 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1117,6 +1117,9 @@ def index_one_hot(tensor: torch.Tensor, index: torch.Tensor, dim: int) -> torch.
         tensor.dim() == index.dim()
     ), f"Tensor and index number of dimensions must be the same but was tensor.dim()={tensor.dim()} and index.dim()={index.dim()}"
 
+    # An unselected infinite entry must not turn the result into NaN (0 * inf).
+    tensor = tensor.masked_fill((index == 0) & ~torch.isfinite(tensor), 0.0)
+
     return torch.sum(tensor * index, dim=dim)
 
 
-- 
2.43.0


From fd01ba787a654991bdfb2e82185d08ab03b5583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 64/81] fix: multi-class RatSPN and Einet cannot be sampled
 differentiably

---
 spflow/zoo/einet/einet.py | 13 ++++++++-----
 spflow/zoo/rat/rat_spn.py | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 136269a..db5e3a3 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -32,7 +32,7 @@ from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
 from spflow.utils.inference import log_posterior
-from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
+from spflow.utils.sampling_context import LeafParamRecord, SamplingContext, sample_from_logits
 
 
 class Einet(Module, Classifier):
@@ -459,10 +459,13 @@ class Einet(Module, Classifier):
             if class_lls is not None:
                 logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
 
-            if sampling_ctx.is_mpe:
-                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
-            else:
-                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
+            sampling_ctx.channel_index = sample_from_logits(
+                logits=logits,
+                dim=-1,
+                is_mpe=sampling_ctx.is_mpe,
+                is_differentiable=sampling_ctx.is_differentiable,
+                tau=sampling_ctx.tau,
+            )
 
         # Sample from appropriate root
         if self.num_classes > 1:
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 126f164..c6c5dc1 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -30,7 +30,7 @@ from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
 from spflow.utils.inference import log_posterior
-from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
+from spflow.utils.sampling_context import LeafParamRecord, SamplingContext, sample_from_logits
 
 
 class RatSPN(Module, Classifier):
@@ -325,10 +325,13 @@ class RatSPN(Module, Classifier):
             if class_lls is not None:
                 logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
 
-            if sampling_ctx.is_mpe:
-                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
-            else:
-                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
+            sampling_ctx.channel_index = sample_from_logits(
+                logits=logits,
+                dim=-1,
+                is_mpe=sampling_ctx.is_mpe,
+                is_differentiable=sampling_ctx.is_differentiable,
+                tau=sampling_ctx.tau,
+            )
 
         # if the model only has one root node, we can directly sample from the mixing layer
         if self.n_root_nodes > 1:
-- 
2.43.0


From 77a3794224e8a5646db2376b5cdde561084bdc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 65/81] fix: mixtures over repetitions reject the default
 differentiable sampling context

---
 spflow/modules/sums/repetition_mixing_layer.py | 3 ++-
 spflow/zoo/einet/einet.py                      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 9f696cf..6164bd5 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -123,7 +123,8 @@ class RepetitionMixingLayer(Sum):
             num_samples=data.shape[0],
             num_features=self.out_shape.features,
             num_channels=self.out_shape.channels,
-            num_repetitions=self.out_shape.repetitions,
+            # The repetition is chosen below: the width of an incoming one-hot repetition is irrelevant.
+            num_repetitions=None if sampling_ctx.is_differentiable else self.out_shape.repetitions,
             allowed_feature_widths=(1, self.out_shape.features),
         )
         sampling_ctx.broadcast_feature_width(target_features=self.out_shape.features, allow_from_one=True)
diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index db5e3a3..5c31501 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -431,7 +431,7 @@ class Einet(Module, Classifier):
             num_samples=data.shape[0],
             num_features=self.out_shape.features,
             num_channels=self.out_shape.channels,
-            num_repetitions=self.num_repetitions,
+            num_repetitions=None if sampling_ctx.is_differentiable else self.num_repetitions,
             allowed_feature_widths=(1, self.out_shape.features),
         )
 
-- 
2.43.0


From d46b9c3eeac68bc369d311521c0e5c283e1ef659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:25 +0000
Subject: [PATCH 66/81] fix: products over a split report the scopes of other
 feature groups

---
 spflow/modules/ops/split.py                    | 8 ++++++++
 spflow/modules/ops/split_by_index.py           | 4 ++++
 spflow/modules/ops/split_interleaved.py        | 4 ++++
 spflow/modules/products/elementwise_product.py | 5 +----
 spflow/modules/products/outer_product.py       | 3 +--
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/spflow/modules/ops/split.py b/spflow/modules/ops/split.py
index 63fe222..6e2fa7f 100644
--- a/spflow/modules/ops/split.py
+++ b/spflow/modules/ops/split.py
@@ -183,6 +183,14 @@ class Split(Module, ABC):
         self.in_shape = in_shape
         self.out_shape = ModuleShape(in_shape.features, in_shape.channels, in_shape.repetitions)
 
+    def scopes_per_split(self) -> list[np.ndarray]:
+        """Get the feature-to-scope mapping of the input, divided like the features.
+
+        Returns:
+            List with one array of shape (features_of_split, num_repetitions) per split.
+        """
+        return np.array_split(self.inputs.feature_to_scope, self.num_splits)
+
     def get_out_shapes(self, event_shape):
         """Get output shapes for each split based on input event shape.
 
diff --git a/spflow/modules/ops/split_by_index.py b/spflow/modules/ops/split_by_index.py
index 6b9dd82..b343cdc 100644
--- a/spflow/modules/ops/split_by_index.py
+++ b/spflow/modules/ops/split_by_index.py
@@ -122,6 +122,10 @@ class SplitByIndex(Split):
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, dim={self.dim}, indices={self._indices}"
 
+    def scopes_per_split(self) -> list[np.ndarray]:
+        scopes = self.inputs.feature_to_scope
+        return [scopes[indices] for indices in self._indices]
+
     @property
     def feature_to_scope(self) -> np.ndarray:
         """Get feature-to-scope mapping for each split.
diff --git a/spflow/modules/ops/split_interleaved.py b/spflow/modules/ops/split_interleaved.py
index f9bdd97..5e41569 100644
--- a/spflow/modules/ops/split_interleaved.py
+++ b/spflow/modules/ops/split_interleaved.py
@@ -53,6 +53,10 @@ class SplitInterleaved(Split):
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, dim={self.dim}"
 
+    def scopes_per_split(self) -> list[np.ndarray]:
+        scopes = self.inputs.feature_to_scope
+        return [scopes[i :: self.num_splits] for i in range(self.num_splits)]
+
     @property
     def feature_to_scope(self) -> np.ndarray:
         """Get feature-to-scope mapping for each split.
diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 5dea458..3617404 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -141,10 +141,7 @@ class ElementwiseProduct(BaseProduct):
         out = []
         for r in range(self.out_shape.repetitions):
             if self.input_is_split:
-                scope_lists_r = self.inputs[0].feature_to_scope[
-                    ..., r
-                ]  # Shape: (num_features_per_split, num_splits)
-                scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
+                scope_lists_r = [scopes[:, r] for scopes in self.inputs[0].scopes_per_split()]
             else:
                 scope_lists_r = [
                     module.feature_to_scope[..., r] for module in self.inputs
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 44caff9..ba6ac08 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -137,8 +137,7 @@ class OuterProduct(BaseProduct):
         for r in range(self.out_shape.repetitions):
             if self.input_is_split:
                 split = self.inputs if isinstance(self.inputs, Split) else self.inputs[0]
-                scope_lists_r = split.feature_to_scope[..., r]  # Shape: (num_features_per_split, num_splits)
-                outer_product_r = list(scope_lists_r)
+                outer_product_r = list(zip(*[scopes[:, r] for scopes in split.scopes_per_split()]))
             else:
                 scope_lists_r = [
                     module.feature_to_scope[..., r] for module in self.inputs
-- 
2.43.0


From 4c01c07654208942081fea73f79985bddc4301a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 67/81] fix: log weights of NaN or infinity are accepted and
 give NaN likelihoods

---
 spflow/modules/einsum/einsum_layer.py  | 2 ++
 spflow/modules/einsum/linsum_layer.py  | 2 ++
 spflow/modules/sums/elementwise_sum.py | 2 ++
 spflow/modules/sums/sum.py             | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index c7960cb..942408c 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -307,6 +307,8 @@ class EinsumLayer(Module):
         """Set log weights directly."""
         if values.shape != self.weights_shape:
             raise ShapeError(f"Log weight shape mismatch: expected {self.weights_shape}, got {values.shape}")
+        if torch.isnan(values).any() or torch.isposinf(values).any():
+            raise ValueError("Log weights must not be NaN or positive infinity.")
         self.logits.data = values
         self._clear_eval_weight_cache()
 
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 2e2e5c7..89cf46e 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -231,6 +231,8 @@ class LinsumLayer(Module):
         """Set log weights directly."""
         if values.shape != self.weights_shape:
             raise ShapeError(f"Log weight shape mismatch: expected {self.weights_shape}, got {values.shape}")
+        if torch.isnan(values).any() or torch.isposinf(values).any():
+            raise ValueError("Log weights must not be NaN or positive infinity.")
         self.logits.data = values
 
     def extra_repr(self) -> str:
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index eee4744..ce3cebc 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -227,6 +227,8 @@ class ElementwiseSum(Module):
         """
         if values.shape != self.log_weights.shape:
             raise ValueError(f"Invalid shape for weights: {values.shape}.")
+        if torch.isnan(values).any() or torch.isposinf(values).any():
+            raise ValueError("Log weights must not be NaN or positive infinity.")
         self.logits.data = values
 
     def extra_repr(self) -> str:
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index dcf6ee1..3db06a9 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -240,6 +240,8 @@ class Sum(Module):
         """
         if values.shape != self.log_weights.shape:
             raise ShapeError(f"Invalid shape for weights: {values.shape}.")
+        if torch.isnan(values).any() or torch.isposinf(values).any():
+            raise ValueError("Log weights must not be NaN or positive infinity.")
         self.logits.data = values
 
     def extra_repr(self) -> str:
-- 
2.43.0


From 9adae2d3ec4840abb9839c1e79fee2f7958f46e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 68/81] fix: CLTree accepts cyclic parents

---
 spflow/modules/leaves/cltree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 1065910..9bada11 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -75,6 +75,11 @@ def _compute_orders_from_parents(parents: list[int]) -> _TreeOrders:
         for ch in sorted(children[node], reverse=True):
             stack.append(ch)
 
+    # Variables that are their own parent are rejected on use (see `_has_learned_structure`).
+    num_self_parents = sum(child == parent for child, parent in enumerate(parents))
+    if len(pre) + num_self_parents != num_features:
+        raise InvalidParameterError("CLTree parents must form a tree, but they contain a cycle.")
+
     post = list(reversed(pre))
     return _TreeOrders(tuple(pre), tuple(post))
 
-- 
2.43.0


From b1d4aa1fa8743de379fb14f40ab4c715b7b130f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 69/81] fix: Histogram accepts negative bin probabilities

---
 spflow/modules/leaves/histogram.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index b3b65fc..1250819 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -249,6 +249,9 @@ class Histogram(LeafModule):
             init=lambda shape: torch.rand(shape).softmax(dim=-1),
         )
 
+        if logits is None and ((init_value < 0).any() or (init_value.sum(dim=-1) <= 0).any()):
+            raise InvalidParameterError("probs must be non-negative and must not be all zero.")
+
         logits_tensor = init_value if logits is not None else proj_convex_to_real(init_value)
         self._logits = nn.Parameter(logits_tensor)
 
-- 
2.43.0


From 25cbd012e9a821643b688e107341e364b01d6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 70/81] fix: leaves accept parameters whose shape does not
 match their channels

---
 spflow/modules/leaves/leaf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index aedef26..d40ee9f 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -468,6 +468,16 @@ class LeafModule(Module, ABC):
             dist = self.distribution()
 
         log_prob = dist.log_prob(data_q)
+        if not self.is_conditional and tuple(log_prob.shape[1:]) != tuple(self.out_shape):
+            # Parameters shared by several channels or repetitions are fine, any other shape is not.
+            if log_prob.dim() != 4 or any(
+                size not in (1, expected) for size, expected in zip(log_prob.shape[1:], self.out_shape)
+            ):
+                raise ShapeError(
+                    f"Parameters of {self.__class__.__name__} do not match its shape {tuple(self.out_shape)}: "
+                    f"their log-likelihoods have shape {tuple(log_prob.shape[1:])}."
+                )
+            log_prob = log_prob.expand(-1, *self.out_shape).clone()
 
         # Marginalize entries - broadcast mask to log_prob shape
         if has_marginalizations:
-- 
2.43.0


From 8d7a95b02ef2b64278ad8c7a6fae1813801f4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 71/81] fix: Sum over one repetition reports too few feature
 scopes

---
 spflow/modules/sums/sum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 3db06a9..93c304f 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -188,7 +188,11 @@ class Sum(Module):
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-        return self.inputs.feature_to_scope
+        scopes = self.inputs.feature_to_scope
+        if scopes.shape[1] == 1:
+            # All repetitions mix the only repetition of the input.
+            scopes = np.repeat(scopes, self.out_shape.repetitions, axis=1)
+        return scopes
 
     @property
     def log_weights(self) -> Tensor:
-- 
2.43.0


From 53b0fa5dd6242980c4ff2f4cf9edcf927a2b16a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 72/81] fix: features are silently dropped or repeated when a
 split has unequal parts

---
 spflow/modules/einsum/einsum_layer.py    | 5 +++++
 spflow/modules/einsum/linsum_layer.py    | 6 ++++++
 spflow/modules/ops/split.py              | 4 ++++
 spflow/modules/ops/split_by_index.py     | 4 ++++
 spflow/modules/products/base_product.py  | 3 +++
 spflow/modules/products/outer_product.py | 3 ++-
 6 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 942408c..ae5fa35 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -178,6 +178,11 @@ class EinsumLayer(Module):
             self._left_channels = inputs.out_shape.channels
             self._right_channels = inputs.out_shape.channels
             in_features = inputs.out_shape.features // 2
+            # Left and right features are paired one by one
+            if isinstance(self.inputs, SplitByIndex) and not (
+                self.inputs.num_splits == 2 and self.inputs.has_equal_parts()
+            ):
+                raise ValueError("The input must be split into two parts of equal size.")
             if num_repetitions is None:
                 num_repetitions = inputs.out_shape.repetitions
             self.scope = inputs.scope
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 89cf46e..e98830d 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -25,6 +25,7 @@ from spflow.modules.einsum.einsum_layer import surviving_features, surviving_pai
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
+from spflow.modules.ops.split_by_index import SplitByIndex
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import masked_logsumexp, proj_convex_to_real
@@ -137,6 +138,11 @@ class LinsumLayer(Module):
                 self.inputs = SplitConsecutive(inputs)
             in_channels = inputs.out_shape.channels
             in_features = inputs.out_shape.features // 2
+            # Left and right features are paired one by one
+            if isinstance(self.inputs, SplitByIndex) and not (
+                self.inputs.num_splits == 2 and self.inputs.has_equal_parts()
+            ):
+                raise ValueError("The input must be split into two parts of equal size.")
             if num_repetitions is None:
                 num_repetitions = inputs.out_shape.repetitions
             self.scope = inputs.scope
diff --git a/spflow/modules/ops/split.py b/spflow/modules/ops/split.py
index 6e2fa7f..3fbb85c 100644
--- a/spflow/modules/ops/split.py
+++ b/spflow/modules/ops/split.py
@@ -191,6 +191,10 @@ class Split(Module, ABC):
         """
         return np.array_split(self.inputs.feature_to_scope, self.num_splits)
 
+    def has_equal_parts(self) -> bool:
+        """Check whether all parts have the same number of features."""
+        return self.in_shape.features % self.num_splits == 0
+
     def get_out_shapes(self, event_shape):
         """Get output shapes for each split based on input event shape.
 
diff --git a/spflow/modules/ops/split_by_index.py b/spflow/modules/ops/split_by_index.py
index b343cdc..5b783c8 100644
--- a/spflow/modules/ops/split_by_index.py
+++ b/spflow/modules/ops/split_by_index.py
@@ -75,6 +75,10 @@ class SplitByIndex(Split):
             torch.tensor(idx_group, dtype=torch.long, device=inputs.device) for idx_group in self._indices
         ]
 
+    def has_equal_parts(self) -> bool:
+        """Check whether all parts have the same number of features."""
+        return len({len(idx_group) for idx_group in self._indices}) == 1
+
     def _validate_indices(self) -> None:
         """Validate that indices cover all features exactly once."""
         num_features = self.inputs.out_shape.features
diff --git a/spflow/modules/products/base_product.py b/spflow/modules/products/base_product.py
index 57baab7..3df0a60 100644
--- a/spflow/modules/products/base_product.py
+++ b/spflow/modules/products/base_product.py
@@ -55,6 +55,9 @@ class BaseProduct(Module, ABC):
         if isinstance(inputs, Split):
             self.input_is_split = True
             self.num_splits = inputs.num_splits
+            # The parts are multiplied feature by feature
+            if inputs.out_shape.features > 1 and not inputs.has_equal_parts():
+                raise ShapeError("The parts of a split must have equally many features.")
             inputs = [inputs]
         else:
             self.input_is_split = False
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index ba6ac08..87f63a8 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -58,7 +58,8 @@ class OuterProduct(BaseProduct):
             if num_splits is None or num_splits <= 1:
                 raise ValueError("num_splits must be at least 2 when input is a single module")
 
-        self.num_splits = num_splits
+        if not self.input_is_split:
+            self.num_splits = num_splits
 
         # Store unraveled channel indices from actual child channel counts.
         if self.input_is_split:
-- 
2.43.0


From f5e25a5f3b5991870344642dd0797517f6bde57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 73/81] fix: repetitions of the inputs of a layer are allowed
 to differ

---
 spflow/modules/einsum/einsum_layer.py          |  6 ++++++
 spflow/modules/einsum/linsum_layer.py          |  6 ++++++
 spflow/modules/ops/cat.py                      |  6 ++++++
 spflow/modules/products/base_product.py        |  6 +++++-
 spflow/modules/sums/elementwise_sum.py         | 10 ++++++++++
 spflow/modules/sums/repetition_mixing_layer.py |  3 +++
 spflow/modules/sums/sum.py                     |  5 +++++
 7 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index ae5fa35..b67a94a 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -190,6 +190,12 @@ class EinsumLayer(Module):
         # ========== 2. CONFIGURATION VALIDATION ==========
         if out_channels < 1:
             raise ValueError(f"out_channels must be >= 1, got {out_channels}.")
+        in_repetitions = (self.inputs[0] if self._two_inputs else self.inputs).out_shape.repetitions
+        if in_repetitions not in (1, num_repetitions):
+            raise ValueError(
+                f"num_repetitions must match the number of repetitions of the inputs: "
+                f"{num_repetitions} != {in_repetitions}"
+            )
 
         # ========== 3. SHAPE COMPUTATION ==========
         # Use max channels for in_shape (for informational purposes)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index e98830d..fdffd82 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -150,6 +150,12 @@ class LinsumLayer(Module):
         # ========== 2. CONFIGURATION VALIDATION ==========
         if out_channels < 1:
             raise ValueError(f"out_channels must be >= 1, got {out_channels}.")
+        in_repetitions = (self.inputs[0] if self._two_inputs else self.inputs).out_shape.repetitions
+        if in_repetitions not in (1, num_repetitions):
+            raise ValueError(
+                f"num_repetitions must match the number of repetitions of the inputs: "
+                f"{num_repetitions} != {in_repetitions}"
+            )
 
         # ========== 3. SHAPE COMPUTATION ==========
         self._in_channels = in_channels
diff --git a/spflow/modules/ops/cat.py b/spflow/modules/ops/cat.py
index 787a9a1..f73b920 100644
--- a/spflow/modules/ops/cat.py
+++ b/spflow/modules/ops/cat.py
@@ -28,6 +28,12 @@ class Cat(Module):
         self.inputs = nn.ModuleList(inputs)
         self.dim = dim
 
+        # Check if all inputs have the same number of repetitions
+        if not all(
+            [module.out_shape.repetitions == self.inputs[0].out_shape.repetitions for module in self.inputs]
+        ):
+            raise ValueError("All inputs must have the same number of repetitions.")
+
         if self.dim == 1:
             # Check if all inputs have the same number of channels
             if not all(
diff --git a/spflow/modules/products/base_product.py b/spflow/modules/products/base_product.py
index 3df0a60..669e5a0 100644
--- a/spflow/modules/products/base_product.py
+++ b/spflow/modules/products/base_product.py
@@ -6,7 +6,7 @@ from typing import Optional
 import torch
 from torch import Tensor, nn
 
-from spflow.exceptions import ScopeError
+from spflow.exceptions import ScopeError, ShapeError
 from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
@@ -72,6 +72,10 @@ class BaseProduct(Module, ABC):
         if not Scope.all_pairwise_disjoint([inp.scope for inp in inputs]):
             raise ScopeError("Input scopes must be disjoint.")
 
+        # Validate that all inputs have the same repetitions
+        if len({inp.out_shape.repetitions for inp in inputs}) != 1:
+            raise ShapeError("All inputs must have the same number of repetitions.")
+
         # ========== 4. INPUT MODULE SETUP ==========
         self.inputs = nn.ModuleList(inputs)
 
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index ce3cebc..33a931e 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -104,6 +104,10 @@ class ElementwiseSum(Module):
         if not all([module.out_shape.features == inputs[0].out_shape.features for module in inputs]):
             raise ShapeError("All inputs must have the same number of features.")
 
+        # Validate all inputs have the same number of repetitions
+        if not all([module.out_shape.repetitions == inputs[0].out_shape.repetitions for module in inputs]):
+            raise ShapeError("All inputs must have the same number of repetitions.")
+
         # Validate all inputs have compatible channels (same or 1 for broadcasting)
         if not all(
             [module.out_shape.channels in (1, max(m.out_shape.channels for m in inputs)) for module in inputs]
@@ -117,6 +121,12 @@ class ElementwiseSum(Module):
         if not Scope.all_equal([module.scope for module in inputs]):
             raise ScopeError("All input modules must have the same scope.")
 
+        if inputs[0].out_shape.repetitions not in (1, num_repetitions):
+            raise ShapeError(
+                f"Number of repetitions must match the inputs: "
+                f"was {num_repetitions} but the inputs have {inputs[0].out_shape.repetitions}."
+            )
+
         # Validate for each repetition that modules have the same features_to_scope mapping
         for rep in range(num_repetitions):
             feature_to_scope = inputs[0].feature_to_scope[..., rep]
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 6164bd5..6499206 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -48,6 +48,9 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
+        if self.in_shape.repetitions not in (1, self.out_shape.repetitions):
+            raise ValueError("num_repetitions must match the number of repetitions of the input module.")
+
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 93c304f..2a0f0e2 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -114,6 +114,11 @@ class Sum(Module):
 
         # ========== 5. SHAPE COMPUTATION (early, so shapes can be reused below) ==========
         self.in_shape = self.inputs.out_shape
+        if num_repetitions != 1 and self.in_shape.repetitions not in (1, num_repetitions):
+            raise ShapeError(
+                f"Number of repetitions must match the inputs of 'Sum': "
+                f"was {num_repetitions} but the inputs have {self.in_shape.repetitions}."
+            )
         self.out_shape = ModuleShape(
             features=self.in_shape.features, channels=out_channels, repetitions=num_repetitions
         )
-- 
2.43.0


From 510bd1689102231153c98a3ab2bfe9a0f20ec15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:30 +0000
Subject: [PATCH 74/81] fix: continuous mixtures of Chow-Liu trees sample each
 variable from another component

---
 spflow/zoo/cms/continuous_mixtures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spflow/zoo/cms/continuous_mixtures.py b/spflow/zoo/cms/continuous_mixtures.py
index afe2d32..6072cb7 100644
--- a/spflow/zoo/cms/continuous_mixtures.py
+++ b/spflow/zoo/cms/continuous_mixtures.py
@@ -889,14 +889,15 @@ def _compile_cltree(
             parents=parents,
             log_cpt=log_cpt_i,
         )
-        components.append(node)
+        # The tree is mixed as a whole: a sum over its features would choose a component per feature.
+        components.append(Product(inputs=node))
 
     w_sum = _make_sum_weights(
         num_components=I,
-        num_features=F,
+        num_features=1,
         device=z.device,
         dtype=z.dtype,
     )
-    w_sum = _broadcast_component_weights(weights=weights.to(device=z.device, dtype=z.dtype), num_features=F)
+    w_sum = _broadcast_component_weights(weights=weights.to(device=z.device, dtype=z.dtype), num_features=1)
     mix = Sum(inputs=components, weights=w_sum)
     return JointLogLikelihood(mix)
-- 
2.43.0


From a6cba2795d2a829f5210e0467aa60504e59e1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:56 +0000
Subject: [PATCH 75/81] fix: pic2qpc fails for shared functions (F-sharing
 groups, groups with nested integrals)

---
 spflow/zoo/pic/pipeline.py | 92 +++++++++-----------------------------
 1 file changed, 20 insertions(+), 72 deletions(-)

diff --git a/spflow/zoo/pic/pipeline.py b/spflow/zoo/pic/pipeline.py
index 4fbed5f..8b25686 100644
--- a/spflow/zoo/pic/pipeline.py
+++ b/spflow/zoo/pic/pipeline.py
@@ -481,6 +481,7 @@ def pic2qpc(
 
     K = int(quadrature_rule.points.shape[0])
     L: Dict[Module, Module] = {}
+    group_values: Dict[Tuple[FunctionGroup, int, int], Tensor] = {}
 
     def k_pow(scope: Scope) -> int:
         return K ** len(scope.query)
@@ -506,66 +507,23 @@ def pic2qpc(
             out = torch.kron(out, w)
         return out
 
-    def materialize_integral_group(group: FunctionGroup) -> None:
-        # Collect only Integral units.
-        units = [u for u in group.units if isinstance(u, Integral)]
-        if len(units) == 0:
-            return
-
-        # Ensure children compiled.
-        for u in units:
-            _visit(u.inputs)
-
-        # Group by (out_dim, in_dim) because root/other integrals may differ.
-        buckets: Dict[Tuple[int, int], list[Integral]] = {}
-        for u in units:
-            z_dim = len(u.latent_scope.query)
-            y_dim = len(u.integrated_latent_scope.query)
-            buckets.setdefault((z_dim, y_dim), []).append(u)
-
-        for (z_dim, y_dim), bucket in buckets.items():
-            if z_dim == 0:
-                # Skip scalar-output integrals (typically root).
-                continue
+    def materialize_integral_group(group: FunctionGroup, z_dim: int, y_dim: int) -> Tensor:
+        """Return the function values of a whole group, shape (num_heads, K^z_dim, K^y_dim).
 
+        The values of all heads are evaluated in one pass and shared by all integrals of the group.
+        """
+        values = group_values.get((group, z_dim, y_dim))
+        if values is None:
             device = group.mlp.fourier.B.device
             dtype = quadrature_rule.points.dtype
-
             z_grid = grid_points(z_dim, device=device, dtype=dtype)  # (K^z, z_dim)
             y_grid = grid_points(y_dim, device=device, dtype=dtype)  # (K^y, y_dim)
-
-            out_ch = z_grid.shape[0]
-            in_ch = y_grid.shape[0]
-
             # Broadcast into (out_ch, in_ch, dim).
-            num_output_channels = out_ch
-            num_input_channels = in_ch
-            z = repeat(z_grid, "co zd -> co ci zd", ci=num_input_channels)
-            y = repeat(y_grid, "ci yd -> co ci yd", co=num_output_channels)
-
-            vals_all = group.evaluate_batched(z, y)  # (num_heads, out_ch, in_ch)
-
-            y_w = kron_weights(y_dim, device=vals_all.device, dtype=vals_all.dtype)  # (in_ch,)
-            vals_all = vals_all * rearrange(y_w, "ci -> 1 1 ci")
-
-            for u in bucket:
-                head_idx = u.function_head_idx
-                if head_idx is None:
-                    continue
-                if u in L:
-                    continue
-                child = L[u.inputs]
-                if child.out_shape.channels != in_ch:
-                    raise ShapeError(
-                        f"Integral child channels mismatch: expected {in_ch}, got {child.out_shape.channels}."
-                    )
-                weights_mat = rearrange(vals_all[head_idx], "co ci -> ci co")
-                weights_full = repeat(
-                    rearrange(weights_mat, "ci co -> 1 ci co 1"),
-                    "1 ci co 1 -> f ci co 1",
-                    f=child.out_shape.features,
-                )
-                L[u] = WeightedSum(inputs=child, weights=weights_full)
+            z = repeat(z_grid, "co zd -> co ci zd", ci=y_grid.shape[0])
+            y = repeat(y_grid, "ci yd -> co ci yd", co=z_grid.shape[0])
+            values = group.evaluate_batched(z, y)  # (num_heads, out_ch, in_ch)
+            group_values[(group, z_dim, y_dim)] = values
+        return values
 
     def _visit(u: Module) -> Module:
         if u in L:
@@ -618,12 +576,6 @@ def pic2qpc(
             return L[u]
 
         if isinstance(u, Integral):
-            # If the integral uses a function group, materialize the whole group at once.
-            if isinstance(u.function, FunctionGroup):
-                materialize_integral_group(u.function)
-                if u in L:
-                    return L[u]
-
             child = _visit(u.inputs)
 
             z_dim = len(u.latent_scope.query)
@@ -638,22 +590,18 @@ def pic2qpc(
             if u.function is None:
                 raise StructureError("Integral unit missing weighting function.")
 
-            device = u.function.mlp.fourier.B.device if isinstance(u.function, FunctionGroup) else child.device
-            dtype = quadrature_rule.points.dtype
-            z_grid = grid_points(z_dim, device=device, dtype=dtype)
-            y_grid = grid_points(y_dim, device=device, dtype=dtype)
-
-            num_output_channels = out_ch
-            num_input_channels = in_ch
-            z = repeat(z_grid, "co zd -> co ci zd", ci=num_input_channels)
-            y = repeat(y_grid, "ci yd -> co ci yd", co=num_output_channels)
-
             if isinstance(u.function, FunctionGroup):
+                # If the integral uses a function group, evaluate the whole group at once.
                 head = 0 if u.function.sharing_type == "f" else (u.function_head_idx or 0)
-                vals = u.function.evaluate_batched(z, y)[head]
+                vals = materialize_integral_group(u.function, z_dim, y_dim)[head]
             else:
+                device = child.device
+                dtype = quadrature_rule.points.dtype
+                z_grid = grid_points(z_dim, device=device, dtype=dtype)
+                y_grid = grid_points(y_dim, device=device, dtype=dtype)
+                z = repeat(z_grid, "co zd -> co ci zd", ci=in_ch)
+                y = repeat(y_grid, "ci yd -> co ci yd", co=out_ch)
                 vals = u.function(z, y)  # type: ignore[misc]
-
             y_w = kron_weights(y_dim, device=vals.device, dtype=vals.dtype)
             Wf = vals * rearrange(y_w, "ci -> 1 ci")  # (out_ch, in_ch)
 
-- 
2.43.0


From 40ed97b56d71372a8aa4a0ec4a4c4dbda9efc8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:05 +0000
Subject: [PATCH 76/81] fix: integrals receive the latents of out-of-order
 products swapped

---
 spflow/zoo/pic/pipeline.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/spflow/zoo/pic/pipeline.py b/spflow/zoo/pic/pipeline.py
index 8b25686..00e138e 100644
--- a/spflow/zoo/pic/pipeline.py
+++ b/spflow/zoo/pic/pipeline.py
@@ -481,7 +481,7 @@ def pic2qpc(
 
     K = int(quadrature_rule.points.shape[0])
     L: Dict[Module, Module] = {}
-    group_values: Dict[Tuple[FunctionGroup, int, int], Tensor] = {}
+    group_values: Dict[Tuple[FunctionGroup, int, Tuple[int, ...]], Tensor] = {}
 
     def k_pow(scope: Scope) -> int:
         return K ** len(scope.query)
@@ -507,22 +507,43 @@ def pic2qpc(
             out = torch.kron(out, w)
         return out
 
-    def materialize_integral_group(group: FunctionGroup, z_dim: int, y_dim: int) -> Tensor:
+    def latent_order(u: Module) -> list[int]:
+        """Return the latent ids in the order in which the channels of the compiled unit enumerate them."""
+        if isinstance(u, PICProduct):
+            left, right = latent_order(u.left), latent_order(u.right)
+            return left if set(left) == set(right) else left + right
+        if isinstance(u, PICSum):
+            return latent_order(u.inputs[0])
+        return list(getattr(u, "latent_scope", Scope([])).query)
+
+    def integrated_columns(u: Integral) -> Tuple[int, ...]:
+        """Return for every id of `Y_u` its grid dimension in the channels of the compiled input.
+
+        These differ from `0, 1, ...` since the scope of a product is sorted, while its channels are the
+        outer product of left and right.
+        """
+        y_ids = list(u.integrated_latent_scope.query)
+        order = latent_order(u.inputs)
+        if set(order) != set(y_ids):
+            return tuple(range(len(y_ids)))
+        return tuple(order.index(y_id) for y_id in y_ids)
+
+    def materialize_integral_group(group: FunctionGroup, z_dim: int, y_columns: Tuple[int, ...]) -> Tensor:
         """Return the function values of a whole group, shape (num_heads, K^z_dim, K^y_dim).
 
         The values of all heads are evaluated in one pass and shared by all integrals of the group.
         """
-        values = group_values.get((group, z_dim, y_dim))
+        values = group_values.get((group, z_dim, y_columns))
         if values is None:
             device = group.mlp.fourier.B.device
             dtype = quadrature_rule.points.dtype
             z_grid = grid_points(z_dim, device=device, dtype=dtype)  # (K^z, z_dim)
-            y_grid = grid_points(y_dim, device=device, dtype=dtype)  # (K^y, y_dim)
+            y_grid = grid_points(len(y_columns), device=device, dtype=dtype)[:, list(y_columns)]  # (K^y, y_dim)
             # Broadcast into (out_ch, in_ch, dim).
             z = repeat(z_grid, "co zd -> co ci zd", ci=y_grid.shape[0])
             y = repeat(y_grid, "ci yd -> co ci yd", co=z_grid.shape[0])
             values = group.evaluate_batched(z, y)  # (num_heads, out_ch, in_ch)
-            group_values[(group, z_dim, y_dim)] = values
+            group_values[(group, z_dim, y_columns)] = values
         return values
 
     def _visit(u: Module) -> Module:
@@ -593,12 +614,12 @@ def pic2qpc(
             if isinstance(u.function, FunctionGroup):
                 # If the integral uses a function group, evaluate the whole group at once.
                 head = 0 if u.function.sharing_type == "f" else (u.function_head_idx or 0)
-                vals = materialize_integral_group(u.function, z_dim, y_dim)[head]
+                vals = materialize_integral_group(u.function, z_dim, integrated_columns(u))[head]
             else:
                 device = child.device
                 dtype = quadrature_rule.points.dtype
                 z_grid = grid_points(z_dim, device=device, dtype=dtype)
-                y_grid = grid_points(y_dim, device=device, dtype=dtype)
+                y_grid = grid_points(y_dim, device=device, dtype=dtype)[:, list(integrated_columns(u))]
                 z = repeat(z_grid, "co zd -> co ci zd", ci=in_ch)
                 y = repeat(y_grid, "ci yd -> co ci yd", co=out_ch)
                 vals = u.function(z, y)  # type: ignore[misc]
-- 
2.43.0


From f0063712799ab60309d3cb7457cb072514f0312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:05 +0000
Subject: [PATCH 77/81] fix: tensorized layers return NaN or underflow for
 impossible or masked inputs

---
 spflow/zoo/pic/tensorized/cp.py    |  4 +++-
 spflow/zoo/pic/tensorized/utils.py | 14 +++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/spflow/zoo/pic/tensorized/cp.py b/spflow/zoo/pic/tensorized/cp.py
index eb28177..8794a56 100644
--- a/spflow/zoo/pic/tensorized/cp.py
+++ b/spflow/zoo/pic/tensorized/cp.py
@@ -145,7 +145,9 @@ class UncollapsedCPLayer(TensorizedLayer):
         """Reduce across arity dimension with optional masking."""
         if self.fold_mask is not None:
             mask_shape = self.fold_mask.shape + (1,) * (x.ndim - self.fold_mask.ndim)
-            x = x * self.fold_mask.view(mask_shape)
+            mask = self.fold_mask.to(dtype=torch.bool).view(mask_shape)
+            # Use 0 (log 1) as neutral element for product reduction in log-space
+            x = torch.where(mask, x, torch.zeros_like(x))
         return x.sum(dim=1)
 
     def _forward_out_linear(self, x: Tensor) -> Tensor:
diff --git a/spflow/zoo/pic/tensorized/utils.py b/spflow/zoo/pic/tensorized/utils.py
index 4a608fe..715e352 100644
--- a/spflow/zoo/pic/tensorized/utils.py
+++ b/spflow/zoo/pic/tensorized/utils.py
@@ -32,6 +32,8 @@ def log_func_exp(*x: Tensor, func: Callable[..., Tensor], dim: int, keepdim: boo
 
     # Find max for numerical stability (per tensor)
     max_x = [torch.max(xi, dim=dim, keepdim=True)[0] for xi in x]
+    # Nothing to subtract where all entries are log(0)
+    max_x = [torch.where(m == float("-inf"), torch.zeros_like(m), m) for m in max_x]
 
     # Subtract max and exponentiate
     exp_x = [torch.exp(xi - xi_max) for xi, xi_max in zip(x, max_x)]
@@ -112,12 +114,14 @@ def eval_mixing(x: Tensor, weights: Tensor, fold_mask: Tensor | None = None) ->
         Output log-probabilities (F, K, *B).
     """
 
+    if fold_mask is not None:
+        mask = fold_mask.to(dtype=torch.bool, device=x.device).view(
+            fold_mask.shape + (1,) * (x.ndim - fold_mask.ndim)
+        )
+        # Use log(0) as neutral element for the sum, so that padding does not affect the maximum
+        x = torch.where(mask, x, torch.full_like(x, float("-inf")))
+
     def linear(x_prob: Tensor) -> Tensor:
-        if fold_mask is not None:
-            mask = fold_mask.to(dtype=x_prob.dtype, device=x_prob.device).view(
-                fold_mask.shape + (1,) * (x_prob.ndim - fold_mask.ndim)
-            )
-            x_prob = x_prob * mask
         return torch.einsum("fhk,fhk...->fk...", weights, x_prob)
 
     return log_func_exp(x, func=linear, dim=1, keepdim=False)
-- 
2.43.0


From 34bc972b0f0ebf0b7c1131db9c7c96fb0bb1abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:05 +0000
Subject: [PATCH 78/81] fix: TensorizedQPC does not marginalize missing values

---
 spflow/zoo/pic/tensorized/qpc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/pic/tensorized/qpc.py b/spflow/zoo/pic/tensorized/qpc.py
index 2cfb8ba..9b5471d 100644
--- a/spflow/zoo/pic/tensorized/qpc.py
+++ b/spflow/zoo/pic/tensorized/qpc.py
@@ -493,7 +493,12 @@ class TensorizedQPC(Module):
 
         # Leaf parameterization and leaf log-likelihoods.
         leaf_param = self.input_net(z_quad, n_chunks=self.config.n_chunks)  # (V,K,P)
-        leaf_ll = self._leaf_log_likelihood(data, leaf_param)  # (B,V,K)
+        missing = torch.isnan(data)
+        leaf_ll = self._leaf_log_likelihood(data.masked_fill(missing, 0.0), leaf_param)  # (B,V,K)
+
+        # Missing values are marginalized: the leaves are normalized, hence contribute log(1).
+        missing = missing[:, self._leaf_vars.to(device=data.device)]  # (B,V)
+        leaf_ll = leaf_ll.masked_fill(rearrange(missing, "b v -> b v 1"), 0.0)
 
         # Initial folded outputs for leaf regions: (F0, K, B)
         x0 = rearrange(leaf_ll, "b v k -> v k b").contiguous()
-- 
2.43.0


From b71407de0283d80c13ca03b9c2eb28669ba77d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:05 +0000
Subject: [PATCH 79/81] fix: WeightedSum ignores evidence when sampling

---
 spflow/zoo/pic/weighted_sum.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/spflow/zoo/pic/weighted_sum.py b/spflow/zoo/pic/weighted_sum.py
index 8281293..1631f5a 100644
--- a/spflow/zoo/pic/weighted_sum.py
+++ b/spflow/zoo/pic/weighted_sum.py
@@ -251,6 +251,23 @@ class WeightedSum(Module):
         weights = weights.gather(dim=3, index=idxs)
         weights = rearrange(weights, "b f ci 1 -> b f ci")
 
+        # Check if evidence is given (cached log-likelihoods)
+        if "log_likelihood" in cache and cache["log_likelihood"].get(self.inputs) is not None:
+            input_lls = cache["log_likelihood"][self.inputs]
+            indices = repeat(
+                rearrange(sampling_ctx.repetition_index, "... -> (...)"),
+                "b -> b f ci 1",
+                f=num_features,
+                ci=num_input_channels,
+            )
+            input_lls = torch.gather(input_lls, dim=-1, index=indices)
+            input_lls = rearrange(input_lls, "b f ci 1 -> b f ci")
+            # Posterior weights, up to the normalization below
+            log_posterior = torch.log(weights) + input_lls
+            log_max = log_posterior.amax(dim=-1, keepdim=True)
+            log_max = torch.where(log_max == float("-inf"), torch.zeros_like(log_max), log_max)
+            weights = torch.exp(log_posterior - log_max)
+
         # Sample from categorical distribution
         if sampling_ctx.is_mpe:
             new_channel_index = torch.argmax(weights, dim=-1)
-- 
2.43.0


From 52da2772d58689eadbf439000cd7b59e39585144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 80/81] fix: routed leaf parameters of a Categorical are
 misread when the batch size equals the number of features

---
 spflow/modules/leaves/leaf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index d40ee9f..15f757c 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -846,7 +846,14 @@ class LeafModule(Module, ABC):
         num_channels = self.out_shape.channels
         num_repetitions = self.out_shape.repetitions
 
-        if param.dim() >= 4 and param.shape[0] == n_active and param.shape[1] == num_features:
+        # Only conditional leaves have per-sample parameters. The shape alone cannot tell: an (F, C, R, K)
+        # parameter looks batched whenever n_active == F and C == F.
+        if (
+            self.is_conditional
+            and param.dim() >= 4
+            and param.shape[0] == n_active
+            and param.shape[1] == num_features
+        ):
             routed = param
         elif param.shape[0] == num_features:
             if param.dim() == 3:
-- 
2.43.0


From 33781061e569f4a52929f8ef9264e5418fbc7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 81/81] fix: APC Conv-PC ignores the latent permutation when
 sampling

---
 spflow/zoo/apc/encoders/convpc_joint_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/zoo/apc/encoders/convpc_joint_encoder.py b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
index 578b718..ee1abe2 100644
--- a/spflow/zoo/apc/encoders/convpc_joint_encoder.py
+++ b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
@@ -230,7 +230,7 @@ class _LatentFeaturePacking(Module):
         )
 
         ctx_features = sampling_ctx.channel_index.shape[1]
-        if ctx_features == self.in_shape.features:
+        if ctx_features == self.in_shape.features and ctx_features != self.target_features:
             return self.inputs._sample(data=data, cache=cache, sampling_ctx=sampling_ctx)
         if ctx_features == 1:
             num_target_features = self.target_features
-- 
2.43.0

