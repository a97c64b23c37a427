From 70fe0e1ab83e3ae75c6036e099f9f9771f830760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 01/25] fix: use the transposed blocks in BlockDiagonal's
 rmatmat and from_inner

The blocks of K are not symmetric in general (products of symmetric matrices
are not symmetric), so K.T @ X and K.T @ K must transpose them.
---
 singd/structures/blockdiagonal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..a42abc6 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        transposed = self.__class__(self._blocks.transpose(1, 2), self._last.T)
+        return transposed @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +274,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From 70ae15ebd7fa7dbbbcfe7f56cac08d4ee26191af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 02/25] fix: reject diagonal blocks of wrong size in
 BlockDiagonalMatrixTemplate

The chained comparison only rejected non-square blocks.
---
 singd/structures/blockdiagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index a42abc6..19736b5 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -90,7 +90,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             raise ValueError(
                 f"Diagonal blocks must be 3-dimensional, got {blocks.ndim}."
             )
-        if blocks.shape[1] != blocks.shape[2] != self.BLOCK_DIM:
+        if tuple(blocks.shape[1:]) != (self.BLOCK_DIM, self.BLOCK_DIM):
             raise ValueError(
                 f"Diagonal blocks must be square with dimension {self.BLOCK_DIM},"
                 f" got {blocks.shape[1:]} instead."
-- 
2.43.0


From 8402c9b01bc9ecfabf0e33d0ff602f5b847dc320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 03/25] fix: resolve None in preconditioner_dtype when
 computing natural gradients

(bfloat16, None) with a float32 model multiplied matrices of different dtypes.
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..2b427c6 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -698,7 +698,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From e4473a4271b32aab93b280c4a8c44379020b5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 04/25] fix: leave the caller's dictionary intact in
 SINGD.load_state_dict

Keys were popped from the passed dictionary, and the loaded optimizer shared
its tensors, so a state could be loaded only once and training modified it.
---
 singd/optim/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 2b427c6..9386d43 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -1,5 +1,6 @@
 """Implements structured inverse-free KFAC."""
 
+from copy import deepcopy
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
@@ -885,6 +886,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
+        # NOTE Do not modify or share tensors with the dictionary passed by the caller
+        state_dict = deepcopy(state_dict)
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
         super().load_state_dict(state_dict)
 
-- 
2.43.0


From 0ba7b54febb7b7f4d13dee57db17a03aa1e734eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 05/25] fix: average H_K over devices also if loss_average is
 None

The input-based quantity is a mean over the mini-batch for every loss_average.
---
 singd/optim/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 9386d43..184887d 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -623,8 +623,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         # If DDP is used.
         if dist.is_initialized():
             # all-reduce across devices (computes average by default).
+            # NOTE `H_K` is an average over the mini-batch for any `loss_average`
             op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
-            H_K.all_reduce(op=op)
+            H_K.all_reduce(op=dist.ReduceOp.AVG)
             H_C.all_reduce(op=op)
 
         # store or update existing quantities (they get flushed in `.step`)
-- 
2.43.0


From 2df4d7ec60e9839a09a4028d124fae326202b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 06/25] fix: do not drop the result of all_reduce for
 non-contiguous tensors

The reduction ran on a contiguous copy whose result was discarded.
---
 singd/structures/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..012dcc3 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,9 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            if not tensor.is_contiguous():
+                # make the registered tensor contiguous, rather than reducing a copy
+                tensor.data = tensor.contiguous()
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From 85fa71cad12e6f21bec98cdf765cb4f00c5a42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 07/25] fix: sum both triangles in
 HierarchicalMatrixTemplate.from_dense

Same result for symmetric matrices. Matrices that already have the structure
are now preserved like in all other classes, which the naive operations of
recursive structures with hierarchical blocks rely on.
---
 singd/structures/hierarchical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 5cb8489..cbbbcf6 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -158,9 +158,12 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         K1, diag_dim, _ = cls._compute_block_dims(dim)
 
         A = sym_mat[:K1, :K1]
-        B = 2 * sym_mat[:K1, K1:]
+        B = sym_mat[:K1, K1:] + sym_mat[K1:, :K1].T
         C = sym_mat.diag()[K1 : K1 + diag_dim]
-        D = 2 * sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+        D = (
+            sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+            + sym_mat[K1 : K1 + diag_dim, K1 + diag_dim :].T
+        )
         E = sym_mat[K1 + diag_dim :, K1 + diag_dim :]
 
         return cls(A, B, C, D, E)
-- 
2.43.0


From f5f9226216ddb36b82cb2fa9fed745cbad72c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 08/25] fix: reject negative hyper-parameters that are integers

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 184887d..13c09a9 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -211,7 +211,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, float) and x < 0.0:
+            if isinstance(x, (int, float)) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From 0e7eca4d56d855ab8024187a65229110d0692cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 09/25] fix: warn about un-supported parameters held directly
 by containers

---
 singd/optim/optimizer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 13c09a9..ecbccb1 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -362,17 +362,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Returns:
             A list of parameters that can be trained.
         """
-        # all layers that are not containers
-        named_modules = [
-            (name, mod)
-            for name, mod in model.named_modules()
-            if len(list(mod.modules())) == 1
-        ]
-
         trainable = []
-        for name, mod in named_modules:
-            mod_trainable = [param for param in mod.parameters() if param.requires_grad]
-            if isinstance(mod, self.SUPPORTED_MODULES):
+        # containers can also directly hold parameters (e.g. `MultiheadAttention`)
+        for name, mod in model.named_modules():
+            mod_trainable = [
+                param for param in mod.parameters(recurse=False) if param.requires_grad
+            ]
+            is_container = len(list(mod.modules())) > 1
+            if isinstance(mod, self.SUPPORTED_MODULES) and not is_container:
                 trainable.extend(mod_trainable)
             elif mod_trainable and warn_unsupported:
                 warn(
-- 
2.43.0


From e7bf66092688b4b5774586a68169b25f988ca2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 10/25] fix: take a convolution's padding_mode into account
 when unfolding its input

Patches were always zero-padded, so the pre-conditioner of convolutions with
reflect, replicate or circular padding used inputs the layer never saw.
---
 singd/optim/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/singd/optim/utils.py b/singd/optim/utils.py
index 79fa649..9d1f805 100644
--- a/singd/optim/utils.py
+++ b/singd/optim/utils.py
@@ -162,8 +162,12 @@ def conv2d_process_input(x: Tensor, layer: Conv2d, kfac_approx: str) -> Tensor:
     patch_extractor_fn = (
         _extract_patches if kfac_approx == "expand" else _extract_averaged_patches
     )
+    padding = layer.padding
+    if layer.padding_mode != "zeros":  # pad explicitly, like the layer's forward pass
+        x = F.pad(x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode)
+        padding = 0
     x = patch_extractor_fn(
-        x, layer.kernel_size, layer.stride, layer.padding, layer.dilation, layer.groups
+        x, layer.kernel_size, layer.stride, padding, layer.dilation, layer.groups
     )
 
     if kfac_approx == "expand":
-- 
2.43.0


From 690afb5b3680d20a442a590992b581787f99ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 11/25] fix: only train the parameters of a layer that were
 passed to the optimizer

Passing only a layer's weight also updated its bias; passing only the bias, or
freezing one of the two, crashed.
---
 singd/optim/optimizer.py | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index ecbccb1..a2f9b4a 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -277,9 +277,36 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[module.weight.data_ptr()]
+        # NOTE Not all parameters of the layer have to be in a group
+        group_idx = next(
+            self.param_to_group_idx[p.data_ptr()]
+            for p in module.parameters()
+            if p.data_ptr() in self.param_to_group_idx
+        )
         return self.param_groups[group_idx][entry]
 
+    def _is_trained(self, p: Parameter) -> bool:
+        """Check whether a layer's parameter was passed to the optimizer and has a grad.
+
+        Args:
+            p: A parameter of a supported layer.
+
+        Returns:
+            Whether the optimizer should update the parameter.
+        """
+        return p.data_ptr() in self.param_to_group_idx and p.grad is not None
+
+    def _get_grad(self, p: Parameter) -> Tensor:
+        """Get a parameter's gradient, or zero if it is not trained.
+
+        Args:
+            p: A parameter of a supported layer.
+
+        Returns:
+            The parameter's gradient.
+        """
+        return p.grad.data if self._is_trained(p) else zeros_like(p.data)
+
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
         """Check parameter groups for conflicts.
 
@@ -679,14 +706,15 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         """
         # 1) CONCATENATE GRADIENTS OF WEIGHT AND BIAS AND RESHAPE INTO MATRIX
         if isinstance(module, Conv2d):
-            grad_mat = module.weight.grad.data.flatten(start_dim=1)
+            grad_mat = self._get_grad(module.weight).flatten(start_dim=1)
         elif isinstance(module, Linear):
-            grad_mat = module.weight.grad.data
+            grad_mat = self._get_grad(module.weight)
         else:
             raise NotImplementedError(f"Can't get matrix gradient of {module}")
 
         if module.bias is not None:
-            grad_mat = cat([grad_mat, module.bias.grad.data.unsqueeze(1)], dim=1)
+            grad_bias = self._get_grad(module.bias)
+            grad_mat = cat([grad_mat, grad_bias.unsqueeze(1)], dim=1)
 
         # un-scale gradients
         grad_scale = self._get_grad_scale(self.steps)
@@ -794,6 +822,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                if not self._is_trained(p):
+                    continue
+
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From d11a6fed60cc45731af965fd555c1f633b54076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 12/25] fix: skip layers without gradients in SINGD.step

Like other PyTorch optimizers. A layer that did not take part in a forward and
backward pass crashed the step.
---
 singd/optim/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index a2f9b4a..a014050 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -493,6 +493,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             return
 
         module_name = self.module_names[module]
+        if module_name not in self.H_Ks:  # layer did not take part in backpropagation
+            return
+
         K, C = self.Ks[module_name], self.Cs[module_name]
         # NOTE: Pop such that they will be freed after
         H_K: StructuredMatrix = self.H_Ks.pop(module_name)
@@ -810,11 +813,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
     def _step(self):
         """Compute natural gradients and update parameters."""
         for module in self.module_names:
-            self._update_preconditioner(module)
-            natural_gradients = self._compute_natural_gradient(module)
             parameters = (
                 [module.weight] if module.bias is None else [module.weight, module.bias]
             )
+            self._update_preconditioner(module)
+            if not any(self._is_trained(p) for p in parameters):
+                continue
+            natural_gradients = self._compute_natural_gradient(module)
 
             # hyper-parameters for group containing module
             weight_decay = self._get_param_group_entry(module, "weight_decay")
-- 
2.43.0


From 4c65b76e806238687c03a412b66acb370e37e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 13/25] fix: do not hook outputs of frozen layers that do not
 require gradients

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index a014050..1b6781c 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -599,7 +599,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             output: The layer's output tensor.
         """
         T = self._get_param_group_entry(module, "T")
-        if is_grad_enabled() and self.steps % T == 0:
+        if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
             output.register_hook(tensor_hook)
 
-- 
2.43.0


From 393c82cce490cf40c040e24082ce4cafe7cab32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 14/25] fix: do not un-scale gradients again after
 GradScaler.unscale_

GradScaler.step sets .grad_scale to None if the gradients were already un-scaled,
for example for clipping. They were divided by the gradient scale a second time.
---
 singd/optim/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 1b6781c..21fa405 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -719,9 +719,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             grad_bias = self._get_grad(module.bias)
             grad_mat = cat([grad_mat, grad_bias.unsqueeze(1)], dim=1)
 
-        # un-scale gradients
+        # un-scale gradients, unless `GradScaler.unscale_` already did. In that case,
+        # `GradScaler.step` sets `.grad_scale` to `None`.
+        unscaled = getattr(self, "grad_scale", 1.0) is None
         grad_scale = self._get_grad_scale(self.steps)
-        if grad_scale != 1.0:
+        if grad_scale != 1.0 and not unscaled:
             grad_mat = grad_mat / grad_scale
 
         # 2) COMPUTE THE NATURAL GRADIENT IN CONCATENATED MATRIX FORM
-- 
2.43.0


From da56ae3a933a18ee70a68f1bf85445bab2707624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 15/25] fix: support empty blocks inside recursive structured
 matrices

---
 singd/structures/blockdiagonal.py | 4 +---
 singd/structures/hierarchical.py  | 4 +---
 singd/structures/triltoeplitz.py  | 2 +-
 singd/structures/triutoeplitz.py  | 2 +-
 singd/structures/utils.py         | 2 +-
 5 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index 19736b5..d4a38d5 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -336,9 +336,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index cbbbcf6..f3ebd46 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -363,9 +363,7 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
diff --git a/singd/structures/triltoeplitz.py b/singd/structures/triltoeplitz.py
index dd29863..290ee92 100644
--- a/singd/structures/triltoeplitz.py
+++ b/singd/structures/triltoeplitz.py
@@ -73,7 +73,7 @@ class TrilToeplitzMatrix(StructuredMatrix):
         dim = mat.shape[0]
         col = zeros(dim, dtype=mat.dtype, device=mat.device)
         idx_main = dim - 1
-        col[0] += traces[idx_main]
+        col[:1] += traces[idx_main : idx_main + 1]  # NOTE can be empty
         col[1:] += traces[idx_main + 1 :]
         col[1:] += traces[:idx_main].flip(0)
 
diff --git a/singd/structures/triutoeplitz.py b/singd/structures/triutoeplitz.py
index 1a6205d..51d7957 100644
--- a/singd/structures/triutoeplitz.py
+++ b/singd/structures/triutoeplitz.py
@@ -73,7 +73,7 @@ class TriuToeplitzMatrix(StructuredMatrix):
         dim = mat.shape[0]
         row = zeros(dim, dtype=mat.dtype, device=mat.device)
         idx_main = dim - 1
-        row[0] += traces[idx_main]
+        row[:1] += traces[idx_main : idx_main + 1]  # NOTE can be empty
         row[1:] += traces[idx_main + 1 :]
         row[1:] += traces[:idx_main].flip(0)
 
diff --git a/singd/structures/utils.py b/singd/structures/utils.py
index 2ed041b..ad54a57 100644
--- a/singd/structures/utils.py
+++ b/singd/structures/utils.py
@@ -66,7 +66,7 @@ def all_traces(mat: Tensor) -> Tensor:
         traces of the positive off-diagonals.
     """
     num_rows, num_cols = mat.shape
-    num_diags = 1 + (num_rows - 1) + (num_cols - 1)
+    num_diags = max(0, 1 + (num_rows - 1) + (num_cols - 1))
 
     row_idxs = arange(num_rows, device=mat.device).unsqueeze(-1).expand(-1, num_cols)
     col_idxs = arange(num_cols, device=mat.device).unsqueeze(0).expand(num_rows, -1)
-- 
2.43.0


From f29cde689b1352e528594c355a523172fc82469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 16/25] fix: all-reduce the natural gradient as contiguous
 tensor

---
 singd/optim/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 21fa405..28f32d5 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -749,6 +749,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             # all-reduce across devices.
             loss_average = self._get_param_group_entry(module, "loss_average")
             op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
+            nat_grad = nat_grad.contiguous()  # required by `all_reduce`
             dist.all_reduce(nat_grad, op=op)
 
         # 3) UN-CONCATENATE, UN-RESHAPE, AND COPY THE NATURAL GRADIENT TO `.GRAD`
-- 
2.43.0


From 85f0f13ce6ecf652ba39db91752d42b89597e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 17/25] fix: reject unknown structures before hooking the model

---
 singd/optim/optimizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 28f32d5..aa16e29 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -322,6 +322,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             ValueError: If parameters in a supported layer are in different groups.
             ValueError: If `loss_average` for any param group is not in
                 self.SUPPORTED_LOSS_AVERAGE.
+            ValueError: If `structures` for any param group contain a name that is
+                not in self.SUPPORTED_STRUCTURES.
 
         Returns:
             A dictionary mapping parameter IDs (`.data_ptr()`) to group indices.
@@ -346,6 +348,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                     f"{self.SUPPORTED_LOSS_AVERAGE}, but was set to "
                     f"{group['loss_average']}."
                 )
+            for structure in group["structures"]:
+                if structure not in self.SUPPORTED_STRUCTURES:
+                    raise ValueError(
+                        "structures have to be set to values out of "
+                        f"{tuple(self.SUPPORTED_STRUCTURES)}, but was set to "
+                        f"{group['structures']}."
+                    )
 
         # Find out which parameter is in which group
         param_to_group_idx = {}
-- 
2.43.0


From 4e37657e59071792273de1522c095e0d8f6d6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 18/25] fix: do not over- or underflow in the Frobenius norm of
 recursive matrices

---
 singd/structures/recursive.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/singd/structures/recursive.py b/singd/structures/recursive.py
index f9d6225..6527ca6 100644
--- a/singd/structures/recursive.py
+++ b/singd/structures/recursive.py
@@ -4,7 +4,8 @@ from __future__ import annotations
 
 from typing import Iterator, List, Tuple, Type, Union
 
-from torch import Tensor, block_diag
+from torch import Tensor, block_diag, float32, promote_types, stack
+from torch.linalg import vector_norm
 
 from singd.structures.base import StructuredMatrix
 
@@ -73,13 +74,17 @@ class RecursiveStructuredMatrix(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        fro_squared = sum(
-            (t**2).sum() for _, t in self.named_tensors(include_substructures=False)
-        )
-        fro_squared_sub = sum(
-            s.frobenius_norm() ** 2 for _, s in self.named_substructures()
-        )
-        return (fro_squared + fro_squared_sub).sqrt()
+        # NOTE Combine the norms in at least single precision to avoid rounding their
+        # values and over-/underflow of their squares in half precision
+        norms = [
+            vector_norm(t.to(promote_types(t.dtype, float32)))
+            for _, t in self.named_tensors(include_substructures=False)
+        ]
+        for _, substructure in self.named_substructures():
+            norm = substructure.frobenius_norm()
+            norms.append(norm.to(promote_types(norm.dtype, float32)))
+        dtype = next(t.dtype for _, t in self.named_tensors())
+        return vector_norm(stack(norms)).to(dtype)
 
 
 class RecursiveTopRightMatrixTemplate(RecursiveStructuredMatrix):
-- 
2.43.0


From 5419fae5be8fc79d4aef61781a7af9be3e200cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 19/25] fix: allow to enable Riemannian momentum during
 training

---
 singd/optim/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index aa16e29..b13990e 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -558,8 +558,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         # 2) APPLY UPDATE
         if alpha1 != 0.0:
-            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
-            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
+            # NOTE There are no momenta yet if `alpha1` was zero so far
+            if module_name in self.m_Cs:
+                new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
+                new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
             self.m_Cs[module_name] = new_m_C
             self.m_Ks[module_name] = new_m_K
 
-- 
2.43.0


From a7c25de0c7fac11b40b2ab10d6aaa56246281dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 20/25] fix: identify parameters by object rather than by
 storage address

Replacing a parameter's data (nn.utils.vector_to_parameters, Module.to, flattening)
changes its address, after which the layer's forward pass raised StopIteration.
---
 singd/optim/optimizer.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index b13990e..a3e1156 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -279,9 +279,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         assert isinstance(module, self.SUPPORTED_MODULES)
         # NOTE Not all parameters of the layer have to be in a group
         group_idx = next(
-            self.param_to_group_idx[p.data_ptr()]
+            self.param_to_group_idx[p]
             for p in module.parameters()
-            if p.data_ptr() in self.param_to_group_idx
+            if p in self.param_to_group_idx
         )
         return self.param_groups[group_idx][entry]
 
@@ -294,7 +294,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Returns:
             Whether the optimizer should update the parameter.
         """
-        return p.data_ptr() in self.param_to_group_idx and p.grad is not None
+        return p in self.param_to_group_idx and p.grad is not None
 
     def _get_grad(self, p: Parameter) -> Tensor:
         """Get a parameter's gradient, or zero if it is not trained.
@@ -307,7 +307,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         """
         return p.grad.data if self._is_trained(p) else zeros_like(p.data)
 
-    def _check_param_groups(self, model: Module) -> Dict[int, int]:
+    def _check_param_groups(self, model: Module) -> Dict[Parameter, int]:
         """Check parameter groups for conflicts.
 
         For all supported layers, the parameters must be in the same group because
@@ -326,7 +326,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                 not in self.SUPPORTED_STRUCTURES.
 
         Returns:
-            A dictionary mapping parameter IDs (`.data_ptr()`) to group indices.
+            A dictionary mapping parameters to group indices.
         """
         for idx, group in enumerate(self.param_groups):
             # if KFAC-like update is employed, alpha1 will be ignored
@@ -357,14 +357,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                     )
 
         # Find out which parameter is in which group
+        # NOTE Parameters keep their identity, but not their `.data_ptr()` if their data
+        # is moved, e.g. by `Module.to` or `vector_to_parameters`.
         param_to_group_idx = {}
         for group_idx, group in enumerate(self.param_groups):
             for param in group["params"]:
-                param_to_group_idx[param.data_ptr()] = group_idx
+                param_to_group_idx[param] = group_idx
 
-        param_ids = [
-            param.data_ptr() for group in self.param_groups for param in group["params"]
-        ]
         # check that parameters in a supported module are in the same group
         # all layers that are not containers
         modules = [
@@ -373,10 +372,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             if len(list(m.modules())) == 1 and isinstance(m, self.SUPPORTED_MODULES)
         ]
         for m in modules:
-            m_param_ids = [
-                p.data_ptr() for p in m.parameters() if p.data_ptr() in param_ids
+            m_groups = [
+                param_to_group_idx[p] for p in m.parameters() if p in param_to_group_idx
             ]
-            m_groups = [param_to_group_idx[p_id] for p_id in m_param_ids]
             if len(set(m_groups)) not in [0, 1]:
                 raise ValueError(
                     "Parameters of a layer are in different parameter groups. "
@@ -686,14 +684,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             Mapping from hooked modules to their names and list of the installed hooks'
             handles.
         """
-        param_ids = [
-            p.data_ptr() for group in self.param_groups for p in group["params"]
-        ]
         module_names = {
             mod: name
             for (name, mod) in model.named_modules()
             if isinstance(mod, self.SUPPORTED_MODULES)
-            and any(p.data_ptr() in param_ids for p in mod.parameters())
+            and any(p in self.param_to_group_idx for p in mod.parameters())
         }
         handles = [
             module.register_forward_hook(
-- 
2.43.0


From e43e9be393c9193c061174ff2d51e0c00026708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 21/25] fix: ignore copies of a layer in the forward hook

Running a copy of a model (deepcopy, AveragedModel, pickle) that was made after the
optimizer was constructed raised an AttributeError.
---
 singd/optim/optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index a3e1156..1b9cf3f 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -607,6 +607,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             inputs: The layer's input tensors.
             output: The layer's output tensor.
         """
+        # NOTE Copying a model (e.g. to average weights) also copies its hooks and the
+        # optimizer they belong to, but `Optimizer.__getstate__` drops its attributes.
+        if module not in getattr(self, "module_names", {}):
+            return
+
         T = self._get_param_group_entry(module, "T")
         if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
-- 
2.43.0


From 52a87d9895d9df9e38a0f6d013b5ca86c93ac0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:22 +0000
Subject: [PATCH 22/25] fix: create indices of Toeplitz matrices on the device
 of the matrix

---
 singd/structures/triltoeplitz.py | 4 +++-
 singd/structures/triutoeplitz.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/singd/structures/triltoeplitz.py b/singd/structures/triltoeplitz.py
index 290ee92..0494ee7 100644
--- a/singd/structures/triltoeplitz.py
+++ b/singd/structures/triltoeplitz.py
@@ -89,7 +89,9 @@ class TrilToeplitzMatrix(StructuredMatrix):
             The represented matrix as PyTorch tensor.
         """
         dim = self._lower_diags.size(0)
-        i, j = torch.tril_indices(row=dim, col=dim, offset=0)
+        i, j = torch.tril_indices(
+            row=dim, col=dim, offset=0, device=self._lower_diags.device
+        )
         mat = torch.zeros(
             (dim, dim), device=self._lower_diags.device, dtype=self._lower_diags.dtype
         )
diff --git a/singd/structures/triutoeplitz.py b/singd/structures/triutoeplitz.py
index 51d7957..1c8b75e 100644
--- a/singd/structures/triutoeplitz.py
+++ b/singd/structures/triutoeplitz.py
@@ -89,7 +89,9 @@ class TriuToeplitzMatrix(StructuredMatrix):
             The represented matrix as PyTorch tensor.
         """
         dim = self._upper_diags.shape[0]
-        i, j = triu_indices(row=dim, col=dim, offset=0)
+        i, j = triu_indices(
+            row=dim, col=dim, offset=0, device=self._upper_diags.device
+        )
         mat = zeros(
             (dim, dim), dtype=self._upper_diags.dtype, device=self._upper_diags.device
         )
-- 
2.43.0


From 48d8d8028acc084ae217fc748b25f16243b0c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 23/25] fix: restore the warning filters after warning about a
 skipped step

---
 singd/optim/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 1b9cf3f..af282d7 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -4,7 +4,7 @@ from copy import deepcopy
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
-from warnings import simplefilter, warn
+from warnings import catch_warnings, simplefilter, warn
 
 import torch.distributed as dist
 from torch import Tensor, cat, device, dtype, is_grad_enabled, zeros_like
@@ -808,8 +808,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         if found_inf:
             # Skip the update step if `inf`s were encountered in the gradients.
             # The `GradScaler` will adjust the scale in this case.
-            simplefilter("always", UserWarning)  # Warn every time this happens.
-            warn("Encountered inf in gradients. Skipping update.")
+            with catch_warnings():  # NOTE Restores the filters of the user
+                simplefilter("always", UserWarning)  # Warn every time this happens.
+                warn("Encountered inf in gradients. Skipping update.")
             # Also, empty the accumulators because this step will be skipped.
             for name in self.module_names.values():
                 if name in self.H_Ks:
-- 
2.43.0


From a1a6e1d6cc4e20506408ba3a7355c9baae383962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:13 +0000
Subject: [PATCH 24/25] fix: support layers whose input is passed as keyword
 argument

---
 singd/optim/optimizer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index af282d7..691b099 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -583,7 +583,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         self.Cs[module_name].add_(C @ new_m_C, alpha=-beta1_C)
 
     def _register_tensor_hook_on_output_to_accumulate_H_terms(
-        self, module: Module, inputs: Tuple[Tensor], output: Tensor
+        self,
+        module: Module,
+        args: Tuple[Tensor, ...],
+        kwargs: Dict[str, Tensor],
+        output: Tensor,
     ):
         """Register a tensor hook on the module's output that accumulates the H terms.
 
@@ -604,7 +608,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Args:
             module: Layer onto whose output a tensor hook to compute `H_K` and `H_C`
                 will be installed.
-            inputs: The layer's input tensors.
+            args: The layer's input tensors that were passed as positional arguments.
+            kwargs: The layer's input tensors that were passed as keyword arguments.
             output: The layer's output tensor.
         """
         # NOTE Copying a model (e.g. to average weights) also copies its hooks and the
@@ -614,6 +619,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         T = self._get_param_group_entry(module, "T")
         if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
+            inputs = (*args, *kwargs.values())
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
             output.register_hook(tensor_hook)
 
@@ -697,7 +703,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         }
         handles = [
             module.register_forward_hook(
-                self._register_tensor_hook_on_output_to_accumulate_H_terms
+                self._register_tensor_hook_on_output_to_accumulate_H_terms,
+                with_kwargs=True,
             )
             for module in module_names
         ]
-- 
2.43.0


From 64c0e944fef38fbd0481e8179972cf14fbce90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:18 +0000
Subject: [PATCH 25/25] fix: support un-batched inputs of layers

---
 singd/optim/utils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/singd/optim/utils.py b/singd/optim/utils.py
index 9d1f805..693b2c4 100644
--- a/singd/optim/utils.py
+++ b/singd/optim/utils.py
@@ -119,6 +119,20 @@ def _extract_averaged_patches(
     return rearrange(x, "b c_in k1 k2 -> b (c_in k1 k2)")
 
 
+def _add_missing_batch_axis(x: Tensor, module: Module) -> Tensor:
+    """Convert un-batched inputs or outputs of a layer into a mini-batch of size one.
+
+    Args:
+        x: Input to or output of the module.
+        module: The module.
+
+    Returns:
+        The tensor with a leading batch axis.
+    """
+    unbatched_ndim = 3 if isinstance(module, Conv2d) else 1
+    return x.unsqueeze(0) if x.ndim == unbatched_ndim else x
+
+
 def process_input(x: Tensor, module: Module, kfac_approx: str) -> Tensor:
     """Unfold the input for convolutions, append ones if biases are present.
 
@@ -136,6 +150,7 @@ def process_input(x: Tensor, module: Module, kfac_approx: str) -> Tensor:
         NotImplementedError: If the module is not supported.
     """
     assert kfac_approx in {"expand", "reduce"}
+    x = _add_missing_batch_axis(x, module)
     if isinstance(module, Conv2d):
         return conv2d_process_input(x, module, kfac_approx)
     elif isinstance(module, Linear):
@@ -244,6 +259,7 @@ def process_grad_output(
     assert loss_average in {None, "batch", "batch+sequence"}
     assert kfac_approx in {"expand", "reduce"}
     grad_scaling = 1.0
+    grad_output = _add_missing_batch_axis(grad_output, module)
     if isinstance(module, Conv2d):
         return conv2d_process_grad_output(
             grad_output, loss_average, grad_scaling, kfac_approx
-- 
2.43.0

