From 3a0473d7cebef29b6ca5b306a1359c9917f45ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 01/32] fix: resolve unspecified pre-conditioner dtypes when
 computing the natural gradient

`preconditioner_dtype=(float32, None)` on a half-precision weight crashed because
`.to(None)` left the intermediate in the other factor's precision.
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..2b427c6 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -698,7 +698,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From 66869ff8c89d779c0ae9720989178a8657784f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 02/32] fix: multiply with the transpose of non-symmetric
 block-diagonal matrices

`K` loses its symmetry after the first updates, so `rmatmat` and `from_inner()`
must use the blocks' transposes.
---
 singd/structures/blockdiagonal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..a42abc6 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        transposed = self.__class__(self._blocks.transpose(1, 2), self._last.T)
+        return transposed @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +274,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From 42ea66a9d54f1bdd7cb441874a3d52c0f7317a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 03/32] fix: do not consume the caller's dictionary in
 load_state_dict

---
 singd/optim/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 2b427c6..c867598 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -885,6 +885,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
+        state_dict = state_dict.copy()  # do not modify the caller's dictionary
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
         super().load_state_dict(state_dict)
 
-- 
2.43.0


From ebfff100b4576611f4a675ce2ad2ca7c6ca861c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 04/32] fix: do not lose the result of all_reduce for
 non-contiguous tensors

---
 singd/structures/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..c76c628 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,9 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            if not tensor.is_contiguous():
+                # reduce the stored values, not those of a contiguous copy
+                tensor.set_(tensor.contiguous())
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From 6b68928cc9c11a451c368f23e2a0543db53b9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 05/32] fix: reject negative integer hyper-parameters

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index c867598..a8ebc12 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -210,7 +210,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, float) and x < 0.0:
+            if not callable(x) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From ea622370ab1fb2dd5e9c81e66a714c2443542a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 06/32] fix: warn about un-supported parameters that are owned
 by containers

---
 singd/optim/optimizer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index a8ebc12..223a63b 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -361,17 +361,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Returns:
             A list of parameters that can be trained.
         """
-        # all layers that are not containers
-        named_modules = [
-            (name, mod)
-            for name, mod in model.named_modules()
-            if len(list(mod.modules())) == 1
-        ]
-
         trainable = []
-        for name, mod in named_modules:
-            mod_trainable = [param for param in mod.parameters() if param.requires_grad]
-            if isinstance(mod, self.SUPPORTED_MODULES):
+        for name, mod in model.named_modules():
+            # containers can also directly own parameters
+            mod_trainable = [
+                param for param in mod.parameters(recurse=False) if param.requires_grad
+            ]
+            is_container = len(list(mod.modules())) > 1
+            if isinstance(mod, self.SUPPORTED_MODULES) and not is_container:
                 trainable.extend(mod_trainable)
             elif mod_trainable and warn_unsupported:
                 warn(
-- 
2.43.0


From abd77eee5753ff2e4389253c4166cc799b32b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 07/32] fix: reject un-supported structures before installing
 hooks on the model

Previously, the failing constructor left its hooks behind, and the model could no
longer be evaluated.
---
 singd/optim/optimizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 223a63b..64c7979 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -294,6 +294,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             ValueError: If parameters in a supported layer are in different groups.
             ValueError: If `loss_average` for any param group is not in
                 self.SUPPORTED_LOSS_AVERAGE.
+            ValueError: If `structures` for any param group contains an entry that is
+                not in `self.SUPPORTED_STRUCTURES`.
 
         Returns:
             A dictionary mapping parameter IDs (`.data_ptr()`) to group indices.
@@ -318,6 +320,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                     f"{self.SUPPORTED_LOSS_AVERAGE}, but was set to "
                     f"{group['loss_average']}."
                 )
+            for structure in group["structures"]:
+                if structure not in self.SUPPORTED_STRUCTURES:
+                    raise ValueError(
+                        "structures has to contain elements out of "
+                        f"{tuple(self.SUPPORTED_STRUCTURES)}, but got {structure}."
+                    )
 
         # Find out which parameter is in which group
         param_to_group_idx = {}
-- 
2.43.0


From d37c02287ca04ef211c4d7392c0a23593f2383da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 08/32] fix: do not crash in the forward pass of a layer whose
 output requires no gradient

---
 singd/optim/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 64c7979..0580b9f 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -6,7 +6,7 @@ from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
 from warnings import simplefilter, warn
 
 import torch.distributed as dist
-from torch import Tensor, cat, device, dtype, is_grad_enabled, zeros_like
+from torch import Tensor, cat, device, dtype, zeros_like
 from torch.nn import Conv2d, Linear, Module, Parameter
 from torch.nn.parallel import DataParallel as DP
 from torch.nn.parallel import DistributedDataParallel as DDP
@@ -576,7 +576,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             output: The layer's output tensor.
         """
         T = self._get_param_group_entry(module, "T")
-        if is_grad_enabled() and self.steps % T == 0:
+        if output.requires_grad and self.steps % T == 0:
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
             output.register_hook(tensor_hook)
 
-- 
2.43.0


From 3fa16106f93732e1543969e2f5acee21e91d81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 09/32] fix: skip layers that did not take part in the
 backpropagation

---
 singd/optim/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 0580b9f..65a22eb 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -469,10 +469,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             module: Layer whose pre-conditioner matrices are updated.
         """
         T = self._get_param_group_entry(module, "T")
-        if self.steps % T != 0:
+        module_name = self.module_names[module]
+        # NOTE There is nothing to flush for layers that were not back-propagated through
+        if self.steps % T != 0 or module_name not in self.H_Ks:
             return
 
-        module_name = self.module_names[module]
         K, C = self.Ks[module_name], self.Cs[module_name]
         # NOTE: Pop such that they will be freed after
         H_K: StructuredMatrix = self.H_Ks.pop(module_name)
@@ -788,6 +789,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
     def _step(self):
         """Compute natural gradients and update parameters."""
         for module in self.module_names:
+            if module.weight.grad is None:  # not part of the backpropagated graph
+                continue
             self._update_preconditioner(module)
             natural_gradients = self._compute_natural_gradient(module)
             parameters = (
-- 
2.43.0


From 959c4bac28364356733b6cd6fed7f1ca7c828150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 10/32] fix: do not update a layer's bias if only its weight is
 trained

---
 singd/optim/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 65a22eb..520e55e 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -803,6 +803,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                # only train parameters that were specified by the user
+                if p.data_ptr() not in self.param_to_group_idx:
+                    continue
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From a106839d35e0b7ae9a2df43bb4587bd33efcd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 11/32] fix: average the input factor across devices if the
 loss is a sum

---
 singd/optim/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 520e55e..e329fc2 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -629,7 +629,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         if dist.is_initialized():
             # all-reduce across devices (computes average by default).
             op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
-            H_K.all_reduce(op=op)
+            # NOTE `H_K` is always averaged over the data, independent of the loss
+            H_K.all_reduce(op=dist.ReduceOp.AVG)
             H_C.all_reduce(op=op)
 
         # store or update existing quantities (they get flushed in `.step`)
-- 
2.43.0


From e591572cdf1a487891a9b2841b648e3ee59e6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 12/32] fix: use the convolution's padding mode when extracting
 patches

---
 singd/optim/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/singd/optim/utils.py b/singd/optim/utils.py
index 79fa649..6fd7e15 100644
--- a/singd/optim/utils.py
+++ b/singd/optim/utils.py
@@ -162,8 +162,12 @@ def conv2d_process_input(x: Tensor, layer: Conv2d, kfac_approx: str) -> Tensor:
     patch_extractor_fn = (
         _extract_patches if kfac_approx == "expand" else _extract_averaged_patches
     )
+    padding = layer.padding
+    if layer.padding_mode != "zeros":  # explicitly pad like `Conv2d.forward`
+        x = F.pad(x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode)
+        padding = 0
     x = patch_extractor_fn(
-        x, layer.kernel_size, layer.stride, layer.padding, layer.dilation, layer.groups
+        x, layer.kernel_size, layer.stride, padding, layer.dilation, layer.groups
     )
 
     if kfac_approx == "expand":
-- 
2.43.0


From 86339773741ab88fe43209dac1bbabf0efff0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 13/32] fix: allow loading checkpoints with torch.load's
 default weights_only=True

---
 singd/optim/optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index e329fc2..52615b0 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -6,7 +6,7 @@ from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
 from warnings import simplefilter, warn
 
 import torch.distributed as dist
-from torch import Tensor, cat, device, dtype, zeros_like
+from torch import Tensor, cat, device, dtype, serialization, zeros_like
 from torch.nn import Conv2d, Linear, Module, Parameter
 from torch.nn.parallel import DataParallel as DP
 from torch.nn.parallel import DistributedDataParallel as DDP
@@ -903,3 +903,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         for name, value in attributes.items():
             setattr(self, name, value)
+
+
+# Checkpoints contain the pre-conditioner matrices. Allow loading them with
+# `torch.load`, which defaults to `weights_only=True` in recent PyTorch versions.
+if hasattr(serialization, "add_safe_globals"):
+    serialization.add_safe_globals(list(SINGD.SUPPORTED_STRUCTURES.values()))
-- 
2.43.0


From 6a1435d698facdb88ee64845ecb0bff6441c8df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 14/32] fix: reject blocks of wrong size in block-diagonal
 matrices

---
 singd/structures/blockdiagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index a42abc6..62299f5 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -90,7 +90,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             raise ValueError(
                 f"Diagonal blocks must be 3-dimensional, got {blocks.ndim}."
             )
-        if blocks.shape[1] != blocks.shape[2] != self.BLOCK_DIM:
+        if blocks.shape[1:] != (self.BLOCK_DIM, self.BLOCK_DIM):
             raise ValueError(
                 f"Diagonal blocks must be square with dimension {self.BLOCK_DIM},"
                 f" got {blocks.shape[1:]} instead."
-- 
2.43.0


From 47ab335b6675010f8883f5aa9acd7b4486b0f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 15/32] fix: sum lower and upper blocks when extracting
 hierarchical matrices

The naive fall-backs of the base class pass non-symmetric members to
from_dense, e.g. if a hierarchical matrix is part of a recursive one.
---
 singd/structures/hierarchical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 5cb8489..cbbbcf6 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -158,9 +158,12 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         K1, diag_dim, _ = cls._compute_block_dims(dim)
 
         A = sym_mat[:K1, :K1]
-        B = 2 * sym_mat[:K1, K1:]
+        B = sym_mat[:K1, K1:] + sym_mat[K1:, :K1].T
         C = sym_mat.diag()[K1 : K1 + diag_dim]
-        D = 2 * sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+        D = (
+            sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+            + sym_mat[K1 : K1 + diag_dim, K1 + diag_dim :].T
+        )
         E = sym_mat[K1 + diag_dim :, K1 + diag_dim :]
 
         return cls(A, B, C, D, E)
-- 
2.43.0


From 991616d9500c3193290a2f8d81ca74398c203a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 16/32] fix: Frobenius norm of empty block-diagonal and
 hierarchical matrices

---
 singd/structures/blockdiagonal.py | 2 +-
 singd/structures/hierarchical.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index 62299f5..ee8c82b 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -337,7 +337,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             The Frobenius norm of the represented matrix.
         """
         return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
+            cat([t.flatten() for _, t in self.named_tensors()])
         )
 
     ###############################################################################
diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index cbbbcf6..7d003b7 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -364,7 +364,7 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
             The Frobenius norm of the represented matrix.
         """
         return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
+            cat([t.flatten() for _, t in self.named_tensors()])
         )
 
     ###############################################################################
-- 
2.43.0


From eb9ae17e5eade2adbe3345388a9f87e2d8575e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 17/32] fix: identify parameters by object instead of memory
 address

---
 singd/optim/optimizer.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 52615b0..68eb6f7 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -276,7 +276,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[module.weight.data_ptr()]
+        group_idx = self.param_to_group_idx[id(module.weight)]
         return self.param_groups[group_idx][entry]
 
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
@@ -298,7 +298,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                 not in `self.SUPPORTED_STRUCTURES`.
 
         Returns:
-            A dictionary mapping parameter IDs (`.data_ptr()`) to group indices.
+            A dictionary mapping parameter IDs (`id(param)`) to group indices.
         """
         for idx, group in enumerate(self.param_groups):
             # if KFAC-like update is employed, alpha1 will be ignored
@@ -331,10 +331,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         param_to_group_idx = {}
         for group_idx, group in enumerate(self.param_groups):
             for param in group["params"]:
-                param_to_group_idx[param.data_ptr()] = group_idx
+                param_to_group_idx[id(param)] = group_idx
 
         param_ids = [
-            param.data_ptr() for group in self.param_groups for param in group["params"]
+            id(param) for group in self.param_groups for param in group["params"]
         ]
         # check that parameters in a supported module are in the same group
         # all layers that are not containers
@@ -344,9 +344,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             if len(list(m.modules())) == 1 and isinstance(m, self.SUPPORTED_MODULES)
         ]
         for m in modules:
-            m_param_ids = [
-                p.data_ptr() for p in m.parameters() if p.data_ptr() in param_ids
-            ]
+            m_param_ids = [id(p) for p in m.parameters() if id(p) in param_ids]
             m_groups = [param_to_group_idx[p_id] for p_id in m_param_ids]
             if len(set(m_groups)) not in [0, 1]:
                 raise ValueError(
@@ -653,14 +651,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             Mapping from hooked modules to their names and list of the installed hooks'
             handles.
         """
-        param_ids = [
-            p.data_ptr() for group in self.param_groups for p in group["params"]
-        ]
+        param_ids = [id(p) for group in self.param_groups for p in group["params"]]
         module_names = {
             mod: name
             for (name, mod) in model.named_modules()
             if isinstance(mod, self.SUPPORTED_MODULES)
-            and any(p.data_ptr() in param_ids for p in mod.parameters())
+            and any(id(p) in param_ids for p in mod.parameters())
         }
         handles = [
             module.register_forward_hook(
@@ -805,7 +801,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
                 # only train parameters that were specified by the user
-                if p.data_ptr() not in self.param_to_group_idx:
+                if id(p) not in self.param_to_group_idx:
                     continue
                 p_step = p_nat_grad
 
-- 
2.43.0


From 5b9245236c51d755339b5a2e7afe9a52dcb66dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 18/32] fix: look up a layer's parameter group independent of
 its current weight

---
 singd/optim/optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 68eb6f7..ce9963b 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -239,6 +239,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         self.param_to_group_idx = self._check_param_groups(model)
         # layers whose parameters will be updated
         self.module_names, self.hook_handles = self._install_hooks(model)
+        # NOTE A layer's parameters that are trained are all in the same group
+        self.module_to_group_idx = {
+            module: self.param_to_group_idx[id(p)]
+            for module in self.module_names
+            for p in module.parameters()
+            if id(p) in self.param_to_group_idx
+        }
 
         # NOTE We use the module names (strings) as keys as they don't change when a
         # model is loaded from a checkpoint (unlike the module objects themselves).
@@ -276,7 +283,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[id(module.weight)]
+        group_idx = self.module_to_group_idx[module]
         return self.param_groups[group_idx][entry]
 
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
-- 
2.43.0


From c41ae6bf222b63c3e7afc7f32455a99049d81471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 19/32] fix: train layers whose weight or bias is frozen

---
 singd/optim/optimizer.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index ce9963b..f768429 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -689,15 +689,20 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             NotImplementedError: If the layer is not supported.
         """
         # 1) CONCATENATE GRADIENTS OF WEIGHT AND BIAS AND RESHAPE INTO MATRIX
+        # NOTE Frozen parameters do not have a gradient
+        weight_grad, bias_grad = (
+            None if p is None else zeros_like(p.data) if p.grad is None else p.grad.data
+            for p in (module.weight, module.bias)
+        )
         if isinstance(module, Conv2d):
-            grad_mat = module.weight.grad.data.flatten(start_dim=1)
+            grad_mat = weight_grad.flatten(start_dim=1)
         elif isinstance(module, Linear):
-            grad_mat = module.weight.grad.data
+            grad_mat = weight_grad
         else:
             raise NotImplementedError(f"Can't get matrix gradient of {module}")
 
         if module.bias is not None:
-            grad_mat = cat([grad_mat, module.bias.grad.data.unsqueeze(1)], dim=1)
+            grad_mat = cat([grad_mat, bias_grad.unsqueeze(1)], dim=1)
 
         # un-scale gradients
         grad_scale = self._get_grad_scale(self.steps)
@@ -793,13 +798,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
     def _step(self):
         """Compute natural gradients and update parameters."""
         for module in self.module_names:
-            if module.weight.grad is None:  # not part of the backpropagated graph
-                continue
-            self._update_preconditioner(module)
-            natural_gradients = self._compute_natural_gradient(module)
             parameters = (
                 [module.weight] if module.bias is None else [module.weight, module.bias]
             )
+            # not part of the backpropagated graph
+            if all(p.grad is None for p in parameters):
+                continue
+            self._update_preconditioner(module)
+            natural_gradients = self._compute_natural_gradient(module)
 
             # hyper-parameters for group containing module
             weight_decay = self._get_param_group_entry(module, "weight_decay")
@@ -807,8 +813,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
-                # only train parameters that were specified by the user
-                if id(p) not in self.param_to_group_idx:
+                # only train parameters that were specified by the user and not frozen
+                if id(p) not in self.param_to_group_idx or p.grad is None:
                     continue
                 p_step = p_nat_grad
 
-- 
2.43.0


From 51af43457ec912b345492ff17dbf371fafb47b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 20/32] fix: do not crash in the forward pass of copied models

---
 singd/optim/optimizer.py | 43 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index f768429..dba93d9 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -1,5 +1,7 @@
 """Implements structured inverse-free KFAC."""
 
+from __future__ import annotations
+
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
@@ -666,9 +668,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             and any(id(p) in param_ids for p in mod.parameters())
         }
         handles = [
-            module.register_forward_hook(
-                self._register_tensor_hook_on_output_to_accumulate_H_terms
-            )
+            module.register_forward_hook(_ForwardHook(self))
             for module in module_names
         ]
         return module_names, handles
@@ -914,6 +914,43 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             setattr(self, name, value)
 
 
+class _ForwardHook:
+    """Forward hook of the layers that are trained by an optimizer.
+
+    Copies, for instance made by `copy.deepcopy(model)`, do nothing because a copied
+    layer is not trained by the optimizer.
+    """
+
+    def __init__(self, optimizer: Union[SINGD, None] = None):
+        """Store the optimizer.
+
+        Args:
+            optimizer: The optimizer that trains the layer. `None` for copies.
+        """
+        self.optimizer = optimizer
+
+    def __call__(self, module: Module, inputs: Tuple[Tensor], output: Tensor):
+        """Let the optimizer handle the forward pass.
+
+        Args:
+            module: The layer.
+            inputs: The layer's input tensors.
+            output: The layer's output tensor.
+        """
+        if self.optimizer is not None:
+            self.optimizer._register_tensor_hook_on_output_to_accumulate_H_terms(
+                module, inputs, output
+            )
+
+    def __reduce__(self) -> Tuple[Type[_ForwardHook], Tuple]:
+        """Do not copy or pickle the optimizer together with the layer.
+
+        Returns:
+            How to create a copy.
+        """
+        return _ForwardHook, ()
+
+
 # Checkpoints contain the pre-conditioner matrices. Allow loading them with
 # `torch.load`, which defaults to `weights_only=True` in recent PyTorch versions.
 if hasattr(serialization, "add_safe_globals"):
-- 
2.43.0


From de0db94c800d72a6d0083af24f312c27542d0c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 21/32] fix: support layer inputs that are passed as keyword
 arguments

---
 singd/optim/optimizer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index dba93d9..8ef3c08 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -668,7 +668,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             and any(id(p) in param_ids for p in mod.parameters())
         }
         handles = [
-            module.register_forward_hook(_ForwardHook(self))
+            module.register_forward_hook(_ForwardHook(self), with_kwargs=True)
             for module in module_names
         ]
         return module_names, handles
@@ -929,17 +929,24 @@ class _ForwardHook:
         """
         self.optimizer = optimizer
 
-    def __call__(self, module: Module, inputs: Tuple[Tensor], output: Tensor):
+    def __call__(
+        self,
+        module: Module,
+        inputs: Tuple[Tensor],
+        kwargs: Dict[str, Tensor],
+        output: Tensor,
+    ):
         """Let the optimizer handle the forward pass.
 
         Args:
             module: The layer.
             inputs: The layer's input tensors.
+            kwargs: The layer's inputs that were passed as keyword arguments.
             output: The layer's output tensor.
         """
         if self.optimizer is not None:
             self.optimizer._register_tensor_hook_on_output_to_accumulate_H_terms(
-                module, inputs, output
+                module, inputs or tuple(kwargs.values()), output
             )
 
     def __reduce__(self) -> Tuple[Type[_ForwardHook], Tuple]:
-- 
2.43.0


From f518d9104270f70a5b5d4eaf27ae3a2e78c0dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 22/32] fix: support inputs without batch axis

---
 singd/optim/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 8ef3c08..e4baebe 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -609,11 +609,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         # 1) PROCESS INPUTS AND GRAD_OUTPUTS
         a = inputs[0].data.to(dtype_K)
+        g = grad_output.data.to(dtype_C)
+        # Inputs without batch axis are mini-batches of size one
+        if a.ndim == (3 if isinstance(module, Conv2d) else 1):
+            a, g = a.unsqueeze(0), g.unsqueeze(0)
         # Process into matrix according to kfac_approx
         # For convolutions, unfold the input, for modules with bias terms, append a 1
         a = process_input(a, module, kfac_approx)
 
-        g = grad_output.data.to(dtype_C)
         # Process into matrix according to kfac_approx, add scaling from batch average
         g = process_grad_output(g, module, loss_average, kfac_approx)
 
-- 
2.43.0


From c4c7ab9eedcb2b01431b018c50a288e7fd93e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 23/32] fix: multiply Toeplitz matrices with matrices without
 columns

---
 singd/structures/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/singd/structures/utils.py b/singd/structures/utils.py
index 2ed041b..2544cb6 100644
--- a/singd/structures/utils.py
+++ b/singd/structures/utils.py
@@ -106,6 +106,9 @@ def toeplitz_matmul(coeffs: Tensor, mat: Tensor) -> Tensor:
     num_cols = mat.shape[1]
     padding = num_rows - 1
 
+    if num_cols == 0:  # convolutions require at least one channel
+        return mat.clone()
+
     # columns act as channels
     conv_input = mat.T
     conv_weight = coeffs.unsqueeze(0).unsqueeze(0).expand(num_cols, -1, -1)
-- 
2.43.0


From e8352ce32dd3cb4f5b253208f857629d454989b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 24/32] fix: discard the statistics of layers that are skipped
 in a step

---
 singd/optim/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index e4baebe..ae7d46f 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -806,6 +806,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             )
             # not part of the backpropagated graph
             if all(p.grad is None for p in parameters):
+                # do not use the statistics of a frozen layer in a later step
+                self.H_Ks.pop(self.module_names[module], None)
+                self.H_Cs.pop(self.module_names[module], None)
                 continue
             self._update_preconditioner(module)
             natural_gradients = self._compute_natural_gradient(module)
-- 
2.43.0


From bfa44b76c65a0f3a06e81a876e27c3a8282d3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 25/32] fix: reject negative hyper-parameters of parameter
 groups

---
 singd/optim/optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index ae7d46f..ee0d1c0 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -298,6 +298,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             model: The model whose layers will be checked.
 
         Raises:
+            ValueError: If any of the learning rate and momentum parameters
+                (`lr, lr_cov, alpha1, momentum, weight_decay`) is negative for any
+                param group.
             ValueError: If `kfac_approx` for any param group is not
                 `'expand'` or `'reduce'`.
             ValueError: If parameters in a supported layer are in different groups.
@@ -310,6 +313,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             A dictionary mapping parameter IDs (`id(param)`) to group indices.
         """
         for idx, group in enumerate(self.param_groups):
+            for name in ["lr", "lr_cov", "alpha1", "momentum", "weight_decay"]:
+                if not callable(group[name]) and group[name] < 0.0:
+                    raise ValueError(f"{name} must be positive. Got {group[name]}")
             # if KFAC-like update is employed, alpha1 will be ignored
             if group["kfac_like"] and group["alpha1"] != 0.0:
                 warn(
-- 
2.43.0


From d051feb2be8b8c290cdd0bbd581a14e3d98fd6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 26/32] fix: compute Frobenius norms of recursive structures
 without squares

---
 singd/structures/recursive.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/singd/structures/recursive.py b/singd/structures/recursive.py
index f9d6225..99368ad 100644
--- a/singd/structures/recursive.py
+++ b/singd/structures/recursive.py
@@ -4,7 +4,8 @@ from __future__ import annotations
 
 from typing import Iterator, List, Tuple, Type, Union
 
-from torch import Tensor, block_diag
+from torch import Tensor, block_diag, stack
+from torch.linalg import vector_norm
 
 from singd.structures.base import StructuredMatrix
 
@@ -73,13 +74,12 @@ class RecursiveStructuredMatrix(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        fro_squared = sum(
-            (t**2).sum() for _, t in self.named_tensors(include_substructures=False)
-        )
-        fro_squared_sub = sum(
-            s.frobenius_norm() ** 2 for _, s in self.named_substructures()
-        )
-        return (fro_squared + fro_squared_sub).sqrt()
+        # NOTE Squares may under- or overflow in half precision
+        norms = [
+            vector_norm(t) for _, t in self.named_tensors(include_substructures=False)
+        ]
+        norms.extend(s.frobenius_norm() for _, s in self.named_substructures())
+        return vector_norm(stack(norms))
 
 
 class RecursiveTopRightMatrixTemplate(RecursiveStructuredMatrix):
-- 
2.43.0


From 5368b80c6d381690bfb42556c4608320e7dc96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 27/32] fix: name naive operations in warnings like the methods

---
 singd/structures/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index c76c628..71ac257 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -321,7 +321,7 @@ class StructuredMatrix(ABC):
         Returns:
             The average trace of the represented matrix.
         """
-        self._warn_naive_implementation("trace")
+        self._warn_naive_implementation("average_trace")
         return self.to_dense().diag().mean()
 
     def diag_add_(self, value: float) -> StructuredMatrix:
@@ -390,7 +390,7 @@ class StructuredMatrix(ABC):
         Returns:
             A structured matrix representing the zero matrix.
         """
-        cls._warn_naive_implementation("zero")
+        cls._warn_naive_implementation("zeros")
         return cls.from_dense(zeros((dim, dim), dtype=dtype, device=device))
 
     @classmethod
-- 
2.43.0


From 0c3648ed6603c4cccee985bd4e74409199707989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 28/32] fix: round recursive Frobenius norms only once per
 substructure

Follow-up of d051feb, which broke two existing tests by also rounding the
norms of the dense blocks.
---
 singd/structures/recursive.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/singd/structures/recursive.py b/singd/structures/recursive.py
index 99368ad..e0df860 100644
--- a/singd/structures/recursive.py
+++ b/singd/structures/recursive.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import Iterator, List, Tuple, Type, Union
 
-from torch import Tensor, block_diag, stack
+from torch import Tensor, block_diag, cat
 from torch.linalg import vector_norm
 
 from singd.structures.base import StructuredMatrix
@@ -75,11 +75,13 @@ class RecursiveStructuredMatrix(StructuredMatrix):
             The Frobenius norm of the represented matrix.
         """
         # NOTE Squares may under- or overflow in half precision
-        norms = [
-            vector_norm(t) for _, t in self.named_tensors(include_substructures=False)
+        entries = [
+            t.flatten() for _, t in self.named_tensors(include_substructures=False)
         ]
-        norms.extend(s.frobenius_norm() for _, s in self.named_substructures())
-        return vector_norm(stack(norms))
+        entries.extend(
+            s.frobenius_norm().unsqueeze(0) for _, s in self.named_substructures()
+        )
+        return vector_norm(cat(entries))
 
 
 class RecursiveTopRightMatrixTemplate(RecursiveStructuredMatrix):
-- 
2.43.0


From fde9072ab03b387145136c288008ab94199103ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 29/32] fix: do not overflow when projecting half precision
 matrices onto Toeplitz

---
 singd/structures/triltoeplitz.py | 19 +++++++++++++------
 singd/structures/triutoeplitz.py | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/singd/structures/triltoeplitz.py b/singd/structures/triltoeplitz.py
index dd29863..1f4a242 100644
--- a/singd/structures/triltoeplitz.py
+++ b/singd/structures/triltoeplitz.py
@@ -5,12 +5,17 @@ from __future__ import annotations
 from typing import Union
 
 import torch
-from torch import Tensor, arange, cat, zeros
+from torch import Tensor, arange, cat, float32, zeros
 from torch.linalg import vector_norm
 from torch.nn.functional import conv1d, pad
 
 from singd.structures.base import StructuredMatrix
-from singd.structures.utils import all_traces, lowest_precision, toeplitz_matmul
+from singd.structures.utils import (
+    all_traces,
+    is_half_precision,
+    lowest_precision,
+    toeplitz_matmul,
+)
 
 
 class TrilToeplitzMatrix(StructuredMatrix):
@@ -67,20 +72,22 @@ class TrilToeplitzMatrix(StructuredMatrix):
             `TrilToeplitzMatrix` approximating the passed matrix.
         """
         assert mat.shape[0] == mat.shape[1]
-        traces = all_traces(mat)
+        # NOTE The sums over diagonals may overflow in half precision
+        compute_dtype = float32 if is_half_precision(mat.dtype) else mat.dtype
+        traces = all_traces(mat.to(compute_dtype))
 
         # sum the lower- and upper-diagonal traces
         dim = mat.shape[0]
-        col = zeros(dim, dtype=mat.dtype, device=mat.device)
+        col = zeros(dim, dtype=compute_dtype, device=mat.device)
         idx_main = dim - 1
         col[0] += traces[idx_main]
         col[1:] += traces[idx_main + 1 :]
         col[1:] += traces[:idx_main].flip(0)
 
-        normalization = arange(dim, 0, step=-1, dtype=mat.dtype, device=mat.device)
+        normalization = arange(dim, 0, step=-1, dtype=compute_dtype, device=mat.device)
         col.div_(normalization)
 
-        return cls(col)
+        return cls(col.to(mat.dtype))
 
     def to_dense(self) -> Tensor:
         """Convert into dense PyTorch tensor.
diff --git a/singd/structures/triutoeplitz.py b/singd/structures/triutoeplitz.py
index 1a6205d..eb50be4 100644
--- a/singd/structures/triutoeplitz.py
+++ b/singd/structures/triutoeplitz.py
@@ -5,12 +5,17 @@ from __future__ import annotations
 from typing import Union
 
 import torch
-from torch import Tensor, arange, cat, triu_indices, zeros
+from torch import Tensor, arange, cat, float32, triu_indices, zeros
 from torch.linalg import vector_norm
 from torch.nn.functional import conv1d, pad
 
 from singd.structures.base import StructuredMatrix
-from singd.structures.utils import all_traces, lowest_precision, toeplitz_matmul
+from singd.structures.utils import (
+    all_traces,
+    is_half_precision,
+    lowest_precision,
+    toeplitz_matmul,
+)
 
 
 class TriuToeplitzMatrix(StructuredMatrix):
@@ -67,20 +72,22 @@ class TriuToeplitzMatrix(StructuredMatrix):
             ``TriuToeplitzMatrix`` approximating the passed matrix.
         """
         assert mat.shape[0] == mat.shape[1]
-        traces = all_traces(mat)
+        # NOTE The sums over diagonals may overflow in half precision
+        compute_dtype = float32 if is_half_precision(mat.dtype) else mat.dtype
+        traces = all_traces(mat.to(compute_dtype))
 
         # sum the lower- and upper-diagonal traces
         dim = mat.shape[0]
-        row = zeros(dim, dtype=mat.dtype, device=mat.device)
+        row = zeros(dim, dtype=compute_dtype, device=mat.device)
         idx_main = dim - 1
         row[0] += traces[idx_main]
         row[1:] += traces[idx_main + 1 :]
         row[1:] += traces[:idx_main].flip(0)
 
-        normalization = arange(dim, 0, step=-1, dtype=mat.dtype, device=mat.device)
+        normalization = arange(dim, 0, step=-1, dtype=compute_dtype, device=mat.device)
         row.div_(normalization)
 
-        return cls(row)
+        return cls(row.to(mat.dtype))
 
     def to_dense(self) -> Tensor:
         """Convert into dense PyTorch tensor.
-- 
2.43.0


From 36995b4181eb5053bc3aff5f8609a14e3af10671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:20 +0000
Subject: [PATCH 30/32] fix: Riemannian momentum that is switched on during
 training

Setting a parameter group's alpha1 from zero to a non-zero value during training
raised a KeyError in the middle of the step, because momenta are only created at
construction. Like parameter momenta, they now start at zero.
---
 singd/optim/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index ee0d1c0..91b8baa 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -540,8 +540,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         # 2) APPLY UPDATE
         if alpha1 != 0.0:
-            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
-            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
+            # NOTE There are no momenta yet if `alpha1` was zero before
+            if module_name in self.m_Ks:
+                new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
+                new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
             self.m_Cs[module_name] = new_m_C
             self.m_Ks[module_name] = new_m_K
 
-- 
2.43.0


From 475c7045dbab11971fc181c4c1d032e7a5f36667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:07 +0000
Subject: [PATCH 31/32] fix: Toeplitz average_trace does not share memory with
 the matrix

---
 singd/structures/triltoeplitz.py | 2 +-
 singd/structures/triutoeplitz.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/triltoeplitz.py b/singd/structures/triltoeplitz.py
index 1f4a242..f834cde 100644
--- a/singd/structures/triltoeplitz.py
+++ b/singd/structures/triltoeplitz.py
@@ -185,7 +185,7 @@ class TrilToeplitzMatrix(StructuredMatrix):
         Returns:
             The average trace of the represented matrix.
         """
-        return self._lower_diags[0]
+        return self._lower_diags[0].clone()
 
     def diag_add_(self, value: float) -> TrilToeplitzMatrix:
         """In-place add a value to the diagonal of the represented matrix.
diff --git a/singd/structures/triutoeplitz.py b/singd/structures/triutoeplitz.py
index eb50be4..e4b7dde 100644
--- a/singd/structures/triutoeplitz.py
+++ b/singd/structures/triutoeplitz.py
@@ -183,7 +183,7 @@ class TriuToeplitzMatrix(StructuredMatrix):
         Returns:
             The average trace of the represented matrix.
         """
-        return self._upper_diags[0]
+        return self._upper_diags[0].clone()
 
     def diag_add_(self, value: float) -> TriuToeplitzMatrix:
         """In-place add a value to the diagonal of the represented matrix.
-- 
2.43.0


From 7155c1421f1b6fa11ef9a3d625ca3d46f0c1fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 32/32] fix: do not crash when models with derived layers are
 traced symbolically

---
 singd/optim/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 91b8baa..ac8b44a 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -958,7 +958,8 @@ class _ForwardHook:
             kwargs: The layer's inputs that were passed as keyword arguments.
             output: The layer's output tensor.
         """
-        if self.optimizer is not None:
+        # NOTE Layers are called with proxies instead of tensors when they are traced
+        if self.optimizer is not None and isinstance(output, Tensor):
             self.optimizer._register_tensor_hook_on_output_to_accumulate_H_terms(
                 module, inputs or tuple(kwargs.values()), output
             )
-- 
2.43.0

