From 14fb54a0c70ad7fae2af6aa9c725628a486633fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 01/71] fix: partial_param must not overwrite the caller's
 parameter dict

---
 dattri/func/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ba58561..ab9742f 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -309,14 +309,16 @@ def partial_param(
         @functools.wraps(function)
         def _function_partial(*args, **kwargs: Dict[str, Any]) -> torch.Tensor:
             new_args = list(args)
+            # work on a shallow copy so that the caller's parameters stay intact
+            merged_param = dict(full_param)
             index_counter = 0
             for layer in layer_name:
-                length_param = full_param[layer].numel()
-                full_param[layer] = new_args[param_num][
+                length_param = merged_param[layer].numel()
+                merged_param[layer] = new_args[param_num][
                     index_counter : index_counter + length_param
                 ]
                 index_counter += length_param
-            new_args[param_num] = flatten_params(full_param)
+            new_args[param_num] = flatten_params(merged_param)
             return function(*new_args, **kwargs)
 
         return _function_partial
-- 
2.43.0


From 1b97988f98fdd1d651b0758c788d3cf8c94052a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 02/71] fix: accept a single layer name given as a string

---
 dattri/func/utils.py | 2 ++
 dattri/task.py       | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ab9742f..29c9d24 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -294,6 +294,8 @@ def partial_param(
         (Callable): A decorator that edit a function from taking full parameter to
             partial parameter.
     """
+    if isinstance(layer_name, str):
+        layer_name = [layer_name]
 
     def partial_param_wrapper(function: Callable) -> Callable:
         """A wrapper function that edit the parameter from full to partial.
diff --git a/dattri/task.py b/dattri/task.py
index fc57f3c..0152551 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -425,6 +425,9 @@ class AttributionTask:
         """
         self._load_checkpoints(ckpt_idx)
 
+        if isinstance(layer_name, str):
+            layer_name = [layer_name]
+
         if layer_name is not None:
             named_parameters = {
                 k: self.named_parameters[k]
-- 
2.43.0


From 03a289df9cf318efb07494e31674ee9bfbc1e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 03/71] fix: CG inverse-HVP honours tol instead of dividing by
 a zero residual

---
 dattri/func/hessian.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index f2fc444..efffde7 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -400,7 +400,7 @@ def ihvp_at_x_cg(
     *x,
     argnums: int = 0,
     max_iter: int = 10,
-    tol: float = 1e-7,  # noqa: ARG001
+    tol: float = 1e-7,
     mode: str = "rev-rev",
     regularization: float = 0.0,
 ) -> Callable:
@@ -470,16 +470,23 @@ def ihvp_at_x_cg(
             d = d_pre = g_pre
 
             for _ in range(max_iter):
-                # TODO: add tol for residual, it has not been supported by vmap.
-                # https://pytorch.org/docs/main/generated/torch.cond.html#torch.cond
-                # Still in prototype stage.
+                # vmap does not support data-dependent control flow, so a vector
+                # whose residual norm is below tol is frozen by a zero step.
+                g_dot = torch.dot(g_pre, d_pre)
+                active = g_dot > tol**2
 
                 ad = hvp_at_x_func(d)
-                alpha = torch.dot(g_pre, d_pre) / torch.dot(d, ad)
+                d_ad = torch.where(active, torch.dot(d, ad), torch.ones_like(g_dot))
+                alpha = torch.where(active, g_dot / d_ad, torch.zeros_like(g_dot))
                 ihvp_res += alpha * d
                 g = g_pre - alpha * ad
 
-                beta = torch.dot(g, g) / torch.dot(g_pre, g_pre)
+                g_dot = torch.where(active, g_dot, torch.ones_like(g_dot))
+                beta = torch.where(
+                    active,
+                    torch.dot(g, g) / g_dot,
+                    torch.zeros_like(g_dot),
+                )
 
                 g_pre = d_pre = g
                 d = g + beta * d
-- 
2.43.0


From 4e929bffc126da191f3f8139479c2d3485e94e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 04/71] fix: Arnoldi cache accepts tuple/dict batches and
 leaves loader batches alone

---
 dattri/algorithm/influence_function.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0033745..a1887bd 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -390,24 +390,18 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
                 break
             data_target_pair_list.append(batch)
 
-        # concatenate all data
-        data_target_pair = data_target_pair_list[0]
-        for batch_idx in range(1, len(data_target_pair_list)):
-            for data_item_idx in range(len(data_target_pair_list[0])):
-                data_target_pair[data_item_idx] = torch.cat(
-                    (
-                        data_target_pair[data_item_idx],
-                        data_target_pair_list[batch_idx][data_item_idx],
-                    ),
-                    dim=0,
-                )
-
-        # to device (only once for all data)
-        for data_item_idx in range(len(data_target_pair)):
-            data_target_pair[data_item_idx] = data_target_pair[data_item_idx].to(
+        # concatenate all data and move to device, without touching the batches
+        def _concat(key: Union[int, str]) -> Tensor:
+            return torch.cat([batch[key] for batch in data_target_pair_list], dim=0).to(
                 self.device,
             )
 
+        first_batch = data_target_pair_list[0]
+        if isinstance(first_batch, dict):
+            data_target_pair = {key: _concat(key) for key in first_batch}
+        else:
+            data_target_pair = [_concat(idx) for idx in range(len(first_batch))]
+
         from dattri.func.projection import arnoldi_project
 
         for i in range(len(self.task.get_checkpoints())):
-- 
2.43.0


From 0060d0fc2009237498d5e9c153b2c38c18223791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 05/71] fix: LiSSA attributor supports dictionary batches

---
 dattri/algorithm/influence_function.py | 28 +++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index a1887bd..414ee18 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -570,9 +570,18 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
                 )
                 raise TypeError(msg)
 
+            collate_fn = IFAttributorLiSSA.lissa_collate_fn
+            if isinstance(full_data, dict):
+                # LiSSA samples from a flat list of tensors, restore the keys after
+                collate_fn = partial(
+                    IFAttributorLiSSA.lissa_dict_collate_fn,
+                    tuple(full_data.keys()),
+                )
+                full_data = tuple(full_data.values())
+
             self.ihvp_func = ihvp_lissa(
                 self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),
-                collate_fn=IFAttributorLiSSA.lissa_collate_fn,
+                collate_fn=collate_fn,
                 **self.transformation_kwargs,
             )
             vector_product += self.ihvp_func(
@@ -599,6 +608,23 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
             tuple(sampled_input[i].float() for i in range(1, len(sampled_input))),
         )
 
+    @staticmethod
+    def lissa_dict_collate_fn(
+        keys: Tuple[str, ...],
+        sampled_input: List[Tensor],
+    ) -> Tuple[Tensor, dict]:
+        """Collate function for LISSA when the batches are dictionaries.
+
+        Args:
+            keys (Tuple[str, ...]): The keys of the batch, in the order of the inputs.
+            sampled_input (List[Tensor]): The sampled input from the dataloader.
+
+        Returns:
+            Tuple[Tensor, dict]: The collated input for the LISSA.
+        """
+        params, values = IFAttributorLiSSA.lissa_collate_fn(sampled_input)
+        return params, dict(zip(keys, values))
+
     def _compute_denom(
         self,
         ckpt_idx: int,
-- 
2.43.0


From 07075ab763112bec32d740e2047cbc491e653fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/71] fix: parameters handed out for one checkpoint survive
 loading another

---
 dattri/task.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dattri/task.py b/dattri/task.py
index 0152551..6955ca5 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -175,6 +175,13 @@ class AttributionTask:
             self.named_parameters = {
                 k: p for k, p in self.model.named_parameters() if p.requires_grad
             }
+            if len(self.checkpoints) > 1:
+                # The live parameters are overwritten when another checkpoint is
+                # loaded, which must not affect what was handed out before.
+                self.named_parameters = {
+                    k: p.detach().clone().requires_grad_()
+                    for k, p in self.named_parameters.items()
+                }
 
     @staticmethod
     def _generate_param_layer_map(
-- 
2.43.0


From 4658bdabae7b9bcad85b265accce2365879b6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 07/71] fix: rev-fwd HVP no longer needs zero tangents for the
 other arguments

---
 dattri/func/hessian.py | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index efffde7..7267dfb 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -105,18 +105,12 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            if len(x) > 1:
-                v_patched = []
-                for i in range(len(x)):
-                    if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
-                    else:
-                        v_patched.append(v)
-                v_patched = tuple(v_patched)
-            else:
-                v_patched = (v,)
 
-            return jvp(grad_func, x, v_patched)[1] + regularization * v
+            # only the argument in question is perturbed, the others are constants
+            def _grad_at(x_i: Tensor) -> Tensor:
+                return grad_func(*x[:argnums], x_i, *x[argnums + 1 :])
+
+            return jvp(_grad_at, (x[argnums],), (v,))[1] + regularization * v
 
     return _hvp_func
 
@@ -190,12 +184,6 @@ def hvp_at_x(
             """
             return vjp_fn(v)[argnums] + regularization * v
     else:
-        # patch the v, make zero for other input
-        # e.g.,
-        # if argnums = 1, and len(x) = 3, then it should be patched to
-        # [torch.zeros(*x[0].shape),
-        # v,
-        # torch.zeros(*x[2].shape)]
         def _hvp_at_x_func(v: Tensor) -> Tensor:
             """The HVP function based on func.
 
@@ -206,17 +194,12 @@ def hvp_at_x(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            if len(x) > 1:
-                v_patched = []
-                for i in range(len(x)):
-                    if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
-                    else:
-                        v_patched.append(v)
-                v_patched = tuple(v_patched)
-            else:
-                v_patched = (v,)
-            return jvp(grad_func, x, v_patched)[1] + regularization * v
+
+            # only the argument in question is perturbed, the others are constants
+            def _grad_at(x_i: Tensor) -> Tensor:
+                return grad_func(*x[:argnums], x_i, *x[argnums + 1 :])
+
+            return jvp(_grad_at, (x[argnums],), (v,))[1] + regularization * v
 
     return _hvp_at_x_func
 
-- 
2.43.0


From b9053c01ee5eead4a3d78e9fad2341f804b180d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 08/71] fix: DataInf splits representations by the selected
 layers

---
 dattri/algorithm/influence_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 414ee18..6788549 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -859,6 +859,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
         """
         model_params, param_layer_map = self.task.get_param(
             ckpt_idx,
+            layer_name=self.layer_name,
             layer_split=True,
         )
         split_index = [0] * (param_layer_map[-1] + 1)
-- 
2.43.0


From 0056a4f9cd2c5e2d1e3101eef25ef2d2af0d702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 09/71] fix: EK-FAC packs weight and bias of a layer as one
 matrix

---
 dattri/algorithm/influence_function.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 6788549..c687c28 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1089,16 +1089,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
 
         for name in self.module_name:
             if self.name_to_module[name].bias is not None:
-                dim_out = layer_test_rep[name + ".weight"].shape[1]
-                dim_in = layer_test_rep[name + ".weight"].shape[2] + 1
+                # the bias is the last input column of the weight matrix
                 _v = torch.cat(
                     [
-                        layer_test_rep[name + ".weight"].flatten(start_dim=1),
-                        layer_test_rep[name + ".bias"].flatten(start_dim=1),
+                        layer_test_rep[name + ".weight"],
+                        layer_test_rep[name + ".bias"].unsqueeze(-1),
                     ],
                     dim=-1,
                 )
-                _v = _v.reshape(-1, dim_out, dim_in)
             else:
                 _v = layer_test_rep[name + ".weight"]
 
@@ -1106,7 +1104,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             q_a, q_s = self.cached_q[name]
 
             _ifvp = q_s.T @ ((q_s @ _v @ q_a.T) / (_lambda + self.damping)) @ q_a
-            ifvp[name] = _ifvp.flatten(start_dim=1)
+            if self.name_to_module[name].bias is not None:
+                # Back to the layout of the parameters: weight followed by bias
+                ifvp[name] = torch.cat(
+                    [_ifvp[:, :, :-1].flatten(start_dim=1), _ifvp[:, :, -1]],
+                    dim=1,
+                )
+            else:
+                ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
         transformed_test_rep_layers = [ifvp[name] for name in self.module_name]
-- 
2.43.0


From f3e6955c66256342d9bda7a62a705cf8de0d302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 10/71] fix: EK-FAC rotates into the eigenbasis instead of out
 of it

---
 dattri/func/fisher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index fe879dd..35803fe 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -468,7 +468,8 @@ def estimate_eigenvector(
     for layer_name, (cov_a, cov_s) in covariances.items():
         _, q_a = torch.linalg.eigh(cov_a, UPLO="U")
         _, q_s = torch.linalg.eigh(cov_s, UPLO="U")
-        cached_q[layer_name] = (q_a, q_s)
+        # eigenvectors are stored as rows, which is what the rotations expect
+        cached_q[layer_name] = (q_a.T, q_s.T)
 
     return cached_q
 
-- 
2.43.0


From ec41ff46f5662451f2d70da33d0761e98c90ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 11/71] fix: EK-FAC statistics for sequential layer inputs

---
 dattri/func/fisher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 35803fe..683c6af 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -266,6 +266,8 @@ def _update_covariance(
         # t = 1 if the given input is not sequential
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
+        else:
+            a_prev = a_prev_raw
 
         a_prev_masked = a_prev * mask[..., None].to(a_prev.device)
 
@@ -338,6 +340,8 @@ def _update_lambda(
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
             ds_curr = ds_curr.unsqueeze(1)
+        else:
+            a_prev = a_prev_raw
 
         a_prev_masked = a_prev * mask[..., None].to(a_prev.device)
 
-- 
2.43.0


From 30f36aed392e3792bfa3e88d8211599c34b10a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 12/71] fix: EK-FAC cache supports dictionary batches

---
 dattri/func/fisher.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 683c6af..71464e6 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -424,8 +424,12 @@ def estimate_covariance(
     covariances = {}
     total_samples = 0  # record total number of samples
     for i, batch in enumerate(dataloader):
-        batch_size = batch[0].shape[0]
-        batch_data = tuple(data.to(device) for data in batch)
+        if isinstance(batch, dict):
+            batch_data = {k: data.to(device) for k, data in batch.items()}
+            batch_size = next(iter(batch_data.values())).shape[0]
+        else:
+            batch_data = tuple(data.to(device) for data in batch)
+            batch_size = batch_data[0].shape[0]
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
@@ -520,8 +524,12 @@ def estimate_lambda(
     lambdas = {}
     total_samples = 0  # record total number of samples
     for i, batch in enumerate(dataloader):
-        batch_size = batch[0].shape[0]
-        batch_data = tuple(data.to(device) for data in batch)
+        if isinstance(batch, dict):
+            batch_data = {k: data.to(device) for k, data in batch.items()}
+            batch_size = next(iter(batch_data.values())).shape[0]
+        else:
+            batch_data = tuple(data.to(device) for data in batch)
+            batch_size = batch_data[0].shape[0]
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-- 
2.43.0


From 1ecd4b8ea2b2d219610d141d96abe2af95fa467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/71] fix: EK-FAC estimates the FIM on the loss and leaves
 model gradients alone

---
 dattri/algorithm/influence_function.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index c687c28..298ea94 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1014,7 +1014,12 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             mod = self.task.model.get_submodule(name)
             handles.append(mod.register_forward_hook(_ekfac_hook))
 
-        func = partial(self.task.get_target_func(), self.task.get_param()[0])
+        # The FIM is estimated on the loss. Differentiating a detached copy of the
+        # parameters keeps the gradients out of the model.
+        func = partial(
+            self.task.get_loss_func(),
+            self.task.get_param()[0].detach().requires_grad_(),
+        )
         # 1. Use random batch to estimate covariance matrices S and A
         cov_matrices = estimate_covariance(
             func,
-- 
2.43.0


From fc2143c6d2fbb0744276559dbc75b45c85750c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/71] fix: explicit FIM is the outer product of the gradient

---
 dattri/func/fisher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 71464e6..3f07a4d 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -73,7 +73,7 @@ def ifvp_explicit(
         """
         grad_tensor = grad_func(*x)
         return torch.linalg.solve(
-            grad_tensor @ grad_tensor.T
+            torch.outer(grad_tensor, grad_tensor)
             + torch.eye(grad_tensor.shape[0]).to(v.device) * regularization,
             v.T,
         ).T
@@ -116,7 +116,7 @@ def ifvp_at_x_explicit(
         of `func` and `v`.
     """
     grad_tensor = grad(func, argnums=argnums)(*x)
-    fim = grad_tensor @ grad_tensor.T
+    fim = torch.outer(grad_tensor, grad_tensor)
 
     def _ifvp_at_x_explicit_func(v: Tensor) -> Tensor:
         """The IFVP function using explicit FIM.
-- 
2.43.0


From 7cb5197e84b99f16eb121329c6efa2628730c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 15/71] fix: DataInf and EK-FAC accumulate in the dtype of the
 model

---
 dattri/algorithm/influence_function.py | 5 +----
 dattri/func/fisher.py                  | 1 +
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 298ea94..4dd9bf9 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -821,10 +821,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
             length = grad_layer.shape[0]
             # Split gradients into smaller batches
             grad_batches = grad_layer.split(batch_size, dim=0)
-            running_transformation = torch.zeros(
-                test_rep_layers[layer].shape,
-                device=test_rep_layers[layer].device,
-            )
+            running_transformation = torch.zeros_like(test_rep_layers[layer])
             for batch in grad_batches:
                 reg = 0.1 if regularization is None else regularization
                 contribution = torch.func.vmap(
diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 3f07a4d..4f8f635 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -358,6 +358,7 @@ def _update_lambda(
                 batch_samples,
                 ds_curr.shape[-1],
                 a_prev_masked.shape[-1],
+                dtype=ds_curr.dtype,
                 device=ds_curr.device,
             )
             for ts in range(timesteps):
-- 
2.43.0


From fe3a16e70f2399fe4b51498affc6216fd1114b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 16/71] fix: Arnoldi iteration works in the dtype of its input

---
 dattri/func/hessian.py    | 4 ++--
 dattri/func/projection.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 7267dfb..08a110e 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -640,7 +640,7 @@ def ihvp_at_x_arnoldi(
         n_iters = min(start_vec.shape[0] + 1, n_iters)
 
         proj = []
-        appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
+        appr_mat = torch.zeros((n_iters, n_iters - 1), dtype=start_vec.dtype).to(device)
 
         start_vec /= torch.norm(start_vec)
         proj.append(start_vec)
@@ -716,7 +716,7 @@ def ihvp_at_x_arnoldi(
 
         if v.ndim == 1:
             v = v.unsqueeze(0)
-        v0 = torch.rand(v.shape[1]).to(v.device)
+        v0 = torch.rand(v.shape[1]).to(v)
 
         appr_mat, proj = _arnoldi_iter(
             hvp_at_x_func,
diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d06f2e0..c1cd1e5 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -910,6 +910,7 @@ class ArnoldiProjector(AbstractProjector):
         self.proj_dim = proj_dim
         self.seed = seed
         self.device = device
+        self.dtype = x.dtype
 
         # init eig vals and vecs as None
         self.eigvals = None
@@ -943,7 +944,7 @@ class ArnoldiProjector(AbstractProjector):
         n_iters = min(start_vec.shape[0] + 1, n_iters)
 
         proj = []
-        appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
+        appr_mat = torch.zeros((n_iters, n_iters - 1), dtype=start_vec.dtype).to(device)
 
         start_vec /= torch.norm(start_vec)
         proj.append(start_vec)
@@ -1013,7 +1014,7 @@ class ArnoldiProjector(AbstractProjector):
         # set torch seed
         torch.manual_seed(self.seed)
         # init a random vector
-        v0 = torch.rand(self.feature_dim).to(self.device)
+        v0 = torch.rand(self.feature_dim).to(device=self.device, dtype=self.dtype)
 
         # perform arnoldi iteration
         appr_mat, proj = self._arnoldi_iter(
-- 
2.43.0


From 325bffa9b49ad389145b695520a363d90f07a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 17/71] fix: KNN-Shapley base case when k exceeds the training
 set size

---
 dattri/algorithm/data_shapley.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/data_shapley.py b/dattri/algorithm/data_shapley.py
index 057671f..49d5944 100644
--- a/dattri/algorithm/data_shapley.py
+++ b/dattri/algorithm/data_shapley.py
@@ -198,7 +198,7 @@ class KNNShapleyAttributor(BaseAttributor):
         ):
             shapley_values[j, nn_sorting[j, -1]] = (
                 train_labels[nn_sorting[j, -1]] == test_labels[j]
-            ) / num_train_samples
+            ) / max(num_train_samples, self.k_neighbors)
 
             for i in torch.arange(num_train_samples - 2, -1, -1):
                 shapley_values[j, nn_sorting[j, i]] = shapley_values[
-- 
2.43.0


From 831f3a9e6dbc8b398bd0954321987018f85f4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 18/71] fix: final layer may be a nested module

---
 dattri/algorithm/rps.py   | 8 ++++++--
 dattri/model_util/hook.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index a4e8f72..01deffb 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -86,7 +86,9 @@ class RPSAttributor(BaseAttributor):
             self.device,
         )
         # get the initial weight parameter for the final linear layer
-        init_theta = getattr(self.model, self.final_linear_layer_name).weight.data
+        init_theta = self.model.get_submodule(
+            self.final_linear_layer_name,
+        ).weight.data
         # fine-tuning on the full train dataloader
         self.finetuned_theta = rps_finetune_theta(
             intermediate_x_train,
@@ -141,7 +143,9 @@ class RPSAttributor(BaseAttributor):
         # if cache is not called before
         if self.full_train_dataloader is None:
             # get the initial weight parameter for the final linear layer
-            init_theta = getattr(self.model, self.final_linear_layer_name).weight.data
+            init_theta = self.model.get_submodule(
+                self.final_linear_layer_name,
+            ).weight.data
             # finetune the last layer using train samples
             self.finetuned_theta = rps_finetune_theta(
                 intermediate_x_train,
diff --git a/dattri/model_util/hook.py b/dattri/model_util/hook.py
index 19c0f92..b36f517 100644
--- a/dattri/model_util/hook.py
+++ b/dattri/model_util/hook.py
@@ -53,7 +53,7 @@ def get_final_layer_io(
         feature_list.append(_input[0].detach())
         output_list.append(output.detach())
 
-    model_layer = getattr(model, final_linear_layer_name)
+    model_layer = model.get_submodule(final_linear_layer_name)
     hook_handle = model_layer.register_forward_hook(_forward_hook)
 
     # perform a forward pass through the dataloader
-- 
2.43.0


From ae18846384cfbef5a313e5de686cf1d8f529e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 19/71] fix: RPS reads features under its own checkpoint

---
 dattri/algorithm/rps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index 01deffb..4ff2c20 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -77,6 +77,7 @@ class RPSAttributor(BaseAttributor):
                 fine-tuning.
         """
         self.full_train_dataloader = full_train_dataloader
+        self.task.get_param(ckpt_idx=0)  # other users of the task may have moved it
 
         # get intermediate outputs and predictions for full train dataset
         intermediate_x_train, y_pred_train = get_final_layer_io(
@@ -132,6 +133,7 @@ class RPSAttributor(BaseAttributor):
 
         _check_shuffle(train_dataloader)
         _check_shuffle(test_dataloader)
+        self.task.get_param(ckpt_idx=0)  # other users of the task may have moved it
 
         intermediate_x_train, y_pred_train = get_final_layer_io(
             self.model,
-- 
2.43.0


From 7de7f87fda8a9b56a7b960aa2a2c1faf8d8a4593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 20/71] fix: representer values use each sample's own loss
 derivative

---
 dattri/algorithm/rps.py   |  3 +++
 dattri/algorithm/utils.py | 15 +++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index 4ff2c20..ad57df5 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -86,6 +86,7 @@ class RPSAttributor(BaseAttributor):
             self.full_train_dataloader,
             self.device,
         )
+        self.full_train_size = len(y_pred_train)
         # get the initial weight parameter for the final linear layer
         init_theta = self.model.get_submodule(
             self.final_linear_layer_name,
@@ -144,6 +145,7 @@ class RPSAttributor(BaseAttributor):
 
         # if cache is not called before
         if self.full_train_dataloader is None:
+            self.full_train_size = len(y_pred_train)
             # get the initial weight parameter for the final linear layer
             init_theta = self.model.get_submodule(
                 self.final_linear_layer_name,
@@ -176,6 +178,7 @@ class RPSAttributor(BaseAttributor):
             y_pred_train,
             y_test,
             self.l2_strength,
+            self.full_train_size,
         )
 
         if self.normalize_preactivate:
diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index b3bf1ac..5a87208 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -3,14 +3,14 @@
 from __future__ import annotations
 
 import warnings
-from typing import Callable, Tuple
+from typing import Callable, Optional, Tuple
 
 import numpy as np
 import torch
 from scipy.stats import pearsonr
 from torch import Tensor, optim
 from torch.autograd import Variable
-from torch.func import grad
+from torch.func import grad, vmap
 from torch.utils.data import RandomSampler
 
 
@@ -174,6 +174,7 @@ def get_rps_weight(
     y_pred_train: Tensor,
     y_test: Tensor,
     lambda_l2: float,
+    num_train: Optional[int] = None,
 ) -> Tensor:
     r"""Compute the decomposed RPS weight.
 
@@ -185,11 +186,13 @@ def get_rps_weight(
         y_pred_train (Tensor): The pre-trained model output of the training set.
         y_test (Tensor): The ground-truth of the testing set.
         lambda_l2 (float): The l2-regularization strength.
+        num_train (Optional[int]): The number of samples the last layer was
+            fine-tuned on. Defaults to the number of samples in `x_train`.
 
     Returns:
         The decomposed RPS weight (\Theta^*_1 in the paper notation).
     """
-    n = len(y_pred_train)
+    n = len(y_pred_train) if num_train is None else num_train
     # calculate theta1 based on the representer theorem's decomposition
     pre_activation_value = torch.matmul(
         x_train,
@@ -202,7 +205,11 @@ def get_rps_weight(
         else torch.softmax(y_pred_train, dim=1)
     )
 
-    alpha = grad(loss_func)(pre_activation_value, y_pred_train) / (-2.0 * lambda_l2 * n)
+    # the derivative of each sample's own loss, whatever batch it is scored in
+    alpha = vmap(grad(lambda phi, y: loss_func(phi.unsqueeze(0), y.unsqueeze(0))))(
+        pre_activation_value,
+        y_pred_train,
+    ) / (-2.0 * lambda_l2 * n)
     # if multi-class, then focus on the test samples' class labels
     if finetuned_theta.shape[0] > 1:
         train_size = x_train.shape[0]
-- 
2.43.0


From db00043963795a998b42e747dbddc0295caa8f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 21/71] fix: DVEmb epochs need not start at zero

---
 dattri/algorithm/dvemb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b88f1b9..49ac9b2 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -738,13 +738,14 @@ class DVEmbAttributor:
             grad_dim = self._params_dim
             if self.projection_dim_per_layer is None:
                 # No projection: use cached factors
-                grad_dtype = self.cached_factors[0][0][0]["A"].dtype
+                grad_dtype = next(iter(self.cached_factors.values()))[0][0]["A"].dtype
             else:
                 # With projection (kronecker or elementwise): use cached gradients
-                grad_dtype = self.cached_gradients[0][0].dtype
+                grad_dtype = next(iter(self.cached_gradients.values()))[0].dtype
         else:
-            grad_dim = self.cached_gradients[0][0].shape[1]
-            grad_dtype = self.cached_gradients[0][0].dtype
+            first_gradients = next(iter(self.cached_gradients.values()))[0]
+            grad_dim = first_gradients.shape[1]
+            grad_dtype = first_gradients.dtype
 
         # Create weighting matrix
         m_matrix = torch.zeros(
-- 
2.43.0


From f6e01cf6366a1c816be5fb52e3ef04550a65868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 22/71] fix: DVEmb cache discards embeddings of an earlier run

---
 dattri/algorithm/dvemb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 49ac9b2..88ad546 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -756,6 +756,9 @@ class DVEmbAttributor:
 
         # Calculate data embeddings for each epoch in reverse order
         sorted_epochs = sorted(self.learning_rates.keys(), reverse=True)
+        # Embeddings of an earlier run must not be summed into this one
+        self.embeddings = {}
+
         # Going through epochs in reverse order
         for epoch in tqdm(sorted_epochs, desc="Computing DVEmb per Epoch"):
             epoch_embeddings = torch.zeros(
-- 
2.43.0


From 0f483893dc7a59d061371cca5f2a3e5d7a923f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 23/71] fix: disk offload works on machines without a GPU

---
 .../algorithm/block_projected_if/offload/disk_io/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 66971ef..0d0835b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -61,7 +61,11 @@ class BufferPool:
         # Pre-allocate all buffers
         for _ in range(pool_size):
             buffer = ChunkBuffer(
-                tensor=torch.zeros(buffer_shape, dtype=dtype, pin_memory=True),
+                tensor=torch.zeros(
+                    buffer_shape,
+                    dtype=dtype,
+                    pin_memory=torch.cuda.is_available(),
+                ),
                 batch_indices=[],
                 batch_info=[],
                 current_row=0,
-- 
2.43.0


From 70562827572b4f82fed9b489b2d281db63373c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 24/71] fix: disk store tracks every chunk write and reports
 failed ones

---
 .../offload/disk_io/manager.py                | 86 ++++++++++++-------
 1 file changed, 57 insertions(+), 29 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 0d0835b..1be80b2 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -8,7 +8,7 @@ import pathlib
 import queue
 import threading
 import time
-from collections import defaultdict
+from collections import Counter, defaultdict
 from concurrent.futures import ThreadPoolExecutor
 from dataclasses import dataclass
 from typing import Any, Literal
@@ -195,6 +195,11 @@ class ChunkedDiskIOManager:
         self._write_workers = []
         self._shutdown = False
 
+        # Pending writes tracking (must exist before the workers start)
+        self._pending_writes = Counter()  # Number of writes in flight per chunk
+        self._write_errors = []  # (data_type, chunk_id, exception)
+        self._pending_writes_lock = threading.Lock()
+
         # Start multiple write workers
         for i in range(num_write_workers):
             worker = threading.Thread(
@@ -207,10 +212,6 @@ class ChunkedDiskIOManager:
 
         logger.info("Started %s write workers", num_write_workers)
 
-        # Pending writes tracking
-        self._pending_writes = set()  # Track chunk_ids being written
-        self._pending_writes_lock = threading.Lock()
-
         # Read cache for recently accessed chunks
         # (data_type, chunk_id) -> (tensor, metadata, last_access_time)
         self._read_cache = {}
@@ -362,11 +363,15 @@ class ChunkedDiskIOManager:
                         batch_info,
                     )
 
-                    # Remove from pending writes
+                except Exception as e:
                     with self._pending_writes_lock:
-                        self._pending_writes.discard((data_type, chunk_id))
+                        self._write_errors.append((data_type, chunk_id, e))
+                    raise
 
                 finally:
+                    # Remove from pending writes, whether or not it succeeded
+                    self._finish_pending_write(data_type, chunk_id)
+
                     # Return buffer to pool if provided (for backward compatibility)
                     if buffer is not None:
                         pool = self._get_or_create_buffer_pool(data_type)
@@ -380,6 +385,37 @@ class ChunkedDiskIOManager:
 
                 traceback.print_exc()
 
+    def _finish_pending_write(self, data_type: str, chunk_id: int) -> None:
+        """Take one write of a chunk off the list of outstanding writes.
+
+        Args:
+            data_type: Type of data that was written.
+            chunk_id: ID of the chunk that was written.
+        """
+        with self._pending_writes_lock:
+            self._pending_writes[data_type, chunk_id] -= 1
+            if self._pending_writes[data_type, chunk_id] <= 0:
+                del self._pending_writes[data_type, chunk_id]
+
+    def _wait_for_pending_writes(self) -> None:
+        """Wait for all outstanding chunk writes.
+
+        Raises:
+            RuntimeError: If a chunk could not be written.
+        """
+        while True:
+            with self._pending_writes_lock:
+                if len(self._pending_writes) == 0:
+                    break
+            time.sleep(0.01)
+
+        with self._pending_writes_lock:
+            errors, self._write_errors = self._write_errors, []
+        if errors:
+            failed = sorted({(data_type, chunk_id) for data_type, chunk_id, _ in errors})
+            msg = f"Failed to write chunks to disk: {failed}"
+            raise RuntimeError(msg) from errors[0][2]
+
     def _write_chunk_tensor_sync(
         self,
         data_type: str,
@@ -553,7 +589,7 @@ class ChunkedDiskIOManager:
 
         # Mark as pending write
         with self._pending_writes_lock:
-            self._pending_writes.add((data_type, chunk_id))
+            self._pending_writes[data_type, chunk_id] += 1
 
         # Submit to write queue without the buffer (since we already returned it)
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
@@ -693,15 +729,11 @@ class ChunkedDiskIOManager:
             with self._buffer_locks[buffer_key]:
                 self._async_flush_chunk_buffer(buffer_key)
 
-        # Wait for all pending writes
-        while True:
-            with self._pending_writes_lock:
-                if len(self._pending_writes) == 0:
-                    break
-            time.sleep(0.1)
-
         self.current_batch_range = None
 
+        # Wait for all pending writes
+        self._wait_for_pending_writes()
+
     def _retrieve_batch_data_with_cache(  # noqa: PLR0912, PLR0914
         self,
         data_type: str,
@@ -930,31 +962,27 @@ class ChunkedDiskIOManager:
         """
         return "grad" if data_type == "gradients" else data_type
 
-    def wait_for_async_operations(self) -> None:  # noqa: ARG002
-        """Wait for all async operations to complete."""
+    def wait_for_async_operations(self) -> None:
+        """Wait for all async operations to complete.
+
+        Raises:
+            RuntimeError: If an outstanding write failed.
+        """
         if self._shutdown:
             return  # Skip if we're shutting down
 
-        # Wait for write queue to empty
-        while not self._write_queue.empty():
-            time.sleep(0.1)
-
         # Wait for pending writes
-        while True:
-            with self._pending_writes_lock:
-                if len(self._pending_writes) == 0:
-                    break
-            time.sleep(0.1)
+        self._wait_for_pending_writes()
 
         # Wait for other futures and collect errors
         # Using list comprehension to check futures without try-except in loop
         errors = [
             future for future in self.futures if not self._check_future_result(future)
         ]
-        if errors:
-            logger.warning("Some async operations failed: %s errors", len(errors))
-
         self.futures = []
+        if errors:
+            msg = f"Some async operations failed: {len(errors)} errors"
+            raise RuntimeError(msg) from errors[0].exception()
 
     @staticmethod
     def _check_future_result(future: Any) -> bool:  # noqa: ANN401
-- 
2.43.0


From 51cfd6b2e34f0222a32aa742c2d156c28239d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 25/71] fix: disk store reads see chunks being written and
 never alias or go stale

---
 .../offload/disk_io/manager.py                | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 1be80b2..568bd14 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -200,6 +200,12 @@ class ChunkedDiskIOManager:
         self._write_errors = []  # (data_type, chunk_id, exception)
         self._pending_writes_lock = threading.Lock()
 
+        # Read cache for recently accessed chunks
+        # (data_type, chunk_id) -> (tensor, metadata, last_access_time)
+        self._read_cache = {}
+        self._read_cache_lock = threading.Lock()
+        self._max_read_cache_size = 4
+
         # Start multiple write workers
         for i in range(num_write_workers):
             worker = threading.Thread(
@@ -212,12 +218,6 @@ class ChunkedDiskIOManager:
 
         logger.info("Started %s write workers", num_write_workers)
 
-        # Read cache for recently accessed chunks
-        # (data_type, chunk_id) -> (tensor, metadata, last_access_time)
-        self._read_cache = {}
-        self._read_cache_lock = threading.Lock()
-        self._max_read_cache_size = 4
-
         # Track dimensions and batch range
         self.layer_dims = None
         self.total_proj_dim = None
@@ -369,6 +369,10 @@ class ChunkedDiskIOManager:
                     raise
 
                 finally:
+                    # What was read from this chunk before is out of date
+                    with self._read_cache_lock:
+                        self._read_cache.pop((data_type, chunk_id), None)
+
                     # Remove from pending writes, whether or not it succeeded
                     self._finish_pending_write(data_type, chunk_id)
 
@@ -766,6 +770,13 @@ class ChunkedDiskIOManager:
                         batch_tensor = buffer.tensor[start_row:end_row]
                         return self._split_tensor_to_layers(batch_tensor)
 
+        # A chunk that left its buffer may still be on its way to disk
+        while True:
+            with self._pending_writes_lock:
+                if buffer_key not in self._pending_writes:
+                    break
+            time.sleep(0.01)
+
         # Check read cache
         cache_key = (data_type, chunk_id)
         current_time = time.time()
@@ -876,7 +887,12 @@ class ChunkedDiskIOManager:
         start_idx = 0
         for dim in self.layer_dims:
             end_idx = start_idx + dim
-            result.append(tensor[:, start_idx:end_idx].contiguous())
+            # Copy, as the tensor may belong to a reused buffer or the read cache
+            result.append(
+                tensor[:, start_idx:end_idx].clone(
+                    memory_format=torch.contiguous_format,
+                ),
+            )
             start_idx = end_idx
 
         return result
-- 
2.43.0


From 6919c3947b5efca91e938191c98f45c3d7d951da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 26/71] fix: disk store accepts batches larger than a chunk and
 empty buffers

---
 .../offload/disk_io/manager.py                | 56 +++++++++++++------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 568bd14..2eccdf5 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -476,9 +476,6 @@ class ChunkedDiskIOManager:
             batch_idx: Index of the batch to store gradients for.
             gradients: List of gradient tensors to store.
             is_test: Whether these are test gradients (currently skipped).
-
-        Raises:
-            RuntimeError: If failed to get new buffer after overflow.
         """
         if is_test:
             return  # Skip test gradients for now
@@ -538,7 +535,7 @@ class ChunkedDiskIOManager:
             start_row = buffer.current_row
             end_row = start_row + batch_size
 
-            if end_row > self.max_samples_per_chunk:
+            if end_row > buffer.tensor.shape[0]:
                 logger.warning(
                     "Chunk buffer overflow. Consider increasing max_samples_per_chunk",
                 )
@@ -546,10 +543,7 @@ class ChunkedDiskIOManager:
                 self._async_flush_chunk_buffer(buffer_key)
 
                 # Get new buffer and retry
-                buffer = pool.get_buffer(timeout=5.0)
-                if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
+                buffer = self._get_overflow_buffer(pool, batch_size)
                 self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
@@ -570,6 +564,34 @@ class ChunkedDiskIOManager:
             if self._is_chunk_complete("gradients", chunk_id):
                 self._async_flush_chunk_buffer(buffer_key)
 
+    def _get_overflow_buffer(self, pool: BufferPool, num_rows: int) -> ChunkBuffer:
+        """Get the buffer that continues a chunk whose buffer is full.
+
+        Args:
+            pool: Buffer pool to take the buffer from.
+            num_rows: Number of rows the buffer must hold.
+
+        Returns:
+            ChunkBuffer: An empty buffer of at least num_rows rows.
+
+        Raises:
+            RuntimeError: If failed to get new buffer after overflow.
+        """
+        if num_rows > self.max_samples_per_chunk:
+            # A batch larger than a chunk gets a buffer of its own
+            return ChunkBuffer(
+                tensor=torch.zeros(num_rows, self.total_proj_dim, dtype=torch.float32),
+                batch_indices=[],
+                batch_info=[],
+                current_row=0,
+                buffer_id=-1,
+            )
+        buffer = pool.get_buffer(timeout=5.0)
+        if buffer is None:
+            msg = "Failed to get new buffer after overflow"
+            raise RuntimeError(msg)
+        return buffer
+
     def _async_flush_chunk_buffer(self, buffer_key: tuple[str, int]) -> None:
         """Asynchronously write chunk buffer to disk without blocking.
 
@@ -582,6 +604,11 @@ class ChunkedDiskIOManager:
         buffer = self._chunk_buffers.pop(buffer_key)
         data_type, chunk_id = buffer_key
 
+        if not buffer.batch_info:
+            # Nothing was stored in this buffer
+            self._get_or_create_buffer_pool(data_type).return_buffer(buffer)
+            return
+
         # Clone the filled portion to a new tensor so we can return the buffer
         # immediately
         filled_tensor = buffer.tensor[: buffer.current_row].clone().contiguous()
@@ -589,7 +616,8 @@ class ChunkedDiskIOManager:
 
         # Return buffer to pool immediately after cloning
         pool = self._get_or_create_buffer_pool(data_type)
-        pool.return_buffer(buffer)
+        if buffer.tensor.shape == pool.buffer_shape:
+            pool.return_buffer(buffer)
 
         # Mark as pending write
         with self._pending_writes_lock:
@@ -613,9 +641,6 @@ class ChunkedDiskIOManager:
         Args:
             batch_idx: Index of the batch to store IFVP for.
             ifvp: List of IFVP tensors to store.
-
-        Raises:
-            RuntimeError: If failed to get new buffer after overflow.
         """
         self._ensure_layer_dims()
 
@@ -663,12 +688,9 @@ class ChunkedDiskIOManager:
             start_row = buffer.current_row
             end_row = start_row + batch_size
 
-            if end_row > self.max_samples_per_chunk:
+            if end_row > buffer.tensor.shape[0]:
                 self._async_flush_chunk_buffer(buffer_key)
-                buffer = pool.get_buffer(timeout=5.0)
-                if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
+                buffer = self._get_overflow_buffer(pool, batch_size)
                 self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
-- 
2.43.0


From 3f08472f01ff5abeb9fabcdd32f556a7b32e9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 27/71] fix: interrupted chunk writes never leave a readable
 chunk

---
 .../offload/disk_io/memory_map.py                 | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
index 36c90b7..e1c1074 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
@@ -60,6 +60,12 @@ class ChunkedMemoryMapHandler:
             pathlib.Path(save_path) / f"{chunk_filename}_metadata.json",
         )
 
+        # Data and metadata are written to temporary files and moved into place,
+        # the metadata last: a chunk whose writing was interrupted is never visible
+        mmap_tmp_path = mmap_path + ".tmp"
+        metadata_tmp_path = metadata_path + ".tmp"
+        pathlib.Path(metadata_path).unlink(missing_ok=True)
+
         # Create memory-mapped file
         # Determine storage dtype
         storage_dtype = "uint16" if tensor.dtype == torch.bfloat16 else dtype
@@ -79,7 +85,7 @@ class ChunkedMemoryMapHandler:
 
             # Save using numpy's memmap which doesn't require explicit flush
             np_memmap = np.memmap(
-                mmap_path,
+                mmap_tmp_path,
                 dtype=np.dtype(storage_dtype),
                 mode="w+",
                 shape=tensor.shape,
@@ -93,7 +99,7 @@ class ChunkedMemoryMapHandler:
         else:
             # Original behavior for compatibility
             mmap = np.memmap(
-                mmap_path,
+                mmap_tmp_path,
                 dtype=np.dtype(storage_dtype),
                 mode="w+",
                 shape=tensor.shape,
@@ -114,6 +120,8 @@ class ChunkedMemoryMapHandler:
 
             del mmap  # Cleanup
 
+        pathlib.Path(mmap_tmp_path).replace(mmap_path)
+
         # Save metadata - this is small and fast
         metadata = {
             "chunk_filename": chunk_filename,
@@ -127,8 +135,9 @@ class ChunkedMemoryMapHandler:
             "flush_mode": flush_mode,  # Track how it was written
         }
 
-        with pathlib.Path(metadata_path).open("w", encoding="utf-8") as f:
+        with pathlib.Path(metadata_tmp_path).open("w", encoding="utf-8") as f:
             json.dump(metadata, f, separators=(",", ":"))
+        pathlib.Path(metadata_tmp_path).replace(metadata_path)
 
         logger.debug(
             "Wrote tensor chunk %s: shape=%s, flush_mode=%s",
-- 
2.43.0


From db23e8569ecc8cfa8a62ddb5673a9f7f92120d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 28/71] fix: iterating the disk store reports unreadable chunks
 and keeps batch order

---
 .../offload/disk_io/prefetch_dataset.py       | 89 ++++++++-----------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index a777fcd..7b31ade 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 import logging
-import operator
 import pathlib
 import queue
 import threading
@@ -103,36 +102,30 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         )
 
         for chunk_filename in chunk_files:
-            try:
-                # Load chunk metadata
-                metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
-                    chunk_path,
-                    chunk_filename,
-                )
-
-                # Check if chunk contains batches in our range
-                if self.batch_range is not None:
-                    start_batch, end_batch = self.batch_range
-                    chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
-
-                    # Skip chunks that don't overlap with our range
-                    if not any(start_batch <= idx < end_batch for idx in chunk_batches):
-                        continue
-
-                chunk_info.append(
-                    {
-                        "chunk_filename": chunk_filename,
-                        "chunk_path": chunk_path,
-                        "metadata": metadata,
-                    },
-                )
+            # Load chunk metadata
+            metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
+                chunk_path,
+                chunk_filename,
+            )
 
-            except Exception:
-                logger.exception("Error loading chunk %s", chunk_filename)
-                continue
+            # Check if chunk contains batches in our range
+            if self.batch_range is not None:
+                start_batch, end_batch = self.batch_range
+                chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
+
+                # Skip chunks that don't overlap with our range
+                if not any(start_batch <= idx < end_batch for idx in chunk_batches):
+                    continue
+
+            chunk_info.append(
+                {
+                    "chunk_filename": chunk_filename,
+                    "chunk_path": chunk_path,
+                    "metadata": metadata,
+                },
+            )
 
-        # Sort by chunk filename for consistency
-        chunk_info.sort(key=operator.itemgetter("chunk_filename"))
+        # The chunk files are already sorted by batch start index
         return chunk_info
 
     def _start_prefetch_thread(self) -> None:
@@ -275,29 +268,21 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         chunk_path = chunk_info["chunk_path"]
 
         _lazy_import_memory_map()
-        try:
-            # Load chunk as tensor with batch mapping
-            (
-                tensor,
-                batch_mapping,
-            ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
-                chunk_path,
-                chunk_filename,
-                self.batch_range,
-            )
-        except Exception:
-            logger.exception("Error loading chunk %s", chunk_filename)
-            # Return empty data on error
-            layer_dims = chunk_info["metadata"].get("layer_dims", [])
-            total_proj_dim = sum(layer_dims) if layer_dims else 0
-            empty_tensor = torch.empty(0, total_proj_dim)
-            return empty_tensor, {}
-        else:
-            # Add to cache for potential reuse
-            with self._cache_lock:
-                self._chunk_cache[idx] = (tensor, batch_mapping)
-
-            return tensor, batch_mapping
+        # Load chunk as tensor with batch mapping
+        (
+            tensor,
+            batch_mapping,
+        ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
+            chunk_path,
+            chunk_filename,
+            self.batch_range,
+        )
+
+        # Add to cache for potential reuse
+        with self._cache_lock:
+            self._chunk_cache[idx] = (tensor, batch_mapping)
+
+        return tensor, batch_mapping
 
     def __del__(self) -> None:
         """Clean up prefetch thread."""
-- 
2.43.0


From 97d9a4eda0799d911f83db00a29ee650ccca93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 29/71] fix: block-projected cache starts from an empty store
 and writes no files into the working directory

---
 .../block_projected_if/block_projected_if.py     | 11 +++++++++--
 .../block_projected_if/core/metadata.py          | 16 +++++++++-------
 .../algorithm/block_projected_if/offload/disk.py |  1 +
 .../offload/disk_io/manager.py                   | 10 ++++++++++
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4a7ced7..3a00c00 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -141,7 +141,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
 
         # Initialize metadata manager
-        self.metadata = MetadataManager(cache_dir or ".", self.layer_names)
+        # (it is only kept on disk together with the data it describes)
+        self.metadata = MetadataManager(
+            cache_dir if offload == "disk" else None,
+            self.layer_names,
+        )
 
         # Initialize other components
         self.full_train_dataloader: Optional[DataLoader] = None
@@ -216,7 +220,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
             self.offload,
         )
 
-        self.full_train_dataloader = full_train_dataloader
+        # Nothing cached before belongs to the new data
+        self.full_train_dataloader = None
+        self.offload_manager.clear_cache()
 
         # Setup compressors if not already done
         if self.compressors is None:
@@ -318,6 +324,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             logger.info("Computing IFVP...")
             self.compute_ifvp()
 
+        self.full_train_dataloader = full_train_dataloader
         logger.info("Caching completed")
 
     def compute_preconditioners(  # noqa: PLR0912, PLR0914 - Complex preconditioner computation requires multiple branches and variables
diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 8f85cf1..f519a42 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -9,7 +9,7 @@ import logging
 import pathlib
 import threading
 import time
-from typing import TYPE_CHECKING, Dict, List, Tuple
+from typing import TYPE_CHECKING, Dict, List, Optional, Tuple
 
 if TYPE_CHECKING:
     from torch.utils.data import DataLoader
@@ -20,11 +20,11 @@ logger = logging.getLogger(__name__)
 class MetadataManager:
     """Manager for batch metadata."""
 
-    def __init__(self, cache_dir: str, layer_names: List[str]) -> None:
+    def __init__(self, cache_dir: Optional[str], layer_names: List[str]) -> None:
         """Initialize the metadata manager.
 
         Args:
-            cache_dir: Directory for metadata files
+            cache_dir: Directory for metadata files, None to keep them in memory
             layer_names: Names of model layers
         """
         self.cache_dir = cache_dir
@@ -61,10 +61,9 @@ class MetadataManager:
         total_batches = len(train_dataloader)
         batch_size = train_dataloader.batch_size
 
-        # Check if already initialized
-        if len(self.batch_info) == total_batches:
-            logger.info("Dataset metadata already complete, skipping initialization")
-            return
+        # Forget the batches of data cached before
+        self.batch_info = {}
+        self._pending_batches = {}
 
         # Compute complete batch structure
         if hasattr(train_dataloader.dataset, "__len__"):
@@ -278,6 +277,9 @@ class MetadataManager:
 
     def _load_metadata_if_exists(self) -> None:
         """Load metadata from disk if it exists."""
+        if not self.cache_dir:
+            return
+
         metadata_path = self._get_metadata_path()
         if pathlib.Path(metadata_path).exists():
             try:
diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 29e088a..8b996ce 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -217,6 +217,7 @@ class DiskOffloadManager(Offload):
     def clear_cache(self) -> None:
         """Clear all cached data from disk."""
         self.disk_io.wait_for_async_operations()
+        self.disk_io.reset()
 
         for subdir in ["grad", "ifvp", "precond"]:
             subdir_path = pathlib.Path(self.cache_dir) / subdir
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 2eccdf5..28bf44f 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -1040,6 +1040,16 @@ class ChunkedDiskIOManager:
         else:
             return True
 
+    def reset(self) -> None:
+        """Forget everything known about data stored so far."""
+        with self._read_cache_lock:
+            self._read_cache.clear()
+        self._chunk_buffers = {}
+        self._buffer_pools = {}
+        self.layer_dims = None
+        self.total_proj_dim = None
+        self.current_batch_range = None
+
     def has_preconditioners(self) -> bool:
         """Check if preconditioners exist.
 
-- 
2.43.0


From b95bc4e4aae8fab1698eca1e8bb8a58f004ddce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 30/71] fix: block-projected attributors use the task's target
 function for test gradients

---
 .../block_projected_if/block_projected_if.py  | 28 ++++---------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 3a00c00..141b4be 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -834,9 +834,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
                   Shape:(num_test_samples, total_proj_dim)
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
-
-        Raises:
-            ValueError: If model can't return loss for dict-style inputs.
         """
         # Create hook manager if needed
         if self.hook_manager is None:
@@ -857,26 +854,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
         ):
             self.model.zero_grad()
 
-            # Prepare inputs and compute loss
-            if isinstance(batch, dict):
-                inputs = {k: v.to(self.device) for k, v in batch.items()}
-                batch_size = next(iter(batch.values())).shape[0]
-                outputs = self.model(**inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    msg = "Model must return loss for dict-style inputs"
-                    raise ValueError(msg)
-            else:
-                inputs, targets = batch
-                inputs = inputs.to(self.device)
-                targets = targets.to(self.device)
-                batch_size = inputs.shape[0]
-                outputs = self.model(inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    loss = nn.functional.cross_entropy(outputs, targets)
+            # Compute the target of the task
+            batch_size = next(
+                iter(batch.values() if isinstance(batch, dict) else batch),
+            ).shape[0]
+            loss = self.task.original_target_func(self.model, batch, self.device)
 
             loss.backward()
 
-- 
2.43.0


From 3cd5461cbfff25bfdfea152180338377ec7c4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 31/71] fix: block-projected attribution of training data other
 than the cached data

---
 .../block_projected_if/block_projected_if.py  | 50 +++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 141b4be..7919f1c 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -9,7 +9,7 @@ import warnings
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
-    from typing import Any, Dict, List, Literal, Optional, Tuple, Union
+    from typing import Any, Callable, Dict, List, Literal, Optional, Tuple, Union
 
     from torch.utils.data import DataLoader
 
@@ -753,6 +753,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
             )
             return torch.zeros(num_train, num_test)
 
+        # Training data other than the cached data gets gradients of its own
+        if train_dataloader is not self.full_train_dataloader:
+            return self._attribute_other_train_data(train_dataloader, test_grads_tensor)
+
         # Get batch mappings
         batch_to_sample_mapping = self.metadata.get_batch_to_sample_mapping()
         total_train_samples = self.metadata.get_total_samples()
@@ -819,14 +823,51 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
         return if_score
 
+    def _attribute_other_train_data(
+        self,
+        train_dataloader: DataLoader,
+        test_grads_tensor: torch.Tensor,
+    ) -> torch.Tensor:
+        """Compute influence scores of training data that is not the cached data.
+
+        Args:
+            train_dataloader: Training data, e.g. a subset of the cached data.
+            test_grads_tensor: Gradients of the test data.
+
+        Returns:
+            Influence score tensor of shape (num_train, num_test)
+        """
+        train_grads_tensor, _ = self._compute_test_gradients(
+            train_dataloader,
+            self.task.original_loss_func,
+        )
+        train_grads_tensor = self.offload_manager.move_to_device(train_grads_tensor)
+        if self.hessian != "Identity":
+            ifvp = torch.zeros_like(train_grads_tensor)
+            start_col = 0
+            for layer_idx, layer_dim in enumerate(self.layer_dims):
+                cols = slice(start_col, start_col + layer_dim)
+                start_col += layer_dim
+                precond = self.offload_manager.retrieve_preconditioner(layer_idx)
+                if precond is not None:
+                    precond = precond.to(train_grads_tensor)
+                    ifvp[:, cols] = train_grads_tensor[:, cols] @ precond.t()
+            train_grads_tensor = ifvp
+        return train_grads_tensor @ self.offload_manager.move_to_device(
+            test_grads_tensor,
+        ).to(train_grads_tensor).t()
+
     def _compute_test_gradients(  # noqa: PLR0912 - Complex gradient computation requires multiple branches for different input types and error handling
         self,
         test_dataloader: DataLoader,
+        target_func: Optional[Callable] = None,
     ) -> Tuple[torch.Tensor, Dict]:
         """Compute gradients for test data using hooks.
 
         Args:
             test_dataloader: DataLoader for test data to compute gradients for.
+            target_func: Function to differentiate, by default the target function
+                of the task.
 
         Returns:
             Tuple containing:
@@ -835,6 +876,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
         """
+        if target_func is None:
+            target_func = self.task.original_target_func
+
         # Create hook manager if needed
         if self.hook_manager is None:
             self.hook_manager = HookManager(
@@ -854,11 +898,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
         ):
             self.model.zero_grad()
 
-            # Compute the target of the task
+            # Compute the target
             batch_size = next(
                 iter(batch.values() if isinstance(batch, dict) else batch),
             ).shape[0]
-            loss = self.task.original_target_func(self.model, batch, self.device)
+            loss = target_func(self.model, batch, self.device)
 
             loss.backward()
 
-- 
2.43.0


From 0abecae3f75a6aa4f3b0a09c0fe52f61d1bb9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 32/71] fix: block-projected attributors read gradients under
 their own checkpoint

---
 .../block_projected_if/block_projected_if.py       | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 7919f1c..c5093c7 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -108,9 +108,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         self.chunk_size = chunk_size
 
         # Get model from task and setup
-        task._load_checkpoints(0)
-        self.model = task.get_model()
-        self.model.to(device)
+        self._load_model()
 
         # Determine layer names
         if layer_names is None:
@@ -159,6 +157,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
             msg = "cache_dir must be provided when offload='disk'"
             raise ValueError(msg)
 
+    def _load_model(self) -> None:
+        """Put the first checkpoint into the model, which the task may share."""
+        self.task._load_checkpoints(0)
+        self.model = self.task.get_model()
+        self.model.to(self.device)
+
     def _setup_compressors(self, train_dataloader: DataLoader) -> None:
         """Set up compressors for the model layers.
 
@@ -220,6 +224,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
             self.offload,
         )
 
+        self._load_model()
+
         # Nothing cached before belongs to the new data
         self.full_train_dataloader = None
         self.offload_manager.clear_cache()
@@ -876,6 +882,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
         """
+        self._load_model()
+
         if target_func is None:
             target_func = self.task.original_target_func
 
-- 
2.43.0


From 9aed9769e3d864856b54e0328ec5a85870a6bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 33/71] fix: missing stored batches are reported instead of
 scored as zero

---
 .../block_projected_if/block_projected_if.py  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index c5093c7..181461f 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -655,6 +655,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
+        seen_batches = set()
+
         if grad_dataloader and ifvp_dataloader:
             # Process in parallel
             for (grad_tensor, grad_mapping), (ifvp_tensor, ifvp_mapping) in tqdm(
@@ -686,9 +688,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
                     # Compute dot product
                     batch_influence = torch.sum(batch_grad * batch_ifvp, dim=1).cpu()
                     self_influence[sample_start:sample_end] = batch_influence
+                    seen_batches.add(batch_idx)
 
                 torch.cuda.empty_cache()
 
+        self._check_complete(seen_batches, batch_to_sample_mapping)
         return self_influence
 
     def attribute(  # noqa: PLR0914 - Complex attribution computation requires multiple local variables for dataloader management and tensor processing
@@ -783,6 +787,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
 
         logger.info("Starting influence computation")
+        seen_batches = set()
 
         # Configure test batching for memory efficiency
         test_batch_size = min(32, test_sample_count)
@@ -818,17 +823,35 @@ class BlockProjectedIFAttributor(BaseAttributor):
                     if_score[train_start:train_end, test_start:test_end] = (
                         batch_scores.to(if_score.device)
                     )
+                    seen_batches.add(batch_idx)
 
                 torch.cuda.empty_cache()
 
             torch.cuda.empty_cache()
 
+        self._check_complete(seen_batches, batch_to_sample_mapping)
         logger.info(
             "Attribution computation completed. Result shape: %s",
             if_score.shape,
         )
         return if_score
 
+    @staticmethod
+    def _check_complete(seen_batches: set, expected_batches: Dict) -> None:
+        """Check that the stored data of every batch has been found.
+
+        Args:
+            seen_batches: Indices of the batches found.
+            expected_batches: Mapping with the indices of all batches as keys.
+
+        Raises:
+            RuntimeError: If the stored data of some batches is missing.
+        """
+        missing = sorted(set(expected_batches) - seen_batches)
+        if missing:
+            msg = f"Stored data of training batches {missing} is missing."
+            raise RuntimeError(msg)
+
     def _attribute_other_train_data(
         self,
         train_dataloader: DataLoader,
-- 
2.43.0


From a9d1e977637b886b3638d854c9fcbbdcc309d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 34/71] fix: hook manager leaves no patched forward behind

---
 dattri/algorithm/block_projected_if/core/hook.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/core/hook.py b/dattri/algorithm/block_projected_if/core/hook.py
index 71524bf..39fd75c 100644
--- a/dattri/algorithm/block_projected_if/core/hook.py
+++ b/dattri/algorithm/block_projected_if/core/hook.py
@@ -371,8 +371,12 @@ class HookManager:
         """Restore original forward methods and cleanup registry."""
         for module in self.layer_name_to_module.values():
             if hasattr(module, "_original_forward"):
-                module.forward = module._original_forward
+                original_forward = module._original_forward
                 delattr(module, "_original_forward")
+                # Drop the patch, and put back a forward set on the instance itself
+                del module.forward
+                if original_forward != module.forward:
+                    module.forward = original_forward
 
         self.forward_hooks = [None] * len(self.layer_names)
         self.hooks_registered = False
-- 
2.43.0


From 6d97c785c9065c9f8382b8450402c8904c7b5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 35/71] fix: FactGraSS uses the configured projection seed

---
 dattri/algorithm/factgrass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/algorithm/factgrass.py b/dattri/algorithm/factgrass.py
index b2c1e2b..a9d454c 100644
--- a/dattri/algorithm/factgrass.py
+++ b/dattri/algorithm/factgrass.py
@@ -101,12 +101,14 @@ class FactGraSSAttributor(BlockProjectedIFAttributor):
         sparsifier_params = GeneralProjectionParams(
             proj_dim=per_component_dim,
             proj_max_batch_size=64,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="random_mask",
         )
 
         projector_params = GeneralProjectionParams(
             proj_dim=self.proj_params.proj_dim_per_layer,
             proj_max_batch_size=64,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="sjlt" if device == "cuda" else "normal",
         )
 
-- 
2.43.0


From 6cbf1dc652fad0b4b73c5fb8d662c17315e15ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 36/71] fix: compressor setup accepts non-contiguous layer
 inputs

---
 dattri/algorithm/block_projected_if/core/compressor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/compressor.py b/dattri/algorithm/block_projected_if/core/compressor.py
index 0fe6d2c..8ef4aee 100644
--- a/dattri/algorithm/block_projected_if/core/compressor.py
+++ b/dattri/algorithm/block_projected_if/core/compressor.py
@@ -462,7 +462,9 @@ def _setup_linear_sparsifier(
             input_features = input_features.reshape(batch_size, seq_length, -1)
 
     # Sparsifiers are ALWAYS factorized
-    sample_comp_1 = torch.zeros_like(pre_activation.view(-1, pre_activation.shape[-1]))
+    sample_comp_1 = torch.zeros_like(
+        pre_activation.reshape(-1, pre_activation.shape[-1]),
+    )
 
     # For identity projection, use feature dimension instead of -1
     proj_dim_comp_1 = params.proj_dim
@@ -481,7 +483,9 @@ def _setup_linear_sparsifier(
         ),
     )
 
-    sample_comp_2 = torch.zeros_like(input_features.view(-1, input_features.shape[-1]))
+    sample_comp_2 = torch.zeros_like(
+        input_features.reshape(-1, input_features.shape[-1]),
+    )
 
     # For identity projection, use feature dimension instead of -1
     proj_dim_comp_2 = params.proj_dim
-- 
2.43.0


From bb7affac786476ad080bef0a7aabd5d6a3a704e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 37/71] fix: ihvp_at_x_lissa does not swap batch size and
 number of repeats

---
 dattri/func/hessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 08a110e..eb5911f 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -979,8 +979,8 @@ def ihvp_at_x_lissa(
         ihvp_lissa_func = ihvp_lissa(
             func,
             argnums,
-            num_repeat,
             batch_size,
+            num_repeat,
             recursion_depth,
             damping,
             scaling,
-- 
2.43.0


From d67cccb0b67adaa1bdbc4bd5666024248ac17561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 38/71] fix: Arnoldi results do not depend on norm_constant

---
 dattri/func/hessian.py    | 5 +++--
 dattri/func/projection.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index eb5911f..bf39145 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -642,7 +642,7 @@ def ihvp_at_x_arnoldi(
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1), dtype=start_vec.dtype).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -728,7 +728,8 @@ def ihvp_at_x_arnoldi(
         )
         eigvals, eigvecs = _distill(appr_mat, proj, top_k)
 
-        return ((v @ eigvecs.T) * 1.0 / eigvals.unsqueeze(0)) @ eigvecs
+        # the eigenvectors have norm `norm_constant`
+        return ((v @ eigvecs.T) / (norm_constant**2 * eigvals.unsqueeze(0))) @ eigvecs
 
     return _ihvp_at_x_arnoldi
 
diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index c1cd1e5..82e93f2 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -946,7 +946,7 @@ class ArnoldiProjector(AbstractProjector):
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1), dtype=start_vec.dtype).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -1029,6 +1029,8 @@ class ArnoldiProjector(AbstractProjector):
         # get top k eigenvalues/vectors and cache
         # proj dim is the value of k
         self.eigvals, self.eigvecs = self._distill(appr_mat, proj, self.proj_dim)
+        # the basis vectors have norm `norm_constant`
+        self.eigvecs = self.eigvecs / self.norm_constant
 
         # prevent from negative eigvals
         if self.proj_dim > torch.sum(self.eigvals > self.tol**2):
-- 
2.43.0


From 981fb591c7e0991d2cdfa204837326248c00fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 39/71] fix: Arnoldi projector drops the eigenvalues it reports
 as dropped

---
 dattri/func/projection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 82e93f2..64cd6cb 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1035,7 +1035,11 @@ class ArnoldiProjector(AbstractProjector):
         # prevent from negative eigvals
         if self.proj_dim > torch.sum(self.eigvals > self.tol**2):
             # adjust proj_dim
-            self.proj_dim = torch.sum(self.eigvals > self.tol**2).item()
+            positive = self.eigvals > self.tol**2
+            self.proj_dim = torch.sum(positive).item()
+            # dropped directions project to zero instead of sqrt of a negative
+            self.eigvals = torch.where(positive, self.eigvals, 1.0)
+            self.eigvecs = torch.where(positive.unsqueeze(1), self.eigvecs, 0.0)
             warnings.warn(
                 "Encountered many negative eigenvalues and `proj_dim` is greater"
                 " than the number of positive eigenvalues. Automatically adjusting"
-- 
2.43.0


From 7bd50da4f477ea5eddf20d0ae160294058656935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 40/71] fix: grass projection is the same for every use of an
 ensemble id

When proj_dim * grass_multiplier exceeded the feature dimension the projector
overwrote its own multiplier, so every later regeneration used another (for
proj_dim > feature_dim: an empty) mask.
---
 dattri/func/projection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 64cd6cb..8d1791a 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -555,10 +555,8 @@ class CudaProjector(AbstractProjector):
         intermediate_dim = self.proj_dim * self.grass_multiplier
 
         # Ensure intermediate_dim doesn't exceed feature_dim
-        if intermediate_dim > self.feature_dim:
-            intermediate_dim = self.feature_dim
-            # Update grass_multiplier to reflect actual ratio used
-            self.grass_multiplier = intermediate_dim // self.proj_dim
+        # (the configured multiplier is kept, every ensemble_id must see the same one)
+        intermediate_dim = min(intermediate_dim, self.feature_dim)
 
         # Generate random mask indices (feature_dim -> intermediate_dim)
         self._gen_randomness_mask(
-- 
2.43.0


From 93d8a6102fedeca31ec68683237c409515bb6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 41/71] fix: BasicProjector can project again after free_memory

---
 dattri/func/projection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 8d1791a..3e43bab 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -364,6 +364,8 @@ class BasicProjector(AbstractProjector):
         )
 
         if self.num_blocks == 1:
+            if not self.proj_matrix_available:  # after free_memory()
+                self._gen_randomness_dense(self.generator_states[0])
             torch.matmul(features.data, self.proj_matrix, out=sketch)
         else:
             for ind in range(self.num_blocks):
-- 
2.43.0


From 656bc960253cd4b7bf0c470ec9162d275d179aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 42/71] fix: chunked dict projection splits parameters at the
 chunk boundaries

dict_project assumed chunks end at parameter boundaries and raised (or copied
past the buffer) when a parameter was split by get_parameter_chunk_sizes or
exactly filled a chunk.
---
 dattri/func/projection.py | 65 +++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 3e43bab..e06efe4 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -728,8 +728,8 @@ class ChunkedCudaProjector:
             dtype=self.dtype,
         )
         pointer = 0
-        # iterate over feature dimensions, keep a counter of #dim so far, and when prev
-        # chunk reaches max_chunk_size, project and accumulate.
+        # iterate over feature dimensions, keep a counter of #dim so far, and when the
+        # chunk is full (see dim_per_chunk), project and accumulate.
         projector_index = 0
         vector_dim = 1
         for _, p in enumerate(features.values()):
@@ -739,48 +739,41 @@ class ChunkedCudaProjector:
             else:
                 p_flat = p.data.flatten(start_dim=1)
 
-            feature_dim_size = p_flat.size(1)
-            # if current accumulated params exceed max_chunk_size,
-            # then stop accumulation.
-            if pointer + feature_dim_size > self.max_chunk_size:
-                # fill remaining entries with 0
-                if pointer != self.dim_per_chunk[projector_index]:
+            # fill the current chunk, a parameter may extend over several chunks
+            actual_bs = min(self.ch_input.size(0), p_flat.size(0))
+            start = 0
+            while start < p_flat.size(1):
+                if projector_index >= len(self.dim_per_chunk):
                     msg = "Current number of accumulated #dim does not match \
                     the #feature dim of current chunk."
                     raise ValueError(msg)
-                # project and accumulate
-                ch_output.add_(
-                    self.projector_per_chunk[projector_index].project(
-                        self.ch_input[:, :pointer].contiguous(),
-                        ensemble_id=ensemble_id,
-                    ),
+                size = min(
+                    self.dim_per_chunk[projector_index] - pointer,
+                    p_flat.size(1) - start,
                 )
-                # reset counter
-                pointer = 0
-                projector_index += 1
-
-            # continue accumulation
-            actual_bs = min(self.ch_input.size(0), p_flat.size(0))
-            self.ch_input[:actual_bs, pointer : pointer + feature_dim_size].copy_(
-                p_flat,
-            )
-            pointer += feature_dim_size
-
-        # at the end, we need to project remaining items
-        # fill remaining entries with 0
-        if pointer != self.dim_per_chunk[projector_index]:
+                self.ch_input[:actual_bs, pointer : pointer + size].copy_(
+                    p_flat[:, start : start + size],
+                )
+                start += size
+                pointer += size
+
+                # project and accumulate a full chunk
+                if pointer == self.dim_per_chunk[projector_index]:
+                    ch_output[:actual_bs].add_(
+                        self.projector_per_chunk[projector_index].project(
+                            self.ch_input[:actual_bs, :pointer].contiguous(),
+                            ensemble_id=ensemble_id,
+                        ),
+                    )
+                    # reset counter
+                    pointer = 0
+                    projector_index += 1
+
+        if projector_index != len(self.dim_per_chunk):
             msg = "Current number of accumulated #dim does not match \
                     the #feature dim of current chunk."
             raise ValueError(msg)
 
-        # project and accumulate
-        ch_output[:actual_bs].add_(
-            self.projector_per_chunk[projector_index].project(
-                self.ch_input[:actual_bs, :pointer].contiguous(),
-                ensemble_id=ensemble_id,
-            ),
-        )
-
         return ch_output[:actual_bs]
 
     def project(self, features: Tensor, ensemble_id: int) -> Tensor:
-- 
2.43.0


From ca61f39a57cc5d84ecd68d959ad8211f2b29c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 43/71] fix: missing preconditioners are reported instead of
 giving zero influence

After an interrupted cache() the remaining preconditioners were silently
treated as zero, and so were the self-influence scores of a restarted run.
---
 dattri/algorithm/block_projected_if/block_projected_if.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 181461f..dda62db 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -452,7 +452,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         Here we use empirical fisher information matrix.
 
         Raises:
-            ValueError: If layer dimensions are not found.
+            ValueError: If layer dimensions or preconditioners are not found.
         """
         logger.info("Computing IFVP...")
 
@@ -477,6 +477,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
         preconditioners = []
         for layer_idx in range(len(self.layer_names)):
             precond = self.offload_manager.retrieve_preconditioner(layer_idx)
+            if precond is None and self.layer_dims[layer_idx] > 0:
+                msg = (
+                    f"No preconditioner found for layer {self.layer_names[layer_idx]}. "
+                    "Ensure preconditioners have been computed and stored."
+                )
+                raise ValueError(msg)
             preconditioners.append(precond)
 
         # Get batch mapping
-- 
2.43.0


From 42795bd4ecb0d39c66d8022e6b0e82424a9e1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 44/71] fix: self_attribute gives one entry per sample for any
 batch size and normalization

---
 dattri/algorithm/base.py | 58 ++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 66ccd2f..782f354 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -479,8 +479,7 @@ class BaseInnerProductAttributor(BaseAttributor):
             TypeError: If train/test data is not tuple, list, or dict.
 
         """
-        test_dataloader = train_dataloader
-        super().attribute(train_dataloader, test_dataloader)
+        super().attribute(train_dataloader, train_dataloader)
         if self.full_train_dataloader is None:
             self.full_train_dataloader = train_dataloader
             warnings.warn(
@@ -491,7 +490,6 @@ class BaseInnerProductAttributor(BaseAttributor):
             )
 
         _check_shuffle(train_dataloader)
-        _check_shuffle(test_dataloader)
 
         tda_output = torch.zeros(
             size=(len(train_dataloader.sampler),),
@@ -500,7 +498,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         for checkpoint_idx in range(len(self.task.get_checkpoints())):
             # Multiply by current index to prepare for running average
             tda_output *= checkpoint_idx
-            for _, train_batch_data_ in enumerate(
+            for train_batch_idx, train_batch_data_ in enumerate(
                 tqdm(
                     train_dataloader,
                     desc="calculating gradient of training set...",
@@ -552,36 +550,32 @@ class BaseInnerProductAttributor(BaseAttributor):
                     train_rep=train_batch_rep,
                 )
 
-                for _, _ in enumerate(
-                    tqdm(
-                        test_dataloader,
-                        desc="calculating gradient of test set...",
-                        leave=False,
-                    ),
-                ):
-                    # move to device
-                    test_batch_data = train_batch_data
-                    # get initial representations of test data
-                    test_batch_rep = self.generate_test_rep(
-                        ckpt_idx=checkpoint_idx,
-                        data=test_batch_data,
-                    )
-                    # transform the test representations
-                    test_batch_rep = self.transform_test_rep(
-                        ckpt_idx=checkpoint_idx,
-                        test_rep=test_batch_rep,
-                    )
-                influence_values = (
-                    torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
-                    / denom.unsqueeze(-1)
-                    if denom is not None
-                    else torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
+                # get representations of the same samples as test data
+                test_batch_rep = self.generate_test_rep(
+                    ckpt_idx=checkpoint_idx,
+                    data=train_batch_data,
                 )
-
-                tda_output += (
-                    # Accumulate influence values across checkpoints
-                    influence_values
+                # transform the test representations
+                test_batch_rep = self.transform_test_rep(
+                    ckpt_idx=checkpoint_idx,
+                    test_rep=test_batch_rep,
+                )
+                influence_values = torch.einsum(
+                    "ij,ij->i",
+                    train_batch_rep,
+                    test_batch_rep,
+                )
+                if denom is not None:
+                    influence_values = influence_values / denom
+
+                # results position based on batch info
+                row_st = train_batch_idx * train_dataloader.batch_size
+                row_ed = min(
+                    (train_batch_idx + 1) * train_dataloader.batch_size,
+                    len(train_dataloader.sampler),
                 )
+                # Accumulate influence values across checkpoints
+                tda_output[row_st:row_ed] += influence_values
             tda_output /= (
                 checkpoint_idx + 1
             )  # Calculate running average by dividing by number of checkpoints
-- 
2.43.0


From 283a674aa526279c7ff979070778084747ecec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 45/71] fix: TRAK self_attribute works after cache and returns
 one entry per sample

---
 dattri/algorithm/trak.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index d2a66d0..b61d10e 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -118,6 +118,7 @@ class TRAKAttributor(BaseAttributor):
         _check_shuffle(full_train_dataloader)
         self.full_train_dataloader = full_train_dataloader
         inv_XTX_XT_list = []
+        train_projected_grad_list = []
         running_Q = 0
         running_count = 0
         for ckpt_idx in range(len(self.task.get_checkpoints())):
@@ -195,10 +196,12 @@ class TRAKAttributor(BaseAttributor):
             kernel_matrix.diagonal().add_(self.regularization)
             inv_XTX_XT = torch.linalg.solve(kernel_matrix, full_train_projected_grad.T)
             inv_XTX_XT_list.append(inv_XTX_XT)
+            train_projected_grad_list.append(full_train_projected_grad)
             running_Q = running_Q * running_count + Q
             running_count += 1  # noqa: SIM113
             running_Q /= running_count
         self.inv_XTX_XT_list = inv_XTX_XT_list
+        self.train_projected_grad_list = train_projected_grad_list
         self.Q = running_Q
 
     def attribute(  # noqa: PLR0912, PLR0914, PLR0915
@@ -415,8 +418,6 @@ class TRAKAttributor(BaseAttributor):
                 dataloader is cached or no train_loader is provided in both cases.
             TypeError: If train/test data is not tuple, list, or dict.
         """
-        test_dataloader = train_dataloader
-        _check_shuffle(test_dataloader)
         if train_dataloader is not None:
             _check_shuffle(train_dataloader)
 
@@ -532,7 +533,7 @@ class TRAKAttributor(BaseAttributor):
                     running_xinv_XTX_XT * running_count
                     + torch.einsum(
                         "ij,ij->i",
-                        train_projected_grad,
+                        self.train_projected_grad_list[ckpt_idx],
                         self.inv_XTX_XT_list[ckpt_idx].T,
                     )
                 )
@@ -544,5 +545,5 @@ class TRAKAttributor(BaseAttributor):
                 running_Q /= running_count
             running_xinv_XTX_XT /= running_count
         if train_dataloader is not None:
-            return (running_xinv_XTX_XT * running_Q.to(self.device).unsqueeze(0)).T
-        return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T
+            return running_xinv_XTX_XT * running_Q.to(self.device)
+        return running_xinv_XTX_XT * self.Q.to(self.device)
-- 
2.43.0


From 4849131d09091a382b5506ef582f66cfd094bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 46/71] fix: TRAK without cache accepts the same probability
 shapes as with cache

---
 dattri/algorithm/trak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index b61d10e..e94bd98 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -323,7 +323,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
@@ -509,7 +509,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
-- 
2.43.0


From ca2481ac6d3d573146973a7ebde223ce3c713a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 47/71] fix: rev-rev HVP accepts integer-typed constant
 arguments

---
 dattri/func/hessian.py | 50 ++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index bf39145..b8ddeec 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -28,6 +28,32 @@ from torch import Tensor
 from torch.func import grad, hessian, jvp, vjp, vmap
 
 
+def _fix_other_args(
+    func: Callable,
+    x: Tuple[torch.Tensor, ...],
+    argnums: int,
+) -> Callable:
+    """View a function as a function of one of its arguments only.
+
+    The other arguments are constants. They can be of any (also integer) type.
+
+    Args:
+        func (Callable): A Python function that takes one or more arguments.
+        x (Tuple[torch.Tensor, ...]): The arguments of the function.
+        argnums (int): The position of the argument that stays free.
+
+    Returns:
+        Callable: The function of the free argument.
+    """
+
+    def _func(x_i: Tensor) -> Tensor:
+        args = list(x)
+        args[argnums] = x_i
+        return func(*args)
+
+    return _func
+
+
 def hvp(
     func: Callable,
     argnums: int = 0,
@@ -89,8 +115,8 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            _, vjp_fn = vjp(grad_func, *x)
-            return vjp_fn(v)[argnums] + regularization * v
+            _, vjp_fn = vjp(_fix_other_args(grad_func, x, argnums), x[argnums])
+            return vjp_fn(v)[0] + regularization * v
     else:
 
         def _hvp_func(x: Tuple[torch.Tensor, ...], v: Tensor) -> Tensor:
@@ -105,12 +131,8 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-
-            # only the argument in question is perturbed, the others are constants
-            def _grad_at(x_i: Tensor) -> Tensor:
-                return grad_func(*x[:argnums], x_i, *x[argnums + 1 :])
-
-            return jvp(_grad_at, (x[argnums],), (v,))[1] + regularization * v
+            grad_at = _fix_other_args(grad_func, x, argnums)
+            return jvp(grad_at, (x[argnums],), (v,))[1] + regularization * v
 
     return _hvp_func
 
@@ -170,7 +192,7 @@ def hvp_at_x(
     grad_func = grad(func, argnums=argnums)
     if mode == "rev-rev":
         # pylint: disable=unbalanced-tuple-unpacking
-        _, vjp_fn = vjp(grad_func, *x)
+        _, vjp_fn = vjp(_fix_other_args(grad_func, x, argnums), x[argnums])
 
         def _hvp_at_x_func(v: Tensor) -> Tensor:
             """The HVP function based on func.
@@ -182,7 +204,7 @@ def hvp_at_x(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            return vjp_fn(v)[argnums] + regularization * v
+            return vjp_fn(v)[0] + regularization * v
     else:
         def _hvp_at_x_func(v: Tensor) -> Tensor:
             """The HVP function based on func.
@@ -194,12 +216,8 @@ def hvp_at_x(
             Returns:
                 (Tensor) The hessian vector production.
             """
-
-            # only the argument in question is perturbed, the others are constants
-            def _grad_at(x_i: Tensor) -> Tensor:
-                return grad_func(*x[:argnums], x_i, *x[argnums + 1 :])
-
-            return jvp(_grad_at, (x[argnums],), (v,))[1] + regularization * v
+            grad_at = _fix_other_args(grad_func, x, argnums)
+            return jvp(grad_at, (x[argnums],), (v,))[1] + regularization * v
 
     return _hvp_at_x_func
 
-- 
2.43.0


From 67ac4337e5db9fd6e2e32dca674b70310e585db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 48/71] fix: LiSSA attributor keeps the dtype of the data
 (float64 models, token ids)

---
 dattri/algorithm/influence_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 4dd9bf9..3041ad9 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -35,7 +35,7 @@ def _lissa_collate_fn(
     """
     return (
         sampled_input[0],
-        tuple(sampled_input[i].float() for i in range(1, len(sampled_input))),
+        tuple(sampled_input[1:]),
     )
 
 
@@ -605,7 +605,7 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
         """
         return (
             sampled_input[0],
-            tuple(sampled_input[i].float() for i in range(1, len(sampled_input))),
+            tuple(sampled_input[1:]),
         )
 
     @staticmethod
-- 
2.43.0


From 6af5fb62becee04cb6d5083cb756d76f864f6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 49/71] fix: TracIn self_attribute with normalized gradients
 handles zero gradients

---
 dattri/algorithm/tracin.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dattri/algorithm/tracin.py b/dattri/algorithm/tracin.py
index 3d71021..34a85e8 100644
--- a/dattri/algorithm/tracin.py
+++ b/dattri/algorithm/tracin.py
@@ -368,17 +368,14 @@ class TracInAttributor(BaseAttributor):
                     len(train_dataloader.sampler),
                 )
                 if self.normalized_grad:
-                    tda_output[row_st:row_ed] += (
-                        (torch.ones(row_ed - row_st) * ckpt_weight).detach().cpu()
-                    )
-                else:
-                    tda_output[row_st:row_ed] += (
-                        (
-                            torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)
-                            * ckpt_weight
-                        )
-                        .detach()
-                        .cpu()
+                    train_batch_grad = normalize(train_batch_grad)
+                tda_output[row_st:row_ed] += (
+                    (
+                        torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)
+                        * ckpt_weight
                     )
+                    .detach()
+                    .cpu()
+                )
 
         return tda_output
-- 
2.43.0


From ef12e202b6bb866bf589f9919a27fa9cfc8986a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 50/71] fix: gradient capture leaves no gradients behind on the
 caller's model

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 6 ++++--
 dattri/algorithm/dvemb.py                                 | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index dda62db..d731ea8 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -319,7 +319,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
         # Save metadata
         self.metadata.save_metadata()
 
-        # Clean up hooks
+        # Clean up hooks and gradients
+        self.model.zero_grad()
         self.hook_manager.remove_hooks()
         self.hook_manager = None
 
@@ -968,7 +969,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
-        # Clean up hooks
+        # Clean up hooks and gradients
+        self.model.zero_grad()
         self.hook_manager.remove_hooks()
         self.hook_manager = None
 
diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 88ad546..318fcbb 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -500,6 +500,7 @@ class DVEmbAttributor:
 
         for h in handles:
             h.remove()
+        self.model.zero_grad()
 
         return caches
 
-- 
2.43.0


From 30594314f17ff05cc0488ff452ab1fcbefe2f053 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 51/71] fix: loo_corr aligns the scores with the removed
 indices

---
 dattri/metric/metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/metric/metrics.py b/dattri/metric/metrics.py
index 93d1ecc..c0a82e4 100644
--- a/dattri/metric/metrics.py
+++ b/dattri/metric/metrics.py
@@ -100,8 +100,9 @@ def loo_corr(
             metric values and their corresponding p-values. Both tensors have the
             shape (num_test_samples,).
     """
-    score = score.cpu()
-    gt_values, _ = ground_truth
+    gt_values, indices = ground_truth
+    # keep the scores of the removed samples, in the order of the ground truth
+    score = score.cpu()[torch.as_tensor(indices, dtype=torch.long)]
     num_test_samples = score.shape[1]
 
     loo_corr = torch.stack(
-- 
2.43.0


From 4159930c506da8f44d8530bc31eb2c9a5c34e7b8 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 52/71] fix: brittleness removes the scored samples and reports
 the smallest k

---
 dattri/metric/britteness.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 56437ef..fd350d7 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -50,10 +50,10 @@ def brittleness(
     """
     if search_space is None:
         search_space = list(range(0, 200, 20))
-    k_values = list(search_space)
+    k_values = sorted(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
-    sorted_indices = np.argsort(scores)[::-1]
+    sorted_indices = np.argsort(np.asarray(scores).reshape(-1))[::-1]
     for k in tqdm(
         k_values,
         desc="Calculating brittleness",
@@ -95,9 +95,17 @@ def check_if_flip(
     Returns:
         bool: True if prediction flips after data removal, otherwise False.
     """
+    # `indices_to_remove` are positions in the train loader (rows of the scores)
     original_sampler = train_loader.sampler
-    original_indices = original_sampler.indices
-    remaining_indices = list(set(original_indices) - set(indices_to_remove))
+    original_indices = getattr(
+        original_sampler,
+        "indices",
+        range(len(original_sampler)),
+    )
+    removed = {int(pos) for pos in indices_to_remove}
+    remaining_indices = [
+        idx for pos, idx in enumerate(original_indices) if pos not in removed
+    ]
 
     new_train_loader = torch.utils.data.DataLoader(
         train_loader.dataset,
-- 
2.43.0


From 959bd4f0a01d4602dab0672364520e9ced67ec01 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 53/71] fix: calculate_loo_ground_truth could not load the
 models saved by retrain_loo

---
 dattri/metric/ground_truth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 85373bd..3f27fbf 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -84,7 +84,8 @@ def calculate_loo_ground_truth(
     model_indices = torch.empty(length_dir)
     for dir_cnt, model_file in enumerate(model_dirs_sorted):
         model_path = Path(retrain_dir) / model_file / "model_weights.pt"
-        model = torch.load(model_path)
+        # `retrain_loo` saves the whole model object
+        model = torch.load(model_path, weights_only=False)
         # Calculate target function values.
         values = target_func(model, test_dataloader)
         loo_results[dir_cnt, :] = values
-- 
2.43.0


From 696e7717ec013cfe599cfa76a9dc9d1bc12366d9 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 54/71] fix: retrain_loo metadata could not be read back with a
 safe yaml loader

---
 dattri/model_util/retrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 28f492d..8100bc2 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -105,7 +105,7 @@ def retrain_loo(
         "mode": "loo",
         "data_length": len(all_indices),
         "train_func": train_func.__name__,
-        "indices": indices,
+        "indices": [int(index) for index in indices],
         "map_index_dir": {},
     }
 
@@ -125,7 +125,7 @@ def retrain_loo(
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
         # Update the metadata.
-        metadata["map_index_dir"][index] = model_dir
+        metadata["map_index_dir"][int(index)] = str(model_dir)
         torch.save(model, weights_dir)
 
     metadata_file = Path(path) / "metadata.yml"
-- 
2.43.0


From 6c78c03ca7848ae6575ca29edbcc712644f5e35e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 55/71] fix: retraining ignored which samples the dataloader's
 sampler selects

---
 dattri/model_util/retrain.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 8100bc2..dda6b8f 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -92,10 +92,10 @@ def retrain_loo(
         # Manually set the seed.
         torch.manual_seed(seed)
 
-    if dataloader.sampler is not None:
-        all_indices = list(range(len(dataloader.sampler)))
-    else:
-        all_indices = list(range(len(dataloader.dataset)))
+    # dataset indices of the samples the dataloader iterates over
+    sampler = dataloader.sampler
+    pool = list(getattr(sampler, "indices", range(len(sampler))))
+    all_indices = list(range(len(pool)))
 
     if indices is None:
         # If indices are not provided default to retrain with every data.
@@ -110,7 +110,7 @@ def retrain_loo(
     }
 
     for index in tqdm(indices, desc="LOO Retraining"):
-        remaining_indices = [idx for idx in all_indices if idx != index]
+        remaining_indices = [pool[idx] for idx in all_indices if idx != index]
         model_dir = Path(path) / f"index_{index}"
         if not model_dir.exists():
             model_dir.mkdir(parents=True)
@@ -226,7 +226,10 @@ def retrain_lds(
     if not path.exists():
         path.mkdir(parents=True)
 
-    data_length = len(dataloader.sampler)
+    # dataset indices of the samples the dataloader iterates over
+    sampler = dataloader.sampler
+    pool = list(getattr(sampler, "indices", range(len(sampler))))
+    data_length = len(pool)
     subset_length = int(data_length * subset_ratio)
 
     subset_dir_map = {}
@@ -245,7 +248,10 @@ def retrain_lds(
             rng = np.random.default_rng(seed + i)
         indices = rng.choice(data_length, subset_length, replace=False)
         subset_dataloader = torch.utils.data.DataLoader(
-            dataset=torch.utils.data.Subset(dataloader.dataset, indices),
+            dataset=torch.utils.data.Subset(
+                dataloader.dataset,
+                [pool[idx] for idx in indices],
+            ),
             batch_size=dataloader.batch_size,
             shuffle=True,
         )
-- 
2.43.0


From d86bdb01f39e157f9d0bb4063a355030b60b0615 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 56/71] fix: sharded retrain_lds runs never wrote complete
 metadata

---
 dattri/model_util/retrain.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index dda6b8f..2c55a75 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -277,16 +277,17 @@ def retrain_lds(
         subset_dir_map[i] = str(path / str(i))
 
     # Save metadata
-    if (
-        total_num_subsets == 0  # noqa: PLR1714
-        or (start_id + 1) * num_subsets == total_num_subsets
-    ):
+    if total_num_subsets == 0:
+        total_num_subsets = num_subsets
+    if start_id + num_subsets == total_num_subsets:
+        # the earlier subsets were (or will be) written by the other runs
+        subset_dir_map = {i: str(path / str(i)) for i in range(total_num_subsets)}
         # Create metadata to save
         metadata = {
             "mode": "lds",
             "data_length": data_length,
             "train_func": train_func.__name__,
-            "num_subsets": (start_id + 1) * num_subsets,
+            "num_subsets": total_num_subsets,
             "subset_ratio": subset_ratio,
             "num_runs_per_subset": num_runs_per_subset,
             "subset_dir_map": subset_dir_map,
-- 
2.43.0


From e698b01481bbf98c8a52c997723f31654b3b4c18 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 57/71] fix: retrain_lds without a seed chose seeds that numpy
 rejects

---
 dattri/model_util/retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 2c55a75..b24cedd 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -210,7 +210,7 @@ def retrain_lds(
     """
     # generate a random seed if seed is not explicitly provided
     if seed is None:
-        seed = random.getrandbits(64)
+        seed = random.getrandbits(31)  # numpy only accepts 32-bit seeds
 
     # Check that num_subsets and total_num_subsets are valid
     if total_num_subsets < 0:
-- 
2.43.0


From 13dd7c87e9e1d5b5d28973b8bad8d7bedb7b9784 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 58/71] fix: retraining dropped the dataloader's collate
 function

---
 dattri/model_util/retrain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index b24cedd..bcaa99f 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -121,6 +121,7 @@ def retrain_loo(
         modified_dataloader = DataLoader(
             dataset_subset,
             batch_size=dataloader.batch_size,
+            collate_fn=dataloader.collate_fn,
         )
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
@@ -254,6 +255,7 @@ def retrain_lds(
             ),
             batch_size=dataloader.batch_size,
             shuffle=True,
+            collate_fn=dataloader.collate_fn,
         )
 
         # Save the subset indices
-- 
2.43.0


From 09fdc29d0372ef8237506f8329b6c2652c500eaa Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 59/71] fix: get_final_layer_io left its hook behind when the
 forward pass failed

---
 dattri/model_util/hook.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/model_util/hook.py b/dattri/model_util/hook.py
index b36f517..e058cb1 100644
--- a/dattri/model_util/hook.py
+++ b/dattri/model_util/hook.py
@@ -57,11 +57,13 @@ def get_final_layer_io(
     hook_handle = model_layer.register_forward_hook(_forward_hook)
 
     # perform a forward pass through the dataloader
-    with torch.no_grad():
-        for x, _ in dataloader:
-            _ = model(x.to(device))
+    try:
+        with torch.no_grad():
+            for x, _ in dataloader:
+                _ = model(x.to(device))
+    finally:
+        hook_handle.remove()
 
-    hook_handle.remove()
     return torch.cat(feature_list, dim=0).to(device), torch.cat(output_list, dim=0).to(
         device,
     )
-- 
2.43.0


From 8270dfef7fa1e1477f4830c13de712e67c0dba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:30 +0000
Subject: [PATCH 60/71] fix: DVEmb recorded training steps that failed and
 masked their error

---
 dattri/algorithm/dvemb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 318fcbb..985e249 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -381,7 +381,12 @@ class DVEmbAttributor:
 
         try:
             yield  # User's training loop executes here (forward + backward + step)
-        finally:
+        except BaseException:
+            # The step failed: leave no trace of it
+            for h in handles:
+                h.remove()
+            raise
+        else:
             # ══════════ __exit__: Clean up and cache gradient factors ══════════
 
             # Remove hooks
-- 
2.43.0


From f64d21d178a76da0c5f0e86f94815f29d1996877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:16 +0000
Subject: [PATCH 61/71] fix: DVEmb left its hooks on the model when caching a
 batch failed

---
 dattri/algorithm/dvemb.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 985e249..d7b7569 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -497,14 +497,19 @@ class DVEmbAttributor:
         self.model.zero_grad()
         handles, caches = self._register_factorization_hooks()
 
-        # Strict requirements on batch_data
-        batch_data_tensors = [d.to(self.device) for d in batch_data]
-        loss = self.task.original_loss_func(self.model, batch_data_tensors, self.device)
-        loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
-        loss.backward()
-
-        for h in handles:
-            h.remove()
+        try:
+            # Strict requirements on batch_data
+            batch_data_tensors = [d.to(self.device) for d in batch_data]
+            loss = self.task.original_loss_func(
+                self.model,
+                batch_data_tensors,
+                self.device,
+            )
+            loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
+            loss.backward()
+        finally:
+            for h in handles:
+                h.remove()
         self.model.zero_grad()
 
         return caches
-- 
2.43.0


From ed29d5c6f76ceee57b8cdaaefca8b8ae6169d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:58 +0000
Subject: [PATCH 62/71] fix: EK-FAC left its hooks on the model when caching
 failed

---
 dattri/algorithm/influence_function.py | 61 +++++++++++++-------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 3041ad9..eb4aa49 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1011,37 +1011,38 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             mod = self.task.model.get_submodule(name)
             handles.append(mod.register_forward_hook(_ekfac_hook))
 
-        # The FIM is estimated on the loss. Differentiating a detached copy of the
-        # parameters keeps the gradients out of the model.
-        func = partial(
-            self.task.get_loss_func(),
-            self.task.get_param()[0].detach().requires_grad_(),
-        )
-        # 1. Use random batch to estimate covariance matrices S and A
-        cov_matrices = estimate_covariance(
-            func,
-            full_train_dataloader,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
-
-        # 2. Calculate the eigenvalue decomposition of S and A
-        self.cached_q = estimate_eigenvector(cov_matrices)
-
-        # 3. Use random batch for eigenvalue correction
-        self.cached_lambdas = estimate_lambda(
-            func,
-            full_train_dataloader,
-            self.cached_q,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
+        try:
+            # The FIM is estimated on the loss. Differentiating a detached copy of the
+            # parameters keeps the gradients out of the model.
+            func = partial(
+                self.task.get_loss_func(),
+                self.task.get_param()[0].detach().requires_grad_(),
+            )
+            # 1. Use random batch to estimate covariance matrices S and A
+            cov_matrices = estimate_covariance(
+                func,
+                full_train_dataloader,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
 
-        # Remove hooks after preprocessing the FIM
-        for handle in handles:
-            handle.remove()
+            # 2. Calculate the eigenvalue decomposition of S and A
+            self.cached_q = estimate_eigenvector(cov_matrices)
+
+            # 3. Use random batch for eigenvalue correction
+            self.cached_lambdas = estimate_lambda(
+                func,
+                full_train_dataloader,
+                self.cached_q,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
+        finally:
+            # Remove hooks after preprocessing the FIM
+            for handle in handles:
+                handle.remove()
 
     def transform_test_rep(
         self,
-- 
2.43.0


From d1f693524fea986ed9f259cfc4dd74144dace24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:29 +0000
Subject: [PATCH 63/71] fix: block-projected attributors left the model patched
 when a pass failed

---
 .../block_projected_if/block_projected_if.py  | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index d731ea8..aae86d4 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -15,6 +15,7 @@ if TYPE_CHECKING:
 
     from dattri.task import AttributionTask
 
+import functools
 import logging
 
 import torch
@@ -35,6 +36,34 @@ from dattri.params.projection import GeneralProjectionParams
 logger = logging.getLogger(__name__)
 
 
+def _release_hooks_on_failure(method: Callable) -> Callable:
+    """Restore the hooked model when a method of an attributor fails.
+
+    Args:
+        method: The method, which removes the hooks itself when it succeeds.
+
+    Returns:
+        The wrapped method.
+    """
+
+    @functools.wraps(method)
+    def wrapper(
+        self: "BlockProjectedIFAttributor",
+        *args: Any,
+        **kwargs: Any,
+    ) -> Any:
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            if self.hook_manager is not None:
+                self.model.zero_grad()
+                self.hook_manager.remove_hooks()
+                self.hook_manager = None
+            raise
+
+    return wrapper
+
+
 class BlockProjectedIFAttributor(BaseAttributor):
     """Block-Projected Influence Function Attributor.
 
@@ -213,6 +242,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             if self.metadata.layer_dims is None:
                 self.metadata.set_layer_dims(self.layer_dims)
 
+    @_release_hooks_on_failure
     def cache(self, full_train_dataloader: DataLoader) -> None:  # noqa: PLR0912
         """Cache gradients and IFVP for the full training dataset.
 
@@ -893,6 +923,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             test_grads_tensor,
         ).to(train_grads_tensor).t()
 
+    @_release_hooks_on_failure
     def _compute_test_gradients(  # noqa: PLR0912 - Complex gradient computation requires multiple branches for different input types and error handling
         self,
         test_dataloader: DataLoader,
-- 
2.43.0


From 69702a81deb8064ae3fbef396852f98d54ecb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:29 +0000
Subject: [PATCH 64/71] fix: compressor setup left its hooks on the model when
 the sample pass failed

---
 .../block_projected_if/core/compressor.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/compressor.py b/dattri/algorithm/block_projected_if/core/compressor.py
index 8ef4aee..6d2de1e 100644
--- a/dattri/algorithm/block_projected_if/core/compressor.py
+++ b/dattri/algorithm/block_projected_if/core/compressor.py
@@ -303,15 +303,16 @@ def setup_model_compressors(  # noqa: PLR0912, PLR0914, PLR0915 - Complex setup
             hooks.append(hook)
 
     # Run another forward pass to capture inputs/outputs
-    with torch.no_grad():
-        if isinstance(sample_inputs, dict):
-            model(**inputs)
-        else:
-            model(inputs)
-
-    # Remove temporary hooks
-    for hook in hooks:
-        hook.remove()
+    try:
+        with torch.no_grad():
+            if isinstance(sample_inputs, dict):
+                model(**inputs)
+            else:
+                model(inputs)
+    finally:
+        # Remove temporary hooks
+        for hook in hooks:
+            hook.remove()
 
     # Create sparsifiers and projectors for each layer
     module_list = list(model.named_modules())
-- 
2.43.0


From ccafd9a39f6247648fa9863c3b868fb0bde18f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 65/71] fix: a failed checkpoint load was taken for the
 checkpoint loaded before

---
 dattri/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/task.py b/dattri/task.py
index 6955ca5..2170a52 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -167,6 +167,8 @@ class AttributionTask:
             self.current_checkpoint_idx is None
             or self.current_checkpoint_idx != ckpt_idx
         ):
+            # A load that fails can leave the model between two checkpoints
+            self.current_checkpoint_idx = None
             self.model = self.checkpoints_load_func(
                 self.model,
                 self.checkpoints[ckpt_idx],
-- 
2.43.0


From dad6afa9da9e5ed59f47de90aebab3cf92a41736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:00 +0000
Subject: [PATCH 66/71] fix: a failed EK-FAC cache left a mixture of old and
 new statistics

---
 dattri/algorithm/influence_function.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index eb4aa49..2018c5f 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1028,17 +1028,20 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             )
 
             # 2. Calculate the eigenvalue decomposition of S and A
-            self.cached_q = estimate_eigenvector(cov_matrices)
+            cached_q = estimate_eigenvector(cov_matrices)
 
             # 3. Use random batch for eigenvalue correction
-            self.cached_lambdas = estimate_lambda(
+            cached_lambdas = estimate_lambda(
                 func,
                 full_train_dataloader,
-                self.cached_q,
+                cached_q,
                 self.layer_cache,
                 max_iter,
                 device=self.device,
             )
+
+            # Only a finished pass replaces what was cached before
+            self.cached_q, self.cached_lambdas = cached_q, cached_lambdas
         finally:
             # Remove hooks after preprocessing the FIM
             for handle in handles:
-- 
2.43.0


From 3613dfd59e765f6cb85cbebb0c1c0f39a407e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:13 +0000
Subject: [PATCH 67/71] fix: block-projected attributors mishandled layers a
 batch does not run

A layer that took no part in a batch was given the gradients of an earlier
batch, or made caching crash when it had never run.
---
 .../algorithm/block_projected_if/block_projected_if.py   | 9 +++++++++
 dattri/algorithm/block_projected_if/core/hook.py         | 9 ++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index aae86d4..3838458 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -331,6 +331,15 @@ class BlockProjectedIFAttributor(BaseAttributor):
                         self.offload_manager.layer_dims = self.layer_dims
                         self.offload_manager.total_proj_dim = self.total_proj_dim
 
+                # A layer which took no part in this batch has zero gradients
+                batch_size = next(
+                    iter(batch.values() if isinstance(batch, dict) else batch),
+                ).shape[0]
+                compressed_grads = [
+                    torch.zeros(batch_size, dim) if grad is None else grad
+                    for grad, dim in zip(compressed_grads, self.layer_dims)
+                ]
+
                 # Store gradients using offload manager
                 self.offload_manager.store_gradients(
                     batch_idx,
diff --git a/dattri/algorithm/block_projected_if/core/hook.py b/dattri/algorithm/block_projected_if/core/hook.py
index 39fd75c..9a61f95 100644
--- a/dattri/algorithm/block_projected_if/core/hook.py
+++ b/dattri/algorithm/block_projected_if/core/hook.py
@@ -360,12 +360,15 @@ class HookManager:
         self.hooks_enabled = False
 
     def get_compressed_grads(self) -> List[Tensor]:
-        """Get all captured compressed gradients.
+        """Get the compressed gradients captured since the last call.
 
         Returns:
-            List of compressed gradients for each hooked layer
+            List of compressed gradients for each hooked layer, None for a layer
+            which took no part in the backward pass
         """
-        return self.compressed_grads
+        captured = self.compressed_grads
+        self.compressed_grads = [None] * len(self.layer_names)
+        return captured
 
     def remove_hooks(self) -> None:
         """Restore original forward methods and cleanup registry."""
-- 
2.43.0


From 205cd22e24310b22b19a5e8a2cc52371807bdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 68/71] fix: RPS used a stale model when the load function
 returns a new one

---
 dattri/algorithm/rps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index ad57df5..321f533 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -59,8 +59,8 @@ class RPSAttributor(BaseAttributor):
         """
         self.task = task
         self.target_func = task.get_target_func(flatten=False)
-        self.model = task.get_model()
         self.task.get_param(ckpt_idx=0)  # to load the checkpoint
+        self.model = task.get_model()
         self.final_linear_layer_name = final_linear_layer_name
         self.normalize_preactivate = normalize_preactivate
         self.l2_strength = l2_strength
@@ -78,6 +78,7 @@ class RPSAttributor(BaseAttributor):
         """
         self.full_train_dataloader = full_train_dataloader
         self.task.get_param(ckpt_idx=0)  # other users of the task may have moved it
+        self.model = self.task.get_model()
 
         # get intermediate outputs and predictions for full train dataset
         intermediate_x_train, y_pred_train = get_final_layer_io(
@@ -135,6 +136,7 @@ class RPSAttributor(BaseAttributor):
         _check_shuffle(train_dataloader)
         _check_shuffle(test_dataloader)
         self.task.get_param(ckpt_idx=0)  # other users of the task may have moved it
+        self.model = self.task.get_model()
 
         intermediate_x_train, y_pred_train = get_final_layer_io(
             self.model,
-- 
2.43.0


From b41088ebb1e9e7b9fcb70f8a095db7eabed6ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 69/71] fix: DVEmb scaled the gradient of parallel layers more
 than once

---
 dattri/algorithm/dvemb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index d7b7569..5dd1622 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -399,7 +399,8 @@ class DVEmbAttributor:
             # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
             for cache in caches:
                 if cache["B"] is not None:
-                    cache["B"] *= len(indices)
+                    # Not in place: layers may share one gradient tensor
+                    cache["B"] = cache["B"] * len(indices)
 
             # Cache the gradient factors (with projection if configured)
             if self.projection_dim_per_layer is None:
-- 
2.43.0


From f1d739839fee99f34c12ecafc9a010f285cdca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 70/71] fix: DVEmb's recorded steps changed when the caller
 reused its batch

---
 dattri/algorithm/dvemb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 5dd1622..92b4c26 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -232,7 +232,8 @@ class DVEmbAttributor:
                 inputs: Tuple[Tensor, ...],
                 _output: Tensor,
             ) -> None:
-                a = inputs[0].detach()
+                # A copy: the caller may reuse the tensors of its batch
+                a = inputs[0].detach().clone()
                 # Keep original dimensions (2D or 3D) for proper gradient computation
                 caches[idx]["A"] = a
                 caches[idx]["has_bias"] = layer.bias is not None
@@ -413,7 +414,7 @@ class DVEmbAttributor:
                 self.cached_gradients[epoch].append(projected_grads.cpu())
 
             self.learning_rates[epoch].append(learning_rate / len(indices))
-            self.data_indices[epoch].append(indices.cpu())
+            self.data_indices[epoch].append(indices.cpu().clone())
 
     def _calculate_full_gradients(
         self,
@@ -481,7 +482,7 @@ class DVEmbAttributor:
 
         self.cached_gradients[epoch].append(per_sample_grads.cpu())
         self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self.data_indices[epoch].append(indices.cpu().clone())
 
     def _calculate_gradient_factors(
         self,
@@ -687,7 +688,7 @@ class DVEmbAttributor:
             self.cached_gradients[epoch].append(projected_grads.cpu())
 
         self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self.data_indices[epoch].append(indices.cpu().clone())
 
     def clear_cache(self) -> None:
         """Clears cached gradients and factors to free memory."""
-- 
2.43.0


From 088a41f7a97af4bd33c85b21b74199230641ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:32 +0000
Subject: [PATCH 71/71] fix: factorized DVEmb crashed on layers a batch does
 not run

---
 dattri/algorithm/dvemb.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 92b4c26..fbbb47d 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -403,6 +403,8 @@ class DVEmbAttributor:
                     # Not in place: layers may share one gradient tensor
                     cache["B"] = cache["B"] * len(indices)
 
+            self._fill_missing_factors(caches, len(indices))
+
             # Cache the gradient factors (with projection if configured)
             if self.projection_dim_per_layer is None:
                 self.cached_factors[epoch].append(caches)
@@ -513,9 +515,28 @@ class DVEmbAttributor:
             for h in handles:
                 h.remove()
         self.model.zero_grad()
+        self._fill_missing_factors(caches, batch_data_tensors[0].shape[0])
 
         return caches
 
+    def _fill_missing_factors(
+        self,
+        caches: List[Dict[str, Tensor]],
+        batch_size: int,
+    ) -> None:
+        """Set the factors of layers the loss did not depend on to zero.
+
+        Args:
+            caches: The factors collected by the hooks, modified in place.
+            batch_size: The number of samples in the batch.
+        """
+        for cache, layer in zip(caches, self._linear_layers):
+            if cache["A"] is None or cache["B"] is None:
+                weight = layer.weight
+                cache["A"] = weight.new_zeros(batch_size, layer.in_features)
+                cache["B"] = weight.new_zeros(batch_size, layer.out_features)
+                cache["has_bias"] = layer.bias is not None
+
     def _reconstruct_gradients(  # noqa: PLR6301
         self,
         gradient_factors: List[Dict[str, Tensor]],
-- 
2.43.0

