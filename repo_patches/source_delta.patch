From 01a99932f307dd8abc5bc03175cd9cf3d4204114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 01/53] fix: self_attribute writes each batch to its own rows
 and keeps relatif scores 1-d

---
 dattri/algorithm/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 66ccd2f..99b7d6b 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -500,7 +500,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         for checkpoint_idx in range(len(self.task.get_checkpoints())):
             # Multiply by current index to prepare for running average
             tda_output *= checkpoint_idx
-            for _, train_batch_data_ in enumerate(
+            for train_batch_idx, train_batch_data_ in enumerate(
                 tqdm(
                     train_dataloader,
                     desc="calculating gradient of training set...",
@@ -572,16 +572,20 @@ class BaseInnerProductAttributor(BaseAttributor):
                         test_rep=test_batch_rep,
                     )
                 influence_values = (
-                    torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
-                    / denom.unsqueeze(-1)
+                    torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep) / denom
                     if denom is not None
                     else torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
                 )
 
-                tda_output += (
-                    # Accumulate influence values across checkpoints
-                    influence_values
+                # results position based on batch info
+                row_st = train_batch_idx * train_dataloader.batch_size
+                row_ed = min(
+                    (train_batch_idx + 1) * train_dataloader.batch_size,
+                    len(train_dataloader.sampler),
                 )
+
+                # Accumulate influence values across checkpoints
+                tda_output[row_st:row_ed] += influence_values
             tda_output /= (
                 checkpoint_idx + 1
             )  # Calculate running average by dividing by number of checkpoints
-- 
2.43.0


From 1dd809ff497cdee2cee1cdc70441c74b66b4b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 02/53] fix: TRAK self_attribute works after cache() and
 returns one score per training sample

---
 dattri/algorithm/trak.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index d2a66d0..0c0ce8d 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -415,8 +415,6 @@ class TRAKAttributor(BaseAttributor):
                 dataloader is cached or no train_loader is provided in both cases.
             TypeError: If train/test data is not tuple, list, or dict.
         """
-        test_dataloader = train_dataloader
-        _check_shuffle(test_dataloader)
         if train_dataloader is not None:
             _check_shuffle(train_dataloader)
 
@@ -544,5 +542,5 @@ class TRAKAttributor(BaseAttributor):
                 running_Q /= running_count
             running_xinv_XTX_XT /= running_count
         if train_dataloader is not None:
-            return (running_xinv_XTX_XT * running_Q.to(self.device).unsqueeze(0)).T
-        return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T
+            return running_xinv_XTX_XT * running_Q.to(self.device)
+        return running_xinv_XTX_XT * self.Q.to(self.device)
-- 
2.43.0


From 3e83c4833b14b13c25f1294504d123079194972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 03/53] fix: TRAK accepts one-element probabilities without
 cache() as it does with cache()

---
 dattri/algorithm/trak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index 0c0ce8d..1e4a93a 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -320,7 +320,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
@@ -506,7 +506,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
-- 
2.43.0


From f2b5837c168501304f083b438c22a3fac8929d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 04/53] fix: TRAK self_attribute uses the features kept by
 cache()

---
 dattri/algorithm/trak.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index 1e4a93a..e94bd98 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -118,6 +118,7 @@ class TRAKAttributor(BaseAttributor):
         _check_shuffle(full_train_dataloader)
         self.full_train_dataloader = full_train_dataloader
         inv_XTX_XT_list = []
+        train_projected_grad_list = []
         running_Q = 0
         running_count = 0
         for ckpt_idx in range(len(self.task.get_checkpoints())):
@@ -195,10 +196,12 @@ class TRAKAttributor(BaseAttributor):
             kernel_matrix.diagonal().add_(self.regularization)
             inv_XTX_XT = torch.linalg.solve(kernel_matrix, full_train_projected_grad.T)
             inv_XTX_XT_list.append(inv_XTX_XT)
+            train_projected_grad_list.append(full_train_projected_grad)
             running_Q = running_Q * running_count + Q
             running_count += 1  # noqa: SIM113
             running_Q /= running_count
         self.inv_XTX_XT_list = inv_XTX_XT_list
+        self.train_projected_grad_list = train_projected_grad_list
         self.Q = running_Q
 
     def attribute(  # noqa: PLR0912, PLR0914, PLR0915
@@ -530,7 +533,7 @@ class TRAKAttributor(BaseAttributor):
                     running_xinv_XTX_XT * running_count
                     + torch.einsum(
                         "ij,ij->i",
-                        train_projected_grad,
+                        self.train_projected_grad_list[ckpt_idx],
                         self.inv_XTX_XT_list[ckpt_idx].T,
                     )
                 )
-- 
2.43.0


From cb86255a576040d9320f937ed3377be3168d6590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 05/53] fix: KNN-Shapley value of the farthest sample when
 k_neighbors exceeds the training set

---
 dattri/algorithm/data_shapley.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/data_shapley.py b/dattri/algorithm/data_shapley.py
index 057671f..1113802 100644
--- a/dattri/algorithm/data_shapley.py
+++ b/dattri/algorithm/data_shapley.py
@@ -198,7 +198,7 @@ class KNNShapleyAttributor(BaseAttributor):
         ):
             shapley_values[j, nn_sorting[j, -1]] = (
                 train_labels[nn_sorting[j, -1]] == test_labels[j]
-            ) / num_train_samples
+            ) / max(self.k_neighbors, num_train_samples)
 
             for i in torch.arange(num_train_samples - 2, -1, -1):
                 shapley_values[j, nn_sorting[j, i]] = shapley_values[
-- 
2.43.0


From 38788e7927776f8b02b2f2efce3a67ce32ccf304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 06/53] fix: DVEmb.cache works when the first cached epoch is
 not 0

---
 dattri/algorithm/dvemb.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b88f1b9..0e31360 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -738,13 +738,15 @@ class DVEmbAttributor:
             grad_dim = self._params_dim
             if self.projection_dim_per_layer is None:
                 # No projection: use cached factors
-                grad_dtype = self.cached_factors[0][0][0]["A"].dtype
+                first_factors = next(iter(self.cached_factors.values()))[0]
+                grad_dtype = first_factors[0]["A"].dtype
             else:
                 # With projection (kronecker or elementwise): use cached gradients
-                grad_dtype = self.cached_gradients[0][0].dtype
+                grad_dtype = next(iter(self.cached_gradients.values()))[0].dtype
         else:
-            grad_dim = self.cached_gradients[0][0].shape[1]
-            grad_dtype = self.cached_gradients[0][0].dtype
+            first_grads = next(iter(self.cached_gradients.values()))[0]
+            grad_dim = first_grads.shape[1]
+            grad_dtype = first_grads.dtype
 
         # Create weighting matrix
         m_matrix = torch.zeros(
-- 
2.43.0


From 9369aa84870b836deec0c5ed4ee54b423bc84b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 07/53] fix: DVEmb.cache_gradients_context scales captured
 gradients out of place (expanded gradients raised)

---
 dattri/algorithm/dvemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 0e31360..d61e6bb 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -394,7 +394,7 @@ class DVEmbAttributor:
             # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
             for cache in caches:
                 if cache["B"] is not None:
-                    cache["B"] *= len(indices)
+                    cache["B"] = cache["B"] * len(indices)
 
             # Cache the gradient factors (with projection if configured)
             if self.projection_dim_per_layer is None:
-- 
2.43.0


From 9e6c2c409dbc54e4aa1e5def0b1e0c275c4aad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 08/53] fix: RPS fine-tuning keeps an iterate when gradients
 exceed 10000 (unbound local)

---
 dattri/algorithm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index b3bf1ac..9d84372 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -127,7 +127,7 @@ def rps_finetune_theta(
     # depending on the number of classes
     y = torch.sigmoid(y) if init_theta.shape[0] == 1 else torch.softmax(y, dim=1)
 
-    min_loss = 10000.0
+    min_loss = float("inf")
     # define a trainable last layer
     theta = Variable(init_theta.to(device), requires_grad=True)
 
-- 
2.43.0


From ca2a1f80569bc6dff401afb9249d6e63267e5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 09/53] fix: ihvp_at_x_lissa no longer swaps batch_size and
 num_repeat

---
 dattri/func/hessian.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index f2fc444..6b48a1f 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -988,14 +988,14 @@ def ihvp_at_x_lissa(
         """
         ihvp_lissa_func = ihvp_lissa(
             func,
-            argnums,
-            num_repeat,
-            batch_size,
-            recursion_depth,
-            damping,
-            scaling,
-            collate_fn,
-            mode,
+            argnums=argnums,
+            batch_size=batch_size,
+            num_repeat=num_repeat,
+            recursion_depth=recursion_depth,
+            damping=damping,
+            scaling=scaling,
+            collate_fn=collate_fn,
+            mode=mode,
         )
         return ihvp_lissa_func(x, v, in_dims=in_dims)
 
-- 
2.43.0


From 15b26a29272b5549d2658ee37f34e0d191ef65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 10/53] fix: CG IHVP stays at the solution once the residual is
 zero (0/0 gave NaN)

---
 dattri/func/hessian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 6b48a1f..bd9ca0e 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -463,6 +463,10 @@ def ihvp_at_x_cg(
         if v.ndim == 1:
             v = v.unsqueeze(0)
 
+        def _ratio(num: Tensor, den: Tensor) -> Tensor:
+            # once the residual vanishes the estimate is exact and must not move
+            return torch.where(num == 0, torch.zeros_like(num), num / den)
+
         def _cg(v_i: Tensor) -> Tensor:
             x_pre = torch.clone(v_i)
             ihvp_res = x_pre
@@ -475,11 +479,11 @@ def ihvp_at_x_cg(
                 # Still in prototype stage.
 
                 ad = hvp_at_x_func(d)
-                alpha = torch.dot(g_pre, d_pre) / torch.dot(d, ad)
+                alpha = _ratio(torch.dot(g_pre, d_pre), torch.dot(d, ad))
                 ihvp_res += alpha * d
                 g = g_pre - alpha * ad
 
-                beta = torch.dot(g, g) / torch.dot(g_pre, g_pre)
+                beta = _ratio(torch.dot(g, g), torch.dot(g_pre, g_pre))
 
                 g_pre = d_pre = g
                 d = g + beta * d
-- 
2.43.0


From 8e493f04d5f7fec85455cf7aba6187fddc477450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 11/53] fix: Arnoldi IHVP honours norm_constant (start vector
 has that norm, result is rescaled)

---
 dattri/func/hessian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index bd9ca0e..b79ba86 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -656,7 +656,7 @@ def ihvp_at_x_arnoldi(
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -742,7 +742,9 @@ def ihvp_at_x_arnoldi(
         )
         eigvals, eigvecs = _distill(appr_mat, proj, top_k)
 
-        return ((v @ eigvecs.T) * 1.0 / eigvals.unsqueeze(0)) @ eigvecs
+        # every projection has the norm `norm_constant`
+        scale = 1.0 / norm_constant**2
+        return ((v @ eigvecs.T) * scale / eigvals.unsqueeze(0)) @ eigvecs
 
     return _ihvp_at_x_arnoldi
 
-- 
2.43.0


From 729b298a790251a913174f57613ec73d2c35e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 12/53] fix: rev-fwd HVP takes zero tangents of the argument's
 own dtype and device

---
 dattri/func/hessian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index b79ba86..2f02464 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -109,7 +109,7 @@ def hvp(
                 v_patched = []
                 for i in range(len(x)):
                     if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
+                        v_patched.append(torch.zeros_like(x[i]))
                     else:
                         v_patched.append(v)
                 v_patched = tuple(v_patched)
@@ -210,7 +210,7 @@ def hvp_at_x(
                 v_patched = []
                 for i in range(len(x)):
                     if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
+                        v_patched.append(torch.zeros_like(x[i]))
                     else:
                         v_patched.append(v)
                 v_patched = tuple(v_patched)
-- 
2.43.0


From 0b7e90868f6aa87e0d2c7f01c7a18c33de71cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 13/53] fix: explicit IFVP uses the outer product of the
 gradient, not its squared norm

---
 dattri/func/fisher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index fe879dd..398a88d 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -73,7 +73,7 @@ def ifvp_explicit(
         """
         grad_tensor = grad_func(*x)
         return torch.linalg.solve(
-            grad_tensor @ grad_tensor.T
+            torch.outer(grad_tensor, grad_tensor)
             + torch.eye(grad_tensor.shape[0]).to(v.device) * regularization,
             v.T,
         ).T
@@ -116,7 +116,7 @@ def ifvp_at_x_explicit(
         of `func` and `v`.
     """
     grad_tensor = grad(func, argnums=argnums)(*x)
-    fim = grad_tensor @ grad_tensor.T
+    fim = torch.outer(grad_tensor, grad_tensor)
 
     def _ifvp_at_x_explicit_func(v: Tensor) -> Tensor:
         """The IFVP function using explicit FIM.
-- 
2.43.0


From 2bc013418a169ccac3a4826f1084632bfa10d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 14/53] fix: EK-FAC estimates handle sequence inputs (a_prev
 was unbound or stale)

---
 dattri/func/fisher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 398a88d..8c08443 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -264,6 +264,7 @@ def _update_covariance(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
+        a_prev = a_prev_raw
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
 
@@ -334,6 +335,7 @@ def _update_lambda(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
+        a_prev = a_prev_raw
         ds_curr = s_curr_raw.grad
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
-- 
2.43.0


From 5d1a2ca11f9f6ba978ed1aa71242a4e746c22e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 15/53] fix: EK-FAC rotates into the eigenbasis (eigenvectors
 are columns: Q_s^T V Q_a)

---
 dattri/algorithm/influence_function.py | 2 +-
 dattri/func/fisher.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0033745..dd5ded4 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1084,7 +1084,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             _lambda = self.cached_lambdas[name]
             q_a, q_s = self.cached_q[name]
 
-            _ifvp = q_s.T @ ((q_s @ _v @ q_a.T) / (_lambda + self.damping)) @ q_a
+            _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
             ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 8c08443..cc1bbe0 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -367,7 +367,7 @@ def _update_lambda(
         # An equivalent way to calculate lambda's. Please refer to
         # https://math.stackexchange.com/questions/1879933/vector-multiplication-with-multiple-kronecker-products
         q_a, q_s = cached_q[layer_name]
-        batch_lambda = torch.square(q_s @ batch_dtheta @ q_a.T).mean(axis=0)
+        batch_lambda = torch.square(q_s.T @ batch_dtheta @ q_a).mean(axis=0)
 
         # Update the running eigenvalue estimation
         if layer_name in curr_estimate:
-- 
2.43.0


From 05b5cf979289fbb92139837b5c4f86094e43185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 16/53] fix: EK-FAC keeps weight and bias entries apart when
 transforming gradients

---
 dattri/algorithm/influence_function.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index dd5ded4..bdf1847 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1068,16 +1068,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
 
         for name in self.module_name:
             if self.name_to_module[name].bias is not None:
-                dim_out = layer_test_rep[name + ".weight"].shape[1]
-                dim_in = layer_test_rep[name + ".weight"].shape[2] + 1
+                # (batch_size, dim_out, dim_in + 1), the last column is the bias
                 _v = torch.cat(
                     [
-                        layer_test_rep[name + ".weight"].flatten(start_dim=1),
-                        layer_test_rep[name + ".bias"].flatten(start_dim=1),
+                        layer_test_rep[name + ".weight"],
+                        layer_test_rep[name + ".bias"].unsqueeze(-1),
                     ],
                     dim=-1,
                 )
-                _v = _v.reshape(-1, dim_out, dim_in)
             else:
                 _v = layer_test_rep[name + ".weight"]
 
@@ -1085,6 +1083,12 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             q_a, q_s = self.cached_q[name]
 
             _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
+            if self.name_to_module[name].bias is not None:
+                # back to the layout of the parameters: weight, then bias
+                _ifvp = torch.cat(
+                    [_ifvp[..., :-1].flatten(start_dim=1), _ifvp[..., -1]],
+                    dim=-1,
+                )
             ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
-- 
2.43.0


From e466cb1a0a00641f53c52f7f80b8a80b79b0a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 17/53] fix: EK-FAC estimators accept the documented (loss,
 mask) return value

---
 dattri/func/fisher.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index cc1bbe0..76391c7 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -427,8 +427,9 @@ def estimate_covariance(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
@@ -522,8 +523,9 @@ def estimate_lambda(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
-- 
2.43.0


From 203e3263a1d005d6885fd7fdfd41c6913551ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 18/53] fix: BasicProjector ensembles no longer share blocks
 when there are more than 100

---
 dattri/func/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d06f2e0..0a5760f 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -278,8 +278,10 @@ class BasicProjector(AbstractProjector):
         self.seeds = []
         self.jl_size = self.feature_dim * self.block_size
 
+        # the blocks of one ensemble must not run into the seeds of the next one
+        ensemble_stride = max(int(1e5), int(1e3) * self.num_blocks)
         for i in range(self.num_blocks):
-            s = self.seed + int(1e3) * i + int(1e5) * self.ensemble_id
+            s = self.seed + int(1e3) * i + ensemble_stride * self.ensemble_id
             self.seeds.append(s)
             self.generator = self.generator.manual_seed(s)
             self.generator_states.append(self.generator.get_state())
-- 
2.43.0


From 58f008245bdc4cf463e2e06acf0be01c59b3c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 19/53] fix: BasicProjector regenerates its matrix when used
 after free_memory

---
 dattri/func/projection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 0a5760f..3a03ebd 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -352,6 +352,13 @@ class BasicProjector(AbstractProjector):
                 pass  # No randomness needed for identity projection
             elif self.num_blocks == 1:
                 self._gen_randomness_dense(self.generator_states[0])
+        elif (
+            self.num_blocks == 1
+            and self.proj_type in {ProjectionType.normal, ProjectionType.rademacher}
+            and not self.proj_matrix_available
+        ):
+            # the matrix was freed
+            self._gen_randomness_dense(self.generator_states[0])
 
         # Handle random_mask projection separately
         if self.proj_type == ProjectionType.random_mask:
-- 
2.43.0


From a4b051d3d04469440599ea012c25917d5c28755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 20/53] fix: grass projection does not depend on the ensembles
 used before

---
 dattri/func/projection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 3a03ebd..12996d1 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -564,10 +564,8 @@ class CudaProjector(AbstractProjector):
         intermediate_dim = self.proj_dim * self.grass_multiplier
 
         # Ensure intermediate_dim doesn't exceed feature_dim
-        if intermediate_dim > self.feature_dim:
-            intermediate_dim = self.feature_dim
-            # Update grass_multiplier to reflect actual ratio used
-            self.grass_multiplier = intermediate_dim // self.proj_dim
+        # (grass_multiplier itself is kept, later ensembles must use the same ratio)
+        intermediate_dim = min(intermediate_dim, self.feature_dim)
 
         # Generate random mask indices (feature_dim -> intermediate_dim)
         self._gen_randomness_mask(
-- 
2.43.0


From 3f4c99f4397df83cf947c19b076ef7da6955be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 21/53] fix: ArnoldiProjector honours norm_constant

---
 dattri/func/projection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 12996d1..030412a 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -952,7 +952,7 @@ class ArnoldiProjector(AbstractProjector):
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -1068,7 +1068,9 @@ class ArnoldiProjector(AbstractProjector):
         if features.device.type != self.device:
             features = features.to(self.device)
 
-        return features @ self.eigvecs.T * (1.0 / torch.sqrt(self.eigvals.unsqueeze(0)))
+        # every row of eigvecs has the norm `norm_constant`
+        scale = 1.0 / (self.norm_constant * torch.sqrt(self.eigvals.unsqueeze(0)))
+        return features @ self.eigvecs.T * scale
 
     def free_memory(self) -> None:
         """A no-op method."""
-- 
2.43.0


From d068d5d32742d7e5da3deb87d2776d2cf5cc010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 22/53] fix: ArnoldiProjector drops the negative eigenvalues it
 warns about (were NaN)

---
 dattri/func/projection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 030412a..5af69d5 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1039,7 +1039,11 @@ class ArnoldiProjector(AbstractProjector):
         # prevent from negative eigvals
         if self.proj_dim > torch.sum(self.eigvals > self.tol**2):
             # adjust proj_dim
-            self.proj_dim = torch.sum(self.eigvals > self.tol**2).item()
+            positive = self.eigvals > self.tol**2
+            self.proj_dim = torch.sum(positive).item()
+            # the remaining directions contribute nothing
+            self.eigvals = torch.where(positive, self.eigvals, 1.0)
+            self.eigvecs = self.eigvecs * positive.unsqueeze(-1)
             warnings.warn(
                 "Encountered many negative eigenvalues and `proj_dim` is greater"
                 " than the number of positive eigenvalues. Automatically adjusting"
-- 
2.43.0


From 5ae06a2ee9ce9c48a251bea5ee43caa2e42756bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 23/53] fix: chunked dict projection splits the features like
 get_parameter_chunk_sizes

---
 dattri/func/projection.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 5af69d5..c1d4111 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -748,8 +748,8 @@ class ChunkedCudaProjector:
 
             feature_dim_size = p_flat.size(1)
             # if current accumulated params exceed max_chunk_size,
-            # then stop accumulation.
-            if pointer + feature_dim_size > self.max_chunk_size:
+            # then stop accumulation (same rule as get_parameter_chunk_sizes).
+            if pointer > 0 and pointer + feature_dim_size >= self.max_chunk_size:
                 # fill remaining entries with 0
                 if pointer != self.dim_per_chunk[projector_index]:
                     msg = "Current number of accumulated #dim does not match \
@@ -766,14 +766,29 @@ class ChunkedCudaProjector:
                 pointer = 0
                 projector_index += 1
 
-            # continue accumulation
             actual_bs = min(self.ch_input.size(0), p_flat.size(0))
+
+            # a parameter larger than a chunk is projected piece by piece
+            while p_flat.size(1) >= self.max_chunk_size:
+                ch_output[:actual_bs].add_(
+                    self.projector_per_chunk[projector_index].project(
+                        p_flat[:, : self.max_chunk_size].contiguous(),
+                        ensemble_id=ensemble_id,
+                    ),
+                )
+                p_flat = p_flat[:, self.max_chunk_size :]
+                projector_index += 1
+            feature_dim_size = p_flat.size(1)
+
+            # continue accumulation
             self.ch_input[:actual_bs, pointer : pointer + feature_dim_size].copy_(
                 p_flat,
             )
             pointer += feature_dim_size
 
         # at the end, we need to project remaining items
+        if pointer == 0:
+            return ch_output[:actual_bs]
         # fill remaining entries with 0
         if pointer != self.dim_per_chunk[projector_index]:
             msg = "Current number of accumulated #dim does not match \
-- 
2.43.0


From 5f08c38061c6c27ecdd76020576b7eac7eed9f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 24/53] fix: random_project accepts the documented grass_N
 projection type

---
 dattri/params/projection.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dattri/params/projection.py b/dattri/params/projection.py
index ea5c9d9..b239411 100644
--- a/dattri/params/projection.py
+++ b/dattri/params/projection.py
@@ -2,10 +2,11 @@
 
 from __future__ import annotations
 
-from typing import Literal, Optional
+from typing import Literal, Optional, Union
 
 import torch
-from pydantic import BaseModel, ConfigDict, field_validator
+from pydantic import BaseModel, ConfigDict, Field, field_validator
+from typing_extensions import Annotated
 
 
 class BaseProjectionParams(BaseModel):
@@ -155,6 +156,7 @@ class RandomProjectionParams(GeneralProjectionParams):
         device (torch.device): Device to use. Defaults to cpu.
         proj_type (Literal["identity", "normal", "rademacher", "sjlt",
         "random_mask", "grass"]): The random projection type used for the projection.
+            "grass_N" is "grass" with the intermediate dimension N * proj_dim.
         device (Union[str, torch.device]): "cuda" or "cpu". Defaults to "cpu".
     """
 
@@ -163,13 +165,16 @@ class RandomProjectionParams(GeneralProjectionParams):
     proj_seed: int
     feature_batch_size: int
     device: torch.device
-    proj_type: Literal[
-        "identity",
-        "normal",
-        "rademacher",
-        "sjlt",
-        "random_mask",
-        "grass",
+    proj_type: Union[
+        Literal[
+            "identity",
+            "normal",
+            "rademacher",
+            "sjlt",
+            "random_mask",
+            "grass",
+        ],
+        Annotated[str, Field(pattern=r"^grass_[0-9]+$")],
     ] = "normal"
 
     @field_validator("device", mode="before")
-- 
2.43.0


From e7acbe7987f83bfd7e65f14808800dd6595769ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 25/53] fix: partial_param leaves the given parameter dict
 unchanged

---
 dattri/func/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ba58561..9314494 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -310,13 +310,15 @@ def partial_param(
         def _function_partial(*args, **kwargs: Dict[str, Any]) -> torch.Tensor:
             new_args = list(args)
             index_counter = 0
+            # work on a copy: full_param is shared between calls
+            new_param = dict(full_param)
             for layer in layer_name:
                 length_param = full_param[layer].numel()
-                full_param[layer] = new_args[param_num][
+                new_param[layer] = new_args[param_num][
                     index_counter : index_counter + length_param
                 ]
                 index_counter += length_param
-            new_args[param_num] = flatten_params(full_param)
+            new_args[param_num] = flatten_params(new_param)
             return function(*new_args, **kwargs)
 
         return _function_partial
-- 
2.43.0


From 90ff3fd42862d50626101470e601feca74f23db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 26/53] fix: layer-wise functions of a task keep the other
 parameters of their checkpoint

---
 dattri/task.py | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/dattri/task.py b/dattri/task.py
index fc57f3c..93bcd55 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -209,6 +209,27 @@ class AttributionTask:
 
         return param_layer_map
 
+    def _partial_param(
+        self,
+        function: Callable,
+        layer_name: Union[str, List[str]],
+        ckpt_idx: int,
+    ) -> Callable:
+        """Restrict a function to the parameters of some layers of a checkpoint.
+
+        Args:
+            function (Callable): A function of the flattened parameters.
+            layer_name (Union[str, List[str]]): The name of the layer(s).
+            ckpt_idx (int): The index of the checkpoint of the other parameters.
+
+        Returns:
+            Callable: The function of the (flattened) parameters of these layers.
+        """
+        self._load_checkpoints(ckpt_idx)
+        # loading another checkpoint later on overwrites the live parameters
+        full_param = {k: p.detach().clone() for k, p in self.named_parameters.items()}
+        return partial_param(full_param=full_param, layer_name=layer_name)(function)
+
     def get_grad_target_func(
         self,
         in_dims: Tuple[Union[None, int], ...] = (None, 1),  # noqa: RUF036
@@ -238,11 +259,7 @@ class AttributionTask:
         # first add decorator that handles the layer_name
         target_func = self.target_func
         if layer_name is not None:
-            self._load_checkpoints(ckpt_idx)
-            target_func = partial_param(
-                full_param=self.named_parameters,
-                layer_name=layer_name,
-            )(target_func)
+            target_func = self._partial_param(target_func, layer_name, ckpt_idx)
 
         grad_target_func_kwargs = {
             "in_dims": in_dims,
@@ -289,11 +306,7 @@ class AttributionTask:
             return self.original_target_func
 
         if layer_name is not None:
-            self._load_checkpoints(ckpt_idx)
-            return partial_param(
-                full_param=self.named_parameters,
-                layer_name=layer_name,
-            )(self.target_func)
+            return self._partial_param(self.target_func, layer_name, ckpt_idx)
         return self.target_func
 
     def get_grad_loss_func(
@@ -324,11 +337,7 @@ class AttributionTask:
         """
         loss_func = self.loss_func
         if layer_name is not None:
-            self._load_checkpoints(ckpt_idx)
-            loss_func = partial_param(
-                full_param=self.named_parameters,
-                layer_name=layer_name,
-            )(loss_func)
+            loss_func = self._partial_param(loss_func, layer_name, ckpt_idx)
 
         loss_target_func_kwargs = {
             "in_dims": in_dims,
@@ -374,11 +383,7 @@ class AttributionTask:
                 raise NotImplementedError(error_msg)
             return self.original_loss_func
         if layer_name is not None:
-            self._load_checkpoints(ckpt_idx)
-            return partial_param(
-                full_param=self.named_parameters,
-                layer_name=layer_name,
-            )(self.loss_func)
+            return self._partial_param(self.loss_func, layer_name, ckpt_idx)
         return self.loss_func
 
     def get_param(
-- 
2.43.0


From 5190d25892ea4f47a1d488aa9a5b313042c64cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 27/53] fix: get_param(layer_split=True) returns copies, not
 views of the live parameters

---
 dattri/task.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dattri/task.py b/dattri/task.py
index 93bcd55..0d8b9e8 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -440,6 +440,10 @@ class AttributionTask:
             named_parameters = self.named_parameters
 
         if layer_split:
+            # copies: loading another checkpoint overwrites the live parameters
+            params = tuple(
+                param.flatten().clone() for param in named_parameters.values()
+            )
             if param_layer_map:
                 if len(param_layer_map) != len(
                     named_parameters,
@@ -448,12 +452,8 @@ class AttributionTask:
                         "param_layer_map must have the same len as named_parameters."
                     )
                     raise ValueError(error_msg)
-                return tuple(
-                    param.flatten() for param in named_parameters.values()
-                ), param_layer_map
-            return tuple(
-                param.flatten() for param in named_parameters.values()
-            ), self._generate_param_layer_map(named_parameters)
+                return params, param_layer_map
+            return params, self._generate_param_layer_map(named_parameters)
         return flatten_params(named_parameters), None
 
     def get_checkpoints(self) -> List[Union[Dict[str, torch.Tensor], str]]:
-- 
2.43.0


From 1a3858f9c532568cc221b852026ed8e6f3a7343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 28/53] fix: layer_name of a task may be a single string as
 documented

---
 dattri/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dattri/task.py b/dattri/task.py
index 0d8b9e8..ff884e2 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -225,6 +225,8 @@ class AttributionTask:
         Returns:
             Callable: The function of the (flattened) parameters of these layers.
         """
+        if isinstance(layer_name, str):
+            layer_name = [layer_name]
         self._load_checkpoints(ckpt_idx)
         # loading another checkpoint later on overwrites the live parameters
         full_param = {k: p.detach().clone() for k, p in self.named_parameters.items()}
@@ -430,6 +432,8 @@ class AttributionTask:
         """
         self._load_checkpoints(ckpt_idx)
 
+        if isinstance(layer_name, str):
+            layer_name = [layer_name]
         if layer_name is not None:
             named_parameters = {
                 k: self.named_parameters[k]
-- 
2.43.0


From 6bf4191bc20a34936cb6b0a8523ff45452372f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:52 +0000
Subject: [PATCH 29/53] fix: DVEmb flattens the trainable parameters only, like
 the task's functions

---
 dattri/algorithm/dvemb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index d61e6bb..14330db 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -427,7 +427,11 @@ class DVEmbAttributor:
         grad_loss_fn = self.task.get_grad_loss_func(in_dims=in_dims)
 
         model_params = flatten_params(
-            {k: v.detach() for k, v in self.model.named_parameters()},
+            {
+                k: v.detach()
+                for k, v in self.model.named_parameters()
+                if v.requires_grad
+            },
         )
         per_sample_grads = grad_loss_fn(model_params, batch_data_tensors)
 
-- 
2.43.0


From cf6dc0fcf17a6d617bdc815fdb1cdfd0bb6f8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 30/53] fix: IFAttributorArnoldi.cache accepts tuple and dict
 batches

---
 dattri/algorithm/influence_function.py | 37 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index bdf1847..b223d44 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -390,23 +390,30 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
                 break
             data_target_pair_list.append(batch)
 
-        # concatenate all data
-        data_target_pair = data_target_pair_list[0]
-        for batch_idx in range(1, len(data_target_pair_list)):
-            for data_item_idx in range(len(data_target_pair_list[0])):
-                data_target_pair[data_item_idx] = torch.cat(
-                    (
-                        data_target_pair[data_item_idx],
-                        data_target_pair_list[batch_idx][data_item_idx],
-                    ),
+        # concatenate all data and move it to device (only once for all data)
+        first_batch = data_target_pair_list[0]
+        if isinstance(first_batch, dict):
+            data_target_pair = {
+                key: torch.cat(
+                    [batch[key] for batch in data_target_pair_list],
                     dim=0,
-                )
-
-        # to device (only once for all data)
-        for data_item_idx in range(len(data_target_pair)):
-            data_target_pair[data_item_idx] = data_target_pair[data_item_idx].to(
-                self.device,
+                ).to(self.device)
+                for key in first_batch
+            }
+        elif isinstance(first_batch, (tuple, list)):
+            data_target_pair = tuple(
+                torch.cat(
+                    [batch[data_item_idx] for batch in data_target_pair_list],
+                    dim=0,
+                ).to(self.device)
+                for data_item_idx in range(len(first_batch))
+            )
+        else:
+            msg = (
+                "We currently only support the train/test data to be "
+                "tuple, list, or dict."
             )
+            raise TypeError(msg)
 
         from dattri.func.projection import arnoldi_project
 
-- 
2.43.0


From 2a229282c0499064a0de9b3d02946b8880f6f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 31/53] fix: DataInf splits the selected layers when layer_name
 is given

---
 dattri/algorithm/influence_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index b223d44..0f2f726 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -846,6 +846,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
         """
         model_params, param_layer_map = self.task.get_param(
             ckpt_idx,
+            layer_name=self.layer_name,
             layer_split=True,
         )
         split_index = [0] * (param_layer_map[-1] + 1)
-- 
2.43.0


From 98bc38a5c199db2f2a2f707e0fb761430cfcac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 32/53] fix: IFAttributorLiSSA.transform_test_rep accepts dict
 batches

---
 dattri/algorithm/influence_function.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0f2f726..49560b1 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -583,9 +583,22 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
                 )
                 raise TypeError(msg)
 
+            collate_fn = IFAttributorLiSSA.lissa_collate_fn
+            if isinstance(full_data, dict):
+                # the solver samples tensors, the loss function takes a dict
+                data_keys = list(full_data)
+                full_data = tuple(full_data.values())
+
+                def collate_fn(
+                    sampled_input: List[Tensor],
+                    data_keys: List[str] = data_keys,
+                ) -> Tuple[Tensor, dict]:
+                    params, data = IFAttributorLiSSA.lissa_collate_fn(sampled_input)
+                    return params, dict(zip(data_keys, data))
+
             self.ihvp_func = ihvp_lissa(
                 self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),
-                collate_fn=IFAttributorLiSSA.lissa_collate_fn,
+                collate_fn=collate_fn,
                 **self.transformation_kwargs,
             )
             vector_product += self.ihvp_func(
-- 
2.43.0


From 7b0e4b3f6946d77b9cb7f7ce32e7085ab8b4da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 33/53] fix: CG iterations stay put when the curvature term
 underflows to zero

---
 dattri/func/hessian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 2f02464..ba23cf5 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -465,7 +465,8 @@ def ihvp_at_x_cg(
 
         def _ratio(num: Tensor, den: Tensor) -> Tensor:
             # once the residual vanishes the estimate is exact and must not move
-            return torch.where(num == 0, torch.zeros_like(num), num / den)
+            stop = (num == 0) | (den == 0)
+            return torch.where(stop, torch.zeros_like(num), num / den)
 
         def _cg(v_i: Tensor) -> Tensor:
             x_pre = torch.clone(v_i)
-- 
2.43.0


From 1319bf6e159e36d56a204bbb97aa2d7f57ce31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 34/53] fix: hvp in rev-fwd mode accepts tuple and dict
 constants (LiSSA batches)

---
 dattri/func/hessian.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index ba23cf5..f8f0124 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -105,18 +105,11 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            if len(x) > 1:
-                v_patched = []
-                for i in range(len(x)):
-                    if i != argnums:
-                        v_patched.append(torch.zeros_like(x[i]))
-                    else:
-                        v_patched.append(v)
-                v_patched = tuple(v_patched)
-            else:
-                v_patched = (v,)
+            # the other arguments are constants and may be tuples or dicts of tensors
+            def grad_at(x_arg: Tensor) -> Tensor:
+                return grad_func(*x[:argnums], x_arg, *x[argnums + 1 :])
 
-            return jvp(grad_func, x, v_patched)[1] + regularization * v
+            return jvp(grad_at, (x[argnums],), (v,))[1] + regularization * v
 
     return _hvp_func
 
-- 
2.43.0


From c7c7bfbd75961d52b2730da3276e0c76d2d61dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 35/53] fix: retraining uses the samples the dataloader
 selects, not the first ones of its dataset

---
 dattri/model_util/retrain.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 28f492d..9a8acbb 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -21,6 +21,22 @@ from torch.utils.data import DataLoader, Subset
 from tqdm import tqdm
 
 
+def _sampled_indices(dataloader: torch.utils.data.DataLoader) -> List[int]:
+    """List the dataset indices that a dataloader samples from.
+
+    Args:
+        dataloader (torch.utils.data.DataLoader): The dataloader.
+
+    Returns:
+        List[int]: The dataset index of every sample, in the order of the sampler
+            if it selects a subset, otherwise in the order of the dataset.
+    """
+    indices = getattr(dataloader.sampler, "indices", None)
+    if indices is None:
+        return list(range(len(dataloader.sampler)))
+    return list(indices)
+
+
 def retrain_loo(
     train_func: Callable,
     dataloader: torch.utils.data.DataLoader,
@@ -92,10 +108,8 @@ def retrain_loo(
         # Manually set the seed.
         torch.manual_seed(seed)
 
-    if dataloader.sampler is not None:
-        all_indices = list(range(len(dataloader.sampler)))
-    else:
-        all_indices = list(range(len(dataloader.dataset)))
+    dataset_indices = _sampled_indices(dataloader)
+    all_indices = list(range(len(dataset_indices)))
 
     if indices is None:
         # If indices are not provided default to retrain with every data.
@@ -110,7 +124,7 @@ def retrain_loo(
     }
 
     for index in tqdm(indices, desc="LOO Retraining"):
-        remaining_indices = [idx for idx in all_indices if idx != index]
+        remaining_indices = [dataset_indices[i] for i in all_indices if i != index]
         model_dir = Path(path) / f"index_{index}"
         if not model_dir.exists():
             model_dir.mkdir(parents=True)
@@ -226,7 +240,8 @@ def retrain_lds(
     if not path.exists():
         path.mkdir(parents=True)
 
-    data_length = len(dataloader.sampler)
+    dataset_indices = _sampled_indices(dataloader)
+    data_length = len(dataset_indices)
     subset_length = int(data_length * subset_ratio)
 
     subset_dir_map = {}
@@ -245,7 +260,10 @@ def retrain_lds(
             rng = np.random.default_rng(seed + i)
         indices = rng.choice(data_length, subset_length, replace=False)
         subset_dataloader = torch.utils.data.DataLoader(
-            dataset=torch.utils.data.Subset(dataloader.dataset, indices),
+            dataset=torch.utils.data.Subset(
+                dataloader.dataset,
+                [dataset_indices[idx] for idx in indices],
+            ),
             batch_size=dataloader.batch_size,
             shuffle=True,
         )
-- 
2.43.0


From a819d85f582a266ea49b6cea9826afcad8d7a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 36/53] fix: retrain_loo writes the documented directory names,
 not pickled Path objects

---
 dattri/model_util/retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 9a8acbb..4575466 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -139,7 +139,7 @@ def retrain_loo(
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
         # Update the metadata.
-        metadata["map_index_dir"][index] = model_dir
+        metadata["map_index_dir"][index] = f"./index_{index}"
         torch.save(model, weights_dir)
 
     metadata_file = Path(path) / "metadata.yml"
-- 
2.43.0


From 69260c6bd6ecfb1c9b4f9dbb17273271e31532aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 37/53] fix: retrain_lds writes the metadata of all subsets
 when they are split over several calls

---
 dattri/model_util/retrain.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 4575466..d006b85 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -244,7 +244,6 @@ def retrain_lds(
     data_length = len(dataset_indices)
     subset_length = int(data_length * subset_ratio)
 
-    subset_dir_map = {}
     rng = np.random.default_rng(seed)  # this can also handle seed=None
 
     # seed control
@@ -285,20 +284,20 @@ def retrain_lds(
             model_path.parent.mkdir(parents=True, exist_ok=True)
             torch.save(model.state_dict(), model_path)
 
-        # Save the subset directory
-        subset_dir_map[i] = str(path / str(i))
-
     # Save metadata
     if (
         total_num_subsets == 0  # noqa: PLR1714
-        or (start_id + 1) * num_subsets == total_num_subsets
+        or start_id + num_subsets == total_num_subsets
     ):
+        # the other subsets may have been retrained by other calls
+        total_num_subsets = start_id + num_subsets
+        subset_dir_map = {i: str(path / str(i)) for i in range(total_num_subsets)}
         # Create metadata to save
         metadata = {
             "mode": "lds",
             "data_length": data_length,
             "train_func": train_func.__name__,
-            "num_subsets": (start_id + 1) * num_subsets,
+            "num_subsets": total_num_subsets,
             "subset_ratio": subset_ratio,
             "num_runs_per_subset": num_runs_per_subset,
             "subset_dir_map": subset_dir_map,
-- 
2.43.0


From e8efade23565fbda675cc311e04af6ddfa35fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 38/53] fix: calculate_loo_ground_truth loads the whole models
 that retrain_loo saves

---
 dattri/metric/ground_truth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 85373bd..26d6908 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -84,7 +84,7 @@ def calculate_loo_ground_truth(
     model_indices = torch.empty(length_dir)
     for dir_cnt, model_file in enumerate(model_dirs_sorted):
         model_path = Path(retrain_dir) / model_file / "model_weights.pt"
-        model = torch.load(model_path)
+        model = torch.load(model_path, weights_only=False)
         # Calculate target function values.
         values = target_func(model, test_dataloader)
         loo_results[dir_cnt, :] = values
-- 
2.43.0


From 237b3ecac3d996637da972b87199f9d5f6b89929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 39/53] fix: loo_corr compares each left-out sample with its
 own scores

---
 dattri/metric/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/metric/metrics.py b/dattri/metric/metrics.py
index 93d1ecc..fa86046 100644
--- a/dattri/metric/metrics.py
+++ b/dattri/metric/metrics.py
@@ -100,8 +100,8 @@ def loo_corr(
             metric values and their corresponding p-values. Both tensors have the
             shape (num_test_samples,).
     """
-    score = score.cpu()
-    gt_values, _ = ground_truth
+    gt_values, indices = ground_truth
+    score = score.cpu()[indices.cpu().long()]
     num_test_samples = score.shape[1]
 
     loo_corr = torch.stack(
-- 
2.43.0


From ab79683431c512cbd92afde5b51fe7ae27b11f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 40/53] fix: brittleness removes the highest scored samples of
 the dataloader

---
 dattri/metric/britteness.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 56437ef..c379d89 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -15,6 +15,7 @@ import torch
 from tqdm import tqdm
 
 from dattri.benchmark.utils import SubsetSampler
+from dattri.model_util.retrain import _sampled_indices
 
 
 def brittleness(
@@ -53,7 +54,9 @@ def brittleness(
     k_values = list(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
-    sorted_indices = np.argsort(scores)[::-1]
+    # the rows of the scores follow the order of train_loader
+    train_indices = np.asarray(_sampled_indices(train_loader))
+    sorted_indices = train_indices[np.argsort(np.ravel(scores))[::-1]]
     for k in tqdm(
         k_values,
         desc="Calculating brittleness",
@@ -95,8 +98,7 @@ def check_if_flip(
     Returns:
         bool: True if prediction flips after data removal, otherwise False.
     """
-    original_sampler = train_loader.sampler
-    original_indices = original_sampler.indices
+    original_indices = _sampled_indices(train_loader)
     remaining_indices = list(set(original_indices) - set(indices_to_remove))
 
     new_train_loader = torch.utils.data.DataLoader(
-- 
2.43.0


From f19fcaa58db8e45227e539ecdad2dd1383c63ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 41/53] fix: flip_label accepts numpy labels and keeps the
 dtype of tensor labels

---
 dattri/benchmark/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 574f302..4cd68af 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -72,10 +72,10 @@ def flip_label(
     )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(noisy_data)
+        noisy_data = torch.tensor(noisy_data, dtype=flipped_label.dtype)
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data.long()
+    flipped_label[noise_index] = noisy_data
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0


From 8b63add8c2e581ff7858e2e0274741026ad17516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 42/53] fix: flip_label never keeps a label when the label
 space is a tensor

---
 dattri/benchmark/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 4cd68af..85785c1 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -56,6 +56,9 @@ def flip_label(
     """
     if label_space is None:
         label_space = np.unique(label)
+    elif isinstance(label_space, torch.Tensor):
+        # tensors hash by identity: a set of them would not contain the labels
+        label_space = label_space.tolist()
 
     label_space = set(label_space)
 
-- 
2.43.0


From 97d4e77bbb144a3738ee259804acb73dfcd78679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 43/53] fix: flip_label flips nothing instead of failing when p
 * n is below one

---
 dattri/benchmark/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 85785c1..f59fa49 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -72,6 +72,7 @@ def flip_label(
     # Generate a list of randomly sampled noisy (flipped) data from label space
     noisy_data = np.vectorize(
         lambda x: _random_flip(x, label_space, rng),
+        otypes=[int],
     )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-- 
2.43.0


From d86b10e094050b208c1eefe8481ce577da4ed10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 44/53] fix: activate_dropout no longer activates layers whose
 names contain a given name

---
 dattri/model_util/dropout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/model_util/dropout.py b/dattri/model_util/dropout.py
index 5038542..97453ef 100644
--- a/dattri/model_util/dropout.py
+++ b/dattri/model_util/dropout.py
@@ -50,9 +50,9 @@ def activate_dropout(
         # activate all dropout layers in given positions
         for name, module in model.named_modules():
             for layer_name in layer_positions:
-                # if the layer name (string) in name of modules,
+                # if the layer name is (a part of) the dotted name of the module,
                 # then make dropout module in train mode
-                if layer_name in name:
+                if f".{layer_name}." in f".{name}.":
                     if module.__class__.__name__.startswith("Dropout"):
                         module.p = dropout_prob
                         module.train()
-- 
2.43.0


From 55e0b7e880808a3c8a925ffa21647e9f572a9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:23 +0000
Subject: [PATCH 45/53] fix: BlockProjectedIF derives the batch information
 from the dataloader it caches

---
 dattri/algorithm/block_projected_if/core/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 8f85cf1..c9396e0 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -61,10 +61,10 @@ class MetadataManager:
         total_batches = len(train_dataloader)
         batch_size = train_dataloader.batch_size
 
-        # Check if already initialized
-        if len(self.batch_info) == total_batches:
-            logger.info("Dataset metadata already complete, skipping initialization")
-            return
+        # Information loaded from the cache directory or kept from an earlier call may
+        # describe another dataset
+        self.batch_info = {}
+        self._pending_batches = {}
 
         # Compute complete batch structure
         if hasattr(train_dataloader.dataset, "__len__"):
-- 
2.43.0


From f91de1683dd0c181fb72aec49237d96aa0f894a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:23 +0000
Subject: [PATCH 46/53] fix: BlockProjectedIF.cache discards what was cached
 for an earlier dataset

---
 .../algorithm/block_projected_if/block_projected_if.py   | 3 +++
 dattri/algorithm/block_projected_if/offload/disk.py      | 2 ++
 .../block_projected_if/offload/disk_io/manager.py        | 9 +++++++++
 3 files changed, 14 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4a7ced7..f73b77f 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -222,6 +222,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
         if self.compressors is None:
             self._setup_compressors(full_train_dataloader)
 
+        # Discard the results cached for an earlier dataset
+        self.offload_manager.clear_cache()
+
         # Initialize metadata for complete dataset
         self.metadata.initialize_complete_dataset(full_train_dataloader)
 
diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 29e088a..b2e85c0 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -227,6 +227,8 @@ class DiskOffloadManager(Offload):
                     except OSError as e:  # noqa: PERF203 - Exception needed for file cleanup
                         logger.warning("Error removing %s: %s", file_path, e)
 
+        self.disk_io.reset()
+
     def wait_for_async_operations(self) -> None:
         """Wait for any pending asynchronous disk operations to complete."""
         self.disk_io.wait_for_async_operations()
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 66971ef..017e182 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -228,6 +228,15 @@ class ChunkedDiskIOManager:
             buffer_pool_size,
         )
 
+    def reset(self) -> None:
+        """Forget the layer dimensions, buffers and chunks read so far."""
+        self.layer_dims = None
+        self.total_proj_dim = None
+        self._chunk_buffers.clear()
+        self._buffer_pools.clear()
+        with self._read_cache_lock:
+            self._read_cache.clear()
+
     def get_chunk_id(self, batch_idx: int) -> int:
         """Get chunk ID for a batch index.
 
-- 
2.43.0


From ebce80cf23627e1902f42ccd648d7970f4a07095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 47/53] fix: disk offload works without a GPU

---
 .../algorithm/block_projected_if/offload/disk_io/manager.py  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 017e182..1d9ef6a 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -58,10 +58,11 @@ class BufferPool:
         self.total_created = 0
         self.wait_count = 0
 
-        # Pre-allocate all buffers
+        # Pre-allocate all buffers (page-locked memory exists with a GPU only)
+        pin_memory = torch.cuda.is_available()
         for _ in range(pool_size):
             buffer = ChunkBuffer(
-                tensor=torch.zeros(buffer_shape, dtype=dtype, pin_memory=True),
+                tensor=torch.zeros(buffer_shape, dtype=dtype, pin_memory=pin_memory),
                 batch_indices=[],
                 batch_info=[],
                 current_row=0,
-- 
2.43.0


From 6aa945f5974f233e1d647b1988217e8f500f925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 48/53] fix: disk offload waits for both writes of a chunk that
 overflows its buffer

---
 .../algorithm/block_projected_if/offload/disk_io/manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 1d9ef6a..d011946 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -205,7 +205,7 @@ class ChunkedDiskIOManager:
         logger.info("Started %s write workers", num_write_workers)
 
         # Pending writes tracking
-        self._pending_writes = set()  # Track chunk_ids being written
+        self._pending_writes = []  # One entry for every chunk write under way
         self._pending_writes_lock = threading.Lock()
 
         # Read cache for recently accessed chunks
@@ -370,7 +370,7 @@ class ChunkedDiskIOManager:
 
                     # Remove from pending writes
                     with self._pending_writes_lock:
-                        self._pending_writes.discard((data_type, chunk_id))
+                        self._pending_writes.remove((data_type, chunk_id))
 
                 finally:
                     # Return buffer to pool if provided (for backward compatibility)
@@ -559,7 +559,7 @@ class ChunkedDiskIOManager:
 
         # Mark as pending write
         with self._pending_writes_lock:
-            self._pending_writes.add((data_type, chunk_id))
+            self._pending_writes.append((data_type, chunk_id))
 
         # Submit to write queue without the buffer (since we already returned it)
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
-- 
2.43.0


From e01def18f9b140d80236c4cf708f81e4690baf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 49/53] fix: BlockProjectedIF attributes the target function of
 the task

---
 .../block_projected_if/block_projected_if.py  | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index f73b77f..4941738 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -830,9 +830,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
                   Shape:(num_test_samples, total_proj_dim)
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
-
-        Raises:
-            ValueError: If model can't return loss for dict-style inputs.
         """
         # Create hook manager if needed
         if self.hook_manager is None:
@@ -855,24 +852,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             # Prepare inputs and compute loss
             if isinstance(batch, dict):
-                inputs = {k: v.to(self.device) for k, v in batch.items()}
                 batch_size = next(iter(batch.values())).shape[0]
-                outputs = self.model(**inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    msg = "Model must return loss for dict-style inputs"
-                    raise ValueError(msg)
             else:
-                inputs, targets = batch
-                inputs = inputs.to(self.device)
-                targets = targets.to(self.device)
-                batch_size = inputs.shape[0]
-                outputs = self.model(inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    loss = nn.functional.cross_entropy(outputs, targets)
+                batch_size = batch[0].shape[0]
+            loss = self.task.original_target_func(self.model, batch, self.device)
 
             loss.backward()
 
-- 
2.43.0


From fba7da208b45d27ba003aa8b1f20791724e25349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 50/53] fix: BlockProjectedIF accepts layers that a batch does
 not use

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 6 ++++++
 dattri/algorithm/block_projected_if/core/hook.py          | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4941738..61230d4 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -292,6 +292,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
                         self.offload_manager.layer_dims = self.layer_dims
                         self.offload_manager.total_proj_dim = self.total_proj_dim
 
+                # A layer that the batch did not use has no gradient
+                compressed_grads = [
+                    torch.empty(0) if grad is None else grad
+                    for grad in compressed_grads
+                ]
+
                 # Store gradients using offload manager
                 self.offload_manager.store_gradients(
                     batch_idx,
diff --git a/dattri/algorithm/block_projected_if/core/hook.py b/dattri/algorithm/block_projected_if/core/hook.py
index 71524bf..7becf58 100644
--- a/dattri/algorithm/block_projected_if/core/hook.py
+++ b/dattri/algorithm/block_projected_if/core/hook.py
@@ -365,7 +365,9 @@ class HookManager:
         Returns:
             List of compressed gradients for each hooked layer
         """
-        return self.compressed_grads
+        compressed_grads = self.compressed_grads
+        self.compressed_grads = [None] * len(self.layer_names)
+        return compressed_grads
 
     def remove_hooks(self) -> None:
         """Restore original forward methods and cleanup registry."""
-- 
2.43.0


From 3603d06c86dd1f37cdb2b5e256e2fc351f46f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:46 +0000
Subject: [PATCH 51/53] fix: compressor setup accepts non-contiguous layer
 inputs and outputs

---
 dattri/algorithm/block_projected_if/core/compressor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/compressor.py b/dattri/algorithm/block_projected_if/core/compressor.py
index 0fe6d2c..8ef4aee 100644
--- a/dattri/algorithm/block_projected_if/core/compressor.py
+++ b/dattri/algorithm/block_projected_if/core/compressor.py
@@ -462,7 +462,9 @@ def _setup_linear_sparsifier(
             input_features = input_features.reshape(batch_size, seq_length, -1)
 
     # Sparsifiers are ALWAYS factorized
-    sample_comp_1 = torch.zeros_like(pre_activation.view(-1, pre_activation.shape[-1]))
+    sample_comp_1 = torch.zeros_like(
+        pre_activation.reshape(-1, pre_activation.shape[-1]),
+    )
 
     # For identity projection, use feature dimension instead of -1
     proj_dim_comp_1 = params.proj_dim
@@ -481,7 +483,9 @@ def _setup_linear_sparsifier(
         ),
     )
 
-    sample_comp_2 = torch.zeros_like(input_features.view(-1, input_features.shape[-1]))
+    sample_comp_2 = torch.zeros_like(
+        input_features.reshape(-1, input_features.shape[-1]),
+    )
 
     # For identity projection, use feature dimension instead of -1
     proj_dim_comp_2 = params.proj_dim
-- 
2.43.0


From 61234437ece2d971a6e9935168b307f0db7ea7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:46 +0000
Subject: [PATCH 52/53] fix: FactGraSS uses the projection seed and batch size
 it is given

---
 dattri/algorithm/factgrass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/factgrass.py b/dattri/algorithm/factgrass.py
index b2c1e2b..5f84394 100644
--- a/dattri/algorithm/factgrass.py
+++ b/dattri/algorithm/factgrass.py
@@ -100,13 +100,15 @@ class FactGraSSAttributor(BlockProjectedIFAttributor):
         # Set FactGraSS-specific configuration
         sparsifier_params = GeneralProjectionParams(
             proj_dim=per_component_dim,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="random_mask",
         )
 
         projector_params = GeneralProjectionParams(
             proj_dim=self.proj_params.proj_dim_per_layer,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="sjlt" if device == "cuda" else "normal",
         )
 
-- 
2.43.0


From 297e85f15cbba1b7354e6323c6ede653c8a443d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:24 +0000
Subject: [PATCH 53/53] revert the three changes to dattri/benchmark/utils.py
 (flip_label)

---
 dattri/benchmark/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index f59fa49..574f302 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -56,9 +56,6 @@ def flip_label(
     """
     if label_space is None:
         label_space = np.unique(label)
-    elif isinstance(label_space, torch.Tensor):
-        # tensors hash by identity: a set of them would not contain the labels
-        label_space = label_space.tolist()
 
     label_space = set(label_space)
 
@@ -72,14 +69,13 @@ def flip_label(
     # Generate a list of randomly sampled noisy (flipped) data from label space
     noisy_data = np.vectorize(
         lambda x: _random_flip(x, label_space, rng),
-        otypes=[int],
     )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(noisy_data, dtype=flipped_label.dtype)
+        noisy_data = torch.tensor(noisy_data)
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data
+    flipped_label[noise_index] = noisy_data.long()
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0

