From 882a0163aec0474b063a6937fa9229cdb0c6ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 01/51] fix: finetuned upper bound over a ball used the lower
 ball bound and dropped terms

---
 src/decomon/core.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 74790f4..522933c 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -621,13 +621,13 @@ def get_lower_ball(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kw
 
 
 def get_lower_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kwargs: Any) -> Tensor:
-    if "finetune_lower" in kwargs and "upper" in kwargs or "lower" in kwargs:
+    if "finetune_lower" in kwargs and ("upper" in kwargs or "lower" in kwargs):
         alpha = kwargs["finetune_lower"]
         # assume alpha is the same shape as w, minus the batch dimension
         n_shape = len(w.shape) - 2
         z_value = K.cast(0.0, dtype=w.dtype)
 
-        if "upper" and "lower" in kwargs:
+        if "upper" in kwargs and "lower" in kwargs:
             upper = kwargs["upper"]  # flatten vector
             lower = kwargs["lower"]  # flatten vector
 
@@ -672,13 +672,13 @@ def get_lower_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
 
 
 def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kwargs: Any) -> Tensor:
-    if "finetune_upper" in kwargs and "upper" in kwargs or "lower" in kwargs:
+    if "finetune_upper" in kwargs and ("upper" in kwargs or "lower" in kwargs):
         alpha = kwargs["finetune_upper"]
         # assume alpha is the same shape as w, minus the batch dimension
         n_shape = len(w.shape) - 2
         z_value = K.cast(0.0, dtype=w.dtype)
 
-        if "upper" and "lower" in kwargs:
+        if "upper" in kwargs and "lower" in kwargs:
             upper = kwargs["upper"]  # flatten vector
             lower = kwargs["lower"]  # flatten vector
 
@@ -691,7 +691,7 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             score_box = K.sum(K.maximum(z_value, w_alpha_bar) * upper_reshaped, 1) + K.sum(
                 K.minimum(z_value, w_alpha_bar) * lower_reshaped, 1
             )
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
@@ -699,11 +699,11 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             upper = kwargs["upper"]  # flatten vector
             upper_reshaped = np.reshape(upper, [1, -1] + [1] * n_shape)
 
-            w_alpha = K.minimum(z_value, w) * alpha[None] + K.maximum(z_value, w)
-            w_alpha_bar = K.minimum(z_value, w) * (1 - alpha[None])
+            w_alpha = K.maximum(z_value, w) * alpha[None] + K.minimum(z_value, w)
+            w_alpha_bar = K.maximum(z_value, w) * (1 - alpha[None])
 
             score_box = K.sum(K.maximum(z_value, w_alpha_bar) * upper_reshaped, 1)
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
@@ -711,11 +711,11 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             lower = kwargs["lower"]  # flatten vector
             lower_reshaped = np.reshape(lower, [1, -1] + [1] * n_shape)
 
-            w_alpha = K.maximum(z_value, w) * alpha[None] + K.minimum(z_value, w)
-            w_alpha_bar = K.maximum(z_value, w) * (1 - alpha[None])
+            w_alpha = K.minimum(z_value, w) * alpha[None] + K.maximum(z_value, w)
+            w_alpha_bar = K.minimum(z_value, w) * (1 - alpha[None])
 
             score_box = K.sum(K.minimum(z_value, w_alpha_bar) * lower_reshaped, 1)
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
-- 
2.43.0


From 4de1e79fbfe3c1b73216a7aba6698b31e9cf8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 02/51] fix: forward Flatten with channels_first permuted the
 biases but not the weights of the affine bounds

---
 src/decomon/layers/decomon_layers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..fff0e71 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -745,6 +745,10 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
+            if self._channels_first and len(w_u.shape) > 3:
+                # same permutation as the one performed by Flatten.call() on the biases
+                w_u = K.moveaxis(w_u, 2, -1)
+                w_l = K.moveaxis(w_l, 2, -1)
             w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
             w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
         else:
-- 
2.43.0


From 598c7f4bfc1e81bc6b2ed53124e5a75a4f6bbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 03/51] fix: affine bounds of sigmoid, tanh and softsign
 crossed the function between the points of the tangent search grid and at a
 zero bound

---
 src/decomon/utils.py | 69 ++++++++++----------------------------------
 1 file changed, 16 insertions(+), 53 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..c83b3bb 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -554,7 +554,6 @@ def get_linear_hull_s_shape(
 
     z_value = K.cast(0.0, dtype=dtype)
     o_value = K.cast(1.0, dtype=dtype)
-    t_value = K.cast(2.0, dtype=dtype)
 
     # flatten
     shape = list(u_c.shape[1:])
@@ -573,7 +572,7 @@ def get_linear_hull_s_shape(
     alpha_u_0 = K.where(
         K.greater_equal(s_u_prime, coeff), o_value + z_value * u_c_flat, z_value * u_c_flat
     )  # (None, n)
-    alpha_u_1 = (o_value - alpha_u_0) * ((K.sign(l_c_flat) + o_value) / t_value)
+    alpha_u_1 = (o_value - alpha_u_0) * K.clip(K.sign(l_c_flat) + o_value, z_value, o_value)  # 1 if l_c >= 0
 
     w_u_0 = coeff
     b_u_0 = -w_u_0 * l_c_flat + s_l
@@ -591,7 +590,7 @@ def get_linear_hull_s_shape(
     alpha_l_0 = K.where(
         K.greater_equal(s_l_prime, coeff), o_value + z_value * l_c_flat, z_value * l_c_flat
     )  # (None, n)
-    alpha_l_1 = (o_value - alpha_l_0) * ((K.sign(-u_c_flat) + o_value) / t_value)
+    alpha_l_1 = (o_value - alpha_l_0) * K.clip(K.sign(-u_c_flat) + o_value, z_value, o_value)  # 1 if u_c <= 0
 
     w_l_0 = coeff
     b_l_0 = -w_l_0 * u_c_flat + s_u
@@ -628,38 +627,20 @@ def get_t_upper(
         the upper affine bounds in this subcase
     """
 
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
+    # step1: grid search of the tangent point t in [0, u], i.e. func'(t) = (func(t) - func(l)) / (t - l)
     u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
     l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
     t = K.cast(np.linspace(0, 1, 100)[None, None, :], dtype=u_c_flat.dtype) * u_c_reshaped  # (None, n , 100)
 
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
+    secant = (s_t - K.expand_dims(s_l, -1)) / K.maximum(
+        K.cast(epsilon(), dtype=u_c_flat.dtype), t - l_c_reshaped
+    )  # (None, n, 100)
 
-    score = K.abs(s_p_t - (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-    threshold = K.min(score, -1)  # (None, n)
-
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index - 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )  # (None, n)
-
-    s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
+    # step2: until the tangent point, the slope func'(t) is steeper than the secant, so that the line with this slope
+    # going through (l, func(l)) is above func. We keep the tightest one (func'(0) being always admissible).
+    w_u = K.min(K.where(K.greater_equal(s_p_t, secant), s_p_t, s_p_t[:, :, :1]), -1)  # (None, n)
     b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
 
     return [w_u, b_u]
@@ -685,38 +666,20 @@ def get_t_lower(
     Returns:
         the lower affine bounds in this subcase
     """
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
+    # step1: grid search of the tangent point t in [l, 0], i.e. func'(t) = (func(u) - func(t)) / (u - t)
     u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
     l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
     t = K.cast(np.linspace(0, 1.0, 100)[None, None, :], dtype=u_c_flat.dtype) * l_c_reshaped  # (None, n , 100)
 
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
+    secant = (K.expand_dims(s_u, -1) - s_t) / K.maximum(
+        K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_reshaped - t
+    )  # (None, n, 100)
 
-    score = K.abs(s_p_t - (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-
-    threshold = K.min(score, -1)
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index + 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )
-
-    s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
+    # step2: from the tangent point, the slope func'(t) is steeper than the secant, so that the line with this slope
+    # going through (u, func(u)) is below func. We keep the tightest one (func'(0) being always admissible).
+    w_l = K.min(K.where(K.greater_equal(s_p_t, secant), s_p_t, s_p_t[:, :, :1]), -1)  # (None, n)
     b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
 
     return [w_l, b_l]
-- 
2.43.0


From 6f62fff5fb83654baf1b7c9daa71f54218d69826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 04/51] fix: affine bounds of softplus were computed from
 softsign and zeroed for negative inputs

---
 src/decomon/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index c83b3bb..39337c3 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -215,8 +215,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     slope = Slope(slope)
     # in case upper=lower, this cases are
     # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -245,9 +245,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
 
     index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
 
-    w_u = (o_value - index_dead) * w_u
+    # the function is convex: its chord is always an upper bound, and relu is below it
     w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
     b_l = (o_value - index_dead) * b_l
 
     if "finetune" in kwargs:
@@ -257,7 +256,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * u_c
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From a27227c91375785972e9d6a41f8be0ba8fab66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 05/51] fix: softmax bounds were those of the softmin, with a
 wrong hull of 1/x and invalid in affine mode

---
 src/decomon/layers/activations.py | 12 ++++++++++--
 src/decomon/layers/utils.py       |  9 +++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..253f929 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -19,7 +19,6 @@ from decomon.layers.utils import exp, expand_dims, frac_pos, multiply, softplus_
 from decomon.types import Tensor
 from decomon.utils import (
     get_linear_hull_s_shape,
-    minus,
     relu_,
     sigmoid_prime,
     softsign_prime,
@@ -468,10 +467,16 @@ def softmax(
         raise NotImplementedError()
     mode = ForwardMode(mode)
     ibp = get_ibp(mode)
+    output_mode = mode
+    if mode == ForwardMode.AFFINE:
+        # constant bounds are needed to keep the exponentials positive
+        inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
+        inputs = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)[:7]
+        mode = ForwardMode.HYBRID
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -498,6 +503,9 @@ def softmax(
         u_c = K.minimum(u_c, o_value)
         l_c = K.maximum(l_c, z_value)
 
+    inputs_outputs_spec = InputsOutputsSpec(
+        dc_decomp=dc_decomp, mode=output_mode, perturbation_domain=perturbation_domain
+    )
     return inputs_outputs_spec.extract_outputsformode_from_fulloutputs([x, u_c, w_u, b_u, l_c, w_l, b_l, h, g])
 
 
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..b23e8fc 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -218,17 +218,18 @@ def frac_pos(
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        # 1/x is decreasing and convex: chord above, tangent below
+        w_u_0 = (l_c_out - u_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 9856ba60cd79539fb1664778934ce07157ec2682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 06/51] fix: permute_dimensions permuted the weights of the
 affine bounds along another axis than the biases

---
 src/decomon/layers/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index b23e8fc..cc389a2 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -563,7 +563,8 @@ def permute_dimensions(
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
     index_w_np = np.arange(len(input_shape) + 1)
-    index_w = tuple(np.insert(np.delete(index_w_np, axis), axis_perm + 1, axis))
+    axis_w = axis if axis < 0 else axis + 1  # the weights have one more dimension, after the batch one
+    index_w = tuple(np.insert(np.delete(index_w_np, axis_w), axis_perm + 1, axis_w))
 
     if ibp:
         u_c_out = K.transpose(u_c, index)
-- 
2.43.0


From f9654a7f50a483c38e6335a8db93f18b9d347399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 07/51] fix: Concatenate raised for a positive axis and
 concatenated the weights along the wrong one for a negative axis

---
 src/decomon/layers/decomon_merge_layers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 8838cdb..b8779be 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -432,10 +432,9 @@ class DecomonConcatenate(DecomonMerge, Concatenate):
             return Concatenate.call(self, inputs)
 
         self.op = func
-        if self.axis == -1:
-            self.op_w = self.op
-        else:
-            self.op_w = Concatenate(axis=self.axis + 1)
+        # the weights of the affine bounds have one more dimension, after the batch one
+        axis_w = self.axis if self.axis < 0 else self.axis + 1
+        self.op_w = lambda inputs: K.concatenate(inputs, axis=axis_w)
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         # splits the inputs
-- 
2.43.0


From 3d2edf0fc2993ff9929150e8a1a469562dd91ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 08/51] fix: Dot of two vectors lost the dimension of size 1
 that keras keeps

---
 src/decomon/layers/decomon_merge_layers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index b8779be..81bf865 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -608,17 +608,20 @@ class DecomonDot(DecomonMerge, Dot):
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
+        # as keras, the dot product of two vectors keeps a dimension of size 1
+        keepdims = n_0 + n_1 == 0
+
         if self.ibp:
-            u_c_out = K.sum(u_c, 1)
-            l_c_out = K.sum(l_c, 1)
+            u_c_out = K.sum(u_c, 1, keepdims=keepdims)
+            l_c_out = K.sum(l_c, 1, keepdims=keepdims)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            w_u_out = K.sum(w_u, 2)
-            b_u_out = K.sum(b_u, 1)
-            w_l_out = K.sum(w_l, 2)
-            b_l_out = K.sum(b_l, 1)
+            w_u_out = K.sum(w_u, 2, keepdims=keepdims)
+            b_u_out = K.sum(b_u, 1, keepdims=keepdims)
+            w_l_out = K.sum(w_l, 2, keepdims=keepdims)
+            b_l_out = K.sum(b_l, 1, keepdims=keepdims)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 07158cec5f6ab12a36e48bef5ede0e71173c96d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 09/51] fix: sum, max_, broadcast and expand_dims handled the
 weights along the wrong axis for negative axes other than -1

---
 src/decomon/layers/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index cc389a2..532c5cc 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -174,8 +174,8 @@ def sum(
         u_c_out, l_c_out = empty_tensor, empty_tensor
 
     if affine:
-        if axis == -1:
-            axis_w = -1
+        if axis < 0:
+            axis_w = axis
         else:
             axis_w = axis + 1
         w_u_out = K.sum(w_u, axis=axis_w)
@@ -306,7 +306,7 @@ def max_(
         b_u_tmp = b_u_list[0] + 0 * (b_u_list[0])
         b_l_tmp = b_l_list[0] + 0 * (b_l_list[0])
 
-        if axis == -1:
+        if axis < 0:
             w_u_list = K.split(w_u, max_dim, axis)
             w_l_list = K.split(w_l, max_dim, axis)
         else:
@@ -379,7 +379,7 @@ def max_(
     if mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
         b_u_out = K.squeeze(b_u_out, axis)
         b_l_out = K.squeeze(b_l_out, axis)
-        if axis == -1:
+        if axis < 0:
             w_u_out = K.squeeze(w_u_out, axis)
             w_l_out = K.squeeze(w_l_out, axis)
         else:
@@ -626,10 +626,10 @@ def broadcast(
             u_c = K.expand_dims(u_c, axis)
             l_c = K.expand_dims(l_c, axis)
 
-    if axis != -1:
+    if axis >= 0:
         axis_w = axis + 1
     else:
-        axis_w = -1
+        axis_w = axis
 
     if affine:
         for _ in range(n):
@@ -1014,7 +1014,7 @@ def expand_dims(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
+    if axis < 0:
         axis_w = axis
     else:
         axis_w = axis + 1
-- 
2.43.0


From c668eefdadbfa9b080a2b503e215c3baafdd5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 10/51] fix: split called K.split with an argument that does
 not exist

---
 src/decomon/layers/utils.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 532c5cc..b5de104 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -669,11 +669,9 @@ def split(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    if axis < 0:
+        axis += len(input_shape)
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -685,19 +683,17 @@ def split(
     empty_tensor_list = [empty_tensor] * n
 
     if ibp:
-        u_c_list = K.split(u_c, num_or_size_splits=n, axis=axis)
-        l_c_list = K.split(l_c, num_or_size_splits=n, axis=axis)
+        u_c_list = K.split(u_c, n, axis=axis)
+        l_c_list = K.split(l_c, n, axis=axis)
     else:
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        b_u_list = K.split(b_u, num_or_size_splits=n, axis=axis)
-        b_l_list = K.split(b_l, num_or_size_splits=n, axis=axis)
+        b_u_list = K.split(b_u, n, axis=axis)
+        b_l_list = K.split(b_l, n, axis=axis)
 
-        if axis != -1:
-            axis += 1
-        w_u_list = K.split(w_u, num_or_size_splits=n, axis=axis)
-        w_l_list = K.split(w_l, num_or_size_splits=n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_l_list = K.split(w_l, n, axis=axis + 1)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
-- 
2.43.0


From 52413852510ee3ad66e9637007b7640a73eae96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 11/51] fix: sort assigned into the tuples returned by K.split
 and mishandled negative axes

---
 src/decomon/layers/utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index b5de104..f53bbef 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -750,18 +750,16 @@ def sort(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    if axis < 0:
+        axis += len(input_shape)
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
     empty_tensor_list = [empty_tensor] * n
 
     # what about splitting elements
-    op_split = lambda x: K.split(x, n, axis=axis)
+    op_split = lambda x: list(K.split(x, n, axis=axis))
     if ibp:
         u_c_list = op_split(u_c)
         l_c_list = op_split(l_c)
@@ -769,9 +767,9 @@ def sort(
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_u_list = list(K.split(w_u, n, axis=axis + 1))
         b_u_list = op_split(b_u)
-        w_l_list = K.split(w_l, n, axis=axis + 1)
+        w_l_list = list(K.split(w_l, n, axis=axis + 1))
         b_l_list = op_split(b_l)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
-- 
2.43.0


From 3b1f8830befd695cc82362e71a0ac4c30be39d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 12/51] fix: abs returned bounds of relu(x) - relu(-x), that is
 of x

---
 src/decomon/layers/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index f53bbef..fe71dd6 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -895,15 +895,11 @@ def abs(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-    inputs_1 = minus(
-        relu_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
-            dc_decomp=dc_decomp,
-            perturbation_domain=perturbation_domain,
-            mode=mode,
-        ),
-        mode=mode,
+    inputs_1 = relu_(
+        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
+        mode=mode,
     )
 
     return add(inputs_0, inputs_1, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-- 
2.43.0


From b1a9093b611d1be74820023f87eb6b524fcb370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 13/51] fix: max pooling layer raised or repeated filters for
 non square pools

---
 src/decomon/layers/maxpooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index c6998c2..11a0b23 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -87,7 +87,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
         for i in range(self.pool_size[0]):
             for j in range(self.pool_size[1]):
-                self.filters[i, j, 0, i * self.pool_size[0] + j] = 1
+                self.filters[i, j, 0, i * self.pool_size[1] + j] = 1
 
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
-- 
2.43.0


From eae6c8037521d36e9817685896aaeb30ef7f933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 14/51] fix: max pooling with fast=False split and concatenated
 along the wrong axes with channels_first

---
 src/decomon/layers/maxpooling.py | 54 ++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index 11a0b23..1176f69 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -138,19 +138,15 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
                     self.dtype,
                 )
             else:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters_w,
-                            strides=list(self.strides_w),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        1,
-                    ),
-                    self.dtype,
+                # the dimension of the input domain is convolved as a spatial one
+                y = K.conv(
+                    K.transpose(x, (0, 2, 1, 3, 4)),
+                    self.filters_w,
+                    strides=list(self.strides_w),
+                    padding=self.padding,
+                    data_format=self.data_format,
                 )
+                return K.cast(K.expand_dims(K.transpose(y, (0, 2, 1, 3, 4)), 2), self.dtype)
 
         self.internal_op = conv_
         self.internal_op_w = conv_w_
@@ -194,31 +190,37 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
         input_shape = self.inputs_outputs_spec.get_kerasinputshape(inputs)
-        n_split = input_shape[-1]
+        if self.data_format == "channels_first":
+            axis, axis_w, axis_pool = 1, 2, 2
+        else:
+            axis, axis_w, axis_pool = -1, -1, -1
+        n_split = input_shape[axis]
+        axis_concat = axis if axis > 0 else axis - 1
+        axis_concat_w = axis_w if axis_w > 0 else axis_w - 1
 
         if self.dc_decomp:
             h_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(h, n_split, -1)],
-                -2,
+                [self.internal_op(elem) for elem in K.split(h, n_split, axis)],
+                axis_concat,
             )
             g_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(g, n_split, -1)],
-                -2,
+                [self.internal_op(elem) for elem in K.split(g, n_split, axis)],
+                axis_concat,
             )
         else:
             h_out, g_out = empty_tensor, empty_tensor
 
         if self.ibp:
-            u_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(u_c, n_split, -1)], -2)
-            l_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(l_c, n_split, -1)], -2)
+            u_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(u_c, n_split, axis)], axis_concat)
+            l_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(l_c, n_split, axis)], axis_concat)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            b_u_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_u, n_split, -1)], -2)
-            b_l_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_l, n_split, -1)], -2)
-            w_u_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_u, n_split, -1)], -2)
-            w_l_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_l, n_split, -1)], -2)
+            b_u_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_u, n_split, axis)], axis_concat)
+            b_l_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_l, n_split, axis)], axis_concat)
+            w_u_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_u, n_split, axis_w)], axis_concat_w)
+            w_l_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_l, n_split, axis_w)], axis_concat_w)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
@@ -227,7 +229,11 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
 
         return max_(
-            outputs, axis=-1, dc_decomp=self.dc_decomp, mode=self.mode, perturbation_domain=self.perturbation_domain
+            outputs,
+            axis=axis_pool,
+            dc_decomp=self.dc_decomp,
+            mode=self.mode,
+            perturbation_domain=self.perturbation_domain,
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-- 
2.43.0


From 42c8aa310689ea7b51b8c0dbcab7e0277dcde58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 15/51] fix: max pooling with fast=False and same padding took
 the zeros of the padding into the maximum

---
 src/decomon/layers/maxpooling.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index 1176f69..cdc56fb 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -92,7 +92,18 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
 
+        def repeat_edges(x: BackendTensor, axis: int) -> BackendTensor:
+            # "same" padding ignores the padded cells: repeating the edges does not change the maximum of a window
+            if self.padding == "same":
+                for ax, pool, stride in zip((axis, axis + 1), self.pool_size, self.strides):
+                    n = x.shape[ax]
+                    pad = max((-(-n // stride) - 1) * stride + pool - n, 0)
+                    indices = np.clip(np.arange(-(pad // 2), n + pad - pad // 2), 0, n - 1)
+                    x = K.take(x, indices, axis=ax)
+            return x
+
         def conv_(x: BackendTensor) -> BackendTensor:
+            x = repeat_edges(x, 1 if self.data_format in [None, "channels_last"] else 2)
             if self.data_format in [None, "channels_last"]:
                 return K.cast(
                     K.expand_dims(
@@ -100,7 +111,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
                             x,
                             self.filters,
                             strides=list(self.strides),
-                            padding=self.padding,
+                            padding="valid",
                             data_format=self.data_format,
                         ),
                         -2,
@@ -114,7 +125,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
                             x,
                             self.filters,
                             strides=list(self.strides),
-                            padding=self.padding,
+                            padding="valid",
                             data_format=self.data_format,
                         ),
                         1,
@@ -123,6 +134,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
                 )
 
         def conv_w_(x: BackendTensor) -> BackendTensor:
+            x = repeat_edges(x, 2 if self.data_format in [None, "channels_last"] else 3)
             if self.data_format in [None, "channels_last"]:
                 return K.cast(
                     K.expand_dims(
@@ -130,7 +142,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
                             x,
                             self.filters_w,
                             strides=list(self.strides_w),
-                            padding=self.padding,
+                            padding="valid",
                             data_format=self.data_format,
                         ),
                         -2,
@@ -143,7 +155,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
                     K.transpose(x, (0, 2, 1, 3, 4)),
                     self.filters_w,
                     strides=list(self.strides_w),
-                    padding=self.padding,
+                    padding="valid",
                     data_format=self.data_format,
                 )
                 return K.cast(K.expand_dims(K.transpose(y, (0, 2, 1, 3, 4)), 2), self.dtype)
-- 
2.43.0


From 336c5972fa1fc86ce1964f43bfb4430005414810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 16/51] fix: affine form of convolutions with a non square
 kernel or with channels_first

---
 src/decomon/backward_layers/utils_conv.py | 50 ++++++++++++++---------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..4363e21 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -58,38 +58,39 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
     _, w_out, h_out, c_out = output_shape
 
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_shape = kernel_filter.shape[:2]
+    filter_size = int(np.prod(filter_shape))
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
     diag_patches = extract_patches(
         diag,
-        size=[filter_size, filter_size],
+        size=list(filter_shape),
         strides=list(conv_layer.strides),
         dilation_rate=list(conv_layer.dilation_rate),
         padding=conv_layer.padding,
     )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
     shape[-2] += 1
     diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
+    kernel = conv_layer.kernel  # (*filter_shape, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (filter_size, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
+    ]  # (1,1,c_in, c_out, filter_size)
 
     # element-wise multiplication is only compatible with float32
     diag_patches_ = K.cast(diag_patches_, "float32")
     kernel = K.cast(kernel, "float32")
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size)
+    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size)
+    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter_size)
 
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
@@ -127,28 +128,39 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
         output_shape = output[-1].shape
     _, c_out, w_out, h_out = output_shape
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_shape = kernel_filter.shape[:2]
+    filter_size = int(np.prod(filter_shape))
 
-    diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
+    # patches are extracted on channels_last images
+    diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, c_in, w_in, h_in))
+    diag = K.transpose(diag, (0, 2, 3, 1))
 
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
+    diag_patches = extract_patches(
+        diag,
+        size=list(filter_shape),
+        strides=list(conv_layer.strides),
+        dilation_rate=list(conv_layer.dilation_rate),
+        padding=conv_layer.padding,
+        data_format="channels_last",
+    )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (c_in, w_in, h_in, w_out, h_out, filter_size, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
     shape[-2] += 1
     diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
+    kernel = conv_layer.kernel  # (*filter_shape, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (filter_size, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
+    ]  # (1,1,c_in, c_out, filter_size)
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_size)
+    # diag_patches shape: (c_in, w_in, h_in, w_out, h_out, c_in, 1,     filter_size)
+    # (c_in, w_in, h_in, w_out, h_out, c_in, c_out, filter_size)
+    w = K.transpose(w, (0, 1, 2, 5, 3, 4))  # (c_in, w_in, h_in, c_out, w_out, h_out)
 
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
-- 
2.43.0


From 16b637a649717e9086755ac5ceb7b366f2fb9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 17/51] fix: backward Permute and Flatten with channels_first
 permute the output, not the input

---
 .../backward_layers/backward_layers.py        | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..b706bc0 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -453,7 +453,18 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+        y = inputs[-1]
+        n_axes = len(y.shape) - 1
+        if self.layer.data_format == "channels_first" and n_axes > 1:
+            # the channels become the last dimension before flattening
+            n_dim = w_u_out.shape[1]
+            shape = [-1, n_dim] + list(y.shape[1:])
+            dims = [0, 1] + list(range(3, n_axes + 2)) + [2]
+            w_u_out = K.reshape(K.transpose(K.reshape(w_u_out, shape), dims), (-1, n_dim, n_dim))
+            w_l_out = K.reshape(K.transpose(K.reshape(w_l_out, shape), dims), (-1, n_dim, n_dim))
+
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
@@ -513,11 +524,11 @@ class BackwardPermute(BackwardLayer):
         n_out = w_u_out.shape[-1]
         shape = list(y.shape[1:])
 
-        w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
-        w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
+        # permute the output
+        w_u_out = K.reshape(w_u_out, [-1, n_dim] + shape)
+        w_l_out = K.reshape(w_l_out, [-1, n_dim] + shape)
 
-        dims = [0] + list(self.dims) + [len(y.shape)]
-        dims = list(np.argsort(dims))
+        dims = [0, 1] + [dim + 1 for dim in self.dims]
         w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_out))
         w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_out))
 
-- 
2.43.0


From b5804125b3bdd0046488f74763260fe72b9e620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:32 +0000
Subject: [PATCH 18/51] fix: backward sigmoid, tanh, softplus and finetuned
 relu did not flatten inputs with several axes

---
 src/decomon/backward_layers/activations.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/decomon/backward_layers/activations.py b/src/decomon/backward_layers/activations.py
index 153f1cd..487fbdc 100644
--- a/src/decomon/backward_layers/activations.py
+++ b/src/decomon/backward_layers/activations.py
@@ -80,9 +80,11 @@ def backward_relu(
         inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
         x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
         input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-        bounds = get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
         dim = int(np.prod(input_shape[1:]))  # type: ignore
-        return [K.reshape(elem, (-1, dim)) for elem in bounds]
+        # the bounds (and the finetuning parameters) are expressed on the flattened input
+        return get_linear_hull_relu(
+            upper=K.reshape(u_c, (-1, dim)), lower=K.reshape(l_c, (-1, dim)), slope=slope, **kwargs
+        )
 
     raise NotImplementedError()
 
@@ -115,7 +117,9 @@ def backward_sigmoid(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
+    # the bounds (and the finetuning parameters) are expressed on the flattened input
+    dim = int(np.prod(inputs_outputs_spec.get_kerasinputshape(inputs)[1:]))  # type: ignore
+    return get_linear_hull_sigmoid(K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim)), slope=slope, **kwargs)
 
 
 def backward_tanh(
@@ -146,7 +150,9 @@ def backward_tanh(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
+    # the bounds (and the finetuning parameters) are expressed on the flattened input
+    dim = int(np.prod(inputs_outputs_spec.get_kerasinputshape(inputs)[1:]))  # type: ignore
+    return get_linear_hull_tanh(K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim)), slope=slope, **kwargs)
 
 
 def backward_hard_sigmoid(
@@ -322,7 +328,9 @@ def backward_softplus(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
+    # the bounds (and the finetuning parameters) are expressed on the flattened input
+    dim = int(np.prod(inputs_outputs_spec.get_kerasinputshape(inputs)[1:]))  # type: ignore
+    return get_linear_softplus_hull(K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim)), slope=slope, **kwargs)
 
 
 def backward_softsign(
-- 
2.43.0


From 4f7dc3785cc7a5f51a5db35145777936ab58768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 19/51] fix: backward_minimum returned the bounds of the
 maximum

---
 src/decomon/backward_layers/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 1b6094e..9a3e3bf 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -379,10 +379,11 @@ def backward_minimum(
 
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
+    # min(x, y) = -max(-x, -y)
     w_u_out, b_u_out, w_l_out, b_l_out = backward_minus(w_u_out, b_u_out, w_l_out, b_l_out)
     bounds_0, bounds_1 = backward_maximum(
-        inputs_0,
-        inputs_1,
+        minus(inputs_0, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
+        minus(inputs_1, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
         w_u_out,
         b_u_out,
         w_l_out,
@@ -421,7 +422,7 @@ def backward_minus(
     Returns:
 
     """
-    return [-w_l_out, -b_l_out, -w_u_out, -b_u_out]
+    return [-w_u_out, b_u_out, -w_l_out, b_l_out]
 
 
 def backward_scale(
-- 
2.43.0


From 367908f20aa9682cc53cce773e4ec140790af142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 20/51] fix: backward_multiply added one dimension too many to
 the bounds

---
 src/decomon/backward_layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 9a3e3bf..6f18491 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -542,7 +542,7 @@ def backward_multiply(
     n = int(np.prod(u_c_0.shape[1:]))
     n_shape = [-1, n]
     # broadcast dimensions if needed
-    n_out = len(w_u_out.shape[1:])
+    n_out = len(w_u_out.shape[2:])
     for _ in range(n_out):
         n_shape += [1]
     a_u_0 = K.reshape(u_c_1, n_shape)
-- 
2.43.0


From 34be6addb6a62c94ea5e2c9682ffb51729b42790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 21/51] fix: BackwardAverage ignored one of the inputs when
 merging more than two

---
 src/decomon/backward_layers/backward_merge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 0a9028a..cda8a24 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -209,7 +209,9 @@ class BackwardAverage(BackwardMerge):
             dc_decomp=dc_decomp,
             **kwargs,
         )
-        self.op = DecomonAdd(mode=self.mode, perturbation_domain=self.perturbation_domain, dc_decomp=False).call
+        self.op = DecomonAdd(
+            mode=self.mode, perturbation_domain=self.perturbation_domain, dc_decomp=self.dc_decomp
+        ).call
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[list[BackendTensor]]:
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
@@ -228,7 +230,7 @@ class BackwardAverage(BackwardMerge):
                 if j == 1:
                     inputs_0 = inputs_list[0]
                 else:
-                    inputs_0 = self.op(list(chain(*inputs_list[: (j - 1)])))  # merge (j-1) first inputs
+                    inputs_0 = self.op(list(chain(*inputs_list[:j])))  # merge j first inputs
                 bounds_0, bounds_1 = backward_add(
                     inputs_0,
                     inputs_1,
-- 
2.43.0


From 805e82536da9f6f5df3c7de260d89aa212938d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 22/51] fix: backward_scale swapped the bounds for a negative
 factor

---
 src/decomon/backward_layers/utils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 6f18491..c194c60 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -445,12 +445,7 @@ def backward_scale(
 
     """
 
-    if scale_factor >= 0:
-        output = [scale_factor * w_u_out, b_u_out, scale_factor * w_l_out, b_l_out]
-    else:
-        output = [scale_factor * w_l_out, b_l_out, scale_factor * w_u_out, b_u_out]
-
-    return output
+    return [scale_factor * w_u_out, b_u_out, scale_factor * w_l_out, b_l_out]
 
 
 def backward_subtract(
-- 
2.43.0


From 3e45bfda480f837d8ae3e5d660c4b6dbfd9b37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 23/51] fix: backward Permute, Flatten and BatchNormalization
 misread the flattened inputs given by crown

---
 src/decomon/backward_layers/backward_layers.py |  6 +++---
 src/decomon/backward_layers/core.py            | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index b706bc0..349f51e 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -454,7 +454,7 @@ class BackwardFlatten(BackwardLayer):
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
-        y = inputs[-1]
+        y = self.get_unflattened_input(inputs)
         n_axes = len(y.shape) - 1
         if self.layer.data_format == "channels_first" and n_axes > 1:
             # the channels become the last dimension before flattening
@@ -519,7 +519,7 @@ class BackwardPermute(BackwardLayer):
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
 
         # w_u_out (None, n_in, n_out)
-        y = inputs[-1]
+        y = self.get_unflattened_input(inputs)
         n_dim = w_u_out.shape[1]
         n_out = w_u_out.shape[-1]
         shape = list(y.shape[1:])
@@ -585,7 +585,7 @@ class BackwardBatchNormalization(BackwardLayer):
         self.op_flat = Flatten()
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        y = inputs[-1]
+        y = self.get_unflattened_input(inputs)
         n_out = int(np.prod(y.shape[1:]))
 
         n_dim = len(y.shape)
diff --git a/src/decomon/backward_layers/core.py b/src/decomon/backward_layers/core.py
index 99baf27..5a61093 100644
--- a/src/decomon/backward_layers/core.py
+++ b/src/decomon/backward_layers/core.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from typing import Any, Optional, Union
 
 import keras
+import keras.ops as K
 import numpy as np
 from keras.layers import InputLayer, Layer, Wrapper
 
@@ -70,6 +71,20 @@ class BackwardLayer(ABC, Wrapper):
         )
         return config
 
+    def get_unflattened_input(self, inputs: list[BackendTensor]) -> BackendTensor:
+        """Get the last input tensor with the shape of the input of the wrapped layer.
+
+        Crown gives flattened inputs to the backward layers.
+
+        """
+        y = inputs[-1]
+        if len(y.shape) == 2 and hasattr(self.layer, "input"):
+            layer_input = self.layer.input
+            if isinstance(layer_input, list):
+                layer_input = layer_input[-1]
+            y = K.reshape(y, [-1] + list(layer_input.shape[1:]))
+        return y
+
     @abstractmethod
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         """
-- 
2.43.0


From 629f6ac197a25973aad85f6f51a5e2d4146f2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 24/51] fix: crown bounds with a ball domain were computed as
 if the input box were a ball

---
 src/decomon/models/crown.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6abbd7d..85d86b6 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -5,7 +5,7 @@ import keras.ops as K
 from keras.layers import InputSpec, Layer
 from keras.src.layers.merging.dot import batch_dot
 
-from decomon.core import ForwardMode, PerturbationDomain
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain
 from decomon.keras_utils import BatchedDiagLike
 from decomon.types import BackendTensor
 
@@ -69,15 +69,18 @@ class Convert2BackwardMode(Layer):
         w_u_out, b_u_out, w_l_out, b_l_out = backward_bounds
         empty_tensor = K.convert_to_tensor([])
 
+        perturbation_domain = self.perturbation_domain
         if self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
             x_0 = inputs_wo_backward_bounds[0]
         else:
+            # only the constant bounds of the input are known
             u_c, l_c = inputs_wo_backward_bounds
             x_0 = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
+            perturbation_domain = BoxDomain()
 
         if self.mode in [ForwardMode.IBP, ForwardMode.HYBRID]:
-            u_c_out = self.perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
-            l_c_out = self.perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
+            u_c_out = perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
+            l_c_out = perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
-- 
2.43.0


From 2daaa7028c4d7e68b6e75a9a76a50680bc7c28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 25/51] fix: conversion of constant bounds to affine bounds
 lost the domain input and its dimension

---
 src/decomon/models/backward_cloning.py |  7 +++----
 src/decomon/models/convert.py          |  2 ++
 src/decomon/models/utils.py            | 27 +++++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 89137c7..3e823a2 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Union
 import keras
 import keras.ops as K
 from keras.config import floatx
-from keras.layers import Concatenate, Lambda, Layer
+from keras.layers import Lambda, Layer
 from keras.models import Model
 from keras.src.ops.node import Node
 from keras.src.utils.python_utils import to_list
@@ -31,6 +31,7 @@ from decomon.models.utils import (
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
+    set_domain_input_from_ibp,
 )
 from decomon.types import BackendTensor, Tensor
 
@@ -457,7 +458,5 @@ def convert_backward(
         perturbation_domain=perturbation_domain,
         input_dim=input_dim,
     )(output)
-    if mode_to != mode_from and mode_from == ForwardMode.IBP:
-        f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
-        output[0] = f_input([input_tensors[1], input_tensors[0]])
+    output = set_domain_input_from_ibp(output, input_tensors, mode_from, mode_to, perturbation_domain)
     return input_tensors, output, backward_map, toto
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..1740b93 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -28,6 +28,7 @@ from decomon.models.utils import (
     get_input_tensors,
     is_input_node,
     preprocess_layer,
+    set_domain_input_from_ibp,
     split_activation,
 )
 
@@ -162,6 +163,7 @@ def convert(
         output = Convert2Mode(
             mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
         )(output)
+        output = set_domain_input_from_ibp(output, input_tensors, mode_from, mode_to, perturbation_domain)
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..d6d8202 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -321,7 +321,10 @@ class Convert2Mode(Layer):
 
         if compute_dummy_affine:
             x = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
-            w = K.zeros_like(BatchedIdentityLike()(l_c))
+            if self.input_dim > 0:
+                w = K.zeros_like(K.repeat(K.expand_dims(l_c, 1), self.input_dim, axis=1))
+            else:
+                w = K.zeros_like(BatchedIdentityLike()(l_c))
             w_u = w
             b_u = u_c
             w_l = w
@@ -355,6 +358,28 @@ class Convert2Mode(Layer):
         return config
 
 
+def set_domain_input_from_ibp(
+    output: list[keras.KerasTensor],
+    input_tensors: list[keras.KerasTensor],
+    mode_from: ForwardMode,
+    mode_to: ForwardMode,
+    perturbation_domain: PerturbationDomain,
+) -> list[keras.KerasTensor]:
+    """Set the perturbation domain input in outputs converted from ibp mode.
+
+    It is not part of the tensors in ibp mode, so we get it from the constant bounds on the model input.
+
+    """
+    if mode_from == ForwardMode.IBP and mode_to != ForwardMode.IBP:
+        u_c, l_c = input_tensors
+        if isinstance(perturbation_domain, BallDomain):
+            x = (u_c + l_c) / 2
+        else:
+            x = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
+        output = [x] + list(output[1:])
+    return output
+
+
 def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
         return model
-- 
2.43.0


From 8b2200376ea522555c4c9bc68535f535c5460504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 26/51] fix: clone turned the softmax layer of the original
 model into a linear one and failed on Softmax layers

---
 src/decomon/layers/utils.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index fe71dd6..007b811 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -407,9 +407,19 @@ def softmax_to_linear(model: keras.Model) -> tuple[keras.Model, bool]:
         model without the softmax
     """
     layer = model.layers[-1]
-    # check that layer is not an instance of the object Softmax
-    if isinstance(layer, keras.layers.Softmax):
-        model_normalize = keras.models.Model(model.get_input_at(0), keras.layers.Activation("linear")(layer.input))
+    # check that layer is not a softmax layer (w/o weights)
+    if isinstance(layer, keras.layers.Softmax) or (
+        isinstance(layer, keras.layers.Activation) and layer.get_config()["activation"] == "softmax"
+    ):
+        outputs = list(model.outputs)
+        history = outputs[-1]._keras_history
+        if history.operation is not layer:
+            return model, False
+        # replace it instead of modifying it: the layer can be shared with the original model
+        outputs[-1] = keras.layers.Activation("linear", dtype=layer.dtype)(
+            layer._inbound_nodes[history.node_index].input_tensors[0]
+        )
+        model_normalize = keras.models.Model(model.inputs, outputs)
 
         return model_normalize, True
 
-- 
2.43.0


From 01a875fff87d23fd022c7cd096d2ad23edbfa23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 27/51] fix: backward Dense misread inputs with several axes
 flattened by crown

---
 src/decomon/backward_layers/backward_layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 349f51e..f72279b 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -69,7 +69,7 @@ class BackwardDense(BackwardLayer):
         if len(inputs) == 0:
             inputs = self.layer.input
 
-        y = inputs[-1]
+        y = self.get_unflattened_input(inputs)
         flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:-1]))
         flatten_outputdim = flatten_inputdim_wo_last_dim * self.layer.units
         batchsize = y.shape[0]
-- 
2.43.0


From f4331a1c72a3ddcb8431b790196c497e57a9c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 28/51] fix: conversion of models with several outputs dropped
 the bounds of all but one output

---
 src/decomon/models/backward_cloning.py | 63 +++++++++++---------------
 src/decomon/models/convert.py          |  8 +---
 src/decomon/models/forward_cloning.py  | 13 ++----
 src/decomon/models/utils.py            | 33 ++++++++++++++
 4 files changed, 66 insertions(+), 51 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 3e823a2..8eeed29 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -27,11 +27,11 @@ from decomon.layers.utils import softmax_to_linear as softmax_2_linear
 from decomon.models.crown import Convert2BackwardMode, Fuse, MergeWithPrevious
 from decomon.models.forward_cloning import OutputMapDict
 from decomon.models.utils import (
-    Convert2Mode,
+    convert_outputs_to_mode,
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
-    set_domain_input_from_ibp,
+    get_output_nodes,
 )
 from decomon.types import BackendTensor, Tensor
 
@@ -367,35 +367,30 @@ def crown_model(
     # print('step1', time_1-zero_time)
     # retrieve output nodes
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
     fuse_layer = None
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                # compute with crown
-                output_crown, fuse_layer = crown_(
-                    node=node,
-                    ibp=ibp,
-                    affine=affine,
-                    input_map=input_map,
-                    layer_fn=layer_fn,
-                    backward_bounds=back_bounds,
-                    backward_map=backward_map,
-                    joint=joint,
-                    fuse=fuse,
-                    perturbation_domain=perturbation_domain,
-                    output_map=crown_map,
-                    fuse_layer=fuse_layer,
-                )
-                # time_2 = time.process_time()
-                # print('step2', time_2-time_1)
-                if fuse:
-                    # import pdb; pdb.set_trace()
-                    output += to_list(set_mode_layer(input_tensors + output_crown))
-                else:
-                    output = output_crown
+    for node, _ in get_output_nodes(model):
+        # compute with crown
+        output_crown, fuse_layer = crown_(
+            node=node,
+            ibp=ibp,
+            affine=affine,
+            input_map=input_map,
+            layer_fn=layer_fn,
+            backward_bounds=back_bounds,
+            backward_map=backward_map,
+            joint=joint,
+            fuse=fuse,
+            perturbation_domain=perturbation_domain,
+            output_map=crown_map,
+            fuse_layer=fuse_layer,
+        )
+        # time_2 = time.process_time()
+        # print('step2', time_2-time_1)
+        if fuse:
+            # import pdb; pdb.set_trace()
+            output += to_list(set_mode_layer(input_tensors + output_crown))
+        else:
+            output = output_crown
 
     return input_tensors, output, backward_map, None
 
@@ -452,11 +447,5 @@ def convert_backward(
     input_tensors, output, backward_map, toto = result
     mode_from = get_mode(ibp, affine)
     mode_to = get_mode(final_ibp, final_affine)
-    output = Convert2Mode(
-        mode_from=mode_from,
-        mode_to=mode_to,
-        perturbation_domain=perturbation_domain,
-        input_dim=input_dim,
-    )(output)
-    output = set_domain_input_from_ibp(output, input_tensors, mode_from, mode_to, perturbation_domain)
+    output = convert_outputs_to_mode(output, input_tensors, mode_from, mode_to, perturbation_domain, input_dim)
     return input_tensors, output, backward_map, toto
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 1740b93..55ef2a6 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -17,10 +17,10 @@ from decomon.models.forward_cloning import (
 )
 from decomon.models.models import DecomonModel
 from decomon.models.utils import (
-    Convert2Mode,
     ConvertMethod,
     FeedDirection,
     check_model2convert_inputs,
+    convert_outputs_to_mode,
     ensure_functional_model,
     get_direction,
     get_ibp_affine_from_method,
@@ -28,7 +28,6 @@ from decomon.models.utils import (
     get_input_tensors,
     is_input_node,
     preprocess_layer,
-    set_domain_input_from_ibp,
     split_activation,
 )
 
@@ -160,10 +159,7 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
-        output = Convert2Mode(
-            mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
-        )(output)
-        output = set_domain_input_from_ibp(output, input_tensors, mode_from, mode_to, perturbation_domain)
+        output = convert_outputs_to_mode(output, input_tensors, mode_from, mode_to, perturbation_domain, input_dim)
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 2c12946..95c937e 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -11,7 +11,6 @@ from typing import Any, Optional, Union
 import keras
 from keras.layers import InputLayer, Layer
 from keras.models import Model
-from keras.src.utils.python_utils import to_list
 
 from decomon.core import BoxDomain, PerturbationDomain, Slope
 from decomon.layers.convert import to_decomon
@@ -22,6 +21,7 @@ from decomon.models.utils import (
     get_depth_dict,
     get_inner_layers,
     get_input_dim,
+    get_output_nodes,
     prepare_inputs_for_layer,
     wrap_outputs_from_layer_in_list,
 )
@@ -217,12 +217,9 @@ def convert_forward_functional_model(
             output_map[id(node)] = wrap_outputs_from_layer_in_list(output)
 
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                output += output_map[id(node)]
+    for node, tensor_index in get_output_nodes(model):
+        node_output = output_map[id(node)]
+        n_tensors = len(node_output) // len(node.output_tensors)
+        output += node_output[tensor_index * n_tensors : (tensor_index + 1) * n_tensors]
 
     return input_tensors, output, layer_map, output_map, layer2layer_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index d6d8202..22c7f2c 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -17,6 +17,7 @@ from keras.layers import (
 )
 from keras.src import Functional
 from keras.src.ops.node import Node
+from keras.src.utils.python_utils import to_list
 
 from decomon.core import (
     BallDomain,
@@ -380,6 +381,38 @@ def set_domain_input_from_ibp(
     return output
 
 
+def convert_outputs_to_mode(
+    output: list[keras.KerasTensor],
+    input_tensors: list[keras.KerasTensor],
+    mode_from: ForwardMode,
+    mode_to: ForwardMode,
+    perturbation_domain: PerturbationDomain,
+    input_dim: int = -1,
+) -> list[keras.KerasTensor]:
+    """Convert the bounds on each output of a model into another mode."""
+    n_tensors = InputsOutputsSpec(
+        dc_decomp=False, mode=mode_from, perturbation_domain=perturbation_domain
+    ).nb_tensors
+    convert_layer = Convert2Mode(
+        mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
+    )
+    converted_output: list[keras.KerasTensor] = []
+    for k in range(0, len(output), n_tensors):
+        converted_output += set_domain_input_from_ibp(
+            to_list(convert_layer(output[k : k + n_tensors])), input_tensors, mode_from, mode_to, perturbation_domain
+        )
+    return converted_output
+
+
+def get_output_nodes(model: Functional) -> list[tuple[Node, int]]:
+    """Get the node producing each output of the model, and the index of the output among those of the node."""
+    output_nodes = []
+    for tensor in model.outputs:
+        layer, node_index, tensor_index = tensor._keras_history
+        output_nodes.append((layer._inbound_nodes[node_index], tensor_index))
+    return output_nodes
+
+
 def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
         return model
-- 
2.43.0


From 9d88e6c48a03e0e6ba15bd1635d5637d06f0d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 29/51] fix: clone renamed the layers of the model of the user

---
 src/decomon/models/convert.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 55ef2a6..92180c7 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -50,6 +50,9 @@ def _clone_keras_model(model: Model, layer_fn: Callable[[Layer], list[Layer]]) -
                 output_map[id(node)] = node.output_tensors
                 layer_map[id(node)] = node.operation
 
+    # layers kept as is are renamed to ensure unicity in the new model, the original names will be restored afterwards
+    original_names = [(layer, layer.name) for layer in model._flatten_layers(include_self=False)]
+
     _, output, _, _, _ = convert_forward_functional_model(
         model=model,
         input_tensors=model.inputs,
@@ -59,11 +62,16 @@ def _clone_keras_model(model: Model, layer_fn: Callable[[Layer], list[Layer]]) -
         layer_map=layer_map,
     )
 
-    return Model(
+    cloned_model = Model(
         inputs=model.inputs,
         outputs=output,
     )
 
+    for layer, name in original_names:
+        layer.name = name
+
+    return cloned_model
+
 
 def split_activations_in_keras_model(
     model: Model,
-- 
2.43.0


From 6ecea44a5b75f924ad811a1152a1fcc34116f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 30/51] fix: set_domain left the bounds on the model input (and
 the converted bounds) on the former domain

---
 src/decomon/models/models.py |  5 +++-
 src/decomon/models/utils.py  | 45 ++++++++++++++++++++++--------------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..c141eb5 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -66,9 +66,12 @@ class DecomonModel(keras.Model):
     def set_domain(self, perturbation_domain: PerturbationDomain) -> None:
         perturbation_domain = _check_domain(self.perturbation_domain, perturbation_domain)
         self.perturbation_domain = perturbation_domain
-        for layer in self.layers:
+        for layer in self._flatten_layers(include_self=False):
             if hasattr(layer, "perturbation_domain"):
                 layer.perturbation_domain = self.perturbation_domain
+            for attribute in ("inputs_outputs_spec", "inputs_outputs_spec_from", "inputs_outputs_spec_to"):
+                if hasattr(layer, attribute):
+                    getattr(layer, attribute).perturbation_domain = self.perturbation_domain
 
     def freeze_weights(self) -> None:
         for layer in self.layers:
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 22c7f2c..3b49a33 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -86,6 +86,30 @@ def check_model2convert_inputs(model: Model) -> None:
         raise ValueError("The model must have a flattened input to be converted.")
 
 
+class BallBounds(Layer):
+    """Constant bounds on the points of a ball, from its center."""
+
+    def __init__(self, perturbation_domain: BallDomain, **kwargs: Any):
+        super().__init__(**kwargs)
+        self.perturbation_domain = perturbation_domain
+
+    def call(self, inputs: BackendTensor, **kwargs: Any) -> list[BackendTensor]:
+        if self.perturbation_domain.p == np.inf:
+            radius = K.cast(self.perturbation_domain.eps, dtype=inputs.dtype)
+            return [inputs + radius, inputs - radius]
+        w = BatchedIdentityLike()(inputs)
+        b = K.zeros_like(inputs)
+        return [self.perturbation_domain.get_upper(inputs, w, b), self.perturbation_domain.get_lower(inputs, w, b)]
+
+    def compute_output_shape(self, input_shape: tuple[Optional[int], ...]) -> list[tuple[Optional[int], ...]]:
+        return [input_shape, input_shape]
+
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"perturbation_domain": self.perturbation_domain})
+        return config
+
+
 def get_input_tensors(
     model: Model,
     perturbation_domain: PerturbationDomain,
@@ -119,25 +143,12 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
-            u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-            )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
-
-        else:
+        if affine:
             W = BatchedIdentityLike()(z_tensor)
             b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
+        if ibp:
+            # the radius and the norm can be changed afterwards (see `DecomonModel.set_domain()`)
+            u_c_tensor, l_c_tensor = BallBounds(perturbation_domain, dtype=model.layers[0].dtype)(z_tensor)
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
-- 
2.43.0


From 58cc181b59a8d6419ee2447a582cf48bdf998560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 31/51] fix: get_range_box with sub-boxes mixed the outputs of
 the model

---
 src/decomon/wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..18ccee0 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -528,6 +528,7 @@ def get_range_box(
 
         u_out = np.concatenate([r[0] for r in results])
         l_out = np.concatenate([r[1] for r in results])
+        shape = list(u_out.shape[1:])
 
     else:
         ibp = decomon_model.ibp
@@ -589,8 +590,8 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        u_out = np.max(np.reshape(u_out, [-1, n_split] + shape), 1)
+        l_out = np.min(np.reshape(l_out, [-1, n_split] + shape), 1)
     return u_out, l_out
 
 
-- 
2.43.0


From f649ea2f8d6b7aab988077b4b804d166268bdc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 32/51] fix: refine_boxes took x_min for x_max for inputs with
 several axes

---
 src/decomon/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 18ccee0..ac01e4c 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -764,7 +764,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
-- 
2.43.0


From 5985bd5a6fdc335403582d4633e884d1815bf88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 33/51] fix: label indices were taken for a mask on the outputs
 in adversarial scores

---
 src/decomon/wrapper.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index ac01e4c..06609ed 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -37,6 +37,15 @@ def prepare_labels(labels: LabelType, n_batch: int) -> np.typing.NDArray[np.int_
     return labels.astype("int_")
 
 
+def get_labels_mask(labels: np.typing.NDArray[np.int_], n_outputs: int) -> np.typing.NDArray[np.int_]:
+    """Convert labels prepared by `prepare_labels()` into a mask on the outputs of the model (if not already one)."""
+    if labels.shape[-1] == n_outputs:
+        return labels
+    mask = np.zeros((len(labels), n_outputs), dtype=labels.dtype)
+    mask[np.arange(len(labels))[:, None], labels] = 1
+    return mask
+
+
 ##### ADVERSARIAL ROBUSTTNESS #####
 def get_adv_box(
     model: Union[keras.Model, DecomonModel],
@@ -144,15 +153,19 @@ def get_adv_box(
     else:
         ibp = decomon_model.ibp
         affine = decomon_model.affine
-        n_label = source_labels.shape[-1]
-
         # two possitible cases: the model improves the bound based on the knowledge of the labels
         output: list[npt.NDArray[np.float_]]
         if decomon_model.backward_bounds:
+            n_label = decomon_model.input_shape[1][1]
+            source_labels = get_labels_mask(source_labels, n_label)
             C = np.diag([1] * n_label)[None] - source_labels[:, :, None]
             output = decomon_model.predict_on_single_batch_np([z, C])  # type: ignore
         else:
             output = decomon_model.predict_on_single_batch_np(z)  # type: ignore
+            n_label = int(np.prod(output[-1].shape[1:]))
+            source_labels = get_labels_mask(source_labels, n_label)
+            if target_labels is not None:
+                target_labels = get_labels_mask(target_labels, n_label)
 
         def get_ibp_score(
             u_c: npt.NDArray[np.float_],
@@ -363,6 +376,10 @@ def check_adv_box(
 
     else:
         output = decomon_model.predict_on_single_batch_np(z)
+        n_label = int(np.prod(output[-1].shape[1:]))
+        source_labels = get_labels_mask(source_labels, n_label)
+        if target_labels is not None:
+            target_labels = get_labels_mask(target_labels, n_label)
 
         if not affine:
             # translate  into affine information
@@ -1009,6 +1026,10 @@ def get_adv_noise(
         ibp = decomon_model.ibp
         affine = decomon_model.affine
         output = decomon_model.predict_on_single_batch_np(x_reshaped)
+        n_label = int(np.prod(output[-1].shape[1:]))
+        source_labels = get_labels_mask(source_labels, n_label)
+        if target_labels is not None:
+            target_labels = get_labels_mask(target_labels, n_label)
 
         def get_ibp_score(
             u_c: npt.NDArray[np.float_],
-- 
2.43.0


From 571ab881abc94b04ea93b352ec4315de8acf0c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 34/51] fix: check_adv_box ignored the target labels, and its
 documentation stated the converse guarantee

---
 src/decomon/wrapper.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 06609ed..bf96ae6 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -277,11 +277,11 @@ def check_adv_box(
     model: Union[keras.Model, DecomonModel],
     x_min: npt.NDArray[np.float_],
     x_max: npt.NDArray[np.float_],
-    source_labels: npt.NDArray[np.int_],
-    target_labels: Optional[npt.NDArray[np.int_]] = None,
+    source_labels: LabelType,
+    target_labels: Optional[LabelType] = None,
     batch_size: int = -1,
 ) -> npt.NDArray[np.float_]:
-    """if the output is negative, then it is a formal guarantee that there is no adversarial examples
+    """if the output is positive, then it is a formal guarantee that there is an adversarial example
 
     Args:
         model: either a Keras model or a Decomon model
@@ -297,7 +297,7 @@ def check_adv_box(
             calls to minibatches
 
     Returns:
-        numpy array, vector with upper bounds for adversarial attacks
+        numpy array, vector with lower bounds for adversarial attacks
     """
     if np.min(x_max - x_min) < 0:
         raise UserWarning("Inconsistency Error: x_max < x_min")
@@ -324,18 +324,10 @@ def check_adv_box(
     x_max = x_max.reshape((-1, 1, input_dim))
 
     z = np.concatenate([x_min, x_max], 1)
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1)) + source_labels
-
-    if isinstance(source_labels, list):
-        source_labels = np.array(source_labels).reshape((n_batch, -1))
-
-    source_labels = source_labels.reshape((n_batch, -1))
-    source_labels = source_labels.astype(np.int_)
 
+    source_labels = prepare_labels(source_labels, n_batch)
     if target_labels is not None:
-        target_labels = target_labels.reshape((n_batch, -1))
-        target_labels = target_labels.astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -354,16 +346,12 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
         else:
-            target_labels_list = [target_labels] * (len(x_reshaped) // batch_size + r)
+            target_labels_list = [None] * (len(x_reshaped) // batch_size + r)
 
         return np.concatenate(
             [
@@ -432,7 +420,7 @@ def check_adv_box(
         else:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
-- 
2.43.0


From b9805b5b0e3f1a7e0f0b8d0f013a15afdeb92913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 35/51] fix: get_adv_noise: norm of the ball p=2, keras and
 hybrid models, target labels

---
 src/decomon/wrapper.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index bf96ae6..3bee90d 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -953,7 +953,7 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    eps, p = decomon_model.perturbation_domain.eps, decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -966,14 +966,9 @@ def get_adv_noise(
     x_reshaped = x + 0 * x
     x_reshaped = x_reshaped.reshape([-1] + input_shape)
 
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-    source_labels = np.array(source_labels).reshape((n_batch, -1)).astype(np.int_)
-
+    source_labels = prepare_labels(source_labels, n_batch)
     if target_labels is not None:
-        if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-        target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch)
 
     if batch_size > 0:
         # split
@@ -985,16 +980,12 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
         else:
-            target_labels_list = [target_labels] * (len(x_reshaped) // batch_size + r)
+            target_labels_list = [None] * (len(x_reshaped) // batch_size + r)
 
         results = [
             get_adv_noise(
@@ -1077,7 +1068,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1095,9 +1086,9 @@ def get_adv_noise(
 
         if ibp and affine:
             z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
+        elif not ibp and affine:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
-- 
2.43.0


From 6dd3bb64d89a51c8024aad992f9344d772a43ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 36/51] fix: get_range_noise used a negative radius in the
 affine bounds

---
 src/decomon/wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 3bee90d..38957b2 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -689,6 +689,8 @@ def get_range_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    eps, p = decomon_model.perturbation_domain.eps, decomon_model.perturbation_domain.p
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
     input_dim = np.prod(input_shape)
-- 
2.43.0


From 8b4e15aa1e1965330480072035ee9b5cc8236467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 37/51] fix: refine_box: random split failed, labels were not
 repeated for each sub-box

---
 src/decomon/wrapper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 38957b2..7113395 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -843,6 +843,12 @@ def refine_box(
 
     n_x = len(x_min)
 
+    # one set of labels by sub-box
+    if source_labels is not None:
+        source_labels = np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0)
+    if target_labels is not None:
+        target_labels = np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0)
+
     # split
     x_min_split = np.zeros((n_x, n_split, input_dim))
     x_max_split = np.zeros((n_x, n_split, input_dim))
@@ -889,7 +895,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
-- 
2.43.0


From 1f4f371be866d3a8f14f08f6518873ecb7fd3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 38/51] fix: get_adv_box with sub-boxes gave the target labels
 the shape of the source labels

---
 src/decomon/wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 7113395..7fe2fd4 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -118,6 +118,7 @@ def get_adv_box(
         shape = list(source_labels.shape[1:])
         source_labels = np.reshape(np.concatenate([source_labels[:, None]] * n_split, 1), [-1] + shape)
         if target_labels is not None:
+            shape = list(target_labels.shape[1:])
             target_labels = np.reshape(np.concatenate([target_labels[:, None]] * n_split, 1), [-1] + shape)
 
     if batch_size > 0:
-- 
2.43.0


From 53d3ae8c06c9a7c2f3bed9d9182cad70dcae53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 39/51] fix: get_adv_box with bounds given on the outputs:
 several source labels, target labels, forward methods

---
 src/decomon/wrapper.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 7fe2fd4..fc79df2 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -8,7 +8,7 @@ import numpy.typing as npt
 from decomon.core import BallDomain, BoxDomain, GridDomain
 from decomon.models.convert import clone
 from decomon.models.models import DecomonModel
-from decomon.models.utils import ConvertMethod
+from decomon.models.utils import ConvertMethod, FeedDirection, get_direction
 
 IntegerType = Union[int, np.int_]
 """Alias for integers types."""
@@ -156,9 +156,18 @@ def get_adv_box(
         affine = decomon_model.affine
         # two possitible cases: the model improves the bound based on the knowledge of the labels
         output: list[npt.NDArray[np.float_]]
+        backward = decomon_model.backward_bounds and get_direction(decomon_model.method) == FeedDirection.BACKWARD
         if decomon_model.backward_bounds:
             n_label = decomon_model.input_shape[1][1]
             source_labels = get_labels_mask(source_labels, n_label)
+            target_labels = 1 - source_labels if target_labels is None else get_labels_mask(target_labels, n_label)
+            if backward and np.max(np.sum(source_labels, -1)) > 1:
+                # several source labels: the margins over each of them
+                adv_scores = [
+                    np.where(source_labels[:, i] > 0, get_adv_box(decomon_model, x_min, x_max, i, target_labels), -np.inf)
+                    for i in range(n_label)
+                ]
+                return np.max(np.reshape(np.max(adv_scores, 0), (-1, n_split)), -1)
             C = np.diag([1] * n_label)[None] - source_labels[:, :, None]
             output = decomon_model.predict_on_single_batch_np([z, C])  # type: ignore
         else:
@@ -185,7 +194,9 @@ def get_adv_box(
 
             # add penalties on biases
             if backward:
-                return np.max(u_c, -1)
+                # margins over the source label, for each label
+                const = u_c.max() - u_c.min()
+                return np.max(u_c - (1 - t_tensor_reshaped) * (const + 0.1), -1)
             else:
                 upper = u_c[:, :, None] - l_c[:, None]
             const = upper.max() - upper.min()
@@ -228,7 +239,8 @@ def get_adv_box(
                     + b_u
                 )
 
-                return upper.max(-1)
+                const = upper.max() - upper.min()
+                return np.max(upper - (1 - t_tensor_reshaped) * (const + 0.1), -1)
 
             # add penalties on biases
             upper = (
@@ -253,10 +265,10 @@ def get_adv_box(
             raise NotImplementedError("not ibp and not affine not implemented")
 
         if ibp:
-            adv_ibp = get_ibp_score(u_c, l_c, source_labels, target_labels, backward=decomon_model.backward_bounds)
+            adv_ibp = get_ibp_score(u_c, l_c, source_labels, target_labels, backward=backward)
         if affine:
             adv_f = get_affine_score(
-                z, w_u_f, b_u_f, w_l_f, b_l_f, source_labels, target_labels, backward=decomon_model.backward_bounds
+                z, w_u_f, b_u_f, w_l_f, b_l_f, source_labels, target_labels, backward=backward
             )
 
         if ibp and not affine:
-- 
2.43.0


From be5a287459d6797a55b5249b5deaab3eca1d820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 40/51] fix: freezing weights or alphas makes the variables non
 trainable

---
 .../backward_layers/backward_layers.py        | 26 +++++++------------
 src/decomon/layers/decomon_layers.py          | 26 ++++++++++++-------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index f72279b..13d8c10 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -117,7 +117,6 @@ class BackwardDense(BackwardLayer):
 
     def freeze_weights(self) -> None:
         if not self.frozen_weights:
-            self._trainable_weights = []
             if getattr(self.layer, "freeze_weights"):
                 self.layer.freeze_weights()
             self.frozen_weights = True
@@ -216,7 +215,6 @@ class BackwardConv2D(BackwardLayer):
 
     def freeze_weights(self) -> None:
         if not self.frozen_weights:
-            self._trainable_weights = []
             if getattr(self.layer, "freeze_weights"):
                 self.layer.freeze_weights()
             self.frozen_weights = True
@@ -253,8 +251,7 @@ class BackwardActivation(BackwardLayer):
         self.slope = Slope(slope)
         self.finetune = finetune
         self.finetune_param: list[keras.Variable] = []
-        if self.finetune:
-            self.frozen_alpha = False
+        self.frozen_alpha = False
         self.grid_finetune: list[keras.Variable] = []
         self.frozen_grid = False
 
@@ -403,21 +400,18 @@ class BackwardActivation(BackwardLayer):
 
     def freeze_alpha(self) -> None:
         if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if len(self.grid_finetune):
-                    self._trainable_weights = self._trainable_weights[:2]
-                else:
-                    self._trainable_weights = []
-                self.frozen_alpha = True
+            if self.finetune and self.activation_name != "linear":
+                if self.activation_name[:4] != "relu":
+                    self.alpha_b_u.trainable = False
+                self.alpha_b_l.trainable = False
+            self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
         if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.alpha_b_u, self.alpha_b_l]
-                    else:
-                        self._trainable_weights += [self.alpha_b_l]
+            if self.finetune and self.activation_name != "linear":
+                if self.activation_name[:4] != "relu":
+                    self.alpha_b_u.trainable = True
+                self.alpha_b_l.trainable = True
             self.frozen_alpha = False
 
     def freeze_grid(self) -> None:
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index fff0e71..873c6fc 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -274,14 +274,16 @@ class DecomonConv2D(DecomonLayer, Conv2D):
 
     def freeze_weights(self) -> None:
         if not self.frozen_weights:
-            self._trainable_weights = []
+            self.kernel.trainable = False
+            if self.use_bias:
+                self.bias.trainable = False
             self.frozen_weights = True
 
     def unfreeze_weights(self) -> None:
         if self.frozen_weights:
             if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
+                self.bias.trainable = True
+            self.kernel.trainable = True
             self.frozen_weights = False
 
 
@@ -524,14 +526,16 @@ class DecomonDense(DecomonLayer, Dense):
 
     def freeze_weights(self) -> None:
         if not self.frozen_weights:
-            self._trainable_weights = []
+            self.kernel.trainable = False
+            if self.use_bias:
+                self.bias.trainable = False
             self.frozen_weights = True
 
     def unfreeze_weights(self) -> None:
         if self.frozen_weights:
             if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
+                self.bias.trainable = True
+            self.kernel.trainable = True
             self.frozen_weights = False
 
 
@@ -633,7 +637,10 @@ class DecomonActivation(DecomonLayer, Activation):
     def freeze_alpha(self) -> None:
         if not self.frozen_alpha:
             if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                self._trainable_weights = []
+                if self.activation_name != "linear":
+                    if self.activation_name[:4] != "relu":
+                        self.beta_u_f.trainable = False
+                    self.beta_l_f.trainable = False
             self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
@@ -641,9 +648,8 @@ class DecomonActivation(DecomonLayer, Activation):
             if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
                 if self.activation_name != "linear":
                     if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.beta_u_f, self.beta_l_f]
-                    else:
-                        self._trainable_weights += [self.beta_l_f]
+                        self.beta_u_f.trainable = True
+                    self.beta_l_f.trainable = True
             self.frozen_alpha = False
 
 
-- 
2.43.0


From 90c4ccec2e55d2056d53fbdc55b0a01918a18316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 41/51] fix: reset_finetuning of forward and backward
 activations

---
 src/decomon/backward_layers/backward_layers.py | 6 ++++++
 src/decomon/layers/decomon_layers.py           | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 13d8c10..e72f91a 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -398,6 +398,12 @@ class BackwardActivation(BackwardLayer):
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
+    def reset_finetuning(self) -> None:
+        if self.finetune and self.activation_name != "linear":
+            if self.activation_name[:4] != "relu":
+                self.alpha_b_u.assign(np.ones(self.alpha_b_u.shape))
+            self.alpha_b_l.assign(np.ones(self.alpha_b_l.shape))
+
     def freeze_alpha(self) -> None:
         if not self.frozen_alpha:
             if self.finetune and self.activation_name != "linear":
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 873c6fc..b1f29b8 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -629,10 +629,10 @@ class DecomonActivation(DecomonLayer, Activation):
         if self.finetune and self.mode != ForwardMode.IBP:
             if self.activation_name != "linear":
                 if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_l_f.assign(np.ones(self.beta_l_f.shape))
                 else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_u_f.assign(np.ones(self.beta_u_f.shape))
+                    self.beta_l_f.assign(np.ones(self.beta_l_f.shape))
 
     def freeze_alpha(self) -> None:
         if not self.frozen_alpha:
-- 
2.43.0


From d5d4d8d9aa70f5a2abda98bbd59d9b2c675d73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 42/51] fix: freeze_weights of batch normalization

---
 src/decomon/backward_layers/backward_layers.py | 17 +++++++++++++++++
 src/decomon/layers/decomon_layers.py           | 16 ++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index e72f91a..df5a459 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -583,6 +583,7 @@ class BackwardBatchNormalization(BackwardLayer):
 
         self.axis = self.layer.axis
         self.op_flat = Flatten()
+        self.frozen_weights = False
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         y = self.get_unflattened_input(inputs)
@@ -616,6 +617,22 @@ class BackwardBatchNormalization(BackwardLayer):
 
         return [w_b, b_b, w_b, b_b]
 
+    def _set_trainable(self, trainable: bool) -> None:
+        if self.layer.scale:
+            self.layer.gamma.trainable = trainable
+        if self.layer.center:
+            self.layer.beta.trainable = trainable
+
+    def freeze_weights(self) -> None:
+        if not self.frozen_weights:
+            self._set_trainable(False)
+            self.frozen_weights = True
+
+    def unfreeze_weights(self) -> None:
+        if self.frozen_weights:
+            self._set_trainable(True)
+            self.frozen_weights = False
+
 
 class BackwardInputLayer(BackwardLayer):
     def __init__(
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index b1f29b8..ce2db5c 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -902,6 +902,22 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
             weight_names.append("gamma")
         return weight_names
 
+    def _set_trainable(self, trainable: bool) -> None:
+        if self.scale:
+            self.gamma.trainable = trainable
+        if self.center:
+            self.beta.trainable = trainable
+
+    def freeze_weights(self) -> None:
+        if not self.frozen_weights:
+            self._set_trainable(False)
+            self.frozen_weights = True
+
+    def unfreeze_weights(self) -> None:
+        if self.frozen_weights:
+            self._set_trainable(True)
+            self.frozen_weights = False
+
 
 class DecomonDropout(DecomonLayer, Dropout):
     """Forward LiRPA implementation of Dropout layers.
-- 
2.43.0


From e86a227026155aa6b12617a5f85a83d7a17ce865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 43/51] fix: losses keep the shape of the domain tensor of
 domains with one component (BallDomain)

---
 src/decomon/metrics/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..fa529f6 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
-- 
2.43.0


From 377f592e327599f21b88156e4fc54f372fd0781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 44/51] fix: get_adv_loss applies a softmax in hybrid mode only
 when asked to

---
 src/decomon/metrics/loss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fa529f6..925f9bd 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From bef6177be1ffd64c861ef2bd48d546b627632e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 45/51] fix: cross entropy models bound the losses over the
 perturbation domain of the model

---
 src/decomon/metrics/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 925f9bd..a7f2ddf 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -603,7 +603,9 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(
+        mode=mode, perturbation_domain=perturbation_domain, backward=model.backward_bounds
+    )
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -627,7 +629,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, asymptotic=True)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0


From 7b7af1bdfbff9f21924ac9b67634dd28f937796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 46/51] fix: formal models are built from the current outputs
 of the decomon models

---
 src/decomon/metrics/metric.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 45b600d..61bffd2 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -239,6 +239,16 @@ class AdversarialScore(AdversarialCheck):
         return adv_score
 
 
+def _get_metric_inputs(decomon_model: DecomonModel) -> list[keras.KerasTensor]:
+    """Bounds computed by the model, preceded by the input and the perturbation domain tensor expected by metric layers."""
+    z = decomon_model.inputs[0]
+    bounds = decomon_model.outputs
+    if decomon_model.affine:
+        # the domain tensor is the first output of the model
+        bounds = bounds[1:]
+    return [z, z] + bounds
+
+
 def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     """automatic design on a Keras  model which predicts a certificate of adversarial robustness
 
@@ -251,10 +261,10 @@ def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialCheck(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
+    layer = AdversarialCheck(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    output = _get_metric_inputs(decomon_model)
+    input = decomon_model.inputs
+    n_out = decomon_model.outputs[-1].shape[1:]
     y_out = Input(n_out)
 
     adv_score = layer(output + [y_out])
@@ -274,10 +284,10 @@ def build_formal_adv_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
+    layer = AdversarialScore(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    output = _get_metric_inputs(decomon_model)
+    input = decomon_model.inputs
+    n_out = decomon_model.outputs[-1].shape[1:]
     y_out = Input(n_out)
 
     adv_score = layer(output + [y_out])
@@ -366,10 +376,10 @@ def build_formal_upper_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = UpperScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
+    layer = UpperScore(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    output = _get_metric_inputs(decomon_model)
+    input = decomon_model.inputs
+    n_out = decomon_model.outputs[-1].shape[1:]
     y_out = Input(n_out)
 
     upper_score = layer(output + [y_out])
-- 
2.43.0


From 2cf127580fae541270a2f6bc95d0a5ef02dc0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 47/51] fix: UpperScore unpacks the six tensors of the affine
 mode

---
 src/decomon/metrics/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 61bffd2..8380475 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -348,7 +348,7 @@ class UpperScore(MetricLayer):
             upper_affine = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
             upper_score = K.minimum(upper_ibp, upper_affine)
         elif not self.ibp and self.affine:
-            _, _, w_u_f, b_u_f = inputs[:6]
+            _, _, w_u_f, b_u_f, _, _ = inputs[:6]
             upper_score = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
         elif self.ibp and not self.affine:
             _, _, u_c, l_c = inputs[:4]
-- 
2.43.0


From f48ea97dde9c22d78dce0148700fad0d75128330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 48/51] fix: ibp adversarial scores do not mistake the masked
 labels for sources

---
 src/decomon/metrics/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 8380475..1dce053 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -402,7 +402,7 @@ def _get_ibp_score(
 
     score_u = (
         l_c_reshaped * target_tensor
-        - K.expand_dims(K.min(u_c_reshaped * source_tensor, -1), -1)
+        - K.expand_dims(K.min(u_c_reshaped * source_tensor + 1e6 * (1 - source_tensor), -1), -1)
         - 1e6 * (1 - target_tensor)
     )
 
-- 
2.43.0


From 5b873fda064a6e5dbe146053d88e68a1a0663be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 49/51] fix: get_upper_box_tuning and get_lower_box_tuning
 raised with Keras 3 (Adam has no argument lr)

---
 src/decomon/wrapper_with_tuning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index c7af68a..81ee4ea 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -84,7 +84,7 @@ def get_upper_box_tuning(
 
         # create loss
         loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
@@ -171,7 +171,7 @@ def get_lower_box_tuning(
 
         # create loss
         loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
-- 
2.43.0


From 70b19655c33e7c67795415a75e3e503a63e625e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 50/51] fix: get_lower_box_tuning returned the looser of the
 two lower bounds

---
 src/decomon/wrapper_with_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index 81ee4ea..286ab8e 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -180,4 +180,4 @@ def get_lower_box_tuning(
         # reset alpha
         model.reset_finetuning()
 
-        return np.minimum(baseline_upper, upper)
+        return np.maximum(baseline_upper, upper)
-- 
2.43.0


From 8bf02c519e685f25f954a3f1a034350210049fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 51/51] fix: tuned bounds with several sub-boxes were bounds of
 sub-boxes, or raised

---
 src/decomon/wrapper_with_tuning.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index 286ab8e..c792d12 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -47,10 +47,19 @@ def get_upper_box_tuning(
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
         # reshape
+        n_split = x_min.shape[1]
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
 
+        # tune on each sub-box, and keep the worst of them for each box
+        upper = get_upper_box_tuning(
+            model, decomon_model_concat, x_min, x_max, batch_size=batch_size, lr=lr, epochs=epochs
+        )
+        upper = np.max(np.reshape(upper, [-1, n_split] + list(upper.shape[1:])), 1)
+
+        return np.minimum(baseline_upper, upper)
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
     input_dim = np.prod(input_shape)
@@ -133,10 +142,19 @@ def get_lower_box_tuning(
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
         # reshape
+        n_split = x_min.shape[1]
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
 
+        # tune on each sub-box, and keep the worst of them for each box
+        lower = get_lower_box_tuning(
+            model, decomon_model_concat, x_min, x_max, batch_size=batch_size, lr=lr, epochs=epochs
+        )
+        lower = np.min(np.reshape(lower, [-1, n_split] + list(lower.shape[1:])), 1)
+
+        return np.maximum(baseline_upper, lower)
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
     input_dim = np.prod(input_shape)
-- 
2.43.0

