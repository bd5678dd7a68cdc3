From 6534ba95a3586ebc98224d0678f2bb83c5ecc27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:29 +0000
Subject: [PATCH 1/9] fix: keep the dependency root mode on the distribution
 instead of the DepTree class

---
 torch_struct/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index a309c28..ffbd759 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -393,7 +393,12 @@ class DependencyCRF(StructDistribution):
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=True, validate_args=False):
         super(DependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.struct = DepTree
-        setattr(self.struct, "multiroot", multiroot)
+        self.multiroot = multiroot
+
+    def _struct(self, sr=None):
+        struct = super(DependencyCRF, self)._struct(sr)
+        struct.multiroot = self.multiroot
+        return struct
 
 
 class TreeCRF(StructDistribution):
-- 
2.43.0


From 5a1efafcabd099588f38e4199defde596d3d9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:29 +0000
Subject: [PATCH 2/9] fix: SemiMarkov.to_parts leaves out segments beyond the
 given lengths

---
 torch_struct/semimarkov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 257112e..dd40c89 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -141,7 +141,7 @@ class SemiMarkov(_Struct):
         for b in range(batch):
             last = None
             c = None
-            for n in range(0, N):
+            for n in range(0, lengths[b]):
                 if sequence[b, n] == -1:
                     assert n != 0
                     continue
-- 
2.43.0


From 87c0b31270d86e44736bb30d3863207485920c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:29 +0000
Subject: [PATCH 3/9] fix: sparsemax projection along an axis other than the
 last

---
 torch_struct/semirings/sparse_max.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index ef688eb..dcbdcf9 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -54,6 +54,7 @@ def project_simplex(v, dim, z=1):
     v_sorted, _ = torch.sort(v, dim=dim, descending=True)
     cssv = torch.cumsum(v_sorted, dim=dim) - z
     ind = torch.arange(1, 1 + v.shape[dim]).to(dtype=v.dtype).to(v.device)
+    ind = ind.view([-1] + [1] * (v.dim() - 1)).transpose(0, dim)
     cond = v_sorted - cssv / ind >= 0
     k = cond.sum(dim=dim, keepdim=True)
     tau = cssv.gather(dim, k - 1) / k.to(dtype=v.dtype)
-- 
2.43.0


From 3d732da619dcb283edc692e5d5976b05a5cf7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:29 +0000
Subject: [PATCH 4/9] fix: checkpointed matmul gradient when only one operand
 requires grad

---
 torch_struct/semirings/checkpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f65eec1..f640f96 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -30,7 +30,7 @@ def CheckpointSemiring(cls, min_size=0):
 
         @staticmethod
         def backward(ctx, grad_output):
-            a, b = ctx.saved_tensors
+            a, b = (x.detach().requires_grad_(True) for x in ctx.saved_tensors)
             with torch.enable_grad():
                 q = cls.matmul(a, b)
                 return torch.autograd.grad(q, (a, b), grad_output)
@@ -159,8 +159,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
         with torch.enable_grad():
             a_in = a.clone().requires_grad_(True)
             b_in = b.clone().requires_grad_(True)
-            q = fn(a, b)
-        ag, bg = torch.autograd.grad(q, (a, b), grad_output)
+            q = fn(a_in, b_in)
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output)
         return ag, bg
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
-- 
2.43.0


From ac635dba5f9fae6ff16bf7471d44395361c09fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:29 +0000
Subject: [PATCH 5/9] fix: sharded matmul gradient when no operand axis has
 size one

---
 torch_struct/semirings/checkpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f640f96..255a4b4 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -185,7 +185,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
     a_ones = ones(a)
     b_ones = ones(b)
-    f1, f2 = a_grad.sum(a_ones, keepdim=True), b_grad.sum(b_ones, keepdim=True)
+    f1 = a_grad.sum(a_ones, keepdim=True) if a_ones else a_grad
+    f2 = b_grad.sum(b_ones, keepdim=True) if b_ones else b_grad
     return f1, f2
 
 
-- 
2.43.0


From 420f7509c799ad013b7008425925e7141685ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:27 +0000
Subject: [PATCH 6/9] fix: shards of a checkpointed matmul never cut the
 semiring axis

---
 torch_struct/semirings/checkpoint.py | 35 +++++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 255a4b4..ffff3b6 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -138,11 +138,15 @@ def accumulate_(a, b, size, fn, preserve, step=10000):
     a = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
 
-    a2 = a.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b.contiguous().view(-1, b.shape[-2], b.shape[-1])
-    ret = ret.view(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, ret.shape[0], step):
-        ret[p : p + step, :] = fn(a2[p : p + step], b2[p : p + step])
+    # Shards never cut the semiring axis
+    lead = size[:-2][:1]
+    a2 = a.contiguous().view(*lead, -1, a.shape[-2], a.shape[-1])
+    b2 = b.contiguous().view(*lead, -1, b.shape[-2], b.shape[-1])
+    ret = ret.view(*lead, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, ret.shape[-3], step):
+        ret[..., p : p + step, :, :] = fn(
+            a2[..., p : p + step, :, :], b2[..., p : p + step, :, :]
+        )
     ret = ret.view(*size)
     return ret
 
@@ -165,21 +169,24 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b2 = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
-    a2 = a2.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b2.contiguous().view(-1, b.shape[-2], b.shape[-1])
+    lead = size[:-2][:1]
+    a2 = a2.contiguous().view(*lead, -1, a.shape[-2], a.shape[-1])
+    b2 = b2.contiguous().view(*lead, -1, b.shape[-2], b.shape[-1])
 
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.view(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, grad_output.shape[0], step):
+    grad_output = grad_output.reshape(*lead, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, grad_output.shape[-3], step):
         with torch.enable_grad():
-            a_in = a2[p : p + step].clone().requires_grad_(True)
-            b_in = b2[p : p + step].clone().requires_grad_(True)
+            a_in = a2[..., p : p + step, :, :].clone().requires_grad_(True)
+            b_in = b2[..., p : p + step, :, :].clone().requires_grad_(True)
             q = fn(a_in, b_in)
-        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[p : p + step])
-        a_grad[p : p + step] += ag
-        b_grad[p : p + step] += bg
+        ag, bg = torch.autograd.grad(
+            q, (a_in, b_in), grad_output[..., p : p + step, :, :]
+        )
+        a_grad[..., p : p + step, :, :] += ag
+        b_grad[..., p : p + step, :, :] += bg
 
     a_grad = a_grad.view(*size[:-2], a.shape[-2], a.shape[-1])
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
-- 
2.43.0


From c8402f0d77ed882b2ca5ff59ed25666baabd58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:43 +0000
Subject: [PATCH 7/9] fix: differentiate the sparsemax projection with respect
 to its input

---
 torch_struct/semirings/sparse_max.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index dcbdcf9..bdb86c5 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -29,25 +29,24 @@ class _SimplexProject(torch.autograd.Function):
     @staticmethod
     def backward(ctx, grad_output):
         input, w_star, dim = ctx.saved_tensors
-        w_star.requires_grad_(True)
 
         grad_input = None
         if ctx.needs_input_grad[0]:
-            wstar = _SparseMaxGrad.apply(w_star, dim)
+            wstar = _SparseMaxGrad.apply(input, w_star, dim)
             grad_input = grad_output.unsqueeze(dim).mul(wstar)
         return grad_input, None, None
 
 
 class _SparseMaxGrad(torch.autograd.Function):
     @staticmethod
-    def forward(ctx, w_star, dim):
+    def forward(ctx, input, w_star, dim):
         ctx.save_for_backward(w_star, dim)
         return w_star
 
     @staticmethod
     def backward(ctx, grad_output):
         w_star, dim = ctx.saved_tensors
-        return sparsemax_grad(grad_output, w_star, dim.item()), None
+        return sparsemax_grad(grad_output, w_star, dim.item()), None, None
 
 
 def project_simplex(v, dim, z=1):
-- 
2.43.0


From e82a133ed1b6cee3530b16960c04dd35f1eb9da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:58 +0000
Subject: [PATCH 8/9] fix: let sample run when gradients are switched off

---
 torch_struct/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index ffbd759..adfdd4b 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -209,6 +209,7 @@ class StructDistribution(Distribution):
         "Compute the log-partition function."
         return self._struct(LogSemiring).sum(self.log_potentials, self.lengths)
 
+    @torch.enable_grad()
     def sample(self, sample_shape=torch.Size()):
         r"""
         Compute structured samples from the distribution :math:`z \sim p(z)`.
-- 
2.43.0


From 870a5622543530421fdce4fe77cb8d4a303d389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:58 +0000
Subject: [PATCH 9/9] fix: let greedy and beam search run when gradients are
 switched off

---
 torch_struct/autoregressive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index e3eb49f..cf300bf 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -117,6 +117,7 @@ class Autoregressive(Distribution):
         scores = log_probs[:, :-1].gather(2, value[:, 1:].unsqueeze(-1)).sum(-1).sum(-1)
         return wrap(scores, sample)
 
+    @torch.enable_grad()
     def _beam_search(self, semiring, gumbel=False):
         beam = semiring.fill(
             torch.zeros((semiring.size(),) + self.batch_shape, device=self.device),
-- 
2.43.0

