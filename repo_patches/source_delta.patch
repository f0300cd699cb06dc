From 99c0d372b3774253fc90242b09d5517170029414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:36 +0000
Subject: [PATCH 01/10] fix: keep DependencyCRF's multiroot option per
 distribution

The option was stored on the shared DepTree class, so constructing one
DependencyCRF changed the answers of every other one, including ones already
constructed.
---
 torch_struct/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index a309c28..ffbd759 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -393,7 +393,12 @@ class DependencyCRF(StructDistribution):
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=True, validate_args=False):
         super(DependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.struct = DepTree
-        setattr(self.struct, "multiroot", multiroot)
+        self.multiroot = multiroot
+
+    def _struct(self, sr=None):
+        struct = super(DependencyCRF, self)._struct(sr)
+        struct.multiroot = self.multiroot
+        return struct
 
 
 class TreeCRF(StructDistribution):
-- 
2.43.0


From 10f9dd9111377f32d158a9dc0bdc27138efb5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:36 +0000
Subject: [PATCH 02/10] fix: let sample() run inside torch.no_grad()

Sampling is implemented by backpropagation, so it raised a RuntimeError when
the caller had gradients disabled. kmax, topk and gumbel_crf already re-enable
them.
---
 torch_struct/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index ffbd759..d82d213 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -224,9 +224,10 @@ class StructDistribution(Distribution):
         samples = []
         for k in range(nsamples):
             if k % 10 == 0:
-                sample = self._struct(MultiSampledSemiring).marginals(
-                    self.log_potentials, lengths=self.lengths
-                )
+                with torch.enable_grad():
+                    sample = self._struct(MultiSampledSemiring).marginals(
+                        self.log_potentials, lengths=self.lengths
+                    )
                 sample = sample.detach()
             tmp_sample = MultiSampledSemiring.to_discrete(sample, (k % 10) + 1)
             samples.append(tmp_sample)
-- 
2.43.0


From cec5b8345435f71821a4e6ec1e74df637ab55a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:36 +0000
Subject: [PATCH 03/10] fix: draw separate Gumbel noise for every decision

One noise vector was shared by all batch elements and all positions of a
reduction. Batch elements were therefore sampled in lockstep, and gumbel_crf
structures did not follow the CRF distribution (for example span trees and
labelled dependency trees).
---
 torch_struct/semirings/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/sample.py b/torch_struct/semirings/sample.py
index 09ec189..2e258d5 100644
--- a/torch_struct/semirings/sample.py
+++ b/torch_struct/semirings/sample.py
@@ -69,7 +69,7 @@ def GumbelMaxSemiring(temp):
                 def sample(ls):
                     pre_shape = ls.shape
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = torch.nn.functional.one_hot(update.max(-1)[1], pre_shape[-1])
                     return out
@@ -127,7 +127,7 @@ def GumbelCRFSemiring(temp):
 
                 def sample(ls):
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = ST.apply(update, ls.shape[-1])
                     return out
-- 
2.43.0


From df1be56c0eb18b05162d9b9d3008df3b9d51d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:31 +0000
Subject: [PATCH 04/10] fix: recompute checkpointed products from copies of
 their operands

The backward pass of CheckpointSemiring and CheckpointShardSemiring
differentiated with respect to the saved operands themselves. That failed when
only one operand required a gradient. It also dropped the graph of the result,
so derivatives of marginals came out as zeros.
---
 torch_struct/semirings/checkpoint.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f65eec1..86b7125 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -31,9 +31,14 @@ def CheckpointSemiring(cls, min_size=0):
         @staticmethod
         def backward(ctx, grad_output):
             a, b = ctx.saved_tensors
+            create_graph = torch.is_grad_enabled()
             with torch.enable_grad():
-                q = cls.matmul(a, b)
-                return torch.autograd.grad(q, (a, b), grad_output)
+                a_in = a.clone().requires_grad_(True)
+                b_in = b.clone().requires_grad_(True)
+                q = cls.matmul(a_in, b_in)
+                return torch.autograd.grad(
+                    q, (a_in, b_in), grad_output, create_graph=create_graph
+                )
 
     class _CheckBand(torch.autograd.Function):
         @staticmethod
@@ -148,6 +153,7 @@ def accumulate_(a, b, size, fn, preserve, step=10000):
 
 
 def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
+    create_graph = torch.is_grad_enabled()
     slices = []
     total = 1
     size = grad_output.shape[:preserve]
@@ -159,8 +165,10 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
         with torch.enable_grad():
             a_in = a.clone().requires_grad_(True)
             b_in = b.clone().requires_grad_(True)
-            q = fn(a, b)
-        ag, bg = torch.autograd.grad(q, (a, b), grad_output)
+            q = fn(a_in, b_in)
+        ag, bg = torch.autograd.grad(
+            q, (a_in, b_in), grad_output, create_graph=create_graph
+        )
         return ag, bg
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
@@ -177,7 +185,9 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
             a_in = a2[p : p + step].clone().requires_grad_(True)
             b_in = b2[p : p + step].clone().requires_grad_(True)
             q = fn(a_in, b_in)
-        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[p : p + step])
+        ag, bg = torch.autograd.grad(
+            q, (a_in, b_in), grad_output[p : p + step], create_graph=create_graph
+        )
         a_grad[p : p + step] += ag
         b_grad[p : p + step] += bg
 
-- 
2.43.0


From c5345781d811fdcbbde0d3409f4d1134c7a59560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:31 +0000
Subject: [PATCH 05/10] fix: keep operand shapes in the gradients of sharded
 products

The gradient of CheckpointShardSemiring was summed over every dimension when
an operand had no dimension of size one, and it required a contiguous incoming
gradient.
---
 torch_struct/semirings/checkpoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 86b7125..419f863 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -179,7 +179,7 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.view(-1, a.shape[-2], b.shape[-1])
+    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
     for p in range(0, grad_output.shape[0], step):
         with torch.enable_grad():
             a_in = a2[p : p + step].clone().requires_grad_(True)
@@ -195,7 +195,9 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
     a_ones = ones(a)
     b_ones = ones(b)
-    f1, f2 = a_grad.sum(a_ones, keepdim=True), b_grad.sum(b_ones, keepdim=True)
+    # Summing over an empty list of dimensions would reduce all of them.
+    f1 = a_grad.sum(a_ones, keepdim=True) if a_ones else a_grad
+    f2 = b_grad.sum(b_ones, keepdim=True) if b_ones else b_grad
     return f1, f2
 
 
-- 
2.43.0


From b77d3113a55820dc35e8b5edcb0bee4f3c5d8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:13 +0000
Subject: [PATCH 06/10] fix: shard products around the semiring dimension

CheckpointShardSemiring flattened the leading semiring dimension together with
the batch dimensions. Semirings that hold several values per score, such as
the entropy and k-max semirings, then gave wrong results.
---
 torch_struct/semirings/checkpoint.py | 35 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 419f863..ec503ae 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -87,6 +87,7 @@ def CheckpointShardSemiring(cls, max_size, min_size=0):
                 lambda a, b: cls.matmul(a, b),
                 preserve=len(size),
                 step=max_size // (b.shape[-2] * a.shape[-1]) + 2,
+                ssize=cls.size(),
             )
 
         @staticmethod
@@ -99,6 +100,7 @@ def CheckpointShardSemiring(cls, max_size, min_size=0):
                 len(grad_output.shape),
                 lambda a, b: cls.matmul(a, b),
                 step=max_size // (b.shape[-2] * a.shape[-1]) + 2,
+                ssize=cls.size(),
             )
             return grad_a, grad_b
 
@@ -129,7 +131,7 @@ def mind(one, inds):
     return inds
 
 
-def accumulate_(a, b, size, fn, preserve, step=10000):
+def accumulate_(a, b, size, fn, preserve, step=10000, ssize=1):
     slices = []
     total = 1
     for s in size[:preserve]:
@@ -143,16 +145,17 @@ def accumulate_(a, b, size, fn, preserve, step=10000):
     a = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
 
-    a2 = a.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b.contiguous().view(-1, b.shape[-2], b.shape[-1])
-    ret = ret.view(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, ret.shape[0], step):
-        ret[p : p + step, :] = fn(a2[p : p + step], b2[p : p + step])
+    # The semiring dimension stays whole, the others are sharded.
+    a2 = a.contiguous().view(ssize, -1, a.shape[-2], a.shape[-1])
+    b2 = b.contiguous().view(ssize, -1, b.shape[-2], b.shape[-1])
+    ret = ret.view(ssize, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, ret.shape[1], step):
+        ret[:, p : p + step] = fn(a2[:, p : p + step], b2[:, p : p + step])
     ret = ret.view(*size)
     return ret
 
 
-def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
+def unaccumulate_(a, b, grad_output, preserve, fn, step=10000, ssize=1):
     create_graph = torch.is_grad_enabled()
     slices = []
     total = 1
@@ -173,23 +176,23 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b2 = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
-    a2 = a2.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b2.contiguous().view(-1, b.shape[-2], b.shape[-1])
+    a2 = a2.contiguous().view(ssize, -1, a.shape[-2], a.shape[-1])
+    b2 = b2.contiguous().view(ssize, -1, b.shape[-2], b.shape[-1])
 
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, grad_output.shape[0], step):
+    grad_output = grad_output.reshape(ssize, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, grad_output.shape[1], step):
         with torch.enable_grad():
-            a_in = a2[p : p + step].clone().requires_grad_(True)
-            b_in = b2[p : p + step].clone().requires_grad_(True)
+            a_in = a2[:, p : p + step].clone().requires_grad_(True)
+            b_in = b2[:, p : p + step].clone().requires_grad_(True)
             q = fn(a_in, b_in)
         ag, bg = torch.autograd.grad(
-            q, (a_in, b_in), grad_output[p : p + step], create_graph=create_graph
+            q, (a_in, b_in), grad_output[:, p : p + step], create_graph=create_graph
         )
-        a_grad[p : p + step] += ag
-        b_grad[p : p + step] += bg
+        a_grad[:, p : p + step] += ag
+        b_grad[:, p : p + step] += bg
 
     a_grad = a_grad.view(*size[:-2], a.shape[-2], a.shape[-1])
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
-- 
2.43.0


From 097728d6ddc3613ea477cbe80bb686c407de438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:03 +0000
Subject: [PATCH 07/10] fix: do not leak the charts of count

The products in a counting chart save views of the chart they are written to.
The recorded graph therefore contained a reference cycle, and every count of a
dependency or tree distribution leaked its charts. Counting needs no graph.
---
 torch_struct/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index d82d213..d1dee43 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -187,7 +187,9 @@ class StructDistribution(Distribution):
         "Compute the log-partition function."
         ones = torch.ones_like(self.log_potentials)
         ones[self.log_potentials.eq(-float("inf"))] = 0
-        return self._struct(StdSemiring).sum(ones, self.lengths)
+        # A recorded graph would hold on to its own charts and never be freed.
+        with torch.no_grad():
+            return self._struct(StdSemiring).sum(ones, self.lengths)
 
     def gumbel_crf(self, temperature=1.0):
         with torch.enable_grad():
-- 
2.43.0


From 25c50b2e8622051bcb56a52ecb8d7bd8af5ce950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:37 +0000
Subject: [PATCH 08/10] fix: let beam search run inside torch.no_grad()

The back pointers are found by backpropagation, so greedy_max, beam_topk and
sample_without_replacement raised a RuntimeError when the caller had gradients
disabled.
---
 torch_struct/autoregressive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index e3eb49f..cf300bf 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -117,6 +117,7 @@ class Autoregressive(Distribution):
         scores = log_probs[:, :-1].gather(2, value[:, 1:].unsqueeze(-1)).sum(-1).sum(-1)
         return wrap(scores, sample)
 
+    @torch.enable_grad()
     def _beam_search(self, semiring, gumbel=False):
         beam = semiring.fill(
             torch.zeros((semiring.size(),) + self.batch_shape, device=self.device),
-- 
2.43.0


From 845b92dd5f2feb04789c385e0dd0ab206ae3a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:23:57 +0000
Subject: [PATCH 09/10] fix: accept potentials that are not contiguous in
 memory

log_prob and the context-free grammar flattened their inputs with view(),
which refuses transposed or sliced tensors.
---
 torch_struct/cky.py     | 14 +++++++-------
 torch_struct/helpers.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 60b4cc1..48bc570 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -34,7 +34,7 @@ class CKY(_Struct):
         # Split into NT/T groups
         NTs = slice(0, NT)
         Ts = slice(NT, S)
-        rules = rules.view(ssize, batch, 1, NT, S, S)
+        rules = rules.reshape(ssize, batch, 1, NT, S, S)
 
         def arr(a, b):
             return rules[..., a, b].contiguous().view(*v + (NT, -1)).transpose(-2, -1)
@@ -59,14 +59,14 @@ class CKY(_Struct):
             Z_term = term_use[..., w:, None, :]
 
             Y = Y[..., -1, :].unsqueeze(-1)
-            X2 = matmul(times(Y, Z_term).view(*v2), X_Y_Z1)
+            X2 = matmul(times(Y, Z_term).reshape(*v2), X_Y_Z1)
 
             Z = Z[..., 0, :].unsqueeze(-2)
-            X3 = matmul(times(Y_term, Z).view(*v2), X_Y1_Z)
+            X3 = matmul(times(Y_term, Z).reshape(*v2), X_Y1_Z)
             all_span += [X2, X3]
 
             if w == 1:
-                X4 = matmul(times(Y_term, Z_term).view(*v2), X_Y1_Z1)
+                X4 = matmul(times(Y_term, Z_term).reshape(*v2), X_Y1_Z1)
                 all_span.append(X4)
 
             span[w] = semiring.sum(torch.stack(all_span, dim=-1))
@@ -147,9 +147,9 @@ class CKY(_Struct):
         m_term, m_rule, m_root = parts[:3]
         b = m_term.shape[0]
         return (
-            m_term.mul(terms).view(b, -1).sum(-1)
-            + m_rule.mul(rules).view(b, -1).sum(-1)
-            + m_root.mul(roots).view(b, -1).sum(-1)
+            m_term.mul(terms).reshape(b, -1).sum(-1)
+            + m_rule.mul(rules).reshape(b, -1).sum(-1)
+            + m_root.mul(roots).reshape(b, -1).sum(-1)
         )
 
     @staticmethod
diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index a8d2848..85f0c13 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -31,7 +31,7 @@ class _Struct:
     def score(self, potentials, parts, batch_dims=[0]):
         score = torch.mul(potentials, parts)
         batch = tuple((score.shape[b] for b in batch_dims))
-        return self.semiring.prod(score.view(batch + (-1,)))
+        return self.semiring.prod(score.reshape(batch + (-1,)))
 
     def _bin_length(self, length):
         log_N = int(math.ceil(math.log(length, 2)))
-- 
2.43.0


From 1b1550102bfac36ea84201f2f03bc27461603e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:18:01 +0000
Subject: [PATCH 10/10] fix: copy the chart entries that are read, so that
 products keeping their operands for the backward pass neither fail nor hold
 the chart alive

The charts of the tree-shaped models are filled in place. A product that saves its operands, as the checkpointed semirings do, kept views of the chart. Its backward pass then failed because the chart had changed, and a graph that was never differentiated referred to itself and was never released.
---
 torch_struct/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index 85f0c13..ce3873b 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -17,7 +17,9 @@ class Chart:
 
     def __getitem__(self, ind):
         I = slice(None)
-        return self.data[(I, I) + ind]
+        # A copy, as the chart is filled in while these values may be kept for
+        # the backward pass.
+        return self.data[(I, I) + ind].clone()
 
     def __setitem__(self, ind, new):
         I = slice(None)
-- 
2.43.0

