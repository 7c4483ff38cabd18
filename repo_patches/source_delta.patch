From fe3d45563901ce6659c113faf49466fa6473cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 01/18] fix: accept non-contiguous potentials in the PCFG
 inside algorithm

The chart products keep the memory layout of the potentials, so view()
raised for transposed or sliced inputs. Use reshape() instead.
---
 torch_struct/cky.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 60b4cc1..f1c8e02 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -52,21 +52,21 @@ class CKY(_Struct):
 
             Y = beta[A][: N - w, :w, :]
             Z = beta[B][w:, N - w :, :]
-            X1 = matmul(matmul(Y.transpose(-2, -1), Z).view(*v2), X_Y_Z)
+            X1 = matmul(matmul(Y.transpose(-2, -1), Z).reshape(*v2), X_Y_Z)
             all_span.append(X1)
 
             Y_term = term_use[..., : N - w, :, None]
             Z_term = term_use[..., w:, None, :]
 
             Y = Y[..., -1, :].unsqueeze(-1)
-            X2 = matmul(times(Y, Z_term).view(*v2), X_Y_Z1)
+            X2 = matmul(times(Y, Z_term).reshape(*v2), X_Y_Z1)
 
             Z = Z[..., 0, :].unsqueeze(-2)
-            X3 = matmul(times(Y_term, Z).view(*v2), X_Y1_Z)
+            X3 = matmul(times(Y_term, Z).reshape(*v2), X_Y1_Z)
             all_span += [X2, X3]
 
             if w == 1:
-                X4 = matmul(times(Y_term, Z_term).view(*v2), X_Y1_Z1)
+                X4 = matmul(times(Y_term, Z_term).reshape(*v2), X_Y1_Z1)
                 all_span.append(X4)
 
             span[w] = semiring.sum(torch.stack(all_span, dim=-1))
-- 
2.43.0


From 90166b6fb975d1fb8fca212d66fe012df4c361c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 02/18] fix: keep the multiroot setting of DependencyCRF per
 instance

The constructor stored multiroot on the shared DepTree class, so creating
one distribution changed the results of every other one. Set it on the
struct object that each distribution builds.
---
 torch_struct/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index a309c28..cbaefb9 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -393,7 +393,12 @@ class DependencyCRF(StructDistribution):
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=True, validate_args=False):
         super(DependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.struct = DepTree
-        setattr(self.struct, "multiroot", multiroot)
+        self.multiroot = multiroot
+
+    def _struct(self, sr=None):
+        struct = super()._struct(sr)
+        struct.multiroot = self.multiroot
+        return struct
 
 
 class TreeCRF(StructDistribution):
-- 
2.43.0


From f6825b9ce002264ecde25adb0acd78ee1f74b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 03/18] fix: allow sampling under torch.no_grad

Samples are drawn in the backward pass, which needs a graph even when the
caller has gradients turned off.
---
 torch_struct/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index cbaefb9..cdc7f42 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -224,9 +224,10 @@ class StructDistribution(Distribution):
         samples = []
         for k in range(nsamples):
             if k % 10 == 0:
-                sample = self._struct(MultiSampledSemiring).marginals(
-                    self.log_potentials, lengths=self.lengths
-                )
+                with torch.enable_grad():
+                    sample = self._struct(MultiSampledSemiring).marginals(
+                        self.log_potentials, lengths=self.lengths
+                    )
                 sample = sample.detach()
             tmp_sample = MultiSampledSemiring.to_discrete(sample, (k % 10) + 1)
             samples.append(tmp_sample)
-- 
2.43.0


From 7a91b822b6d8529fa564fcd9ec78ec819afe2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 04/18] fix: allow autoregressive beam search under
 torch.no_grad

Back pointers are recovered by differentiating the beam scores, so those
must be tracked even when the caller has gradients turned off.
---
 torch_struct/autoregressive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index e3eb49f..df76a86 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -172,10 +172,11 @@ class Autoregressive(Distribution):
             if self.normalize:
                 logits = logits.log_softmax(-1)
             all_logits.append(logits)
-            ex_beam = beam.unsqueeze(-1) + logits
-            ex_beam.requires_grad_(True)
-            all_beams.append(ex_beam)
-            beam, (positions, tokens) = semiring.sparse_sum(ex_beam)
+            with torch.enable_grad():
+                ex_beam = beam.unsqueeze(-1) + logits
+                ex_beam.requires_grad_(True)
+                all_beams.append(ex_beam)
+                beam, (positions, tokens) = semiring.sparse_sum(ex_beam)
             state = take(state, positions)
 
         # Back pointers
-- 
2.43.0


From 47c610d4d031a6397bac6015a1b43bdfca20269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 05/18] fix: support cross entropy and KL for semi-Markov
 models

These semirings take a pair of potentials. The forward pass assumed a
single tensor and passed its length mask through the pair conversion.
---
 torch_struct/semimarkov.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 257112e..08cc603 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -24,7 +24,6 @@ class SemiMarkov(_Struct):
         # Setup
         semiring = self.semiring
         ssize = semiring.size()
-        log_potentials.requires_grad_(True)
         log_potentials, batch, N, K, C, lengths = self._check_potentials(
             log_potentials, lengths
         )
@@ -66,7 +65,7 @@ class SemiMarkov(_Struct):
         mask_length = mask_length.to(log_potentials.device)
         for k in range(1, K - 1):
             mask_length_k = mask_length < (lengths - 1 - (k - 1)).view(batch, 1, 1)
-            mask_length_k = semiring.convert(mask_length_k)
+            mask_length_k = mask_length_k.unsqueeze(0)
             mask[:, :, :, k - 1, k].diagonal(0, -2, -1).masked_fill_(mask_length_k, True)
         init = semiring.fill(init, mask, semiring.one)
 
-- 
2.43.0


From 5c845b5b96c34ea9d73804d7c56351c46bbb6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 06/18] fix: support cross entropy and KL for dependency trees

These semirings take a pair of potentials, which the root conversion and
the length checks did not handle.
---
 torch_struct/deptree.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/torch_struct/deptree.py b/torch_struct/deptree.py
index 8747d7e..f28e2a6 100644
--- a/torch_struct/deptree.py
+++ b/torch_struct/deptree.py
@@ -48,12 +48,17 @@ class DepTree(_Struct):
 
     def logpartition(self, arc_scores_in, lengths=None, force_grad=False):
         multiroot = getattr(self, "multiroot", True)
-        if arc_scores_in.dim() not in (3, 4):
+        paired = isinstance(arc_scores_in, list)
+        dim = arc_scores_in[0].dim() if paired else arc_scores_in.dim()
+        if dim not in (3, 4):
             raise ValueError("potentials must have dim of 3 (unlabeled) or 4 (labeled)")
 
-        labeled = arc_scores_in.dim() == 4
+        labeled = dim == 4
         semiring = self.semiring
-        arc_scores_in = convert(arc_scores_in)
+        if paired:
+            arc_scores_in = [convert(scores) for scores in arc_scores_in]
+        else:
+            arc_scores_in = convert(arc_scores_in)
         arc_scores_in, batch, N, lengths = self._check_potentials(
             arc_scores_in, lengths
         )
@@ -127,10 +132,10 @@ class DepTree(_Struct):
         semiring = self.semiring
         batch, N, N2, *_ = self._get_dimension(arc_scores)
         assert N == N2, "Non-square potentials"
+        arc_scores = semiring.convert(arc_scores)
         if lengths is None:
             lengths = torch.LongTensor([N - 1] * batch).to(arc_scores.device)
         assert max(lengths) <= N, "Length longer than N"
-        arc_scores = semiring.convert(arc_scores)
 
         # Set the extra elements of the log-potentials to zero.
         keep = torch.ones_like(arc_scores).bool()
-- 
2.43.0


From c805e073929ed5776ee53faf4e4ffee7500e67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 07/18] fix: honour lengths when converting semi-Markov
 sequences to parts

The lengths argument was ignored, so labels in the padding became
segments of the event.
---
 torch_struct/semimarkov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 08cc603..003e6b7 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -140,7 +140,7 @@ class SemiMarkov(_Struct):
         for b in range(batch):
             last = None
             c = None
-            for n in range(0, N):
+            for n in range(0, lengths[b]):
                 if sequence[b, n] == -1:
                     assert n != 0
                     continue
-- 
2.43.0


From cb64733fbf3cadb0d0dd527559fa7a58526bf191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 08/18] fix: draw independent Gumbel noise for every choice

One noise vector was shared by all rows of a chart and all batch items,
so choices made at the same step were perfectly correlated.
---
 torch_struct/semirings/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/sample.py b/torch_struct/semirings/sample.py
index 09ec189..2e258d5 100644
--- a/torch_struct/semirings/sample.py
+++ b/torch_struct/semirings/sample.py
@@ -69,7 +69,7 @@ def GumbelMaxSemiring(temp):
                 def sample(ls):
                     pre_shape = ls.shape
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = torch.nn.functional.one_hot(update.max(-1)[1], pre_shape[-1])
                     return out
@@ -127,7 +127,7 @@ def GumbelCRFSemiring(temp):
 
                 def sample(ls):
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = ST.apply(update, ls.shape[-1])
                     return out
-- 
2.43.0


From 8950d9f0329f511e84cf5590d6f0e148a642ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:54 +0000
Subject: [PATCH 09/18] fix: score non-contiguous events

The product of the potentials and a non-contiguous event keeps the event's
memory layout, so view() raised in log_prob. Use reshape() instead.
---
 torch_struct/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index a8d2848..85f0c13 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -31,7 +31,7 @@ class _Struct:
     def score(self, potentials, parts, batch_dims=[0]):
         score = torch.mul(potentials, parts)
         batch = tuple((score.shape[b] for b in batch_dims))
-        return self.semiring.prod(score.view(batch + (-1,)))
+        return self.semiring.prod(score.reshape(batch + (-1,)))
 
     def _bin_length(self, length):
         log_N = int(math.ceil(math.log(length, 2)))
-- 
2.43.0


From db2fc4cf6d72f2af9b7b7517d48541dac88de8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:56 +0000
Subject: [PATCH 10/18] fix: trace beam search back pointers under
 torch.no_grad

---
 torch_struct/autoregressive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index df76a86..7f5e02c 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -183,7 +183,8 @@ class Autoregressive(Distribution):
         v = beam
         all_m = []
         for k in range(v.shape[0]):
-            obj = v[k].sum(dim=0)
+            with torch.enable_grad():
+                obj = v[k].sum(dim=0)
             marg = torch.autograd.grad(
                 obj, all_beams, create_graph=True, only_inputs=True, allow_unused=False
             )
-- 
2.43.0


From 3079814e8c0e59383e7197fd5774731966119fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:21 +0000
Subject: [PATCH 11/18] fix: accept non-contiguous observations in HMM

---
 torch_struct/linearchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/linearchain.py b/torch_struct/linearchain.py
index 1a8dc2e..af612e4 100644
--- a/torch_struct/linearchain.py
+++ b/torch_struct/linearchain.py
@@ -151,7 +151,7 @@ class LinearChain(_Struct):
         scores = torch.zeros(batch, N - 1, C, C).type_as(emission)
         scores[:, :, :, :] += transition.view(1, 1, C, C)
         scores[:, 0, :, :] += init.view(1, 1, C)
-        obs = emission[observations.view(batch * N), :]
+        obs = emission[observations.reshape(batch * N), :]
         scores[:, :, :, :] += obs.view(batch, N, C, 1)[:, 1:]
         scores[:, 0, :, :] += obs.view(batch, N, 1, C)[:, 0]
         return scores
-- 
2.43.0


From ca0c10b38a4431bea17efce543850106c553d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:52 +0000
Subject: [PATCH 12/18] fix: gradients of checkpointed matmul for any operand
 shape and gradient setting

---
 torch_struct/semirings/checkpoint.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f65eec1..4f1e4a7 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -30,7 +30,7 @@ def CheckpointSemiring(cls, min_size=0):
 
         @staticmethod
         def backward(ctx, grad_output):
-            a, b = ctx.saved_tensors
+            a, b = (t.detach().requires_grad_(True) for t in ctx.saved_tensors)
             with torch.enable_grad():
                 q = cls.matmul(a, b)
                 return torch.autograd.grad(q, (a, b), grad_output)
@@ -159,8 +159,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
         with torch.enable_grad():
             a_in = a.clone().requires_grad_(True)
             b_in = b.clone().requires_grad_(True)
-            q = fn(a, b)
-        ag, bg = torch.autograd.grad(q, (a, b), grad_output)
+            q = fn(a_in, b_in)
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output)
         return ag, bg
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
@@ -171,7 +171,7 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.view(-1, a.shape[-2], b.shape[-1])
+    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
     for p in range(0, grad_output.shape[0], step):
         with torch.enable_grad():
             a_in = a2[p : p + step].clone().requires_grad_(True)
@@ -183,10 +183,7 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
 
     a_grad = a_grad.view(*size[:-2], a.shape[-2], a.shape[-1])
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
-    a_ones = ones(a)
-    b_ones = ones(b)
-    f1, f2 = a_grad.sum(a_ones, keepdim=True), b_grad.sum(b_ones, keepdim=True)
-    return f1, f2
+    return a_grad.sum_to_size(a.shape), b_grad.sum_to_size(b.shape)
 
 
 # def unaccumulate_(a, b, grad_output, fn, step=10000):
-- 
2.43.0


From 11da64b2ae4fec1a7297bba86bf9114cd05e4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:52 +0000
Subject: [PATCH 13/18] fix: keep the components of a semiring together when
 sharding matmul

---
 torch_struct/semirings/checkpoint.py | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 4f1e4a7..4aa8976 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -138,11 +138,13 @@ def accumulate_(a, b, size, fn, preserve, step=10000):
     a = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
 
-    a2 = a.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b.contiguous().view(-1, b.shape[-2], b.shape[-1])
-    ret = ret.view(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, ret.shape[0], step):
-        ret[p : p + step, :] = fn(a2[p : p + step], b2[p : p + step])
+    # The first dimension holds the components of the semiring: never split it.
+    ssize = size[0] if len(size) > 2 else 1
+    a2 = a.contiguous().view(ssize, -1, a.shape[-2], a.shape[-1])
+    b2 = b.contiguous().view(ssize, -1, b.shape[-2], b.shape[-1])
+    ret = ret.view(ssize, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, ret.shape[1], step):
+        ret[:, p : p + step] = fn(a2[:, p : p + step], b2[:, p : p + step])
     ret = ret.view(*size)
     return ret
 
@@ -165,21 +167,22 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b2 = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
-    a2 = a2.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b2.contiguous().view(-1, b.shape[-2], b.shape[-1])
+    ssize = size[0] if len(size) > 2 else 1
+    a2 = a2.contiguous().view(ssize, -1, a.shape[-2], a.shape[-1])
+    b2 = b2.contiguous().view(ssize, -1, b.shape[-2], b.shape[-1])
 
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, grad_output.shape[0], step):
+    grad_output = grad_output.reshape(ssize, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, grad_output.shape[1], step):
         with torch.enable_grad():
-            a_in = a2[p : p + step].clone().requires_grad_(True)
-            b_in = b2[p : p + step].clone().requires_grad_(True)
+            a_in = a2[:, p : p + step].clone().requires_grad_(True)
+            b_in = b2[:, p : p + step].clone().requires_grad_(True)
             q = fn(a_in, b_in)
-        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[p : p + step])
-        a_grad[p : p + step] += ag
-        b_grad[p : p + step] += bg
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[:, p : p + step])
+        a_grad[:, p : p + step] += ag
+        b_grad[:, p : p + step] += bg
 
     a_grad = a_grad.view(*size[:-2], a.shape[-2], a.shape[-1])
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
-- 
2.43.0


From 5b666bf38381ee395ffa6144fcbcc558340429b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:13 +0000
Subject: [PATCH 14/18] fix: allow checkpointed semirings with charts that are
 updated in place

---
 torch_struct/semirings/checkpoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 4aa8976..0dc2dde 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -25,7 +25,7 @@ def CheckpointSemiring(cls, min_size=0):
     class _Check(torch.autograd.Function):
         @staticmethod
         def forward(ctx, a, b):
-            ctx.save_for_backward(a, b)
+            ctx.save_for_backward(a.clone(), b.clone())
             return cls.matmul(a, b)
 
         @staticmethod
@@ -73,7 +73,7 @@ def CheckpointShardSemiring(cls, max_size, min_size=0):
     class _Check(torch.autograd.Function):
         @staticmethod
         def forward(ctx, a, b):
-            ctx.save_for_backward(a, b)
+            ctx.save_for_backward(a.clone(), b.clone())
             size = matmul_size(a, b)
             return accumulate_(
                 a,
-- 
2.43.0


From c686eed4a567f69d2d24ea31f8705d9ab1f2bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:40 +0000
Subject: [PATCH 15/18] fix: value of the sparsemax operator so that its
 gradient is the projection

---
 torch_struct/semirings/sparse_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index ef688eb..b759899 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -23,7 +23,7 @@ class _SimplexProject(torch.autograd.Function):
     def forward(ctx, input, dim, z=1):
         w_star = project_simplex(input, dim)
         ctx.save_for_backward(input, w_star.clone(), torch.tensor(dim))
-        x = input.mul(w_star).sum(dim) - w_star.norm(p=2, dim=dim)
+        x = input.mul(w_star).sum(dim) - 0.5 * w_star.mul(w_star).sum(dim)
         return x
 
     @staticmethod
-- 
2.43.0


From e9cd71c1edf051390e4a6867930709e8719d9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:40 +0000
Subject: [PATCH 16/18] fix: project onto the simplex along any axis

---
 torch_struct/semirings/sparse_max.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index b759899..59d68f6 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -54,6 +54,7 @@ def project_simplex(v, dim, z=1):
     v_sorted, _ = torch.sort(v, dim=dim, descending=True)
     cssv = torch.cumsum(v_sorted, dim=dim) - z
     ind = torch.arange(1, 1 + v.shape[dim]).to(dtype=v.dtype).to(v.device)
+    ind = ind.view([-1 if d == dim % v.dim() else 1 for d in range(v.dim())])
     cond = v_sorted - cssv / ind >= 0
     k = cond.sum(dim=dim, keepdim=True)
     tau = cssv.gather(dim, k - 1) / k.to(dtype=v.dtype)
-- 
2.43.0


From aa574ccc174fdbcfd9aaa3f3680a70f968f26169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:33 +0000
Subject: [PATCH 17/18] fix: second derivatives of the sparsemax operator

---
 torch_struct/semirings/sparse_max.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index 59d68f6..5abbcdf 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -29,25 +29,24 @@ class _SimplexProject(torch.autograd.Function):
     @staticmethod
     def backward(ctx, grad_output):
         input, w_star, dim = ctx.saved_tensors
-        w_star.requires_grad_(True)
 
         grad_input = None
         if ctx.needs_input_grad[0]:
-            wstar = _SparseMaxGrad.apply(w_star, dim)
+            wstar = _SparseMaxGrad.apply(input, w_star, dim)
             grad_input = grad_output.unsqueeze(dim).mul(wstar)
         return grad_input, None, None
 
 
 class _SparseMaxGrad(torch.autograd.Function):
     @staticmethod
-    def forward(ctx, w_star, dim):
+    def forward(ctx, input, w_star, dim):
         ctx.save_for_backward(w_star, dim)
-        return w_star
+        return w_star.clone()
 
     @staticmethod
     def backward(ctx, grad_output):
         w_star, dim = ctx.saved_tensors
-        return sparsemax_grad(grad_output, w_star, dim.item()), None
+        return sparsemax_grad(grad_output, w_star, dim.item()), None, None
 
 
 def project_simplex(v, dim, z=1):
-- 
2.43.0


From 02e202cbe87a96b27c882ac72b5ca68513bc562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:48 +0000
Subject: [PATCH 18/18] fix: score non-contiguous PCFG parts

---
 torch_struct/cky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index f1c8e02..cd8a0a7 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -147,9 +147,9 @@ class CKY(_Struct):
         m_term, m_rule, m_root = parts[:3]
         b = m_term.shape[0]
         return (
-            m_term.mul(terms).view(b, -1).sum(-1)
-            + m_rule.mul(rules).view(b, -1).sum(-1)
-            + m_root.mul(roots).view(b, -1).sum(-1)
+            m_term.mul(terms).reshape(b, -1).sum(-1)
+            + m_rule.mul(rules).reshape(b, -1).sum(-1)
+            + m_root.mul(roots).reshape(b, -1).sum(-1)
         )
 
     @staticmethod
-- 
2.43.0

