From 1db2099eb8d2c4ca81be4bba5041f5a157eb41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 01/22] fix: complex coefficients were conjugated in the
 transposed filter forms

---
 philtorch/lpv/filtering.py | 14 +++++++-------
 philtorch/lti/filtering.py | 20 ++++++++++----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 277b9c9..510233c 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -57,7 +57,7 @@ def fir(
     if transpose:
         shifted_b = diag_shift(b, discard_end=not return_zf)
         y = torch.linalg.vecdot(
-            shifted_b.flip(2),
+            shifted_b.flip(2).conj(),
             F.pad(
                 x,
                 (shifted_b.size(2) - 1, 0 if not return_zf else shifted_b.size(2) - 1),
@@ -121,7 +121,7 @@ def allpole(
         return_zf = True
 
     if transpose:
-        a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
+        a = diag_shift(a, offset=1, discard_end=not return_zf)
         x = torch.cat(
             [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
             + ([torch.zeros_like(zi)] if return_zf else []),
@@ -322,10 +322,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -355,13 +355,13 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT.conj(),
+                    A.mT,
                     zi,
                     out_idx=0,
                     **kwargs,
                 ),
                 partial(
-                    fir, b.conj().broadcast_to((x.size(0), -1, -1)), transpose=True
+                    fir, b.broadcast_to((x.size(0), -1, -1)), transpose=True
                 ),
             )
         case _:
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2078bef..ed817a6 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -127,7 +127,7 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
             b = F.pad(b, (0, n - b.size(-1)), value=0.0)
         if a.size(-1) < n - 1:
             a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
-        A = companion(a).mT.conj()
+        A = companion(a).mT
         B = b[..., 1:] - b[..., :1] * a
     else:
         raise ValueError(
@@ -180,7 +180,7 @@ def fir(
     if transpose:
         y = F.conv_transpose1d(
             x.unsqueeze(0),
-            b.unsqueeze(1).conj(),
+            b.unsqueeze(1),
             stride=1,
             groups=B,
         ).squeeze(0)
@@ -307,10 +307,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -324,8 +324,8 @@ def _ssm_lfilter(
         case "tdf1":
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
-                partial(state_space_recursion, A.mT.conj(), zi, out_idx=0, **kwargs),
-                partial(fir, b.conj().broadcast_to((x.size(0), -1)), transpose=True),
+                partial(state_space_recursion, A.mT, zi, out_idx=0, **kwargs),
+                partial(fir, b.broadcast_to((x.size(0), -1)), transpose=True),
             )
         case _:
             raise ValueError(f"Unknown filter form: {form}")
@@ -385,10 +385,10 @@ def _diag_ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 diag_state_space,
-                A=A.mT.conj(),
-                B=B.conj(),
+                A=A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
-- 
2.43.0


From d2b3f013390738b83c932dd94341ee319a1b3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 02/22] fix: FIR and transposed all-pole filters with order
 zero or with an initial state longer than the signal

---
 philtorch/lpv/filtering.py | 22 ++++++----------------
 philtorch/lpv/utils.py     |  2 +-
 philtorch/lti/filtering.py |  8 +++-----
 3 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 510233c..f2332a4 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -64,17 +64,10 @@ def fir(
             ).unfold(1, shifted_b.size(2), 1),
         )
         if return_zf:
-            y, zf = torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
-            return (
-                torch.cat(
-                    [
-                        y[..., : b.size(2) - 1] + zi,
-                        y[..., b.size(2) - 1 :],
-                    ],
-                    dim=-1,
-                ),
-                zf,
+            y, zf = torch.split_with_sizes(
+                y + F.pad(zi, (0, T)), [T, b.size(2) - 1], 1
             )
+            return y, zf
         return y
 
     unfolded_x = torch.cat([zi.flip(1), x], dim=1).unfold(1, b.size(2), 1)
@@ -122,14 +115,11 @@ def allpole(
 
     if transpose:
         a = diag_shift(a, offset=1, discard_end=not return_zf)
-        x = torch.cat(
-            [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
-            + ([torch.zeros_like(zi)] if return_zf else []),
-            dim=1,
-        )
+        if return_zf:
+            x = F.pad(x, (0, zi.size(1))) + F.pad(zi, (0, T))
         y = sample_wise_lpc(x, a)
         if return_zf:
-            return torch.split_with_sizes(y, [T, a.size(2)], 1)
+            return torch.split_with_sizes(y, [T, zi.size(1)], 1)
         return y
 
     return sample_wise_lpc(x, a, zi=zi, return_zf=return_zf)
diff --git a/philtorch/lpv/utils.py b/philtorch/lpv/utils.py
index ccbb084..b6e5e9f 100644
--- a/philtorch/lpv/utils.py
+++ b/philtorch/lpv/utils.py
@@ -29,5 +29,5 @@ def diag_shift(coef: Tensor, offset: int = 0, discard_end: bool = False) -> Tens
         .unflatten(-1, (M, T + M + offset - 1))
     )
     if discard_end:
-        y = y[..., : -(M - 1 + offset)]
+        y = y[..., :T]
     return y.mT
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index ed817a6..a75a955 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -185,18 +185,16 @@ def fir(
             groups=B,
         ).squeeze(0)
         if zi is not None:
-            zf = y[:, -M:]
-            y = y[:, :-M]
-            y = torch.cat([zi + y[:, :M], y[:, M:]], dim=1)
+            y, zf = torch.split_with_sizes(y + F.pad(zi, (0, N)), [N, M], dim=1)
             return y, zf
-        return y[:, :-M]
+        return y[:, :N]
 
     if zi is None:
         zf = None
         padded_x = F.pad(x, (M, 0))
     else:
         padded_x = torch.cat([zi.flip(1), x], dim=1)
-        zf = padded_x[:, -M:].flip(1)
+        zf = padded_x[:, N:].flip(1)
 
     y = F.conv1d(
         padded_x.unsqueeze(0),
-- 
2.43.0


From 7ccceac7e653d94d2ac18fc6064106a3192efb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 03/22] fix: shape dispatch of state_space when batch, time,
 state or feature sizes coincide

---
 philtorch/lpv/ssm.py | 28 ++++++++++++++--------------
 philtorch/lti/ssm.py | 14 +++++++-------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index c37294a..b4cf07a 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -431,17 +431,17 @@ def state_space(
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BN, BM, F) if BN == N and BM == M and F == features:
                 Bx = torch.linalg.vecdot(B.conj(), x.unsqueeze(-2))
-            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
-                Bx = x.unsqueeze(-1) * B
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
                 Bx = torch.linalg.vecdot(
                     B.unsqueeze(1).conj(), x.unsqueeze(-2)
                 )  # (batch_size, N, M)
+            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
+                Bx = x.unsqueeze(-1) * B
             case (B_batch, BN, BM, F) if (
                 B_batch == batch_size and BM == M and BN == N and F == features
             ):
@@ -481,6 +481,8 @@ def state_space(
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (DN,) if DN == N:
                 assert (
                     x.dim() == 2
@@ -491,8 +493,6 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
@@ -502,16 +502,16 @@ def state_space(
                 Dx = torch.linalg.vecdot(D.conj(), x)
             case (D_batch, F) if D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
-            case (DN, _) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
-                Dx = D * x.unsqueeze(-1)
             case (D_batch, DN) if D_batch == batch_size and DN == N:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
                 Dx = D * x
+            case (DN, _) if DN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
+                Dx = D * x.unsqueeze(-1)
             case (D_batch, _) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
@@ -556,10 +556,10 @@ def state_space(
                 Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
             case (_, CM) if CM == M:
                 Ch = h @ C.T
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
                 Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, _, CM) if C_batch == batch_size and CM == M:
                 Ch = h @ C.mT
             case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9bccf7f..1dfc055 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -464,13 +464,13 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {M,}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B
+            case (BM, F) if BM == M and F == features:
+                Bx = x @ B.T
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                Bx = x @ B.T
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
@@ -535,13 +535,13 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (D_batch,) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
@@ -760,6 +760,9 @@ def diag_state_space(
                 if VinvB.dim() == 2:
                     VinvB = VinvB.unsqueeze(1)
                 VinvBx = x.unsqueeze(-1) * VinvB
+            case (BM, F) if BM == M and F == features:
+                VinvB = Vinv @ B
+                VinvBx = x @ VinvB.mT
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
@@ -770,9 +773,6 @@ def diag_state_space(
                     else torch.linalg.vecdot(Vinv.conj(), B.unsqueeze(1))
                 )
                 VinvBx = x.unsqueeze(-1) * VinvB.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                VinvB = Vinv @ B
-                VinvBx = x @ VinvB.mT
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
-- 
2.43.0


From 12c0f39b6c41e2731ee11eb10f2b35ae7da89e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 04/22] fix: polydiv broke autograd, broadcasting and dividends
 shorter than the divisor

---
 philtorch/poly.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 36e3532..341c731 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -1,5 +1,6 @@
 import torch
 from torch import Tensor
+import torch.nn.functional as F
 
 
 def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
@@ -20,16 +21,14 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     """
     assert u.ndim >= 1 and v.ndim >= 1
 
-    # w has the common type
     m = u.size(-1) - 1
     n = v.size(-1) - 1
-    scale = v[..., 0].reciprocal()
-    r = u.clone()
+    scale = v[..., :1].reciprocal()
+    r = u.expand(*torch.broadcast_shapes(u.shape[:-1], v.shape[:-1]), m + 1)
     q = []
     for k in range(0, m - n + 1):
-        d = scale * r[..., k]
+        d = scale * r[..., :1]
         q.append(d)
-        r[..., k : k + n + 1] -= d.unsqueeze(-1) * v
+        r = r[..., 1:] - F.pad(d * v[..., 1:], (0, m - n - k))
 
-    r = r[..., m - n + 1 :]
-    return torch.stack(q, dim=-1), r
+    return torch.cat(q, dim=-1) if q else r[..., :0], r
-- 
2.43.0


From 34338bf3a304d2ad61601f1ef65b2a5535007cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 05/22] fix: diag_ssm backend with a shared numerator longer
 than the denominator or a short signal

---
 philtorch/lti/filtering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index a75a955..e7ec598 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -346,12 +346,12 @@ def _diag_ssm_lfilter(
         zi = None
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
-            direct_filt = partial(fir, q)
+            direct_filt = partial(fir, q.broadcast_to((x.size(0), -1)))
             delay = b.size(-1) - a.size(-1)
             b = r
         else:
             rev_q, rev_r = polydiv(b.flip(-1), F.pad(a.flip(-1), (0, 1), value=1.0))
-            direct_filt = partial(fir, rev_q.flip(-1))
+            direct_filt = partial(fir, rev_q.flip(-1).broadcast_to((x.size(0), -1)))
             delay = 0
             b = rev_r.flip(-1)
     else:
@@ -400,7 +400,7 @@ def _diag_ssm_lfilter(
     y = results
 
     if delay > 0:
-        y = F.pad(y[:, :-delay], (delay, 0))
+        y = F.pad(y, (delay, 0))[:, : x.size(1)]
 
     if direct_filt is not None:
         y = y + direct_filt(x)
-- 
2.43.0


From 3f1b22c81049f525c21ad4b14d8b6b9a439808a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 06/22] fix: diag_state_space dropped or invented imaginary
 parts

---
 philtorch/lti/ssm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 1dfc055..21b8de7 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -729,6 +729,10 @@ def diag_state_space(
         zi = zi.unsqueeze(0).expand(batch_size, -1)
 
     x_orig = x
+    # the eigen-decomposition is complex even if the system is real
+    real_result = (A is not None or C is not None) and not any(
+        t is not None and t.is_complex() for t in (x, zi, A, B, C)
+    )
     if Vinv.is_complex():
         if not zi.is_complex():
             zi = zi + 0j  # Ensure zi is complex if Vinv is complex
@@ -823,9 +827,11 @@ def diag_state_space(
             dim=1,
         )
 
-    if C is not None and not C.is_complex():
+    if real_result and h.is_complex():
         h = h.real
         zf = zf.real if return_zf else None
+    elif C is not None and h.is_complex() and not C.is_complex():
+        C = C + 0j
 
     y = _ssm_C_D(h, x_orig, C, D, batch_size, M)
     if return_zf:
-- 
2.43.0


From 6a1dc7b9f96bdffaf7eafd56a881f8a9d12b1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 07/22] fix: comb_filter with delay one, short signals, shared
 coefficient or without the compiled extension

---
 philtorch/lti/filtering.py | 50 ++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index e7ec598..3967a1d 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -23,51 +23,43 @@ def comb_filter(
         zi (Tensor, optional): Initial conditions for the filter, shape (delay,) or (B, delay).
         **kwargs: Additional keyword arguments for `linear_recurrence`.
     Returns:
-        Tensor: Filtered output signal, shape (B, N).
+        Filtered output signal of shape (B, N) and, if ``zi`` was provided, the
+        final state of shape (B, delay).
     """
     assert a.dim() <= 1, "Denominator coefficients a must be at most 1D."
     assert x.dim() == 2, "Input signal x must be 2D."
-    assert delay >= 0, "Delay must be non-negative."
+    assert delay > 0, "Delay must be positive."
+    batch_size, N = x.shape
     if a.dim() == 1:
-        assert a.size(0) == x.size(
-            0
-        ), "The first dimension of a must match the batch size of x."
+        assert a.size(0) in (
+            1,
+            batch_size,
+        ), "The first dimension of a must be 1 or match the batch size of x."
+        a = a.expand(batch_size).repeat_interleave(delay)
 
-    if delay == 1:
-        return linear_recurrence(
-            -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
-        )
-
-    remainder = x.size(1) % delay
+    remainder = N % delay
     if remainder != 0:
         x = F.pad(x, (0, delay - remainder))
 
     folded_x = x.unflatten(1, (-1, delay)).mT
-    if a.dim() == 1:
-        a = a.repeat_interleave(delay)
-    if zi is not None:
-        return_zf = True
-        if zi.dim() == 1:
-            zi = zi.flip(0).repeat(x.size(0))
-        else:
-            zi = zi.flip(1).flatten()
-    else:
-        return_zf = False
-        zi = torch.zeros_like(a)
+    return_zf = zi is not None
+    if zi is None:
+        zi = x.new_zeros(batch_size, delay)
+    elif zi.dim() == 1:
+        zi = zi.expand(batch_size, -1)
+    init = zi.flip(1).flatten()
 
     y = (
         (
-            linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
-            if EXTENSION_LOADED
-            else LTIRecurrence.apply(-a, zi, folded_x.flatten(0, 1))
+            LTIRecurrence.apply(-a, init, folded_x.flatten(0, 1))
+            if EXTENSION_LOADED and kwargs.get("unroll_factor", 1) == 1
+            else linear_recurrence(-a, init, folded_x.flatten(0, 1), **kwargs)
         )
         .unflatten(0, (-1, delay))
-        .mT.flatten(1, 2)
+        .mT.flatten(1, 2)[:, :N]
     )
-    if remainder != 0:
-        y = y[:, : -(delay - remainder)]
     if return_zf:
-        return y, y[:, -delay:].flip(1)
+        return y, torch.cat([y.flip(1), zi], dim=1)[:, :delay]
     return y
 
 
-- 
2.43.0


From 27c31001fe594626b7b8ef87c134d8b7a8688932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 08/22] fix: filtfilt with direct form I, and with direct form
 II and a numerator longer than the denominator

---
 philtorch/lti/filtering.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 3967a1d..9316207 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -107,6 +107,9 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
     """
     assert a.dim() >= 1, "Denominator coefficients a must be at least 1D."
 
+    if b is not None and a.size(-1) < b.size(-1) - 1:
+        a = F.pad(a, (0, b.size(-1) - 1 - a.size(-1)), value=0.0)
+
     if not transpose:
         n = a.size(-1) + 1
         A = companion(a)
@@ -117,8 +120,6 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
         n = max(b.size(-1), a.size(-1) + 1)
         if b.size(-1) < n:
             b = F.pad(b, (0, n - b.size(-1)), value=0.0)
-        if a.size(-1) < n - 1:
-            a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
         A = companion(a).mT
         B = b[..., 1:] - b[..., :1] * a
     else:
@@ -451,7 +452,7 @@ def filtfilt(
 
     if edge > 0 and padmode is not None:
         ext = F.pad(
-            x.view(-1, x.size(-1)),
+            x.reshape(-1, x.size(-1)),
             (edge, edge),
             mode=padmode,
         )
@@ -460,13 +461,18 @@ def filtfilt(
     else:
         ext = x
 
-    zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
-    x0 = ext[..., :1]
+    if form in ("df2", "tdf2"):
+        zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
+        x0 = ext[..., :1]
 
-    y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
-    y0 = y[..., -1:]
+        y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
+        y0 = y[..., -1:]
 
-    y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+        y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+    else:
+        # these forms do not take an initial state
+        y = lfilter(b, a, ext, form=form, **kwargs)
+        y = lfilter(b, a, y.flip(-1), form=form, **kwargs)
 
     if edge > 0:
         y = y[..., edge:-edge]
-- 
2.43.0


From 9caffbd85c4e0d2e484673307030eebe4e908432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 09/22] fix: cubic_spline failed for factors whose reciprocal
 is not exact

---
 philtorch/lti/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index d4b784b..9722ee7 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -121,8 +121,8 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
 
     c = cspline(x, scipy_padding=scipy_padding, **kwargs)
 
-    kernel_idx = torch.arange(-2, 2, 1 / m, device=x.device, dtype=x.dtype).reshape(
-        4, m
+    kernel_idx = (
+        torch.arange(-2 * m, 2 * m, device=x.device, dtype=x.dtype).reshape(4, m) / m
     )
     kernel = _cubic_spline_kernel(kernel_idx).flip(0).T
 
-- 
2.43.0


From 87a1e66983a06bddb880e46c2edc00e29f8e0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 10/22] fix: lfiltic with a constant numerator

---
 philtorch/lti/filtering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 9316207..62ea9ff 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -84,10 +84,14 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
-    a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
-    zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
-    zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
+    def tail(c: Tensor, s: Tensor) -> Tensor:
+        if c.size(-1) == 0:
+            return c
+        mat = F.pad(c, (0, c.size(-1) - 1), value=0.0).unfold(-1, c.size(-1), 1)
+        return (mat @ s.unsqueeze(-1)).squeeze(-1)
+
+    zi_b = tail(b[..., 1:], x)
+    zi_a = tail(a, y)
     if zi_b.size(-1) < k:
         zi_b = F.pad(zi_b, (0, k - zi_b.size(-1)), value=0.0)
     if zi_a.size(-1) < k:
-- 
2.43.0


From 07fa38a90341048e7096a7e2af22d4152fbafc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 11/22] fix: Helion without the compiled extension called
 operators that do not exist

Order-one and order-two recurrences on a CUDA device reached
philtorch::lti_recur, lti_recur2 and recur2, also in the registered
gradients of the Helion operators.
---
 philtorch/__init__.py | 13 ++-----------
 philtorch/lpv/ssm.py  |  2 +-
 philtorch/lti/ssm.py  |  5 +++--
 3 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7ea621d..07ca794 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -41,9 +41,7 @@ def _recurN_backward(f):
         AmT = A.mT.conj_physical()
         AmT_rolled = torch.roll(AmT, shifts=-1, dims=-3)
 
-        runner = f if A.shape[-1] != 2 else torch.ops.philtorch.recur2
-
-        flipped_grad_x = runner(
+        flipped_grad_x = f(
             AmT_rolled.flip(-3),
             torch.zeros_like(zi),
             grad_y.flip(1),
@@ -82,14 +80,7 @@ def _lti_recurN_backward(f):
 
         AmT = A.mT.conj_physical()
 
-        runner = (
-            # torch.ops.philtorch.lti_recurN
-            f
-            if A.shape[-1] != 2
-            else torch.ops.philtorch.lti_recur2
-        )
-
-        flipped_grad_x = runner(AmT, torch.zeros_like(zi), grad_y.flip(1))
+        flipped_grad_x = f(AmT, torch.zeros_like(zi), grad_y.flip(1))
 
         if ctx.needs_input_grad[1]:
             grad_zi = (AmT @ flipped_grad_x[:, -1, :, None]).squeeze(-1)
diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index b4cf07a..d7f29fc 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -46,7 +46,7 @@ class MatrixRecurrence(Function):
                 if x.size(-1) == 3
                 else torch.ops.parallel_reduce_cuda.parallel_reduce_block_diag_2x2_cuda
             )(jac, rhs)[:, 1:]
-        elif x.size(-1) == 2:
+        elif EXTENSION_LOADED and x.size(-1) == 2:
             return torch.ops.philtorch.recur2(A, zi, x)
         elif helion_backend_indicator(x):
             from .. import hl_recurN
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 21b8de7..d37b598 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -49,7 +49,7 @@ class LTIMatrixRecurrence(Function):
 
     @staticmethod
     def forward(A: Tensor, zi: Tensor, x: Tensor) -> Tensor:
-        if x.size(-1) == 2:
+        if EXTENSION_LOADED and x.size(-1) == 2:
             return torch.ops.philtorch.lti_recur2(A, zi, x)
         elif helion_backend_indicator(x):
             from .. import hl_lti_recurN
@@ -253,7 +253,8 @@ def state_space_recursion(
 
     # boundary condition
     if block_size == 1 or block_size >= N:
-        if helion_backend_indicator(x):
+        # the scalar recurrence only exists in the compiled extension
+        if helion_backend_indicator(x) and (EXTENSION_LOADED or M > 1):
             return _ext_ss_recur(A, zi, x, out_idx=out_idx)
         return _recursion_loop(A, zi, x, out_idx=out_idx)
 
-- 
2.43.0


From cd8d410071683ea736cc05886039f63340bb9314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 12/22] fix: shape functions promised the strides of the input
 and accepted what the kernels reject

The kernels always return contiguous tensors; empty_like keeps the strides of
a transposed input.
---
 philtorch/__init__.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 07ca794..8e2ecfb 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -149,6 +149,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::recur2")
     def _(A, zi, x):
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
@@ -165,10 +166,13 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        torch._check(x.ndim == zi.ndim + 1, "zi must have one dimension less than x.")
+        torch._check(A.dtype == zi.dtype == x.dtype, "A, zi and x must share one dtype.")
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
         torch._check(
@@ -186,10 +190,13 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        torch._check(x.ndim == zi.ndim + 1, "zi must have one dimension less than x.")
+        torch._check(A.dtype == zi.dtype == x.dtype, "A, zi and x must share one dtype.")
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
@@ -202,10 +209,13 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        torch._check(x.ndim == zi.ndim + 1, "zi must have one dimension less than x.")
+        torch._check(A.dtype == zi.dtype == x.dtype, "A, zi and x must share one dtype.")
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
         torch._check(
@@ -219,10 +229,13 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        torch._check(x.ndim == zi.ndim + 1, "zi must have one dimension less than x.")
+        torch._check(A.dtype == zi.dtype == x.dtype, "A, zi and x must share one dtype.")
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
+        torch._check(x.ndim == 2, "x must be 2D.")
         torch._check(A.ndim <= 1, "A must be 1D or scalar.")
         torch._check(
             zi.shape[0] == x.shape[0], "x and zi must have the same batch size."
@@ -232,7 +245,9 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 1D, its length must match x's batch size.",
             )
-        return torch.empty_like(x)
+        torch._check(x.ndim == zi.ndim + 1, "zi must have one dimension less than x.")
+        torch._check(A.dtype == zi.dtype == x.dtype, "A, zi and x must share one dtype.")
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     torch.library.register_autograd(
         "philtorch::recur2",
-- 
2.43.0


From b2e2a3f6c9803002987593b0e9e5ef21efd676ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 13/22] fix: native recurrences read past the coefficients on a
 batch or time mismatch

recurN/recur2 and lti_recurN/lti_recur2 did not compare the batch and time
sizes of A with those of x, and computed element offsets in 32-bit integers.
---
 philtorch/csrc/host_lti_recur.cpp  | 12 ++++++------
 philtorch/csrc/host_lti_recurN.cpp | 23 +++++++++++++----------
 philtorch/csrc/host_recurN.cpp     | 25 +++++++++++++++----------
 3 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index 96615f9..5815b07 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -2,19 +2,19 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_linear_recurrence(int B, int T,
+void host_lti_batch_linear_recurrence(int64_t B, int64_t T,
                                       const scalar_t *a,
                                       scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t a_b = a[b];
         scalar_t *out_b = out + b * T;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a_b * out_b[t - 1];
         }
@@ -22,17 +22,17 @@ void host_lti_batch_linear_recurrence(int B, int T,
 }
 
 template <typename scalar_t>
-void host_lti_shared_linear_recurrence(int B, int T,
+void host_lti_shared_linear_recurrence(int64_t B, int64_t T,
                                        const scalar_t a,
                                        scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *out_b = out + b * T;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a * out_b[t - 1];
         }
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 2ba902e..c72e1ef 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -2,29 +2,29 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_mat_recur_N_order(int B, int T, int N,
+void host_lti_batch_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
 
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A_b + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
@@ -33,26 +33,26 @@ void host_lti_batch_mat_recur_N_order(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_lti_share_mat_recur_N_order(int B, int T, int N,
+void host_lti_share_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
@@ -69,10 +69,13 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "First dimension of a batched A must match the batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 6c397c9..b849b67 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -79,30 +79,30 @@ void host_batch_mat_recur_N_order(const scalar_t *Ax, scalar_t *out,
 }
 
 template <typename scalar_t>
-void host_batch_mat_recur_N_order_omp(int B, int T, int N,
+void host_batch_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * T * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A_b + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
 
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A_bt + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
@@ -111,27 +111,27 @@ void host_batch_mat_recur_N_order_omp(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_share_mat_recur_N_order_omp(int B, int T, int N,
+void host_share_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A_bt + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
@@ -242,10 +242,15 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Time dimension of A must match the time dimension of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "First dimension of a batched A must match the batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
-- 
2.43.0


From 76b8bf2af8c8b3405a0b8f896db11c850d5d6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 14/22] fix: CUDA recurrences compared dtypes with themselves
 and did not check the size of A

Same size checks and 64-bit element offsets as the CPU kernels.
---
 philtorch/csrc/lti_recur.cu  | 26 +++++++++++++-------------
 philtorch/csrc/lti_recur2.cu | 15 +++++++++------
 philtorch/csrc/recur2.cu     | 25 +++++++++++++++----------
 philtorch/csrc/recur2.cuh    | 24 ++++++++++++------------
 4 files changed, 49 insertions(+), 41 deletions(-)

diff --git a/philtorch/csrc/lti_recur.cu b/philtorch/csrc/lti_recur.cu
index 41e8554..f42aa02 100644
--- a/philtorch/csrc/lti_recur.cu
+++ b/philtorch/csrc/lti_recur.cu
@@ -43,11 +43,11 @@ template <typename T>
 struct lti_batch_recur_input_op
 {
     const T *decays;
-    int n_steps;
-    __host__ __device__ cuda::std::tuple<T, T> operator()(int i, const T &x) const
+    int64_t n_steps;
+    __host__ __device__ cuda::std::tuple<T, T> operator()(int64_t i, const T &x) const
     {
-        int idx = i / n_steps;
-        int offset = i % n_steps;
+        int64_t idx = i / n_steps;
+        int64_t offset = i % n_steps;
         if (offset > 0)
             return thrust::make_tuple(decays[idx], x);
         return thrust::make_tuple(0, x);
@@ -58,10 +58,10 @@ template <typename T>
 struct lti_shared_recur_input_op
 {
     const T decay;
-    int n_steps;
-    __host__ __device__ cuda::std::tuple<T, T> operator()(int i, const T &x) const
+    int64_t n_steps;
+    __host__ __device__ cuda::std::tuple<T, T> operator()(int64_t i, const T &x) const
     {
-        int offset = i % n_steps;
+        int64_t offset = i % n_steps;
         if (offset > 0)
             return thrust::make_tuple(decay, x);
         return thrust::make_tuple(0, x);
@@ -71,12 +71,12 @@ struct lti_shared_recur_input_op
 template <typename scalar_t>
 void lti_batch_linear_recurrence(const scalar_t *decays,
                                  const scalar_t *impulses,
-                                 scalar_t *out, int n_steps, int total_steps)
+                                 scalar_t *out, int64_t n_steps, int64_t total_steps)
 {
-    thrust::counting_iterator<int> it(0);
+    thrust::counting_iterator<int64_t> it(0);
     auto batch_input_op = thrust::make_zip_function(lti_batch_recur_input_op<scalar_t>{decays, n_steps});
     index2key key_op{n_steps};
-    ::cuda::std::equal_to<int> binary_pred;
+    ::cuda::std::equal_to<int64_t> binary_pred;
 
     thrust::inclusive_scan_by_key(
         thrust::device,
@@ -92,12 +92,12 @@ void lti_batch_linear_recurrence(const scalar_t *decays,
 template <typename scalar_t>
 void lti_shared_linear_recurrence(const scalar_t decay,
                                   const scalar_t *impulses,
-                                  scalar_t *out, int n_steps, int total_steps)
+                                  scalar_t *out, int64_t n_steps, int64_t total_steps)
 {
-    thrust::counting_iterator<int> it(0);
+    thrust::counting_iterator<int64_t> it(0);
     auto shared_input_op = thrust::make_zip_function(lti_shared_recur_input_op<scalar_t>{decay, n_steps});
     index2key key_op{n_steps};
-    ::cuda::std::equal_to<int> binary_pred;
+    ::cuda::std::equal_to<int64_t> binary_pred;
 
     thrust::inclusive_scan_by_key(
         thrust::device,
diff --git a/philtorch/csrc/lti_recur2.cu b/philtorch/csrc/lti_recur2.cu
index 8e7b405..c65b598 100644
--- a/philtorch/csrc/lti_recur2.cu
+++ b/philtorch/csrc/lti_recur2.cu
@@ -17,13 +17,13 @@
 
 template <typename scalar_t>
 void lti_batch_mat_recur_second_order(const scalar_t *A, const scalar_t *x,
-                                      scalar_t *out, int n_steps, int total_steps)
+                                      scalar_t *out, int64_t n_steps, int64_t total_steps)
 {
-    thrust::counting_iterator<int> iter(0);
+    thrust::counting_iterator<int64_t> iter(0);
     auto batch_input_op =
         thrust::make_zip_function(lti_batch_A_input_op<scalar_t>{A, n_steps});
     index2key key_op{n_steps};
-    ::cuda::std::equal_to<int> binary_pred;
+    ::cuda::std::equal_to<int64_t> binary_pred;
 
     thrust::inclusive_scan_by_key(
         thrust::device,
@@ -41,13 +41,13 @@ void lti_batch_mat_recur_second_order(const scalar_t *A, const scalar_t *x,
 
 template <typename scalar_t>
 void lti_share_mat_recur_second_order(const scalar_t *A, const scalar_t *x,
-                                      scalar_t *out, int n_steps, int total_steps)
+                                      scalar_t *out, int64_t n_steps, int64_t total_steps)
 {
-    thrust::counting_iterator<int> iter(0);
+    thrust::counting_iterator<int64_t> iter(0);
     auto share_input_op =
         thrust::make_zip_function(lti_share_A_input_op<scalar_t>{A, n_steps});
     index2key key_op{n_steps};
-    ::cuda::std::equal_to<int> binary_pred;
+    ::cuda::std::equal_to<int64_t> binary_pred;
 
     thrust::inclusive_scan_by_key(
         thrust::device,
@@ -75,6 +75,9 @@ at::Tensor lti_mat_recur_second_order_cuda_impl(const at::Tensor &A,
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "First dimension of a batched A must match the batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/recur2.cu b/philtorch/csrc/recur2.cu
index 3e00077..16b39ea 100644
--- a/philtorch/csrc/recur2.cu
+++ b/philtorch/csrc/recur2.cu
@@ -17,11 +17,11 @@
 
 template <typename scalar_t>
 void batch_mat_recur_second_order(const scalar_t *A, const scalar_t *x,
-                                  scalar_t *out, int n_steps,
-                                  int total_steps)
+                                  scalar_t *out, int64_t n_steps,
+                                  int64_t total_steps)
 {
-    thrust::counting_iterator<int> iter(0);
-    ::cuda::std::equal_to<int> binary_pred;
+    thrust::counting_iterator<int64_t> iter(0);
+    ::cuda::std::equal_to<int64_t> binary_pred;
     index2key key_op{n_steps};
 
     thrust::inclusive_scan_by_key(
@@ -43,11 +43,11 @@ void batch_mat_recur_second_order(const scalar_t *A, const scalar_t *x,
 template <typename scalar_t>
 void share_mat_recur_second_order(const scalar_t *A,
                                   const scalar_t *x,
-                                  scalar_t *out, int n_steps,
-                                  int total_steps)
+                                  scalar_t *out, int64_t n_steps,
+                                  int64_t total_steps)
 {
-    thrust::counting_iterator<int> iter(0);
-    ::cuda::std::equal_to<int> binary_pred;
+    thrust::counting_iterator<int64_t> iter(0);
+    ::cuda::std::equal_to<int64_t> binary_pred;
     index2key key_op{n_steps};
     auto share_input_op =
         thrust::make_zip_function(share_A_input_op<scalar_t>{A, n_steps});
@@ -70,14 +70,19 @@ at::Tensor mat_recur_second_order_cuda_impl(const at::Tensor &A,
                                             const at::Tensor &zi,
                                             const at::Tensor &x)
 {
-    TORCH_CHECK(zi.scalar_type() == zi.scalar_type(),
+    TORCH_CHECK(zi.scalar_type() == x.scalar_type(),
                 "zi must have the same scalar type as input");
-    TORCH_CHECK(A.scalar_type() == A.scalar_type(),
+    TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Time dimension of A must match the time dimension of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "First dimension of a batched A must match the batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/recur2.cuh b/philtorch/csrc/recur2.cuh
index 0f43db4..5d43e1a 100644
--- a/philtorch/csrc/recur2.cuh
+++ b/philtorch/csrc/recur2.cuh
@@ -34,11 +34,11 @@ template <typename T>
 struct share_A_input_op
 {
     const T *A;
-    int n_steps;
-    __host__ __device__ sqm2_pair<T> operator()(int i, const T &x_0,
+    int64_t n_steps;
+    __host__ __device__ sqm2_pair<T> operator()(int64_t i, const T &x_0,
                                                 const T &x_1) const
     {
-        int idx = i % n_steps;
+        int64_t idx = i % n_steps;
         return thrust::make_tuple(A[idx], A[idx + n_steps],
                                   A[idx + n_steps * 2], A[idx + n_steps * 3],
                                   x_0, x_1);
@@ -49,12 +49,12 @@ template <typename T>
 struct lti_batch_A_input_op
 {
     const T *A;
-    int n_steps;
-    __host__ __device__ sqm2_pair<T> operator()(int i, const T &x_0,
+    int64_t n_steps;
+    __host__ __device__ sqm2_pair<T> operator()(int64_t i, const T &x_0,
                                                 const T &x_1) const
     {
-        int idx = i / n_steps * 4;
-        int offset = i % n_steps;
+        int64_t idx = i / n_steps * 4;
+        int64_t offset = i % n_steps;
         if (offset > 0)
             return thrust::make_tuple(A[idx], A[idx + 1], A[idx + 2], A[idx + 3], x_0, x_1);
         return thrust::make_tuple(0, 0, 0, 0, x_0, x_1);
@@ -65,11 +65,11 @@ template <typename T>
 struct lti_share_A_input_op
 {
     const T *A;
-    int n_steps;
-    __host__ __device__ sqm2_pair<T> operator()(int i, const T &x_0,
+    int64_t n_steps;
+    __host__ __device__ sqm2_pair<T> operator()(int64_t i, const T &x_0,
                                                 const T &x_1) const
     {
-        int offset = i % n_steps;
+        int64_t offset = i % n_steps;
         if (offset > 0)
             return thrust::make_tuple(A[0], A[1], A[2], A[3], x_0, x_1);
         return thrust::make_tuple(0, 0, 0, 0, x_0, x_1);
@@ -78,6 +78,6 @@ struct lti_share_A_input_op
 
 struct index2key
 {
-    int n_steps;
-    __host__ __device__ int operator()(int i) const { return i / n_steps; }
+    int64_t n_steps;
+    __host__ __device__ int64_t operator()(int64_t i) const { return i / n_steps; }
 };
\ No newline at end of file
-- 
2.43.0


From 711eb5e60185643a7f96d3062d7578553bd7a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 15/22] fix: prototype polynomial helpers used the default
 dtype and device

roots also failed for a polynomial with a single non-zero coefficient.
---
 philtorch/prototype/poly.py   | 8 ++++----
 philtorch/prototype/signal.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 4a715d6..c9ff8b8 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -31,11 +31,11 @@ def roots(p: Tensor) -> Tensor:
         raise ValueError("Input must be a rank-1 array.")
 
     # find non-zero array entries
-    non_zero = torch.nonzero(p).squeeze()
+    non_zero = torch.nonzero(p).view(-1)
 
     # Return an empty array if polynomial is all zeros
     if non_zero.numel() == 0:
-        return torch.tensor([])
+        return p.new_zeros(0, dtype=p.dtype.to_complex())
 
     # find the number of trailing zeros -- this is the number of roots at 0.
     trailing_zeros = p.numel() - non_zero[-1] - 1
@@ -51,7 +51,7 @@ def roots(p: Tensor) -> Tensor:
         A[0, :] = -p[1:] / p[0]
         roots = torch.linalg.eigvals(A)
     else:
-        roots = torch.tensor([])
+        roots = p.new_zeros(0, dtype=p.dtype.to_complex())
 
     # tack any zeros onto the back of the array
     if trailing_zeros > 0:
@@ -159,7 +159,7 @@ def polyder(p: Tensor, m: int = 1) -> Tensor:
         return p.new_zeros(1)
 
     n = len(p) - 1
-    y = p[:-1] * torch.arange(n, 0, -1, device=p.device).float()
+    y = p[:-1] * torch.arange(n, 0, -1, device=p.device)
     return polyder(y, m - 1)
 
 
diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index bd239ed..956c146 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -116,7 +116,7 @@ def residue(
     poles = roots(a)
 
     if b.numel() < a.numel():
-        k = torch.empty(0)
+        k = b.new_empty(0)
     else:
         k, b = polydiv(b, a)
 
@@ -148,7 +148,7 @@ def residuez(
     a_rev = a.flip(0)
 
     if len(b_rev) < len(a_rev):
-        k_rev = torch.empty(0)
+        k_rev = b.new_empty(0)
     else:
         k_rev, b_rev = polydiv(b_rev, a_rev)
 
@@ -162,7 +162,7 @@ def residuez(
     poles = torch.stack(
         sum([[pole] * mult for pole, mult in zip(unique_poles, multiplicity)], [])
     )
-    powers = torch.concat([torch.arange(0, mult) + 1 for mult in multiplicity])
+    powers = torch.concat([torch.arange(1, mult + 1, device=poles.device) for mult in multiplicity.tolist()])
 
     residues = residues * (-poles) ** powers / a_rev[0]
 
-- 
2.43.0


From a0250cd97d77696da373b7be07f8b2a1ff2c6ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 16/22] fix: lpv ssm lfilter tdf1 uses the previous step's
 denominator coefficients

---
 philtorch/lpv/filtering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index f2332a4..2679896 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -337,6 +337,9 @@ def _ssm_lfilter(
                 ),
             )
         case "tdf1":
+            # The transposed recursion holds the products a[n] * y[n] in its state,
+            # so the transition into time step n is driven by the coefficients at n - 1.
+            A = companion(F.pad(a[..., :-1, :], (0, 0, 1, 0)))
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
                 partial(
-- 
2.43.0


From baead7615bf97be86c5ed745be15014fdefc7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 17/22] fix: lti lfilter(backend="diag_ssm") rejects an initial
 state it used to drop silently

---
 philtorch/lti/filtering.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 62ea9ff..44895b7 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -340,7 +340,12 @@ def _diag_ssm_lfilter(
     """Apply a batch of time-invariant linear filters to input signal using state-space model."""
 
     if b.size(-1) > a.size(-1) + 1:
-        zi = None
+        if zi is not None:
+            # the direct FIR part has a memory that M_a initial values cannot hold
+            raise ValueError(
+                "Initial conditions zi are not supported by the diag_ssm backend "
+                "when the numerator is longer than the denominator."
+            )
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
             direct_filt = partial(fir, q.broadcast_to((x.size(0), -1)))
-- 
2.43.0


From b3012e40c82e4c1d1368575cd23a704c3e4c7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:36 +0000
Subject: [PATCH 18/22] fix: CUDA recur2 accepts a channels_last A (pad keeps
 the memory format, so view fails)

---
 philtorch/csrc/recur2.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/csrc/recur2.cu b/philtorch/csrc/recur2.cu
index 16b39ea..985c6eb 100644
--- a/philtorch/csrc/recur2.cu
+++ b/philtorch/csrc/recur2.cu
@@ -88,7 +88,7 @@ at::Tensor mat_recur_second_order_cuda_impl(const at::Tensor &A,
     auto n_batches = x.size(0);
 
     auto A_contiguous =
-        at::pad(A, {0, 0, 0, 0, 1, 0}).view({-1, 4}).t().contiguous();
+        at::pad(A, {0, 0, 0, 0, 1, 0}).reshape({-1, 4}).t().contiguous();
     auto x_contiguous =
         at::cat({zi.unsqueeze(1), x}, 1).view({-1, 2}).t().contiguous();
     auto out = at::empty_like(x_contiguous);
-- 
2.43.0


From 4f4dc3eff54bed5846ae2ad9347efda73de76ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:52 +0000
Subject: [PATCH 19/22] fix: matrices_cumdot multiplied groups in the wrong
 order for composite lengths

---
 philtorch/mat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 8fe0549..fbb623b 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -155,8 +155,12 @@ def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
     if A.dim() == leading_dims + 3:
         return accums
 
-    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims)
-    tmp = accums[..., 1:, :-1, :, :] @ higher_powers[..., :-1, None, :, :]
+    # the products of the whole groups, in one row, carry over into the following group
+    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims).flatten(
+        leading_dims, -3
+    )
+    accums = accums.flatten(leading_dims, -4)
+    tmp = higher_powers[..., :-1, None, :, :] @ accums[..., 1:, :-1, :, :]
     return torch.cat(
         [
             accums[..., :1, :, :, :],
-- 
2.43.0


From 1aec6e176c453d5b30984204634782bf7f677946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:45 +0000
Subject: [PATCH 20/22] fix: lpv linear_recurrence silently truncated when a
 batched a had another length than x

---
 philtorch/lpv/recur.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index 1dc9fcd..aab92ac 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -38,9 +38,9 @@ def linear_recurrence(
     """
     assert x.dim() == 2, f"Input x must be 2D, got {x.shape}"
     assert a.dim() in (1, 2), f"State matrix a must be 1D or 2D, got {a.shape}"
-    if a.dim() == 1 and a.size(0) != x.size(1):
+    if a.size(-1) != x.size(1):
         raise ValueError(
-            f"State matrix a must be 1D with the same length as x, got a: {a.size(0)}, x: {x.size(1)}"
+            f"State matrix a must have the same length as x, got a: {a.size(-1)}, x: {x.size(1)}"
         )
 
     batch_size, N = x.size(0), x.size(1)
-- 
2.43.0


From 9107213e918fde6c9fd7673b66cffa6ebd33139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:05 +0000
Subject: [PATCH 21/22] fix: polyval of a constant polynomial keeps the shape
 of the points

---
 philtorch/prototype/poly.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index c9ff8b8..3fccd7e 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -121,9 +121,7 @@ def polyval(p: Tensor, x: Tensor) -> Tensor:
     Evaluate a polynomial at specific values.
     """
     p = trim_zeros(p)
-    if p.numel() == 1:
-        return p
-    return reduce(lambda y, pv: y * x + pv, p.unbind(0))
+    return reduce(lambda y, pv: y * x + pv, p.unbind(0), torch.zeros_like(x))
 
 
 def polysub(a1: Tensor, a2: Tensor) -> Tensor:
-- 
2.43.0


From 008894a61f8c2c6dd87c986a081ead98e233138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:28 +0000
Subject: [PATCH 22/22] fix: sos2pfe marks the two roots of a section, not of
 two neighbouring sections, as complex

---
 philtorch/prototype/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index 956c146..29a6e9e 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -202,7 +202,7 @@ def sos2pfe(
         ).flatten()
         * 0.5
     )
-    is_complex_root_ext = is_complex_root.repeat(2)
+    is_complex_root_ext = is_complex_root.repeat_interleave(2)
     unique_poles, multiplicity, is_complex = unique_roots(
         all_roots, tol=tol, rtype=rtype, is_complex=is_complex_root_ext
     )
-- 
2.43.0

