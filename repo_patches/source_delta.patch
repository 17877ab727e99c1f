From 5dd0871daba1cf7e2f09bde59583be9a50bbffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:13 +0000
Subject: [PATCH 01/28] fix: AuxIVA_IP crashes when n_src is left to its
 default

n_src=None is documented (all channels are separated) but was passed to torch.eye.
---
 torchiva/auxiva_ip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index f583edf..86803b3 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -221,6 +221,9 @@ class AuxIVA_IP(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        if n_src is None:
+            n_src = n_chan
+
         # for now, only supports determined case
         assert callable(model)
 
-- 
2.43.0


From aa54aa5b943cda985d229d9a42bb5f9296119ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:13 +0000
Subject: [PATCH 02/28] fix: AuxIVA_IP output shape when the reference mic is a
 background channel

In the overdetermined case with proj_back_mic >= n_src the right-hand side already
has the batch dimensions; they were added a second time.
---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 86803b3..71be650 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -96,7 +96,7 @@ def projection_back_from_demixing_matrix(
             e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
 
         WW = A + B @ C
-        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape)
+        e1 = torch.broadcast_to(e1, WW.shape[:-1] + (1,))
         a = solve_loaded_general(WW.transpose(-2, -1), e1)
         a = a.transpose(-3, -2)
 
-- 
2.43.0


From 49ba8d9e4bc5fa4b2e64a466c5f998abb687f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:13 +0000
Subject: [PATCH 03/28] fix: T_ISS fails on batched input when the reference
 mic is a background channel

---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..1e2a14f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -287,7 +287,7 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
             rhs = eye[:, [ref_mic]]
         else:
             rhs = J[..., [ref_mic - n_src], :, :]
-            rhs = rhs.permute([-2, -1, -3])
+            rhs = rhs.moveaxis(-3, -1)
 
         lhs = torch.einsum("...sfc->...fcs", B)
 
-- 
2.43.0


From 276bbb7214e142e195d1bd57ac9aa13bd6003b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:13 +0000
Subject: [PATCH 04/28] fix: FIVE without projection back returns a tensor of
 the wrong shape

Indexing with proj_back_mic=None inserted a new axis instead of skipping the
projection.
---
 torchiva/five.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 677c2ad..dad3da9 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -193,7 +193,8 @@ class FIVE(DRBSSBase):
 
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
-        Qinv_ref = Qinv[..., proj_back_mic, :]
+        if proj_back_mic is not None:
+            Qinv_ref = Qinv[..., proj_back_mic, :]
         # Qinv_ref = e_vec[..., proj_back_mic, None, :] * e_val_sqrt[..., None, :]
 
         # keep the input for scaling
@@ -235,8 +236,11 @@ class FIVE(DRBSSBase):
                 )
 
             # projection back
-            z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
-            w = eigenvector * torch.conj(z[..., None])
+            if proj_back_mic is not None:
+                z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
+                w = eigenvector * torch.conj(z[..., None])
+            else:
+                w = eigenvector
 
             # the new output
             Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
-- 
2.43.0


From 1c15c0d1ddea726a3f879ab2fd3d211f0d395105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:13 +0000
Subject: [PATCH 05/28] fix: FIVE with a single power iteration uses an
 unassigned variable

The initial vector is now also normalized over the channels, as in the following
iterations, rather than over the frequencies.
---
 torchiva/five.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index dad3da9..281c5fb 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -59,7 +59,8 @@ def smallest_eigenvector_power_method(V, n_iter=10):
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
-    x = normalize(x)
+    ev = torch.linalg.norm(x, dim=-1)
+    x = x / ev[..., None]
 
     for epoch in range(n_iter - 1):
         x = torch.einsum("...fcd,...fd->...fc", V_inv, x)
-- 
2.43.0


From f0d4de3f89e03270b3fd4b86fde35402610479c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:49 +0000
Subject: [PATCH 06/28] fix: eigh_2x2 computes generalised eigenvalues in
 single precision for double input

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 56775a1..41f9bb1 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -197,7 +197,7 @@ def eigh_2x2(
         delta = pt.clamp(delta, min=eps)
 
         # fill the eigenvectors in ascending order
-        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
+        eigenvalues = delta.new_zeros(A.shape[:-1])
         eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
 
-- 
2.43.0


From f1ec8863695b5d53524725768819a22dd19dcb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:03 +0000
Subject: [PATCH 07/28] fix: FIVE with two channels whitens with conjugated
 eigenvectors

---
 torchiva/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 41f9bb1..6d316f4 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -279,8 +279,8 @@ def eigh(
     Eigenvalue decomposition of a complex Hermitian symmetric matrix
     """
 
-    # for 2x2, use specialized routine
-    if A.shape[-1] == 2:
+    # for 2x2 generalized problems, use specialized routine
+    if B is not None and A.shape[-1] == 2:
         return eigh_2x2(A, B=B, eps=eps)
 
     if B is not None:
-- 
2.43.0


From a962542dd17860ad2c2d1cd5467fec724dcead73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:45 +0000
Subject: [PATCH 08/28] fix: STFT cannot be built with a custom window

---
 torchiva/stft.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 083be5a..ff4f38f 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -39,10 +39,12 @@ class STFT(torch.nn.Module):
         self._n_freq = n_fft // 2 + 1
         self._hop_length = hop_length
 
-        if dtype is None and (window is None or isinstance(window, str)):
-            self.dtype = torch.zeros(1).dtype  # trick to get default type of torch
-        else:
+        if dtype is not None:
             self.dtype = dtype
+        elif isinstance(window, torch.Tensor):
+            self.dtype = window.dtype
+        else:
+            self.dtype = torch.zeros(1).dtype  # trick to get default type of torch
 
         if window is None:
             window = "hann"
@@ -51,7 +53,7 @@ class STFT(torch.nn.Module):
             self._window_type = window
             window = get_window(window, self._n_fft)
         else:
-            self.window_type = "custom"
+            self._window_type = "custom"
 
         if isinstance(window, np.ndarray):
             window = torch.from_numpy(window)
-- 
2.43.0


From 73bd62b9b6c0ec1f3a124c5280f190fe4d27c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 09/28] fix: separate command feeds only the first n_src
 channels to the separator

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..20bb4d6 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,7 +48,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-- 
2.43.0


From ec8f69853682fa6acdbeb3e773603c28e3d8fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 10/28] fix: separate command crashes when the separator
 returns more than n_src signals

---
 torchiva/separate.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 20bb4d6..d42035e 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -52,9 +52,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-            y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
-            )
+            y = torchiva.select_most_energetic(y, num=n_src, dim=-2, dim_reduc=-1)
 
         # make same size as input
         pad_len = mix.shape[-1] - y.shape[-1]
-- 
2.43.0


From 70b64a80626ee4f4baadefea3843b4b409761c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 11/28] fix: separate command ignores --n_iter for the classic
 source models

---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index d42035e..0b1a53b 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -193,6 +193,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 3d78ccfe2bbb0c569b47e8228faaa2f9a397d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 12/28] fix: separate command overwrites its input when the
 output is the folder that contains it

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 0b1a53b..14205b2 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -234,7 +234,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
+        if path_out.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From b12db5cc520979958b6880aa246a2c5ccac08191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 13/28] fix: separate command loses results of files with the
 same name and can overwrite input files of a folder

---
 torchiva/separate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 14205b2..1c556db 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -216,8 +216,16 @@ def main(args):
         if args.output == args.input:
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+        # keep the folder structure so that every file has its own output
+        paths_in = sorted(args.input.rglob("*.wav"))
+        paths_out = [args.output / p.relative_to(args.input) for p in paths_in]
+
+        # the inputs must not be overwritten (e.g., nested or linked folders)
+        if {p.resolve() for p in paths_in} & {p.resolve() for p in paths_out}:
+            raise ValueError("The output would overwrite some of the input files")
+
+        for path_in, path_out in zip(paths_in, paths_out):
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From 2bb8591fed28ffad14447877f9d604a08c064527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 14/28] fix: interrupted model download leaves a partial file
 that later calls load

---
 torchiva/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..244e5f8 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -40,7 +40,10 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            # only a complete download gets the final name
+            part_fn = fn.with_name(f"{fn.name}.{os.getpid()}.part")
+            urlretrieve(url, filename=part_fn)
+            os.replace(part_fn, fn)
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From 925aedd9e19428e9e488a2119c022543014982b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 15/28] fix: models from different URLs with the same last
 component share one cache entry

---
 torchiva/loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 244e5f8..0737575 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -7,7 +7,7 @@ import yaml
 
 from .nn import BSSSeparator
 
-from urllib.parse import urlparse
+from urllib.parse import quote, urlparse
 from urllib.request import urlretrieve
 
 WEIGHTS_FN = "model_weights.ckpt"
@@ -25,8 +25,8 @@ def urljoin(part1, part2):
 
 
 def get_model_from_url(url):
-    path = Path(url)
-    model_name = path.name
+    # one cache folder per URL
+    model_name = quote(url.rstrip("/"), safe="")
     yaml_url = urljoin(url, CONFIG_FN)
     ckpt_url = urljoin(url, WEIGHTS_FN)
     print(url)
-- 
2.43.0


From 6cdfabf96e5f1012f6e61a42eb25e60a0e1978f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 16/28] fix: diagonal_loading uses an undefined name and
 ignores its argument

---
 torchiva/linalg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 6d316f4..b6dd750 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -144,9 +144,7 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     """
     Load the diagonal of A with the vector d
     """
-    D = pt.diag(pt.arange(A.shape[-1], device=A.device) * eps)
-    D = D.reshape(pt.Size([1] * (len(A.shape) - 2)) + A.shape[-2:])
-    return A + D
+    return A + pt.diag_embed(d)
 
 
 def eigh_2x2(
-- 
2.43.0


From cf7c43ddf6b76bd92c40fb853c156a03a7cfedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 17/28] fix: WPE does not reset the source model

---
 torchiva/wpe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/wpe.py b/torchiva/wpe.py
index e710278..5d606b5 100644
--- a/torchiva/wpe.py
+++ b/torchiva/wpe.py
@@ -151,6 +151,9 @@ class WPE(DRBSSBase):
             eps=eps,
         )
 
+        # initialize source model if NMF
+        self._reset(model)
+
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
-- 
2.43.0


From 751c47228d1260e785804467c0b0d7d4f6912101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 18/28] fix: AuxIVA_IP verbose cost crashes on batched input

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 71be650..1b6ed7a 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -106,7 +106,7 @@ def projection_back_from_demixing_matrix(
 
 
 def cost(model, Y, W, J=None, g=None):
-    n_freq, n_src, n_chan = W.shape
+    n_freq, n_src, n_chan = W.shape[-3:]
     n_frames = Y.shape[-1]
 
     if J is not None:
-- 
2.43.0


From 653da97c138db667ac6a8bb10d104b171f808f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:50 +0000
Subject: [PATCH 19/28] fix: MWF ignores eps

---
 torchiva/beamformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 1cc4be7..e32bb89 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -59,7 +59,9 @@ def compute_mwf_bf(
         return W_H
 
     else:
-        w = solve_loaded(covmat_target + covmat_noise, covmat_target[..., ref_mic])
+        w = solve_loaded(
+            covmat_target + covmat_noise, covmat_target[..., ref_mic], load=eps
+        )
         return w
 
 
-- 
2.43.0


From eb742a8f0f1d7ec807794100bcb777e35beba0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:50 +0000
Subject: [PATCH 20/28] fix: MVDR with an unknown type or number of masks fails
 with an unbound variable

---
 torchiva/beamformer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index e32bb89..e95a381 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -282,6 +282,9 @@ class MVDRBeamformer(BFBase):
                 # compute the beamforming weights directly with spatial covariance matrices (scm)
                 bf = compute_mvdr_bf2(R_tgt, R_noise, ref_mic=ref_mic, eps=eps)
 
+            else:
+                raise ValueError(f"Unknown MVDR type {mvdr_type}")
+
         elif n_masks == 3:
             # if two noise masks are estimated as in [C. Boeddeker+, 2021]
             # compute the covariance matrices
@@ -302,6 +305,9 @@ class MVDRBeamformer(BFBase):
             # shape (..., n_freq, n_chan)
             bf = compute_mvdr_bf(R_noise, rtf, eps=eps)
 
+        else:
+            raise ValueError(f"MVDR requires 2 or 3 masks, got {n_masks}")
+
         # compute output
         Y = torch.einsum("...cfn,...sfc->...sfn", X, bf.conj())
 
-- 
2.43.0


From b8349e057475586b2cd01dbbd225895dced56048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 21/28] fix: SimpleModel applies its floor inside the sigmoid,
 so masks can reach zero

---
 torchiva/models/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/models/simple.py b/torchiva/models/simple.py
index 4a8e05e..c5962fd 100644
--- a/torchiva/models/simple.py
+++ b/torchiva/models/simple.py
@@ -40,7 +40,7 @@ class SimpleModel(nn.Module):
         # output mapping
         x = self.output_mapping(x)
 
-        x = torch.sigmoid(self.eps + (1 - self.eps) * x)
+        x = self.eps + (1 - self.eps) * torch.sigmoid(x)
 
         # go back to feature (freq) second
         x = x.transpose(-2, -1)
-- 
2.43.0


From 9a623d7f467f8a0dbedc5eec63b30318ad11fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:32 +0000
Subject: [PATCH 22/28] fix: FIVE ignores eps

---
 torchiva/five.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 281c5fb..4fb726d 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -33,7 +33,7 @@ def normalize(x):
     return x / torch.linalg.norm(x, dim=-2, keepdim=True)
 
 
-def smallest_eigenvector_eigh_cpu(V):
+def smallest_eigenvector_eigh_cpu(V, eps=1e-5):
     dev = V.device
 
     # diagonal loading factor
@@ -43,19 +43,19 @@ def smallest_eigenvector_eigh_cpu(V):
     r = torch.linalg.eigh(V)
 
     ev = r.eigenvalues[..., 0].to(dev)
-    ev = torch.reciprocal(torch.clamp(ev, min=1e-5))
+    ev = torch.reciprocal(torch.clamp(ev, min=eps))
 
     x = r.eigenvectors[..., :, 0].to(dev)
 
     return ev, x
 
 
-def smallest_eigenvector_power_method(V, n_iter=10):
+def smallest_eigenvector_power_method(V, n_iter=10, eps=1e-5):
 
     assert V.shape[-2] == V.shape[-1]
 
     # compute inverse of input matrix
-    V_inv = inv_loaded(V, load=1e-5)
+    V_inv = inv_loaded(V, load=eps)
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
@@ -188,7 +188,7 @@ class FIVE(DRBSSBase):
         e_val = torch.flip(e_val, dims=[-1])
 
         # compute the whitening matrix
-        e_val_sqrt = torch.sqrt(torch.clamp(e_val, min=1e-5))
+        e_val_sqrt = torch.sqrt(torch.clamp(e_val, min=eps))
         Q = torch.reciprocal(e_val_sqrt[..., :, None]) * hermite(e_vec)
         Qinv = e_vec * e_val_sqrt[..., None, :]
 
@@ -230,10 +230,12 @@ class FIVE(DRBSSBase):
             # inv_eigenvalue (..., n_freq)
             # eigenvector (..., n_freq, n_chan)
             if n_power_iter is None:
-                inv_eigenvalue, eigenvector = smallest_eigenvector_eigh_cpu(V)
+                inv_eigenvalue, eigenvector = smallest_eigenvector_eigh_cpu(
+                    V, eps=eps
+                )
             else:
                 inv_eigenvalue, eigenvector = smallest_eigenvector_power_method(
-                    V, n_iter=n_power_iter
+                    V, n_iter=n_power_iter, eps=eps
                 )
 
             # projection back
-- 
2.43.0


From 77e61138077714ce6ce445f2e75a2c8a76d20814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 23/28] fix: results of the separation command can replace each
 other through links in the output folder

---
 torchiva/separate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 1c556db..19e8d4c 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -221,8 +221,11 @@ def main(args):
         paths_out = [args.output / p.relative_to(args.input) for p in paths_in]
 
         # the inputs must not be overwritten (e.g., nested or linked folders)
-        if {p.resolve() for p in paths_in} & {p.resolve() for p in paths_out}:
+        targets = {p.resolve() for p in paths_out}
+        if {p.resolve() for p in paths_in} & targets:
             raise ValueError("The output would overwrite some of the input files")
+        if len(targets) < len(paths_out):
+            raise ValueError("Several results would be written to the same file")
 
         for path_in, path_out in zip(paths_in, paths_out):
             path_out.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 25e1c372642f131ec9a514f6e7871ee744eb3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:13 +0000
Subject: [PATCH 24/28] fix: a folder named like a wav file stops the
 separation command

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 19e8d4c..533f629 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -217,7 +217,7 @@ def main(args):
             raise ValueError("Input and output should be different folders")
 
         # keep the folder structure so that every file has its own output
-        paths_in = sorted(args.input.rglob("*.wav"))
+        paths_in = sorted(p for p in args.input.rglob("*.wav") if p.is_file())
         paths_out = [args.output / p.relative_to(args.input) for p in paths_in]
 
         # the inputs must not be overwritten (e.g., nested or linked folders)
-- 
2.43.0


From 575dd9d897816e8cc89dd7c89a8066b5673ccf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 25/28] fix: minimum distortion with a weight model fails or
 mixes batch items

---
 torchiva/scaling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 2aa3553..9d1396d 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -181,7 +181,6 @@ def minimum_distortion(
         error = ref[..., :, None, :] - c[..., :, :, None] * Y
         if model is not None:
             weights = model(error.transpose(-3, -2)).transpose(-3, -2)
-            weights = weights[..., 0, 0, :, :]
 
             # let us normalize the weights along the time axis
             norm = pt.sum(weights, dim=-1, keepdim=True)
-- 
2.43.0


From 63b17c0be0b25ec314f4035ce5b47caac2789fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:33 +0000
Subject: [PATCH 26/28] fix: exported models are read back as another algorithm

The export script does not write the algorithm the model was trained
with, so the loader builds the default one (T-ISS) around the exported
network; for the beamforming models it then fails on the first signal.
---
 examples/export_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/export_model.py b/examples/export_model.py
index 1365254..dbab056 100644
--- a/examples/export_model.py
+++ b/examples/export_model.py
@@ -24,6 +24,7 @@ if __name__ == "__main__":
     if "ref_mic" in model_config:
         ref_mic = model_config.pop("ref_mic")
         model_config["proj_back_mic"] = ref_mic
+    model_config["algo"] = hparams["config"]["algorithm"]
     state_dict = separator.state_dict()
 
     args.output.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From f87477c5400e5732d9490d44ae6abc04e8fd1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 27/28] fix: background of overdetermined T-ISS is not
 orthogonal to the sources

The separated signal is W X - H X_bar, so that the correlation with the input
is W C_XX - H C_XbarX.  With the wrong sign the background filter J does not
satisfy the orthogonal constraint E[Y Z^H] = 0 as soon as n_taps > 0.
---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 1e2a14f..a857c82 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -202,7 +202,7 @@ def background_update(W, H, C_XX, C_XbarX, eps=1e-5):
 
     A1 = torch.einsum("...sfc,...cfd->...fsd", W, C_XX)
     A2 = torch.einsum("...sfdt,...dtfc->...fsc", H, C_XbarX)
-    A = A1 + A2  # (..., n_freq, n_src, n_chan)
+    A = A1 - A2  # (..., n_freq, n_src, n_chan)
 
     mat = A[..., :n_src]
     rhs = A[..., n_src:]
-- 
2.43.0


From b915422f72c12bc800b38c6641484a4f88e147a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 28/28] Revert the change to examples/export_model.py

Reverts 63b17c0: the export script is left as it was; the defect is recorded as a known finding.
---
 examples/export_model.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/examples/export_model.py b/examples/export_model.py
index dbab056..1365254 100644
--- a/examples/export_model.py
+++ b/examples/export_model.py
@@ -24,7 +24,6 @@ if __name__ == "__main__":
     if "ref_mic" in model_config:
         ref_mic = model_config.pop("ref_mic")
         model_config["proj_back_mic"] = ref_mic
-    model_config["algo"] = hparams["config"]["algorithm"]
     state_dict = separator.state_dict()
 
     args.output.mkdir(parents=True, exist_ok=True)
-- 
2.43.0

