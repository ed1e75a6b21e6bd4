From 39cf9e1c44cc53c82517b0eac3648f57a55f5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 01/77] fix: load checkpoint files with recent pytorch versions

Checkpoints hold numpy arrays and python objects, which torch.load refuses
since weights_only became the default.
---
 src/cdtools/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 943f5ed..02155f7 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -372,7 +372,7 @@ class CDIModel(t.nn.Module):
                 + '_' + str(self.current_checkpoint_id) + '.pt'
             )
 
-        checkpoint = t.load(checkpoint_file)
+        checkpoint = t.load(checkpoint_file, weights_only=False)
         
         state_dict = nested_dict_to_torch(checkpoint['state_dict'])
         self.load_state_dict(state_dict)
-- 
2.43.0


From 091bc637812585ed5bdf409d90b9adfe4469b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 02/77] fix: store the current optimizer on the model so
 checkpoints include it

CDIModel.save_checkpoint and load_checkpoint look for the optimizer on the
model, but Reconstructor.optimize stored it on the reconstructor.
---
 src/cdtools/reconstructors/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index ed8afc1..63d9b66 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -317,7 +317,7 @@ class Reconstructor:
 
         # We store the current optimizer as a model parameter so that
         # it can be saved and loaded for checkpointing
-        self.current_optimizer = self.optimizer
+        self.model.current_optimizer = self.optimizer
 
         # If we don't want to run in a different thread, this is easy
         if not thread:
@@ -394,4 +394,4 @@ class Reconstructor:
                 yield res
 
         # And finally, we unset the current optimizer:
-        self.current_optimizer = None
+        self.model.current_optimizer = None
-- 
2.43.0


From 6cdbdce24c5ab9b3a112452bb03e0d9ae3280f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 03/77] fix: count skipped epochs on the model when not
 threading

---
 src/cdtools/reconstructors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 63d9b66..de67044 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -323,7 +323,7 @@ class Reconstructor:
         if not thread:
             for it in range(iterations):
                 if self.model.skip_computation():
-                    self.epoch = self.epoch + 1
+                    self.model.epoch = self.model.epoch + 1
                     if len(self.model.loss_history) >= 1:
                         yield self.model.loss_history[-1]
                     else:
-- 
2.43.0


From e76cb6f51d2b09a542a44f021dae589e5088097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 04/77] fix: create a data loader when no batch size is given

---
 src/cdtools/reconstructors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index de67044..23c6caf 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -100,7 +100,7 @@ class Reconstructor:
                                              batch_size=batch_size,
                                              shuffle=shuffle)
         else:
-            self.data_loader = td.Dataloader(self.dataset)
+            self.data_loader = td.DataLoader(self.dataset, shuffle=shuffle)
 
             
     def adjust_optimizer(self, **kwargs):
-- 
2.43.0


From 755ea2ed549e4782c173aa94a99d5fc5989548da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 05/77] fix: honour the shuffle argument of
 SGDReconstructor.optimize

---
 src/cdtools/reconstructors/sgd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/reconstructors/sgd.py b/src/cdtools/reconstructors/sgd.py
index c5c495a..5c9b00a 100644
--- a/src/cdtools/reconstructors/sgd.py
+++ b/src/cdtools/reconstructors/sgd.py
@@ -252,4 +252,5 @@ class SGDReconstructor(Reconstructor):
             regularization_factor=regularization_factor,
             thread=thread,
             calculation_width=calculation_width,
+            shuffle=shuffle,
         )
-- 
2.43.0


From 70acb37dc31a6ce2e599d0a4c3fdd7e8ea2f5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 06/77] fix: pad the quantum efficiency mask along with the
 patterns

---
 src/cdtools/datasets/ptycho_2d_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index 5a84ca1..fcd2ad8 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -368,6 +368,8 @@ class Ptycho2DDataset(CDataset):
                 self.mask = t.nn.functional.pad(self.mask, to_pad, value=False)
             else:
                 self.mask = t.nn.functional.pad(self.mask, to_pad, value=True)
+        if self.qe_mask is not None:
+            self.qe_mask = t.nn.functional.pad(self.qe_mask, to_pad, value=1)
         if self.background is not None:
             self.background = t.nn.functional.pad(self.background, to_pad)
         
-- 
2.43.0


From 7780436478bc826d751713e6d8f1487faab23a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 07/77] fix: keep the mask boolean when a dtype is passed
 positionally to dataset.to

---
 src/cdtools/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/datasets/base.py b/src/cdtools/datasets/base.py
index 3f8ec8c..f854dde 100644
--- a/src/cdtools/datasets/base.py
+++ b/src/cdtools/datasets/base.py
@@ -109,7 +109,7 @@ class CDataset(torchdata.Dataset):
             pass
 
         if self.mask is not None:
-            self.mask = self.mask.to(*args,**mask_kwargs)
+            self.mask = self.mask.to(*args,**mask_kwargs).to(dtype=t.bool)
         if self.qe_mask is not None:
             self.qe_mask = self.qe_mask.to(*args,**kwargs)
         if self.background is not None:
-- 
2.43.0


From 331368a7db719562ec613217be7cc5660fb6484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 08/77] fix: mask off NaN pixels in datasets loaded from .cxi
 files

Ptycho2DDataset.__init__ does this, but from_cxi sets the patterns without it.
---
 src/cdtools/datasets/ptycho_2d_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index fcd2ad8..c2af8c2 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -176,6 +176,8 @@ class Ptycho2DDataset(CDataset):
 
             if dataset.mask is None:
                 dataset.mask = t.ones(dataset.patterns.shape[-2:]).to(dtype=t.bool)
+            dataset.mask.masked_fill_(t.isnan(t.sum(dataset.patterns,dim=(0,))),0)
+            dataset.patterns.masked_fill_(t.isnan(dataset.patterns),0)
 
         try:
             intensities = cdtdata.get_shot_to_shot_info(cxi_file, 'intensities')
-- 
2.43.0


From b8ea821569a23f487a9e46ac9d2d14c8d5f649a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 09/77] fix: use the registered inverse propagator in
 near-field backpropagation

---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 505a22d..0e0ee68 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -654,7 +654,7 @@ class FancyPtycho(CDIModel):
     def backward_propagator(self, wavefields):
         if self.near_field:
             return tools.propagators.near_field(
-                wavefields, self.inverse_angular_spectrum_propagator
+                wavefields, self.inv_angular_spectrum_propagator
             )
         else:
             return tools.propagators.inverse_far_field(wavefields)
-- 
2.43.0


From 8131cb05e5c2bc9195d604f75b2cc032ba9a2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 10/77] fix: only look for NaN pixels in floating point .cxi
 data

Not all integer types support the masking operations.
---
 src/cdtools/datasets/ptycho_2d_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index c2af8c2..fcfb37d 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -176,8 +176,10 @@ class Ptycho2DDataset(CDataset):
 
             if dataset.mask is None:
                 dataset.mask = t.ones(dataset.patterns.shape[-2:]).to(dtype=t.bool)
-            dataset.mask.masked_fill_(t.isnan(t.sum(dataset.patterns,dim=(0,))),0)
-            dataset.patterns.masked_fill_(t.isnan(dataset.patterns),0)
+            # Only floating point data can contain NaNs
+            if t.is_floating_point(dataset.patterns):
+                dataset.mask.masked_fill_(t.isnan(t.sum(dataset.patterns,dim=(0,))),0)
+                dataset.patterns.masked_fill_(t.isnan(dataset.patterns),0)
 
         try:
             intensities = cdtdata.get_shot_to_shot_info(cxi_file, 'intensities')
-- 
2.43.0


From 891d70a29dfbe34712d1a4fd4eee19aea5e663cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 11/77] fix: initialize probe_fourier_shifts from its own
 argument

The shifts were initialized from translation_offsets, so given shifts were
ignored and unset offsets made the model impossible to create.
---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 0e0ee68..9121b04 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -185,7 +185,7 @@ class FancyPtycho(CDIModel):
             self.probe_fourier_shifts = None
         else:
             self.probe_fourier_shifts = t.nn.Parameter(
-                t.as_tensor(translation_offsets, dtype=t.float32)
+                t.as_tensor(probe_fourier_shifts, dtype=t.float32)
             )
 
         self.register_buffer('translation_scale',
-- 
2.43.0


From 2d0919a46f217f86876a6c0aa81d95a88524ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 12/77] fix: initialize probes from datasets without a mask

---
 src/cdtools/tools/initializers/initializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/initializers/initializers.py b/src/cdtools/tools/initializers/initializers.py
index c3aa47e..f171e56 100644
--- a/src/cdtools/tools/initializers/initializers.py
+++ b/src/cdtools/tools/initializers/initializers.py
@@ -309,7 +309,7 @@ def SHARP_style_probe(dataset, propagation_distance=None, oversampling=1):
             intensities += (dataset.mask.cpu().numpy() * im.cpu().numpy()
                             / factors[params[0]])
         else:
-            intensities += im.cpu().numpy() / params[factors[0]]
+            intensities += im.cpu().numpy() / factors[params[0]]
             
     intensities /= len(dataset)
 
@@ -403,7 +403,7 @@ def SHARP_style_near_field_probe(dataset, backward_propagator, oversampling=1):
             intensities += (dataset.mask.cpu().numpy() * im.cpu().numpy()
                             / factors[params[0]])
         else:
-            intensities += im.cpu().numpy() / params[factors[0]]
+            intensities += im.cpu().numpy() / factors[params[0]]
             
     intensities /= len(dataset)
 
-- 
2.43.0


From 0fa62b15e46d08228ba2d577c3eba4314360128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 13/77] fix: pad the matching dimensions when simulating finite
 pixels

For non-square wavefields the two axes were exchanged.
---
 src/cdtools/tools/measurements/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/measurements/measurements.py b/src/cdtools/tools/measurements/measurements.py
index c926568..005769f 100644
--- a/src/cdtools/tools/measurements/measurements.py
+++ b/src/cdtools/tools/measurements/measurements.py
@@ -46,7 +46,7 @@ def intensity(wavefield, detector_slice=None, epsilon=1e-7, saturation=None, ove
         pad1r = wavefield.shape[-2] - pad1l
         pad2l = wavefield.shape[-1]//2
         pad2r = wavefield.shape[-1] - pad2l
-        padded = t.nn.functional.pad(inverse_fft, (pad1l, pad1r, pad2l, pad2r))
+        padded = t.nn.functional.pad(inverse_fft, (pad2l, pad2r, pad1l, pad1r))
         upsampled_field = t.fft.fft2(t.fft.ifftshift(padded, dim=(-2,-2)))
         upsampled_intensity = t.abs(upsampled_field)**2
         ifft_intensity = t.fft.fftshift(t.fft.ifft2(upsampled_intensity), dim=(-2,-1))
@@ -119,7 +119,7 @@ def incoherent_sum(wavefields, detector_slice=None, epsilon=1e-7, saturation=Non
         pad1r = wavefields.shape[-2] - pad1l
         pad2l = wavefields.shape[-1]//2
         pad2r = wavefields.shape[-1] - pad2l
-        padded = t.nn.functional.pad(inverse_fft, (pad1l, pad1r, pad2l, pad2r))
+        padded = t.nn.functional.pad(inverse_fft, (pad2l, pad2r, pad1l, pad1r))
         upsampled_field = t.fft.fft2(t.fft.ifftshift(padded, dim=(-2,-2)))
         upsampled_intensity = t.sum(t.abs(upsampled_field)**2, dim=-3)
         ifft_intensity = t.fft.fftshift(t.fft.ifft2(upsampled_intensity), dim=(-2,-1))
-- 
2.43.0


From f0e2b8f776efeae01076f8f7a1224eb40f9d6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 14/77] fix: return real intensities from intensity with finite
 pixels

---
 src/cdtools/tools/measurements/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/tools/measurements/measurements.py b/src/cdtools/tools/measurements/measurements.py
index 005769f..428bc51 100644
--- a/src/cdtools/tools/measurements/measurements.py
+++ b/src/cdtools/tools/measurements/measurements.py
@@ -58,7 +58,7 @@ def intensity(wavefield, detector_slice=None, epsilon=1e-7, saturation=None, ove
         Xs, Ys = t.meshgrid(xs, ys, indexing='ij')
         mask = (t.special.sinc(Xs) * t.special.sinc(Ys)).to(device=ifft_intensity.device)
         blurred_intensity = t.fft.fft2(t.fft.ifftshift(mask * ifft_intensity, dim=(-2,-2)))
-        output = blurred_intensity[...,::2,::2]
+        output = t.abs(blurred_intensity[...,::2,::2])
     else:
         output = t.abs(wavefield)**2
 
-- 
2.43.0


From 3f627d9079871e58f898a70a50b61bf32e934859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 15/77] fix: keep the zero frequency centered in
 fourier_upsample for odd sizes

---
 src/cdtools/tools/image_processing/image_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/image_processing/image_processing.py b/src/cdtools/tools/image_processing/image_processing.py
index b774daa..178b428 100644
--- a/src/cdtools/tools/image_processing/image_processing.py
+++ b/src/cdtools/tools/image_processing/image_processing.py
@@ -330,8 +330,8 @@ def fourier_upsample(ims, upsample_factor=2, preserve_mean=False):
                            dtype=ims.dtype,
                            device=ims.device)
     
-    left = [((upsample_factor-1)*ims.shape[-2])//2,
-            ((upsample_factor-1)*ims.shape[-1])//2]
+    left = [(upsample_factor*ims.shape[-2])//2 - ims.shape[-2]//2,
+            (upsample_factor*ims.shape[-1])//2 - ims.shape[-1]//2]
     right = [left[0]+ims.shape[-2],
              left[1]+ims.shape[-1]]
     
-- 
2.43.0


From d8ee2079e9015fdd3b7f3e74d8e70501093f379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 16/77] fix: use the matching axis lengths in hann_window

---
 src/cdtools/tools/image_processing/image_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/image_processing/image_processing.py b/src/cdtools/tools/image_processing/image_processing.py
index 178b428..c83be11 100644
--- a/src/cdtools/tools/image_processing/image_processing.py
+++ b/src/cdtools/tools/image_processing/image_processing.py
@@ -31,8 +31,8 @@ def hann_window(im):
         The image, apodized by a hann window
     """
     Xs, Ys = np.mgrid[:im.shape[0],:im.shape[1]]
-    Xhann = np.sin(np.pi*Xs/(im.shape[1]-1))**2
-    Yhann = np.sin(np.pi*Ys/(im.shape[0]-1))**2
+    Xhann = np.sin(np.pi*Xs/(im.shape[0]-1))**2
+    Yhann = np.sin(np.pi*Ys/(im.shape[1]-1))**2
     Hann = Xhann * Yhann
     return im * Hann
 
-- 
2.43.0


From 00b5800f4ef5122fffaa5ee87f7587f5c989b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 17/77] fix: normalize subdominant modes to the dominant
 intensity, as documented

---
 src/cdtools/tools/initializers/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/tools/initializers/initializers.py b/src/cdtools/tools/initializers/initializers.py
index f171e56..a2233a8 100644
--- a/src/cdtools/tools/initializers/initializers.py
+++ b/src/cdtools/tools/initializers/initializers.py
@@ -665,6 +665,6 @@ def generate_subdominant_modes(dominant_mode, n_modes, circular=True):
     for a_order,b_order in make_orders(n_modes):
         mask = reduce(t.mul,[a]*a_order+[b]*b_order)
         new_probe = inverse_far_field(mask * dominant_fft)
-        probes.append(new_probe * (probe_norm / t.sum(t.abs(new_probe))))
+        probes.append(new_probe * t.sqrt(probe_norm / t.sum(t.abs(new_probe)**2)))
 
     return t.stack(probes)
-- 
2.43.0


From 9e76982cf5d0e2367649d6ad8fd6dcd0a1793246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 18/77] fix: use the saved object basis when correcting the
 amplitude exponent

---
 src/cdtools/tools/analysis/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 9844edb..518e74d 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1213,17 +1213,17 @@ def standardize_reconstruction_set(
         obj_1, probe_1, weights_1 = remove_amplitude_exponent(
             obj_1, window, probe=probe_1,
             weights=half_1['weights'],
-            basis=half_1['basis'],
+            basis=half_1['obj_basis'],
             translations=half_1['translations'])
         obj_2, probe_2, weights_2 = remove_amplitude_exponent(
             obj_2, window, probe=probe_2,
             weights=half_2['weights'],
-            basis=half_2['basis'],
+            basis=half_2['obj_basis'],
             translations=half_2['translations'])
         obj, probe, weights = remove_amplitude_exponent(
             obj, window, probe=probe,
             weights=full['weights'],
-            basis=full['basis'],
+            basis=full['obj_basis'],
             translations=full['translations'])
 
     
-- 
2.43.0


From b0f3ec6c92f75482869898ed87a28b5482a31de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 19/77] fix: do not modify the input probe in
 standardize_reconstruction_pair

---
 src/cdtools/tools/analysis/analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 518e74d..8e62656 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1369,6 +1369,7 @@ def standardize_reconstruction_pair(
         t.as_tensor(probe_2[0]),
     )
     
+    probe_2 = probe_2.copy()
     for idx in range(probe_2.shape[0]):
         probe_2[idx] = ip.sinc_subpixel_shift(
             t.as_tensor(probe_2[idx]), probe_shift).numpy()
-- 
2.43.0


From 7a633e0d4cefa6b96ee2c0092920f672602faf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 20/77] fix: store the units of Bragg2DPtycho without a probe
 basis

---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 04f4369..7c83f25 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -116,7 +116,7 @@ class Bragg2DPtycho(CDIModel):
             self.register_buffer('probe_basis',
                                  t.as_tensor(probe_basis, dtype=dtype))        
 
-            self.units = units
+        self.units = units
 
         # calculate the surface normal from the object basis. Reminder
         # that for this model, the object basis should be defined in the
-- 
2.43.0


From a32f171b55a1a1d5fef64624e76b10b4d43dc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 21/77] fix: apply the subpixel shift once per slice in
 MultislicePtycho

The exit wave of each slice stayed in the shifted frame, so the shift
accumulated from slice to slice.
---
 src/cdtools/models/multislice_ptycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 3547351..ec94e07 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -512,7 +512,8 @@ class MultislicePtycho(CDIModel):
             # Interact with the object
             exit_waves =  tools.interactions.ptycho_2D_sinc(
                 exit_waves, obj[idx], pix_trans,
-                shift_probe=True, multiple_modes=True)
+                shift_probe=True, multiple_modes=True,
+                shift_back_ew=True)
 
             # For all but the last slice
             if idx <= (self.obj.shape[0] - 1):
-- 
2.43.0


From b6aede90cff731ef178e895e662e16c8bbdc3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 22/77] fix: match the interslice propagator to the exit wave
 grid

The pixel spacings were exchanged, and the oversampling was not considered
in the shape.
---
 src/cdtools/models/multislice_ptycho.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index ec94e07..917f878 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -382,14 +382,14 @@ class MultislicePtycho(CDIModel):
             probe_support = None
 
         # Here we define the inter-slice propagator
-        # TODO: this will probably fail for oversampling != 1 and
-        # for any non-square spacing (I didn't check if this was the
-        # correct ordering)
-        spacing = [np.abs(obj_basis[0,1]), np.abs(obj_basis[1,0])]
+        # The exit waves have the oversampled shape, on the object grid
+        spacing = [t.linalg.norm(obj_basis[:,0]),
+                   t.linalg.norm(obj_basis[:,1])]
         
         interslice_propagator = \
             tools.propagators.generate_angular_spectrum_propagator(
-                det_shape, spacing, wavelength, dz)
+                [s * oversampling for s in det_shape],
+                spacing, wavelength, dz)
 
         if ((propagator_fourier_crop is not None)
             and (propagator_fourier_crop != 0)):
-- 
2.43.0


From 2b44283cffb60e39816167775e1f9b70f47b7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 23/77] fix: scale the matching columns of the RPI object basis

---
 src/cdtools/models/rpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 6e94103..c8a971c 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -80,8 +80,8 @@ class RPI(CDIModel):
         self.register_buffer('probe_basis',
                              t.as_tensor(probe_basis, dtype=dtype))
 
-        scale_factor = t.as_tensor([probe.shape[-1]/obj_guess.shape[-1],
-                                 probe.shape[-2]/obj_guess.shape[-2]])
+        scale_factor = t.as_tensor([probe.shape[-2]/obj_guess.shape[-2],
+                                 probe.shape[-1]/obj_guess.shape[-1]])
         self.register_buffer('obj_basis',
                              (self.probe_basis * scale_factor).to(dtype=dtype))
 
-- 
2.43.0


From 41373903ec4175a35f0a9e6728f9f0e461f80768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 24/77] fix: allow RPI objects as large as the probe

---
 src/cdtools/models/rpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index c8a971c..3777ade 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -263,7 +263,8 @@ class RPI(CDIModel):
         pad0r = probe.shape[-2] - obj_size[-2] - pad0l
         pad1l = (probe.shape[-1] - obj_size[-1])//2
         pad1r = probe.shape[-1] - obj_size[-1] - pad1l
-        probe_lr_fft = probe_fft[pad0l:-pad0r,pad1l:-pad1r]
+        probe_lr_fft = probe_fft[pad0l:probe_fft.shape[-2]-pad0r,
+                                 pad1l:probe_fft.shape[-1]-pad1r]
         probe_lr = t.abs(tools.propagators.inverse_far_field(probe_lr_fft))
 
         obj_support = probe_lr > t.max(probe_lr) * probe_threshold
-- 
2.43.0


From 322f64b1943c27919dd4bb6659f46816f38ac31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 25/77] fix: use the saturation passed to RPI.from_calibration

---
 src/cdtools/models/rpi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 3777ade..9adceda 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -356,6 +356,7 @@ class RPI(CDIModel):
             dummy_init_obj,
             background=background,
             mask=mask,
+            saturation=saturation,
             exponentiate_obj=exponentiate_obj,
             phase_only=phase_only,
             panel_plot_mode=panel_plot_mode,
-- 
2.43.0


From b2a158f8e9e2b94d90efb378324e054e0387bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 26/77] fix: use the top probe mode in RPI_spectral_init

---
 src/cdtools/tools/initializers/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/tools/initializers/initializers.py b/src/cdtools/tools/initializers/initializers.py
index a2233a8..718d8f3 100644
--- a/src/cdtools/tools/initializers/initializers.py
+++ b/src/cdtools/tools/initializers/initializers.py
@@ -532,7 +532,7 @@ def RPI_spectral_init(pattern, probe, obj_shape, n_modes=1, mask=None, backgroun
     # First, check if the probe is a single mode or many modes.
     # If the probe is many modes, orthogonalize it and use the top mode
     # for initialization
-    if probe.dim() == 4:
+    if probe.dim() == 3:
         probe = orthogonalize_probes(probe)[0]
     
     pad0l = (probe.shape[-2] - obj_shape[0])//2
-- 
2.43.0


From 385d943e0b14c11c03a3334969a24039845519b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 27/77] fix: return results which do not change along with the
 model

On the cpu, the saved arrays shared memory with the model parameters.
---
 src/cdtools/models/base.py              | 6 +++++-
 src/cdtools/models/bragg_2d_ptycho.py   | 4 ++--
 src/cdtools/models/fancy_ptycho.py      | 4 ++--
 src/cdtools/models/multislice_ptycho.py | 4 ++--
 src/cdtools/models/rpi.py               | 2 +-
 src/cdtools/models/simple_ptycho.py     | 2 +-
 6 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 02155f7..1a80fca 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -186,7 +186,11 @@ class CDIModel(t.nn.Module):
         results : dict
             A dictionary containing all the parameters and buffers of the model, i.e. the result of self.state_dict(), converted to numpy.
         """
-        state_dict = nested_dict_to_numpy(self.state_dict())
+        # The arrays must not share memory with the parameters, or they would
+        # change along with the model
+        state_dict = nested_dict_to_numpy(
+            {name: value.clone() for name, value in self.state_dict().items()}
+        )
 
         return {
             'state_dict': state_dict,
diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 7c83f25..8bd1274 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -756,9 +756,9 @@ class Bragg2DPtycho(CDIModel):
             original_translations = self.original_translations.detach().cpu().numpy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
-        obj = self.obj.detach().cpu().numpy()
+        obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy()
+        weights = self.weights.detach().cpu().numpy().copy()
         oversampling = self.oversampling.cpu().numpy()
         wavelength = self.wavelength.cpu().numpy()
 
diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 9121b04..11bfe8e 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -1212,9 +1212,9 @@ class FancyPtycho(CDIModel):
             original_translations = self.original_translations.detach().cpu().numpy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
-        obj = self.obj.detach().cpu().numpy()
+        obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy()
+        weights = self.weights.detach().cpu().numpy().copy()
         oversampling = self.oversampling.cpu().numpy()
         wavelength = self.wavelength.cpu().numpy()
 
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 917f878..0567985 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -957,9 +957,9 @@ class MultislicePtycho(CDIModel):
             original_translations = self.original_translations.detach().cpu().numpy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
-        obj = self.obj.detach().cpu().numpy()
+        obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy()
+        weights = self.weights.detach().cpu().numpy().copy()
         oversampling = self.oversampling.cpu().numpy()
         wavelength = self.wavelength.cpu().numpy()
 
diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 9adceda..5cfd9c1 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -678,7 +678,7 @@ class RPI(CDIModel):
         # We only save out the top object mode, which is the final result
         # The full object is still saved in the state_dict that is
         # included in the base_results
-        obj = self.obj[0].detach().cpu().numpy()
+        obj = self.obj[0].detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
         
         results = {
diff --git a/src/cdtools/models/simple_ptycho.py b/src/cdtools/models/simple_ptycho.py
index 596f70b..cdd8c86 100644
--- a/src/cdtools/models/simple_ptycho.py
+++ b/src/cdtools/models/simple_ptycho.py
@@ -142,7 +142,7 @@ class SimplePtycho(CDIModel):
         probe_basis = self.probe_basis.detach().cpu().numpy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
-        obj = self.obj.detach().cpu().numpy()
+        obj = self.obj.detach().cpu().numpy().copy()
         wavelength = self.wavelength.cpu().numpy()
 
         results = {
-- 
2.43.0


From f67276b20f99c945adb12e34696799635273e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 28/77] fix: show the full object of MultislicePtycho without a
 view crop

Models restored from saved results use no crop, which selected nothing.
---
 src/cdtools/models/multislice_ptycho.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 0567985..20495ee 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -105,8 +105,11 @@ class MultislicePtycho(CDIModel):
         self.obj = t.nn.Parameter(obj_guess)
 
 
-        self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
-                                    obj_view_crop:-obj_view_crop]
+        if obj_view_crop > 0:
+            self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
+                                        obj_view_crop:-obj_view_crop]
+        else:
+            self.obj_view_slice = np.s_[:,:]
         
         # TODO: perhaps not working anymore for fourier cropped probes
         if background is None:
-- 
2.43.0


From 28acdf795d23842633d66fb2b9b37db72d568dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 29/77] fix: discard the loss normalization of interrupted
 epochs

The patterns seen by an interrupted first epoch were counted again by the
next one, so all the losses reported afterwards were scaled wrongly.
---
 src/cdtools/reconstructors/base.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 23c6caf..32fc97d 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -16,6 +16,7 @@ from torch.utils import data as td
 import threading
 import queue
 import time
+from copy import copy
 from matplotlib import pyplot as plt
 from typing import List, Union
 
@@ -151,8 +152,26 @@ class Reconstructor:
                 'Reconstructor.run_epoch(), or use Reconstructor.optimize(), '
                 'which does it automatically.'
             )
-        
-        
+
+        # An epoch which doesn't finish should not leave a partially
+        # accumulated normalization behind
+        normalizer = copy(getattr(self.model, 'loss_normalizer', None))
+        try:
+            return self._run_epoch(
+                stop_event=stop_event,
+                regularization_factor=regularization_factor,
+                calculation_width=calculation_width)
+        except BaseException:
+            if normalizer is not None:
+                self.model.loss_normalizer = normalizer
+            raise
+
+
+    def _run_epoch(self,
+                   stop_event: threading.Event = None,
+                   regularization_factor: Union[float, List[float]] = None,
+                   calculation_width: int = 10):
+
         # Initialize some tracking variables
         normalization = 0
         loss = 0
-- 
2.43.0


From 6a12ad3b3401c1e63faaa4ec9d37c894253c8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 30/77] fix: create the entry group when saving a CDataset to a
 file name

CDataset.to_cxi opened a bare .h5 file when it was given a file name, and
then failed because there was no entry_1 group to write to.
---
 src/cdtools/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/datasets/base.py b/src/cdtools/datasets/base.py
index f854dde..a326327 100644
--- a/src/cdtools/datasets/base.py
+++ b/src/cdtools/datasets/base.py
@@ -235,7 +235,7 @@ class CDataset(torchdata.Dataset):
 
         # If a bare string is passed
         if isinstance(cxi_file, str) or isinstance(cxi_file, pathlib.Path):
-            with h5py.File(cxi_file,'w') as f:
+            with cdtdata.create_cxi(cxi_file) as f:
                 return self.to_cxi(f)
 
         if self.entry_info is not None:
-- 
2.43.0


From d49cc1c758de5d766f58bae04e2ef9683f266d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 31/77] fix: simulate the probe translation without probe
 Fourier shifts

The detector pixel shifts have two components, the translations have three.
---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 11bfe8e..a0d3571 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -589,7 +589,7 @@ class FancyPtycho(CDIModel):
             if self.probe_fourier_shifts is not None:
                 det_pix_trans = self.probe_fourier_shifts[index]
             else:
-                det_pix_trans = t.zeros_like(translations)
+                det_pix_trans = t.zeros_like(translations[..., :2])
 
             if self.simulate_probe_translation:
                 det_pix_trans = det_pix_trans +  tools.interactions.translations_to_pixel(
-- 
2.43.0


From 45fee88f1f52648964a86699c4a3ea38342db885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 32/77] fix: return one stack of wavefields per index from
 RPI.interaction

repeat was called with an additional leading dimension, so the output for n
indices had a spurious first axis of length one.
---
 src/cdtools/models/rpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 5cfd9c1..f72437e 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -525,7 +525,7 @@ class RPI(CDIModel):
         try:
             # will fail if index has no length, for example when index
             # is just an int. In this case, we just do nothing instead
-            output = output.unsqueeze(0).repeat(1,len(index),1,1,1)
+            output = output.unsqueeze(0).repeat(len(index),1,1,1)
         except TypeError:
             pass
         return output
-- 
2.43.0


From f46e98fedba71f1ec2086a312cad517a00ed7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 33/77] fix: use the detector shape for the default background
 of RPI

With oversampling, the probe is larger than the detector.
---
 src/cdtools/models/rpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index f72437e..6fb2b75 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -124,8 +124,8 @@ class RPI(CDIModel):
             self.weights.requires_grad=False
         
         if background is None:
-            background = 1e-6 * t.ones(self.probe[0].shape,
-                                       dtype=dtype)
+            shape = [s // oversampling for s in self.probe[0].shape]
+            background = 1e-6 * t.ones(shape, dtype=dtype)
 
         self.register_buffer('background',
                              t.as_tensor(background, dtype=t.float32))
-- 
2.43.0


From 2f953583c05700f4b194eeba05f86c4b93fd06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 34/77] fix: initialize the weights of MultislicePtycho from
 the intensities

The weights multiply the amplitudes, and they are matrices when dm_rank is
set. This is what FancyPtycho does.
---
 src/cdtools/models/multislice_ptycho.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 20495ee..7239021 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -363,8 +363,10 @@ class MultislicePtycho(CDIModel):
             Ws = t.ones(len(dataset))
 
         if hasattr(dataset, 'intensities') and dataset.intensities is not None:
-            Ws *= (dataset.intensities.to(dtype=Ws.dtype)[:,...]
-                   / t.mean(dataset.intensities))
+            intensities = dataset.intensities.to(dtype=Ws.dtype)[:,...]
+            weights = t.sqrt(intensities)
+            Ws *= (weights / t.mean(weights)).reshape(
+                (len(weights),) + (1,)*(Ws.ndim - 1))
 
         if hasattr(dataset, 'mask') and dataset.mask is not None:
             mask = dataset.mask.to(t.bool)
-- 
2.43.0


From 49fae17d145b8fdfa588eab2a334ed26d562053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 35/77] fix: models restored from a results dictionary have
 their own memory

---
 src/cdtools/models/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 1a80fca..54b90fb 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -232,6 +232,12 @@ class CDIModel(t.nn.Module):
             The dictionary returned by save_results(), as loaded from an h5 file
             or produced directly in memory.
         """
+        # The constructors are free to wrap the arrays which they are given
+        # without copying them, so we make sure that this model has its own
+        # memory, separate from results_dict
+        for value in list(self.parameters()) + list(self.buffers()):
+            value.data = value.data.clone()
+
         state_dict = nested_dict_to_torch(results_dict['state_dict'])
         self.load_state_dict(state_dict, strict=False)
         self.loss_history = list(results_dict.get('loss_history', []))
-- 
2.43.0


From 15f43d1942455da5087dd6e73b1f7b566e36a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 36/77] fix: return copies of all arrays from save_results

On the cpu, .numpy() shares memory with the tensor, so editing the saved
results changed the model or the translations of the dataset.
---
 src/cdtools/models/bragg_2d_ptycho.py   | 12 ++++++------
 src/cdtools/models/fancy_ptycho.py      | 12 ++++++------
 src/cdtools/models/multislice_ptycho.py | 12 ++++++------
 src/cdtools/models/rpi.py               |  6 +++---
 src/cdtools/models/simple_ptycho.py     |  4 ++--
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 8bd1274..fc72261 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -747,20 +747,20 @@ class Bragg2DPtycho(CDIModel):
         base_results = super().save_results()
 
         # We also save out the main results in a more readable format
-        obj_basis = self.obj_basis.detach().cpu().numpy()
-        probe_basis = self.probe_basis.detach().cpu().numpy()
+        obj_basis = self.obj_basis.detach().cpu().numpy().copy()
+        probe_basis = self.probe_basis.detach().cpu().numpy().copy()
         translations = self.corrected_translations(dataset).detach().cpu().numpy()
         if dataset is not None:
-            original_translations = dataset.translations.detach().cpu().numpy()
+            original_translations = dataset.translations.detach().cpu().numpy().copy()
         else:
-            original_translations = self.original_translations.detach().cpu().numpy()
+            original_translations = self.original_translations.detach().cpu().numpy().copy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
         weights = self.weights.detach().cpu().numpy().copy()
-        oversampling = self.oversampling.cpu().numpy()
-        wavelength = self.wavelength.cpu().numpy()
+        oversampling = self.oversampling.cpu().numpy().copy()
+        wavelength = self.wavelength.cpu().numpy().copy()
 
         results = {
             'obj_basis': obj_basis,
diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index a0d3571..322957b 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -1203,20 +1203,20 @@ class FancyPtycho(CDIModel):
         base_results = super().save_results()
 
         # We also save out the main results in a more readable format
-        obj_basis = self.obj_basis.detach().cpu().numpy()
-        probe_basis = self.probe_basis.detach().cpu().numpy()
+        obj_basis = self.obj_basis.detach().cpu().numpy().copy()
+        probe_basis = self.probe_basis.detach().cpu().numpy().copy()
         translations = self.corrected_translations(dataset).detach().cpu().numpy()
         if dataset is not None:
-            original_translations = dataset.translations.detach().cpu().numpy()
+            original_translations = dataset.translations.detach().cpu().numpy().copy()
         else:
-            original_translations = self.original_translations.detach().cpu().numpy()
+            original_translations = self.original_translations.detach().cpu().numpy().copy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
         weights = self.weights.detach().cpu().numpy().copy()
-        oversampling = self.oversampling.cpu().numpy()
-        wavelength = self.wavelength.cpu().numpy()
+        oversampling = self.oversampling.cpu().numpy().copy()
+        wavelength = self.wavelength.cpu().numpy().copy()
 
         results = {
             'obj_basis': obj_basis,
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 7239021..b8d29b6 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -953,20 +953,20 @@ class MultislicePtycho(CDIModel):
         base_results = super().save_results()
 
         # We also save out the main results in a more readable format
-        obj_basis = self.obj_basis.detach().cpu().numpy()
-        probe_basis = self.probe_basis.detach().cpu().numpy()
+        obj_basis = self.obj_basis.detach().cpu().numpy().copy()
+        probe_basis = self.probe_basis.detach().cpu().numpy().copy()
         translations = self.corrected_translations(dataset).detach().cpu().numpy()
         if dataset is not None:
-            original_translations = dataset.translations.detach().cpu().numpy()
+            original_translations = dataset.translations.detach().cpu().numpy().copy()
         else:
-            original_translations = self.original_translations.detach().cpu().numpy()
+            original_translations = self.original_translations.detach().cpu().numpy().copy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
         weights = self.weights.detach().cpu().numpy().copy()
-        oversampling = self.oversampling.cpu().numpy()
-        wavelength = self.wavelength.cpu().numpy()
+        oversampling = self.oversampling.cpu().numpy().copy()
+        wavelength = self.wavelength.cpu().numpy().copy()
 
         results = {
             'obj_basis': obj_basis,
diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 6fb2b75..6d58d9f 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -671,9 +671,9 @@ class RPI(CDIModel):
         # "background" stores the square root of the background, etc.
         base_results = super().save_results()
         
-        probe_basis = self.probe_basis.detach().cpu().numpy()
-        obj_basis = self.obj_basis.detach().cpu().numpy()
-        probe = self.probe.detach().cpu().numpy()
+        probe_basis = self.probe_basis.detach().cpu().numpy().copy()
+        obj_basis = self.obj_basis.detach().cpu().numpy().copy()
+        probe = self.probe.detach().cpu().numpy().copy()
         
         # We only save out the top object mode, which is the final result
         # The full object is still saved in the state_dict that is
diff --git a/src/cdtools/models/simple_ptycho.py b/src/cdtools/models/simple_ptycho.py
index cdd8c86..42de283 100644
--- a/src/cdtools/models/simple_ptycho.py
+++ b/src/cdtools/models/simple_ptycho.py
@@ -139,11 +139,11 @@ class SimplePtycho(CDIModel):
         base_results = super().save_results()
 
         # So we also save out the main results in a more useable format
-        probe_basis = self.probe_basis.detach().cpu().numpy()
+        probe_basis = self.probe_basis.detach().cpu().numpy().copy()
         probe = self.probe.detach().cpu().numpy()
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy().copy()
-        wavelength = self.wavelength.cpu().numpy()
+        wavelength = self.wavelength.cpu().numpy().copy()
 
         results = {
             'probe_basis': probe_basis,
-- 
2.43.0


From c7f19b463e15334c9e75d8ed0569d61bb02e8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 37/77] fix: do not share the quantum efficiency mask with the
 dataset

Optimizing the mask of a FancyPtycho model changed the dataset, and with it
all other models made from it.
---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 322957b..9bd34d6 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -119,7 +119,7 @@ class FancyPtycho(CDIModel):
             self.qe_mask = None
         else:
             self.qe_mask = t.nn.Parameter(
-                t.as_tensor(qe_mask, dtype=dtype))
+                t.as_tensor(qe_mask, dtype=dtype).clone())
             # I want the ability to optimize over this, but experience shows
             # that it is wildly unstable, so I think it's best to keep
             # gradients turned off by default
-- 
2.43.0


From 2bbfc114547d9df2710cf1676147a62e6474bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 38/77] fix: keep the weights finite when tidying probes with
 empty modes

If the weights don't make use of all the modes, as in a new model with
dm_rank < n_modes, some of the tidied modes are zero, and the division by
their intensities made all the weights NaN.
---
 src/cdtools/models/fancy_ptycho.py         | 8 +++++++-
 src/cdtools/models/multislice_2d_ptycho.py | 8 +++++++-
 src/cdtools/models/multislice_ptycho.py    | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 9bd34d6..5ed59ae 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -868,7 +868,13 @@ class FancyPtycho(CDIModel):
                                 full_matrices=False)
 
         # We discard the U matrix and re-multiply S & Vh
-        self.weights.data = S[:,:,None] * (Vh / probe_sqrt_intensities)
+        # Modes which contain no light get no weight, to avoid dividing by zero
+        cutoff = (t.finfo(probe_sqrt_intensities.dtype).eps
+                  * t.max(probe_sqrt_intensities))
+        inverse = t.where(probe_sqrt_intensities > cutoff,
+                          1 / probe_sqrt_intensities,
+                          t.zeros_like(probe_sqrt_intensities))
+        self.weights.data = S[:,:,None] * (Vh * inverse)
 
 
     def get_probe_intensities(self):
diff --git a/src/cdtools/models/multislice_2d_ptycho.py b/src/cdtools/models/multislice_2d_ptycho.py
index 318b0fc..a9b6dff 100644
--- a/src/cdtools/models/multislice_2d_ptycho.py
+++ b/src/cdtools/models/multislice_2d_ptycho.py
@@ -597,7 +597,13 @@ class Multislice2DPtycho(CDIModel):
                                 full_matrices=False)
 
         # We discard the U matrix and re-multiply S & Vh
-        self.weights.data = S[:,:,None] * (Vh / probe_sqrt_intensities)
+        # Modes which contain no light get no weight, to avoid dividing by zero
+        cutoff = (t.finfo(probe_sqrt_intensities.dtype).eps
+                  * t.max(probe_sqrt_intensities))
+        inverse = t.where(probe_sqrt_intensities > cutoff,
+                          1 / probe_sqrt_intensities,
+                          t.zeros_like(probe_sqrt_intensities))
+        self.weights.data = S[:,:,None] * (Vh * inverse)
         
 
     # Needs to be updated to allow for plotting to an existing figure
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index b8d29b6..578f1b8 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -729,7 +729,13 @@ class MultislicePtycho(CDIModel):
                                 full_matrices=False)
 
         # We discard the U matrix and re-multiply S & Vh
-        self.weights.data = S[:,:,None] * (Vh / probe_sqrt_intensities)
+        # Modes which contain no light get no weight, to avoid dividing by zero
+        cutoff = (t.finfo(probe_sqrt_intensities.dtype).eps
+                  * t.max(probe_sqrt_intensities))
+        inverse = t.where(probe_sqrt_intensities > cutoff,
+                          1 / probe_sqrt_intensities,
+                          t.zeros_like(probe_sqrt_intensities))
+        self.weights.data = S[:,:,None] * (Vh * inverse)
 
 
     def plot_wavefront_variation(self, dataset=None, fig=None, mode='amplitude', **kwargs):
-- 
2.43.0


From dee3949a9650a999e81d2b187deb2b199d1b393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 39/77] fix: calculate the entropy of pure and unnormalized
 density matrices

Rounding makes the zero eigenvalues of rank-deficient matrices slightly
negative, which led to NaN. Single matrices were not normalized before taking
the logarithm, unlike stacks of matrices.
---
 src/cdtools/tools/analysis/analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 8e62656..ab0cfb9 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -664,15 +664,17 @@ def calc_vn_entropy(matrix):
 
     if len(matrix.shape) == 3:
         # Get the eigenvalues
-        eigs = [np.linalg.eigh(mat)[0] for mat in matrix]
+        # (rounding can make the zero eigenvalues slightly negative)
+        eigs = [np.clip(np.linalg.eigh(mat)[0], 0, None) for mat in matrix]
         # Normalize them to match standard density matrix form
         eigs = [eig / np.sum(eig) for eig in eigs]
         # And calculate the VN entropy!
         entropies = [-np.sum(special.xlogy(eig,eig)) for eig in eigs]
         return np.array(entropies)
     else:
-        eig = np.linalg.eigh(matrix)[0]
-        entropy = -np.sum(special.xlogy(eig,eig))/np.sum(eig)
+        eig = np.clip(np.linalg.eigh(matrix)[0], 0, None)
+        eig = eig / np.sum(eig)
+        entropy = -np.sum(special.xlogy(eig,eig))
         return entropy
 
 
-- 
2.43.0


From c4a1688e1ebc4b887883e5a7ef4764efd92fee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 40/77] fix: the generalized RMS error of equal states is zero
 instead of NaN

---
 src/cdtools/tools/analysis/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index ab0cfb9..86d5441 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -940,6 +940,8 @@ def calc_generalized_rms_error(fields_1, fields_2, normalize=False, dims=2):
     fidelity = calc_fidelity(fields_1, fields_2, dims=dims) / npix**2
 
     result = fields_1_intensity + fields_2_intensity - 2 * t.sqrt(fidelity)
+    # For equal states, rounding can make this slightly negative
+    result = t.clamp(result, min=0)
     
     if normalize:
         result /= fields_1_intensity
-- 
2.43.0


From c04887c65682e12f2742d7d22d3b1b9b1c99b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 41/77] fix: accept numpy arrays in calc_mode_power_fractions

---
 src/cdtools/tools/analysis/analysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 86d5441..d9b546c 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -720,12 +720,15 @@ def calc_mode_power_fractions(
         if weight_matrix is None:
             ortho_probes = probes
         else:
-            ortho_probes = t.sum(weight_matrix[weight_slice] * probes,
+            ortho_probes = t.sum(t.as_tensor(weight_matrix)[weight_slice]
+                                 * t.as_tensor(probes),
                                  axis=-(n_probe_dims + 1))
         
     dims = [-d-1 for d in range(n_probe_dims)]
-    power = t.sum(t.abs(ortho_probes)**2, dim=dims)
+    power = t.sum(t.abs(t.as_tensor(ortho_probes))**2, dim=dims)
     power_fractions = power / t.sum(power)
+    if isinstance(probes, np.ndarray):
+        power_fractions = power_fractions.numpy()
     return power_fractions
 
 
-- 
2.43.0


From 1b76dea92d055418cd45ff0763ea1b08b660657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 42/77] fix: make calc_generalized_frc consistent with calc_frc

The threshold was calculated with the wrong formula, the pixels at the highest
frequency were counted but not used, the default number of bins failed, and
the frequencies for numpy input were a tensor.
---
 src/cdtools/tools/analysis/analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index d9b546c..94b9c42 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1002,7 +1002,7 @@ def calc_generalized_frc(fields_1, fields_2, basis, im_slice=None, nbins=None, s
         im_slice = np.s_[...,:,:]
 
     if nbins is None:
-        nbins = np.max(fields_1[...,im_slice].shape[-2:]) // 4
+        nbins = np.max(fields_1[im_slice].shape[-2:]) // 4
 
 
     f1 = t.fft.fftshift(t.fft.fft2(fields_1[im_slice]),dim=(-1,-2))
@@ -1038,12 +1038,14 @@ def calc_generalized_frc(fields_1, fields_2, basis, im_slice=None, nbins=None, s
     # gets us the count on the number of pixels per bin so we can calculate
     # the threshold curve
     n_pix, bins = np.histogram(Rs,bins=nbins, range=frc_range)
-    bins = t.as_tensor(bins)
     Rs = t.as_tensor(Rs)
 
     frc = []
     for i in range(len(bins)-1):
         mask = t.logical_and(Rs<bins[i+1], Rs>=bins[i])
+        if i == len(bins) - 2:
+            # Like np.histogram, the last bin includes its upper edge
+            mask = t.logical_or(mask, Rs==bins[i+1])
         masked_f1 = f1 * mask[...,:,:]
         masked_f2 = f2 * mask[...,:,:]
         numerator = t.sqrt(calc_fidelity(masked_f1, masked_f2))
@@ -1056,7 +1058,7 @@ def calc_generalized_frc(fields_1, fields_2, basis, im_slice=None, nbins=None, s
     # This moves from combined-image SNR to single-image SNR
     snr /= 2
 
-    threshold = (snr + (2 * snr + 1) / np.sqrt(n_pix)) / \
+    threshold = (snr + (2 * np.sqrt(snr) + 1) / np.sqrt(n_pix)) / \
         (1 + snr + (2 * np.sqrt(snr)) / np.sqrt(n_pix))
 
     if not im_np:
-- 
2.43.0


From f59e770e6c75a996cb69d4d6a0736c68036feb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 43/77] fix: keep rounding errors from moving windows off the
 object

The translations of a batch are recomputed, so the one which defines the edge
of an object without padding could end up slightly below zero.
---
 src/cdtools/tools/interactions/interactions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/interactions/interactions.py b/src/cdtools/tools/interactions/interactions.py
index 59c0b1d..fd9a5d3 100644
--- a/src/cdtools/tools/interactions/interactions.py
+++ b/src/cdtools/tools/interactions/interactions.py
@@ -441,8 +441,10 @@ def ptycho_2D_sinc(probe, obj, translations, shift_probe=True, padding=10, multi
         single_translation = True
 
     # Separate the translations into a part that chooses the window
-    # And a part that defines the windowing function
-    integer_translations = t.floor(translations)
+    # And a part that defines the windowing function. The tolerance keeps
+    # rounding errors from moving the window of a translation at an integer
+    # pixel, e.g. the minimum translation, to the previous pixel
+    integer_translations = t.floor(translations + 1e-3)
     subpixel_translations = translations - integer_translations
     integer_translations = integer_translations.to(dtype=t.int32)
 
-- 
2.43.0


From 2763e14a63e7ca8eee845fc41745906bcbb41b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 44/77] fix: propagate near field probe guesses with the pixels
 of the detector

The guess is propagated on the detector grid, before it is upsampled, but the
propagator was made for the pixels of the oversampled grid.
---
 src/cdtools/models/fancy_ptycho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 5ed59ae..a54e7c0 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -322,7 +322,7 @@ class FancyPtycho(CDIModel):
                 inv_angular_spectrum_propagator_init = t.conj(
                     tools.propagators.generate_generalized_angular_spectrum_propagator(
                         det_shape,
-                        obj_basis,
+                        obj_basis * oversampling,
                         wavelength,
                         np.array([0,0,distance]),
                     )
@@ -347,7 +347,7 @@ class FancyPtycho(CDIModel):
                 inv_angular_spectrum_propagator_init = t.conj(
                     tools.propagators.generate_generalized_angular_spectrum_propagator(
                         det_shape,
-                        obj_basis,
+                        obj_basis * oversampling,
                         wavelength,
                         np.array([0,0,z_eff]),
                     )
-- 
2.43.0


From 29bb5c2fd7758d2e8251288803e3e8a015c6a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 45/77] fix: get the pixels of cropped probes right for
 oversampled wavefields

Like FancyPtycho, MultislicePtycho and Bragg2DPtycho relate the cropped probe
to the shape it had before, which is larger than the detector if oversampled.
Bragg2DPtycho also accepts a crop along one axis only.
---
 src/cdtools/models/bragg_2d_ptycho.py   | 9 ++++++---
 src/cdtools/models/multislice_ptycho.py | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index fc72261..fa34f45 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -395,13 +395,16 @@ class Bragg2DPtycho(CDIModel):
                                        dtype=t.float32)
 
         if probe_fourier_crop is not None:
+            initial_probe_shape = np.array(probe.shape)
             probe = tools.propagators.far_field(probe)
             probe = probe[...,
-                          probe_fourier_crop[0]:-probe_fourier_crop[0],
-                          probe_fourier_crop[1]:-probe_fourier_crop[1]]
+                          probe_fourier_crop[0]:probe.shape[-2]
+                          - probe_fourier_crop[0],
+                          probe_fourier_crop[1]:probe.shape[-1]
+                          - probe_fourier_crop[1]]
             probe = tools.propagators.inverse_far_field(probe)
             
-            scale_factor = np.array(det_shape) / np.array(probe.shape)
+            scale_factor = initial_probe_shape / np.array(probe.shape)
             probe_basis = obj_basis * scale_factor[None,:]
         else:
             probe_basis = obj_basis.clone()
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 578f1b8..79239ef 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -300,14 +300,14 @@ class MultislicePtycho(CDIModel):
                 dataset.patterns.shape[-2:], dtype=t.float32)
             
         if probe_fourier_crop is not None:
+            initial_probe_shape = np.array(probe.shape)
             probe = tools.propagators.far_field(probe)
             probe = probe[probe_fourier_crop : probe.shape[-2]
                           - probe_fourier_crop,
                           probe_fourier_crop : probe.shape[-1]
                           - probe_fourier_crop]
             probe = tools.propagators.inverse_far_field(probe)
-            # TODO: This may fail with oversampling != 1
-            scale_factor = np.array(det_shape) / np.array(probe.shape)
+            scale_factor = initial_probe_shape / np.array(probe.shape)
             probe_basis = obj_basis * scale_factor[None,:]
         else:
             probe_basis = obj_basis.clone()
-- 
2.43.0


From edde75b922a1c67924ce153a8b0f9a4e97a9bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 46/77] fix: detach data simulated by Bragg2DPtycho from the
 model

The simulated dataset could neither be saved nor used for another model,
because its patterns still required gradients.
---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index fa34f45..e799591 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -588,7 +588,7 @@ class Bragg2DPtycho(CDIModel):
         indices, translations = args_list
         
         # Then we simulate the results
-        data = self.forward(indices, translations)
+        data = self.forward(indices, translations).detach()
 
         # And finally, we make the dataset
         return Ptycho2DDataset(translations, data,
-- 
2.43.0


From a2fdc9b172a93133a5b7a8b791a612241786e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 47/77] fix: keep explicit color limits when updating a plotted
 image

Moving a slider, or plotting into the same figure again, replaced the
vmin and vmax (e.g. -pi and pi for the cyclic phase colormap) with the
range of the data.
---
 src/cdtools/tools/plotting/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index 2e57a96..563395a 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -240,6 +240,8 @@ def plot_image(
             fig._current_im.set_data(to_plot)
             if updateable_colorbar:
                 fig._current_im.autoscale()
+                # Explicitly set limits still apply to the new data
+                fig._current_im.set_clim(vmin, vmax)
             # We need to go to the "home" position before updating it
             # to include the new data, because otherwise it will store
             # other axes (potentially zoomed in) positions as "home",
-- 
2.43.0


From f34022937a35b5e7a7931b34947c12de243cedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 48/77] fix: redraw figures whose image was cleared or has
 another shape

plot_image showed nothing in a figure which had been cleared since the last
plot, and stretched images with another shape over the old extent.
---
 src/cdtools/tools/plotting/plotting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index 563395a..32ec99c 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -317,6 +317,7 @@ def plot_image(
             vmax=vmax,
         )
         fig._current_im = mpl_im
+        fig._im_shape = tuple(im.shape)
         ax.set_facecolor('k')
 
         # Lots of logic to deal with all sorts of wild non-orthogonal
@@ -433,6 +434,14 @@ def plot_image(
         
         return fig
 
+    # The image in the figure can only be updated if it is still there, and if
+    # the new data has the same shape. Otherwise, we start with a clear figure.
+    if (hasattr(fig, '_current_im')
+        and (fig._current_im.axes not in fig.axes
+             or fig._im_shape != tuple(im.shape))):
+        fig.clear()
+        del fig._current_im, fig.plot_idx
+
     if hasattr(fig, 'plot_idx') and len(fig.plot_idx) == n_extra:
         result_fig = make_plot(fig.plot_idx)
     else:
-- 
2.43.0


From 307c2f85697a6dfa0400c48306050fbc6cb4a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 49/77] fix: crop the view of multi-mode objects along the
 image axes

FancyPtycho.inspect failed with n_obj_modes > 1.
---
 src/cdtools/models/fancy_ptycho.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index a54e7c0..bc727c5 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -146,10 +146,11 @@ class FancyPtycho(CDIModel):
         # asks for a big padding which goes outside of the actual object array.
         # Just show the full array.
         if obj_view_crop > 0:
-            self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
+            self.obj_view_slice = np.s_[...,
+                                        obj_view_crop:-obj_view_crop,
                                         obj_view_crop:-obj_view_crop]
         else:
-            self.obj_view_slice = np.s_[:,:]
+            self.obj_view_slice = np.s_[...,:,:]
             
         
         # TODO: perhaps not working anymore for fourier cropped probes
-- 
2.43.0


From ac46c48620d0f1f78243e2c43015092b2eacbe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 50/77] fix: name saved figures by their titles in the plot
 list

Figures were named by the title of their first axes, so that figures sharing
that title (e.g. all plots of per-exposure probes) overwrote each other.
---
 src/cdtools/models/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 54b90fb..95600db 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -1054,9 +1054,9 @@ class CDIModel(t.nn.Module):
             return  # No figures to save
 
         for fig in self.figs:
-            if hasattr(fig, '_panel_label') and fig._panel_label:
-                label = fig._panel_label
-            else:
+            # This is the title of the plot or panel, see inspect
+            label = fig.get_label()
+            if not label:
                 label = fig.axes[0].get_title() if fig.axes else 'figure'
             fig.savefig(prefix + label + extension, bbox_inches='tight')
 
-- 
2.43.0


From e016ad272cc799eb7edd3f538f15e7ad655266d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 51/77] fix: let the scroll wheel browse through nanomaps and
 probe modes

The buttons of matplotlib's scroll events are called up and down.
---
 src/cdtools/tools/plotting/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index 32ec99c..9b546f2 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -1235,11 +1235,11 @@ def plot_nanomap_with_images(
             im_idx = axes[1].image_idx
 
             if event.key == "left" or (
-                hasattr(event, "button") and event.button == "left"
+                hasattr(event, "button") and event.button == "up"
             ):
                 im_idx = (im_idx - 1) % im.shape[0]
             if event.key == "right" or (
-                hasattr(event, "button") and event.button == "right"
+                hasattr(event, "button") and event.button == "down"
             ):
                 im_idx = (im_idx + 1) % im.shape[0]
 
@@ -1255,11 +1255,11 @@ def plot_nanomap_with_images(
             event.key = None
 
         if event.key == "left" or (
-                hasattr(event, "button") and event.button == "left"
+                hasattr(event, "button") and event.button == "up"
             ):
             idx = slider.val - 1
         elif event.key == "right" or (
-                hasattr(event, "button") and event.button == "right"
+                hasattr(event, "button") and event.button == "down"
             ):
             idx = slider.val + 1
         else:
-- 
2.43.0


From f8cf2feadf7b9a8150a4cf3a5ca03b010e628c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 52/77] fix: RPI.from_calibration with several modes,
 oversampling, and the right detector geometry

---
 src/cdtools/models/rpi.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 6d58d9f..04e5b48 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -326,15 +326,19 @@ class RPI(CDIModel):
         # TODO this will fail if the probe from the calibration was restricted
         # in Fourier space
         probe = t.as_tensor(calibration['probe'], dtype=complex_dtype)
+        # The probe is larger than the detector if the calibration was done
+        # with oversampling
+        oversampling = int(calibration.get('oversampling', 1))
+        det_shape = [s // oversampling for s in probe.shape[-2:]]
         if 'background' in calibration:
             background = t.sqrt(t.as_tensor(calibration['background'],
                                             dtype=dtype))
         else:
-            background = t.zeros_like(probe.real)
+            background = t.zeros(det_shape, dtype=dtype)
         if 'mask' in calibration:
             mask = t.as_tensor(calibration['mask'], dtype=t.bool)
         else:
-            mask = t.ones_like(probe.real, dtype=t.bool)
+            mask = t.ones(det_shape, dtype=t.bool)
 
         # This will be superceded later by a call to init_obj, but it sets
         # the shape
@@ -344,9 +348,11 @@ class RPI(CDIModel):
         dummy_init_obj = t.ones([n_modes, obj_size[0], obj_size[1]],
                                 dtype=complex_dtype)
 
-        # Pretty sure that this will not work for reflection-mode
-        det_geo = {'distance': 1,
-                   'basis': wavelength / probe_basis} 
+        # This inverts exit_wave_geometry, assuming a detector which is parallel
+        # to the plane of the probe
+        det_basis = (t.linalg.pinv(probe_basis).transpose(0, 1) * wavelength
+                     / t.as_tensor(det_shape, dtype=dtype))
+        det_geo = {'distance': 1, 'basis': det_basis}
                 
         rpi_object = cls(
             wavelength,
@@ -357,6 +363,7 @@ class RPI(CDIModel):
             background=background,
             mask=mask,
             saturation=saturation,
+            oversampling=oversampling,
             exponentiate_obj=exponentiate_obj,
             phase_only=phase_only,
             panel_plot_mode=panel_plot_mode,
-- 
2.43.0


From 0a08f008fdeb358fb55f72d00de9dd01f0ff3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 53/77] fix: downsampling does not spread invalid values of
 masked pixels

---
 src/cdtools/datasets/ptycho_2d_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index fcfb37d..3b59211 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -411,7 +411,7 @@ class Ptycho2DDataset(CDataset):
         """
         if hasattr(self, 'mask') and self.mask is not None:
             self.patterns = t.nn.functional.avg_pool2d(
-                (self.mask * self.patterns).unsqueeze(0),
+                self.patterns.masked_fill(~self.mask, 0).unsqueeze(0),
                 factor, divisor_override=1)[0]
         else:
             self.patterns = t.nn.functional.avg_pool2d(
@@ -424,7 +424,7 @@ class Ptycho2DDataset(CDataset):
         # for the masked pixels through quantum efficiency
         if hasattr(self, 'qe_mask') and self.qe_mask is not None:
             self.qe_mask = t.nn.functional.avg_pool2d(
-                (self.mask * self.qe_mask).unsqueeze(0).unsqueeze(0),
+                self.qe_mask.masked_fill(~self.mask, 0)[None, None],
                 factor)[0,0]
             self.mask = t.nn.functional.max_pool2d(
                 self.mask.to(dtype=t.uint8).unsqueeze(0).unsqueeze(0),
-- 
2.43.0


From a16cffed74269db31605317b256dc5bb2f9c8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 54/77] fix: plot_wavefront_variation shows Fourier-space
 probes in real space

---
 src/cdtools/models/fancy_ptycho.py      | 2 ++
 src/cdtools/models/multislice_ptycho.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index bc727c5..692e7a9 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -928,6 +928,8 @@ class FancyPtycho(CDIModel):
     def plot_wavefront_variation(self, dataset=None, fig=None, mode='amplitude', **kwargs):
         def get_probes(idx):
             basis_prs = self.probe * self.probe_support[..., :, :]
+            if self.fourier_probe:
+                basis_prs = tools.propagators.inverse_far_field(basis_prs)
             prs = t.sum(self.weights[idx, :, :, None, None] * basis_prs,
                         axis=-3)
             ortho_probes = analysis.orthogonalize_probes(prs)
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 79239ef..6e9325e 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -741,6 +741,8 @@ class MultislicePtycho(CDIModel):
     def plot_wavefront_variation(self, dataset=None, fig=None, mode='amplitude', **kwargs):
         def get_probes(idx):
             basis_prs = self.probe * self.probe_support[..., :, :]
+            if self.fourier_probe:
+                basis_prs = tools.propagators.inverse_far_field(basis_prs)
             prs = t.sum(self.weights[idx, :, :, None, None] * basis_prs,
                         axis=-3)
             ortho_probes = analysis.orthogonalize_probes(prs)
-- 
2.43.0


From e6137e71bda3e053a70f3ce03c6f85a220ea5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 55/77] fix: the root summed intensity of the probes is the
 square root of their summed intensity

---
 src/cdtools/models/fancy_ptycho.py      | 4 ++--
 src/cdtools/models/multislice_ptycho.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 692e7a9..241ab28 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -937,8 +937,8 @@ class FancyPtycho(CDIModel):
             if mode.lower() == 'amplitude':
                 return np.abs(ortho_probes.detach().cpu().numpy())
             if mode.lower() == 'root_sum_intensity':
-                return np.sum(np.abs(ortho_probes.detach().cpu().numpy())**2,
-                              axis=0)
+                return np.sqrt(np.sum(
+                    np.abs(ortho_probes.detach().cpu().numpy())**2, axis=0))
             if mode.lower() == 'phase':
                 return np.angle(ortho_probes.detach().cpu().numpy())
 
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 6e9325e..653887c 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -750,8 +750,8 @@ class MultislicePtycho(CDIModel):
             if mode.lower() == 'amplitude':
                 return np.abs(ortho_probes.detach().cpu().numpy())
             if mode.lower() == 'root_sum_intensity':
-                return np.sum(np.abs(ortho_probes.detach().cpu().numpy())**2,
-                              axis=0)
+                return np.sqrt(np.sum(
+                    np.abs(ortho_probes.detach().cpu().numpy())**2, axis=0))
             if mode.lower() == 'phase':
                 return np.angle(ortho_probes.detach().cpu().numpy())
 
-- 
2.43.0


From 51664082d4d9dc47a60163ba6ff243bc12a72a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 56/77] fix: plot_wavefront_variation uses the units of the
 model

---
 src/cdtools/models/fancy_ptycho.py      | 3 ++-
 src/cdtools/models/multislice_ptycho.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 241ab28..d6887a6 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -954,7 +954,8 @@ class FancyPtycho(CDIModel):
             get_probes,
             values=values,
             fig=fig,
-            units=self.units,
+            nanomap_units=self.units,
+            image_units=self.units,
             basis=self.probe_basis,
             nanomap_colorbar_title='Total Probe Intensity',
             cmap=cmap,
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 653887c..c295064 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -781,7 +781,8 @@ class MultislicePtycho(CDIModel):
             get_probes,
             values=values,
             fig=fig,
-            units=self.units,
+            nanomap_units=self.units,
+            image_units=self.units,
             basis=self.obj_basis,
             nanomap_colorbar_title='Total Probe Intensity',
             cmap=cmap,
-- 
2.43.0


From b0e712d17da0a9ff10ee32a8fa5bf1498cd11f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 57/77] fix: MultislicePtycho shows the probe of each exposure
 in the probe's basis

---
 src/cdtools/models/multislice_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index c295064..730565f 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -783,7 +783,7 @@ class MultislicePtycho(CDIModel):
             fig=fig,
             nanomap_units=self.units,
             image_units=self.units,
-            basis=self.obj_basis,
+            basis=self.probe_basis,
             nanomap_colorbar_title='Total Probe Intensity',
             cmap=cmap,
             **kwargs),
-- 
2.43.0


From adbf5b549fcd4a101265e7c9a068c0f65695866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 58/77] fix: make_illumination_map uses the object basis which
 results have

---
 src/cdtools/tools/analysis/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 94b9c42..63a5ea5 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1140,7 +1140,7 @@ def make_illumination_map(results, total_probe_intensity=None, padding=200):
     illumination_map = np.zeros_like(results['obj'], dtype=np.float32)
     translations = t.as_tensor(results['translations'])
     pix_translations = cdtools.tools.interactions.translations_to_pixel(
-        t.as_tensor(results['basis']), translations)
+        t.as_tensor(results['obj_basis']), translations)
     
     # We use the min_translation stored in the model, which was calculated
     # from the uncorrected translations and therefore may be different from
-- 
2.43.0


From 23ed691a66a3535ed585d993d4ce50a49a67415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:35 +0000
Subject: [PATCH 59/77] fix: metadata with any characters can be stored in .cxi
 files

---
 src/cdtools/tools/data/data.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 89879dd..10305d2 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -509,6 +509,13 @@ def create_cxi(filename):
     return file_obj
 
 
+def _encode(value):
+    """Encodes a string, which may contain any characters, for a .cxi file"""
+    if isinstance(value, str):
+        value = value.encode('utf-8')
+    return np.bytes_(value)
+
+
 def add_entry_info(cxi_file, metadata):
     """Adds a dictionary of entry metadata to the entry_1 group of a cxi file object
 
@@ -523,7 +530,7 @@ def add_entry_info(cxi_file, metadata):
     # included in case the cxi spec becomes more permissive
     for key, value in metadata.items():
         if isinstance(value,(str,bytes)):
-            cxi_file['entry_1'][key] = np.bytes_(value)
+            cxi_file['entry_1'][key] = _encode(value)
         elif isinstance(value, datetime.datetime):
             cxi_file['entry_1'][key] = np.bytes_(value.isoformat())
         elif isinstance(value, numbers.Number):
@@ -563,7 +570,7 @@ def add_sample_info(cxi_file, metadata):
         if key == 'orientation':
             continue # this is a special case
         if isinstance(value,(str,bytes)):
-            s1[key] = np.bytes_(value)
+            s1[key] = _encode(value)
         elif isinstance(value, datetime.datetime):
             s1[key] = np.bytes_(value.isoformat())
         elif isinstance(value, numbers.Number):
@@ -776,7 +783,7 @@ def add_data(cxi_file, data, axes=None, compression='gzip',
             axes_str = ':'.join(axes)
         else:
             axes_str = str(axes)
-        det1['data'].attrs['axes'] = np.bytes_(axes_str)
+        det1['data'].attrs['axes'] = _encode(axes_str)
 
         
 def add_shot_to_shot_info(cxi_file, data, field_name):
-- 
2.43.0


From 5e8f17b98583c6b7fe27dc5c1707e02d691f5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:43 +0000
Subject: [PATCH 60/77] fix: the surface normal of a .cxi file is a direction,
 of any length

---
 src/cdtools/tools/data/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 10305d2..e1ce380 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -148,6 +148,7 @@ def get_sample_info(cxi_file):
 
     if 'geometry_1/surface_normal' in s1:
         snorm = s1['geometry_1/surface_normal'][()].astype(np.float32)
+        snorm /= np.linalg.norm(snorm)
         xvec = np.cross(np.array([0.,1.,0.]), snorm)
         xvec /= np.linalg.norm(xvec)
         yvec = np.cross(snorm, xvec)
-- 
2.43.0


From 941b734447ce33bc7642075fba3d168ebab35097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:55 +0000
Subject: [PATCH 61/77] fix: .cxi files with big-endian numbers can be loaded

---
 src/cdtools/tools/data/data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index e1ce380..f5def85 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -187,6 +187,11 @@ def get_wavelength(cxi_file):
     return wavelength
 
 
+def _native(array):
+    """Converts an array to the native byte order, if it is not in it"""
+    return array.astype(array.dtype.newbyteorder('='), copy=False)
+
+
 def get_detector_geometry(cxi_file):
     """Returns a standardized description of the detector geometry defined in the cxi file object
 
@@ -221,7 +226,7 @@ def get_detector_geometry(cxi_file):
     d1 = i1['detector_1']
 
     if 'detector_1/basis_vectors' in i1:
-        basis_vectors = d1['basis_vectors'][()]
+        basis_vectors = _native(d1['basis_vectors'][()])
         if basis_vectors.shape == (2,3):
             basis_vectors = basis_vectors.T
     else:
@@ -251,7 +256,7 @@ def get_detector_geometry(cxi_file):
     except:
         distance = None
     try:
-        corner_position = d1['corner_position'][()]
+        corner_position = _native(d1['corner_position'][()])
     except:
         corner_position = None
 
@@ -407,7 +412,7 @@ def get_data(cxi_file, cut_zeros = True):
     else:
         raise KeyError('Data is not defined within cxi file')
 
-    data = cxi_file[pull_from][:]
+    data = _native(cxi_file[pull_from][:])
     # Use maximum in-place to avoid allocating any more memory than is needed
     if cut_zeros:
         np.maximum(data,0,data)
-- 
2.43.0


From ea67508f8f8970023be47b048514c2ea3c417382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:55 +0000
Subject: [PATCH 62/77] fix: datasets of unsigned 16, 32 or 64 bit patterns can
 be used

---
 src/cdtools/datasets/ptycho_2d_dataset.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index 3b59211..fa37d0c 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -15,6 +15,18 @@ from cdtools.tools import analysis
 __all__ = ['Ptycho2DDataset']
 
 
+def _patterns_as_tensor(patterns):
+    """Converts patterns to a tensor of a type which can be worked with
+
+    Pytorch supports almost no operations on unsigned integers of more than
+    8 bits.
+    """
+    patterns = t.as_tensor(patterns)
+    signed_dtypes = {t.uint16: t.int32, t.uint32: t.int64, t.uint64: t.int64}
+    return patterns.to(
+        dtype=signed_dtypes.get(patterns.dtype, patterns.dtype))
+
+
 class Ptycho2DDataset(CDataset):
     """The standard dataset for a 2D ptychography scan
 
@@ -67,7 +79,7 @@ class Ptycho2DDataset(CDataset):
         self.axes = copy(axes)
         self.translations = t.tensor(translations)
         
-        self.patterns = t.as_tensor(patterns)
+        self.patterns = _patterns_as_tensor(patterns)
 
         if self.mask is None:
             self.mask = t.ones(self.patterns.shape[-2:]).to(dtype=t.bool)
@@ -163,7 +175,7 @@ class Ptycho2DDataset(CDataset):
         dataset.translations = t.tensor(translations, dtype=t.float32)
         if load_patterns:
             patterns, axes = cdtdata.get_data(cxi_file, cut_zeros=cut_zeros)
-            dataset.patterns = t.as_tensor(patterns)
+            dataset.patterns = _patterns_as_tensor(patterns)
             if dataset.patterns.dtype == t.float64:
                 # If the data is 64-bit, we need to convert it to 32-bit
                 # because 64-bit floats are not supported in reconstructions
-- 
2.43.0


From bb06d0348428ddc2a01665c661acdf447b3362a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:55 +0000
Subject: [PATCH 63/77] fix: patterns of any integer type can be downsampled

---
 src/cdtools/datasets/ptycho_2d_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index fa37d0c..40e84bf 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -421,6 +421,10 @@ class Ptycho2DDataset(CDataset):
             Default 2, the factor to downsample by
 
         """
+        if not t.is_floating_point(self.patterns):
+            # This is the only integer type which avg_pool2d supports
+            self.patterns = self.patterns.to(dtype=t.int64)
+
         if hasattr(self, 'mask') and self.mask is not None:
             self.patterns = t.nn.functional.avg_pool2d(
                 self.patterns.masked_fill(~self.mask, 0).unsqueeze(0),
-- 
2.43.0


From b44c320973e778a303bdb08f70f23b202e4dfa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:46 +0000
Subject: [PATCH 64/77] fix: .cxi files whose title or identifier is a long
 number can be loaded

---
 src/cdtools/tools/data/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index f5def85..155919d 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -84,7 +84,8 @@ def get_entry_info(cxi_file):
         if attr in e1:
             try:
                 metadata[attr] = dateutil.parser.parse(str(e1[attr][()].decode()))
-            except ValueError:
+            except (ValueError, OverflowError):
+                # e.g. an identifier with more digits than fit a date
                 metadata[attr] = str(e1[attr][()].decode())
 
     array_attrs = ['polarization_states']
-- 
2.43.0


From 7f2f433f61b92b55c1cb8804b48e04b8a9a61004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:56 +0000
Subject: [PATCH 65/77] fix: scalars of .cxi files which are stored as arrays
 of one element

---
 src/cdtools/tools/data/data.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 155919d..5ee638b 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -51,6 +51,14 @@ __all__ = ['get_entry_info',
 #
 
 
+def _scalar(dataset):
+    """Reads a scalar, which some programs store as an array of one element"""
+    value = dataset[()]
+    if isinstance(value, np.ndarray) and value.size == 1:
+        value = value.reshape(())[()]
+    return value
+
+
 def get_entry_info(cxi_file):
     """Returns a dictionary with the basic metadata from the cxi file's entry_1 attribute
 
@@ -76,17 +84,18 @@ def get_entry_info(cxi_file):
                       'program_name',
                       'start_time',
                       'end_time']
-    metadata = {attr: str(e1[attr][()].decode()) for attr in metadata_attrs
-                if attr in e1}
+    metadata = {attr: str(_scalar(e1[attr]).decode())
+                for attr in metadata_attrs if attr in e1}
     
 
     for attr in metadata_attrs:
         if attr in e1:
             try:
-                metadata[attr] = dateutil.parser.parse(str(e1[attr][()].decode()))
+                metadata[attr] = dateutil.parser.parse(
+                    str(_scalar(e1[attr]).decode()))
             except (ValueError, OverflowError):
                 # e.g. an identifier with more digits than fit a date
-                metadata[attr] = str(e1[attr][()].decode())
+                metadata[attr] = str(_scalar(e1[attr]).decode())
 
     array_attrs = ['polarization_states']
     for attr in array_attrs:
@@ -134,7 +143,7 @@ def get_sample_info(cxi_file):
 
     for attr in float_attrs:
         if attr in s1:
-            metadata[attr] = np.float32(s1[attr][()])
+            metadata[attr] = np.float32(_scalar(s1[attr]))
 
     if 'unit_cell' in s1:
         metadata['unit_cell'] = s1['unit_cell'][()].astype(np.float32)
@@ -178,9 +187,9 @@ def get_wavelength(cxi_file):
     """
     i1 = cxi_file['entry_1/instrument_1']
     if 'source_1/wavelength' in i1:
-        wavelength = np.float32(i1['source_1/wavelength'])
+        wavelength = np.float32(_scalar(i1['source_1/wavelength']))
     elif 'source_1/energy' in i1:
-        energy = np.float32(i1['source_1/energy'])
+        energy = np.float32(_scalar(i1['source_1/energy']))
         wavelength = 1.9864459e-25 / energy
     else:
         raise KeyError('Neither Wavelength or Energy Defined in provided .cxi File')
@@ -235,11 +244,11 @@ def get_detector_geometry(cxi_file):
         # implicitly define the x or y pixel size for a detector. I've
         # seen too many of these in the wild, unfortunately...
         try:
-            x_pixel_size = np.float32(d1['x_pixel_size'])
+            x_pixel_size = np.float32(_scalar(d1['x_pixel_size']))
         except:
             x_pixel_size = None
         try:
-            y_pixel_size = np.float32(d1['y_pixel_size'])
+            y_pixel_size = np.float32(_scalar(d1['y_pixel_size']))
         except:
             y_pixel_size = None
 
@@ -253,7 +262,7 @@ def get_detector_geometry(cxi_file):
                                   [-x_pixel_size,0,0]]).transpose()
 
     try:
-        distance = np.float32(d1['distance'][()])
+        distance = np.float32(_scalar(d1['distance']))
     except:
         distance = None
     try:
-- 
2.43.0


From 25d9066671629e0eed28631f2a88f967ea7d59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:47 +0000
Subject: [PATCH 66/77] fix: Bragg2DPtycho can be used with positions in double
 precision

---
 src/cdtools/tools/interactions/interactions.py | 2 +-
 src/cdtools/tools/propagators/propagators.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/interactions/interactions.py b/src/cdtools/tools/interactions/interactions.py
index fd9a5d3..eeac718 100644
--- a/src/cdtools/tools/interactions/interactions.py
+++ b/src/cdtools/tools/interactions/interactions.py
@@ -216,7 +216,7 @@ def project_translations_to_sample(sample_basis, translations):
 
     pixel_translations = t.mm(translations, sample_projection)
     propagations = t.mm(translations, prop_projection) \
-        - t.mm(translations,propagation_dir[:,None])
+        - t.mm(translations,propagation_dir_inv.t())
 
     if single_translation:
         return pixel_translations[0], propagations[0]
diff --git a/src/cdtools/tools/propagators/propagators.py b/src/cdtools/tools/propagators/propagators.py
index c9a535e..fcc7c50 100644
--- a/src/cdtools/tools/propagators/propagators.py
+++ b/src/cdtools/tools/propagators/propagators.py
@@ -286,7 +286,8 @@ def high_NA_far_field(wavefront, k_map, intensity_map=None):
     # I'm going to need to separately interpolate the real and complex parts
     # This can be done
     
-    k_map = k_map[None,:,:,:]
+    # grid_sample needs the map in the precision of the wavefield
+    k_map = k_map[None,:,:,:].to(dtype=low_NA_wavefield.real.dtype)
     # Will only work for a 4D wavefile stack.
     #plt.figure()
     #plt.pcolormesh(k_map[0,:,:,0].cpu().numpy(),k_map[0,:,:,1].cpu().numpy(),
-- 
2.43.0


From aea961275d374e13332bc2a5f90338a22d48e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:58 +0000
Subject: [PATCH 67/77] fix: plot_colorized returns the figure which was
 plotted to

---
 src/cdtools/tools/plotting/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index 9b546f2..a775a20 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -780,6 +780,8 @@ def plot_colorized(
     cbar_ax.imshow(cbar_im, origin='lower', aspect='auto',
                extent=[xg[0], xg[-1], -np.pi, np.pi])
 
+    return plot_fig
+
 
 def plot_translations(
         translations,
-- 
2.43.0


From 5e79dfa6642d8457809986cb3dd42b8bead9edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:58 +0000
Subject: [PATCH 68/77] fix: conjugated tensors can be plotted, stored and
 converted

---
 src/cdtools/tools/data/data.py         | 5 +++--
 src/cdtools/tools/plotting/plotting.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 5ee638b..59b7e16 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -917,7 +917,8 @@ def nested_dict_to_h5(h5_file, d):
         elif isinstance(value, np.ndarray):
             h5_file.create_dataset(key, data=value)
         elif t.is_tensor(value):
-            h5_file.create_dataset(key, data=value.detach().cpu().numpy())
+            arr = value.detach().cpu().resolve_conj().resolve_neg().numpy()
+            h5_file.create_dataset(key, data=arr)
         elif isinstance(value, str):
             h5_file.create_dataset(key, data=value, dtype=h5py.string_dtype())
         elif isinstance(value, Mapping):
@@ -993,7 +994,7 @@ def nested_dict_to_numpy(d):
         if isinstance(value, (numbers.Number, np.bool_, np.ndarray)):
             new_dict[key] = value
         elif t.is_tensor(value):
-            new_dict[key] = value.cpu().numpy()
+            new_dict[key] = value.cpu().resolve_conj().resolve_neg().numpy()
         elif isinstance(value, str):
             new_dict[key] = value
         elif isinstance(value, Mapping):
diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index a775a20..8673f46 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -191,7 +191,7 @@ def plot_image(
 
     # convert to numpy
     if isinstance(im, t.Tensor):
-        im = im.detach().cpu().numpy()
+        im = im.detach().cpu().resolve_conj().resolve_neg().numpy()
 
     if fig is None:
         fig = plt.figure(**kwargs)
@@ -943,7 +943,7 @@ def plot_nanomap(
         trans = np.array(translations)
 
     if isinstance(values, t.Tensor):
-        values = values.detach().cpu().numpy()
+        values = values.detach().cpu().resolve_conj().resolve_neg().numpy()
     else:
         values = np.array(values)
 
@@ -1096,7 +1096,7 @@ def plot_nanomap_with_images(
         translations = translations.detach().cpu().numpy()
 
     if isinstance(values, t.Tensor):
-        values = values.detach().cpu().numpy()
+        values = values.detach().cpu().resolve_conj().resolve_neg().numpy()
 
     if convention.lower() != 'probe':
         translations = translations * -1
-- 
2.43.0


From 8d455d164b3d8c9022fb0a4e394e12abeb770790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:03 +0000
Subject: [PATCH 69/77] fix: STEM_style_probe places and scales the aperture
 with oversampling, a detector slice or integer data

---
 .../tools/initializers/initializers.py        | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cdtools/tools/initializers/initializers.py b/src/cdtools/tools/initializers/initializers.py
index 718d8f3..4204270 100644
--- a/src/cdtools/tools/initializers/initializers.py
+++ b/src/cdtools/tools/initializers/initializers.py
@@ -473,9 +473,18 @@ def STEM_style_probe(dataset, shape, det_slice, convergence_semiangle, propagati
                                dtype=t.float32)
                    / oversampling)
     
-    mean_im = t.mean(dataset.patterns,dim=0)
+    mean_im = t.mean(dataset.patterns, dim=0, dtype=t.float32)
     center = image_processing.centroid(mean_im)
 
+    # The centroid is found in detector pixels, so we convert it to the pixels
+    # of the simulated array
+    if det_slice is not None:
+        if isinstance(det_slice, slice):
+            det_slice = (det_slice,)
+        for i, sl in enumerate(det_slice):
+            center[i] += sl.indices(int(shape[i]) // oversampling)[0]
+    center = oversampling * center + (oversampling - 1) / 2
+
     Is = t.arange(shape[0], dtype=t.float32) - center[0]
     Js = t.arange(shape[1], dtype=t.float32) - center[1]
     Is,Js = t.meshgrid(Is,Js)
@@ -489,16 +498,14 @@ def STEM_style_probe(dataset, shape, det_slice, convergence_semiangle, propagati
     probe_fft = t.zeros(shape,dtype=t.complex64)
     probe_fft[angles<convergence_semiangle] = 1
 
-    probe_mean = t.mean(t.abs(probe_fft)**2)
-    diff_mean = t.mean(mean_im)
-    probe_fft = probe_fft * t.sqrt(diff_mean / probe_mean)
+    # Each detector pixel sees the mean over the oversampled pixels
+    probe_sum = t.sum(t.abs(probe_fft)**2) / oversampling**2
+    diff_sum = t.sum(mean_im)
+    probe_fft = probe_fft * t.sqrt(diff_sum / probe_sum)
     
     probe_guess = inverse_far_field(probe_fft)
 
     if propagation_distance is not None:
-        # It's probably worth checking if this is correct when oversampling
-        # is not 1
-
         probe_shape = t.as_tensor(tuple(probe_guess.shape))
 
         # Start by recalculating the probe basis from the given information
@@ -506,7 +513,7 @@ def STEM_style_probe(dataset, shape, det_slice, convergence_semiangle, propagati
         basis_dirs = det_basis / t.norm(det_basis, dim=0)
         distance = dataset.detector_geometry['distance']
         probe_basis = basis_dirs * dataset.wavelength * distance / \
-            (probe_shape * t.norm(det_basis,dim=0))
+            (probe_shape * t.norm(det_basis,dim=0) / oversampling)
 
         # Then package everything as it's needed
         probe_spacing = t.norm(probe_basis,dim=0).numpy()
-- 
2.43.0


From a63c550c9b430b4f6a05dbe09bfe68f62dfcfe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:21 +0000
Subject: [PATCH 70/77] fix: intensity and incoherent_sum take a single slice
 for stacks

---
 src/cdtools/tools/measurements/measurements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cdtools/tools/measurements/measurements.py b/src/cdtools/tools/measurements/measurements.py
index 428bc51..7a756e1 100644
--- a/src/cdtools/tools/measurements/measurements.py
+++ b/src/cdtools/tools/measurements/measurements.py
@@ -73,6 +73,8 @@ def intensity(wavefield, detector_slice=None, epsilon=1e-7, saturation=None, ove
 
     # Then we grab the detector slice
     if detector_slice is not None:
+        if isinstance(detector_slice, slice):
+            detector_slice = (detector_slice,)
         if wavefield.dim() == 2:
             output = output[detector_slice]
         else:
@@ -144,6 +146,8 @@ def incoherent_sum(wavefields, detector_slice=None, epsilon=1e-7, saturation=Non
             
     # Then we grab the detector slice
     if detector_slice is not None:
+        if isinstance(detector_slice, slice):
+            detector_slice = (detector_slice,)
         if wavefields.dim() == 3:
             output = output[detector_slice]
         else:
-- 
2.43.0


From 2a1ce4c4394d24ba945b767b2aecdc019ed83f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:01 +0000
Subject: [PATCH 71/77] fix: Bragg2DPtycho propagates every mode of a single
 exposure

---
 src/cdtools/models/bragg_2d_ptycho.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index e799591..15bb48e 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -512,13 +512,12 @@ class Bragg2DPtycho(CDIModel):
 
         # probe propagation
         if self.propagate_probe:
-            for j in range(prs.shape[0]):
-                # I believe this -1 sign is in error, but I need a dataset with
-                # well understood geometry to figure it out
-                propagator = t.exp(
-                    1j*(props[j]*(2*np.pi)/self.wavelength)
-                    * self.universal_propagator)
-                prs[j] = tools.propagators.near_field(prs[j], propagator)
+            # I believe this -1 sign is in error, but I need a dataset with
+            # well understood geometry to figure it out
+            propagators = t.exp(
+                1j*(props[...,None,None]*(2*np.pi)/self.wavelength)
+                * self.universal_propagator)
+            prs = tools.propagators.near_field(prs, propagators)
 
         # we do the upscaling after the propagation because the propagator
         # is calculated based on the probe basis (before upsampling)
-- 
2.43.0


From c0a8d44abb372539432ea1f869856d1aec9cb409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:01 +0000
Subject: [PATCH 72/77] fix: probe shifts for a single exposure, and models
 without weights, in FancyPtycho and MultislicePtycho

---
 src/cdtools/models/fancy_ptycho.py      | 13 +++++--------
 src/cdtools/models/multislice_ptycho.py | 13 +++++--------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index d6887a6..43b37d4 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -570,10 +570,7 @@ class FancyPtycho(CDIModel):
         if self.weights is not None:
             Ws = self.weights[index]
         else:
-            try:
-                Ws = t.ones(len(index)) # I'm positive this introduced a bug
-            except TypeError:
-                Ws = 1
+            Ws = t.ones([])
 
         if self.weights is None or len(self.weights[0].shape) == 0:
             # If a purely stable coherent illumination is defined
@@ -599,10 +596,10 @@ class FancyPtycho(CDIModel):
                     surface_normal=self.surface_normal)
 
                 
-            probe_masks = t.exp(1j* (det_pix_trans[:,0,None,None] *
-                                     self.I_phase[None,...] +
-                                     det_pix_trans[:,1,None,None] *
-                                     self.J_phase[None,...]))
+            probe_masks = t.exp(1j* (det_pix_trans[...,0,None,None] *
+                                     self.I_phase +
+                                     det_pix_trans[...,1,None,None] *
+                                     self.J_phase))
             prs = prs * probe_masks[...,None,:,:]
 
 
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 730565f..6ee5a36 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -462,10 +462,7 @@ class MultislicePtycho(CDIModel):
         if self.weights is not None:
             Ws = self.weights[index]
         else:
-            try:
-                Ws = t.ones(len(index)) # I'm positive this introduced a bug
-            except TypeError:
-                Ws = 1
+            Ws = t.ones([])
 
         if self.weights is None or len(self.weights[0].shape) == 0:
             # If a purely stable coherent illumination is defined
@@ -484,10 +481,10 @@ class MultislicePtycho(CDIModel):
                     translations,
                     surface_normal=self.surface_normal)
             
-            probe_masks = t.exp(1j* (det_pix_trans[:,0,None,None] *
-                                     self.I_phase[None,...] +
-                                     det_pix_trans[:,1,None,None] *
-                                     self.J_phase[None,...]))
+            probe_masks = t.exp(1j* (det_pix_trans[...,0,None,None] *
+                                     self.I_phase +
+                                     det_pix_trans[...,1,None,None] *
+                                     self.J_phase))
             prs = prs * probe_masks[...,None,:,:]
 
 
-- 
2.43.0


From 8d08a033a96cb5e28fc8cbffffda76c7b1e66716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:25 +0000
Subject: [PATCH 73/77] fix: models without weights can be saved, restored,
 inspected and tidied

---
 src/cdtools/models/bragg_2d_ptycho.py   | 10 +++++++---
 src/cdtools/models/fancy_ptycho.py      | 21 +++++++++++----------
 src/cdtools/models/multislice_ptycho.py | 17 +++++++++--------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 15bb48e..4e0de62 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -496,7 +496,10 @@ class Bragg2DPtycho(CDIModel):
         if self.translation_offsets is not None:
             pix_trans += self.translation_scale * self.translation_offsets[index]
 
-        Ws = self.weights[index]
+        if self.weights is not None:
+            Ws = self.weights[index]
+        else:
+            Ws = t.ones([])
         prs = Ws[...,None,None,None] * self.probe * self.probe_support[...,:,:]
         # Now we need to propagate each of the probes
 
@@ -760,7 +763,6 @@ class Bragg2DPtycho(CDIModel):
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy().copy()
         oversampling = self.oversampling.cpu().numpy().copy()
         wavelength = self.wavelength.cpu().numpy().copy()
 
@@ -773,8 +775,10 @@ class Bragg2DPtycho(CDIModel):
             'obj': obj,
             'background': background,
             'oversampling': oversampling,
-            'weights': weights,
             'wavelength': wavelength,
         }
 
+        if self.weights is not None:
+            results['weights'] = self.weights.detach().cpu().numpy().copy()
+
         return {**base_results, **results}
diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 43b37d4..d48ef6d 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -804,7 +804,7 @@ class FancyPtycho(CDIModel):
         
         # First we treat the incoherent but stable  case, where the weights are
         # just one per-shot overall weight
-        if self.weights.dim() == 1:
+        if self.weights is None or self.weights.dim() == 1:
             ortho_probes = analysis.orthogonalize_probes(self.probe.detach())
             self.probe.data = ortho_probes
             return
@@ -885,7 +885,7 @@ class FancyPtycho(CDIModel):
         probe_intensities : np.ndarray
             Array of probe intensities, one per scan position.
         """
-        if not hasattr(self, 'weights'):
+        if self.weights is None:
             raise NotImplementedError(
                 "I don't know how to handle having no weights")
         elif self.weights.ndim == 1:
@@ -1139,7 +1139,7 @@ class FancyPtycho(CDIModel):
         'plot_level': 2,
         'figure_size': (8.4,3.4),
         'grid': (1,2),
-        'condition': lambda self: len(self.weights.shape) >= 2,
+        'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2,
         'plots': [
           {
             'title': '% of Power in Top Mode',
@@ -1154,7 +1154,7 @@ class FancyPtycho(CDIModel):
                  ], dim=0),
                  fig=fig,
                  units=self.units),
-            'condition': lambda self: len(self.weights.shape) >= 2
+            'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2
           },
           {
             'title': 'Mean Weight Matrix Amplitudes',
@@ -1162,7 +1162,7 @@ class FancyPtycho(CDIModel):
             'plot_func': lambda self, fig: p.plot_amplitude(
                 np.nanmean(np.abs(self.weights.data.cpu().numpy()), axis=0),
                 fig=fig),
-            'condition': lambda self: len(self.weights.shape) >= 2
+            'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2
           },
         ]
       }
@@ -1181,7 +1181,7 @@ class FancyPtycho(CDIModel):
              mode='root_sum_intensity',
              image_title='Root Summed Probe Intensities',
              image_colorbar_title='Square Root of Intensity'),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
         {'title': 'Per-Exposure Probe Amplitudes',
          'plot_level': 3,
          'figure_size': (8,5.3),
@@ -1190,7 +1190,7 @@ class FancyPtycho(CDIModel):
              mode='amplitude',
              image_title='Probe Amplitudes (scroll to view modes)',
              image_colorbar_title='Probe Amplitude'),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
         {'title': 'Per-Exposure Probe Phases',
          'plot_level': 3,
          'figure_size': (8,5.3),
@@ -1199,7 +1199,7 @@ class FancyPtycho(CDIModel):
              mode='phase',
              image_title='Probe Phases (scroll to view modes)',
              image_colorbar_title='Probe Phase'),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
     ]
     
     
@@ -1221,7 +1221,6 @@ class FancyPtycho(CDIModel):
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy().copy()
         oversampling = self.oversampling.cpu().numpy().copy()
         wavelength = self.wavelength.cpu().numpy().copy()
 
@@ -1234,10 +1233,12 @@ class FancyPtycho(CDIModel):
             'obj': obj,
             'background': background,
             'oversampling': oversampling,
-            'weights': weights,
             'wavelength': wavelength,
         }
 
+        if self.weights is not None:
+            results['weights'] = self.weights.detach().cpu().numpy().copy()
+
         return {**base_results, **results}
 
 
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 6ee5a36..7006715 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -664,7 +664,7 @@ class MultislicePtycho(CDIModel):
         
         # First we treat the incoherent but stable  case, where the weights are
         # just one per-shot overall weight
-        if self.weights.dim() == 1:
+        if self.weights is None or self.weights.dim() == 1:
             ortho_probes = analysis.orthogonalize_probes(self.probe.detach())
             self.probe.data = ortho_probes
             return
@@ -793,21 +793,21 @@ class MultislicePtycho(CDIModel):
              mode='root_sum_intensity',
              image_title='Root Summed Probe Intensities',
              image_colorbar_title='Square Root of Intensity'),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
         {'title': '',
          'plot_func': lambda self, fig: self.plot_wavefront_variation(
              fig=fig,
              mode='amplitude',
              image_title='Probe Amplitudes (scroll to view modes)',
              image_colorbar_title='Probe Amplitude'),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
         {'title': '',
          'plot_func': lambda self, fig: self.plot_wavefront_variation(
              fig=fig,
              mode='phase',
              image_title='Probe Phases (scroll to view modes)',
              image_colorbar_title='Probe Phase'),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
         {'title': 'Basis Probe Fourier Space Amplitudes',
          'plot_func': lambda self, fig: p.plot_amplitude(
              (self.probe if self.fourier_probe
@@ -836,7 +836,7 @@ class MultislicePtycho(CDIModel):
          'plot_func': lambda self, fig: p.plot_amplitude(
              np.nanmean(np.abs(self.weights.data.cpu().numpy()), axis=0),
              fig=fig),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
         {'title': '% of Power in Top Mode',
          'plot_func': lambda self, fig: p.plot_nanomap(
              self.corrected_translations(),
@@ -848,7 +848,7 @@ class MultislicePtycho(CDIModel):
              ], dim=0),
              fig=fig,
              units=self.units),
-         'condition': lambda self: len(self.weights.shape) >= 2},
+         'condition': lambda self: self.weights is not None and len(self.weights.shape) >= 2},
         {'title': 'Object Amplitude',
          'plot_func': lambda self, fig: p.plot_amplitude(
              self.obj[(np.s_[:],) + self.obj_view_slice],
@@ -970,7 +970,6 @@ class MultislicePtycho(CDIModel):
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy().copy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy().copy()
         oversampling = self.oversampling.cpu().numpy().copy()
         wavelength = self.wavelength.cpu().numpy().copy()
 
@@ -983,8 +982,10 @@ class MultislicePtycho(CDIModel):
             'obj': obj,
             'background': background,
             'oversampling': oversampling,
-            'weights': weights,
             'wavelength': wavelength,
         }
 
+        if self.weights is not None:
+            results['weights'] = self.weights.detach().cpu().numpy().copy()
+
         return {**base_results, **results}
-- 
2.43.0


From 5c0377b43aba4626ff5a087b97600d2962c42cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:57 +0000
Subject: [PATCH 74/77] fix: L-BFGS can follow tidy_probes, or start from
 arrays which are not contiguous

---
 src/cdtools/models/fancy_ptycho.py      | 6 +++---
 src/cdtools/models/multislice_ptycho.py | 6 +++---
 src/cdtools/reconstructors/lbfgs.py     | 5 +++++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index d48ef6d..bcc9074 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -806,7 +806,7 @@ class FancyPtycho(CDIModel):
         # just one per-shot overall weight
         if self.weights is None or self.weights.dim() == 1:
             ortho_probes = analysis.orthogonalize_probes(self.probe.detach())
-            self.probe.data = ortho_probes
+            self.probe.data = ortho_probes.contiguous()
             return
 
         # What follows is for the unified OPRP and incoherent multi-mode model,
@@ -844,7 +844,7 @@ class FancyPtycho(CDIModel):
 
         # And we save it back to the model
         self.probe.data = ortho_probes.to(
-            device=self.probe.device, dtype=self.probe.dtype)        
+            device=self.probe.device, dtype=self.probe.dtype).contiguous()
         self.weights.data = new_weights.to(
             device=self.weights.device, dtype=self.weights.dtype)
 
@@ -872,7 +872,7 @@ class FancyPtycho(CDIModel):
         inverse = t.where(probe_sqrt_intensities > cutoff,
                           1 / probe_sqrt_intensities,
                           t.zeros_like(probe_sqrt_intensities))
-        self.weights.data = S[:,:,None] * (Vh * inverse)
+        self.weights.data = (S[:,:,None] * (Vh * inverse)).contiguous()
 
 
     def get_probe_intensities(self):
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 7006715..63560ab 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -666,7 +666,7 @@ class MultislicePtycho(CDIModel):
         # just one per-shot overall weight
         if self.weights is None or self.weights.dim() == 1:
             ortho_probes = analysis.orthogonalize_probes(self.probe.detach())
-            self.probe.data = ortho_probes
+            self.probe.data = ortho_probes.contiguous()
             return
 
         # What follows is for the unified OPRP and incoherent multi-mode model,
@@ -704,7 +704,7 @@ class MultislicePtycho(CDIModel):
 
         # And we save it back to the model
         self.probe.data = ortho_probes.to(
-            device=self.probe.device, dtype=self.probe.dtype)        
+            device=self.probe.device, dtype=self.probe.dtype).contiguous()
         self.weights.data = new_weights.to(
             device=self.weights.device, dtype=self.weights.dtype)
 
@@ -732,7 +732,7 @@ class MultislicePtycho(CDIModel):
         inverse = t.where(probe_sqrt_intensities > cutoff,
                           1 / probe_sqrt_intensities,
                           t.zeros_like(probe_sqrt_intensities))
-        self.weights.data = S[:,:,None] * (Vh * inverse)
+        self.weights.data = (S[:,:,None] * (Vh * inverse)).contiguous()
 
 
     def plot_wavefront_variation(self, dataset=None, fig=None, mode='amplitude', **kwargs):
diff --git a/src/cdtools/reconstructors/lbfgs.py b/src/cdtools/reconstructors/lbfgs.py
index 8907782..e43e8c8 100644
--- a/src/cdtools/reconstructors/lbfgs.py
+++ b/src/cdtools/reconstructors/lbfgs.py
@@ -134,6 +134,11 @@ class LBFGSReconstructor(Reconstructor):
                               history_size=history_size,
                               line_search_fn=line_search_fn)
 
+        # The optimizer flattens the parameters, which only works if they are
+        # stored contiguously
+        for param in self.model.parameters():
+            param.data = param.data.contiguous()
+
         # Now, we run the optimize routine defined in the base class
         return super(LBFGSReconstructor, self).optimize(
             iterations,
-- 
2.43.0


From 05d39b2511f587eee90cddfa4b7c7d77b3744b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:21 +0000
Subject: [PATCH 75/77] fix: handling window events during a reconstruction
 leaves the current figure alone, and closed windows closed

---
 src/cdtools/reconstructors/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 32fc97d..fcc7b1c 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -17,7 +17,7 @@ import threading
 import queue
 import time
 from copy import copy
-from matplotlib import pyplot as plt
+from matplotlib._pylab_helpers import Gcf
 from typing import List, Union
 
 if TYPE_CHECKING:
@@ -390,10 +390,12 @@ class Reconstructor:
                 try:
                     calc.start()
                     while calc.is_alive():
-                        open_figs = plt.get_fignums()
-                        with plt.rc_context({'figure.raise_window': False}):
-                            for fignum in open_figs:
-                                plt.figure(fignum).canvas.flush_events()
+                        # This avoids plt.figure(), which would change the
+                        # current figure, and would reopen any windows which
+                        # were closed while processing earlier events
+                        for manager in Gcf.get_all_fig_managers():
+                            if Gcf.figs.get(manager.num) is manager:
+                                manager.canvas.flush_events()
 
                         time.sleep(0.01)
 
-- 
2.43.0


From c79c351022dba0f9bde6e4710f20959e7daa98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:59 +0000
Subject: [PATCH 76/77] fix: plot_loss_history sets the title of its own axes

---
 src/cdtools/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 95600db..75a92f6 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -1021,7 +1021,7 @@ class CDIModel(t.nn.Module):
             )
         
         ax.semilogy(self.loss_history)
-        plt.title('Loss History')
+        ax.set_title('Loss History')
         
         ax.set_xlabel('Epoch')
         ax.set_ylabel('Loss Metric')
-- 
2.43.0


From b61d4cc4365fa3707439e9f53f4fac90f547a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:51 +0000
Subject: [PATCH 77/77] fix: an error while handling window events stops the
 background computation

---
 src/cdtools/reconstructors/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index fcc7b1c..ab7d7b3 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -399,7 +399,10 @@ class Reconstructor:
 
                         time.sleep(0.01)
 
-                except KeyboardInterrupt as e:
+                except BaseException as e:
+                    # Whatever happens here (an interrupt, or an error in
+                    # handling the window events), the thread mustn't go on
+                    # changing the model in the background
                     stop_event.set()
                     print('\nAsking execution thread to stop cleanly - ' +
                           'please be patient.')
-- 
2.43.0

