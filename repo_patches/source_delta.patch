From b8ee60be6b36e58d44380550154fa167f327b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:02 +0000
Subject: [PATCH 01/35] fix: lower_bound gradient for 'disconnected' and Python
 float bounds

The 'disconnected' backward returned the input instead of the incoming
gradient masked at the bound, and a float bound (allowed by the signature)
raised AttributeError.
---
 neuralcompression/functional/_lower_bound.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index be17e47..7b5691b 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -28,7 +28,7 @@ class _LowerBound(Function):
         x, bound, gradient = ctx.saved_tensors
 
         if int(gradient) == _LowerBoundGradient.disconnected:
-            return x, None, None
+            return (x >= bound) * y, None, None
 
         if int(gradient) == _LowerBoundGradient.identity:
             return y, None, None
@@ -39,7 +39,7 @@ class _LowerBound(Function):
     def forward(ctx, *args):
         x, bound, gradient = args
 
-        bound = bound.to(x.dtype)
+        bound = torch.as_tensor(bound, dtype=x.dtype, device=x.device)
 
         ctx.save_for_backward(
             x,
-- 
2.43.0


From fe2e09a765818955c9adb1bd89cb0160a2bfa137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 02/35] fix: log_cdf of a Uniform distribution ignored its
 bounds

log(x) is only the log-CDF of Uniform(0, 1) inside its support.
---
 neuralcompression/functional/_log_cdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_cdf.py b/neuralcompression/functional/_log_cdf.py
index c1c80e5..5eb8013 100644
--- a/neuralcompression/functional/_log_cdf.py
+++ b/neuralcompression/functional/_log_cdf.py
@@ -31,6 +31,8 @@ def log_cdf(
         return log_ndtr(standardized)
 
     if isinstance(distribution, Uniform):
-        return torch.log(x)
+        standardized = (x - distribution.low) / (distribution.high - distribution.low)
+
+        return torch.log(torch.clamp(standardized, 0.0, 1.0))
 
     return torch.log(distribution.cdf(x))
-- 
2.43.0


From 980c826614fc3c3a8874d169df85bbad0faab28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 03/35] fix: log_survival_function of non-Normal distributions

The generic branch computed log(1 + cdf(-x)), which is positive, instead of
log(1 - cdf(x)).
---
 neuralcompression/functional/_log_survival_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_survival_function.py b/neuralcompression/functional/_log_survival_function.py
index bdb76fe..9a037fb 100644
--- a/neuralcompression/functional/_log_survival_function.py
+++ b/neuralcompression/functional/_log_survival_function.py
@@ -30,4 +30,4 @@ def log_survival_function(
 
         return log_ndtr(-standardized)
 
-    return torch.log1p(distribution.cdf(-x))
+    return torch.log1p(-distribution.cdf(x))
-- 
2.43.0


From ab6940df20a30d4f8f2063a803a149fc1f06ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 04/35] fix: log_ndtr was -inf for float64 inputs between about
 -20 and -13

ndtr evaluates in single precision and underflows there, so the asymptotic
series has to take over at the single-precision threshold; the series'
double factorials were also shifted by one (1, 1, 3 instead of 1, 3, 15).
---
 neuralcompression/functional/_log_ndtr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 57a6d57..d37b415 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -21,7 +21,7 @@ def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
     for n in range(1, series_order + 1):
         t2.add_(multiplier * double_fac / value_even_power)
         value_even_power.mul_(x**2)
-        double_fac *= 2 * n - 1
+        double_fac *= 2 * n + 1
         multiplier *= -1
 
     return t1 + torch.log1p(t2)
@@ -37,10 +37,9 @@ def log_ndtr(x: Tensor) -> Tensor:
         the log of the area under the standard Normal probability density
         function (PDF), integrated from minus infinity to :math:`x`.
     """
-    if x.dtype == torch.float32:
+    if x.dtype in (torch.float32, torch.float64):
+        # `ndtr` evaluates in single precision for both dtypes
         m, n = -10.0, 5.0
-    elif x.dtype == torch.float64:
-        m, n = -20.0, 8.0
     else:
         raise TypeError(
             f"`{log_ndtr.__name__}` doesn’t support {x.dtype}",
-- 
2.43.0


From 20323aa131a1f3d8be722c9a030fd4cecd88ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:54 +0000
Subject: [PATCH 05/35] fix: UniformNoise.rsample drew one noise value per
 sample, not per element

The noise had only the sample shape, so it was shared across the batch of the
base distribution (or failed to broadcast).
---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 028a0b2..4b63d4b 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -134,7 +134,7 @@ class UniformNoise(Distribution):
 
     def rsample(self, sample_shape: Size = Size()):
         a = self._distribution.sample(sample_shape)
-        b = self._uniform_distribution.sample(sample_shape)
+        b = self._uniform_distribution.sample(a.shape)
 
         return a + b
 
-- 
2.43.0


From 47c7cfa76b32472bf5e53d17b594d10924ce5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:55 +0000
Subject: [PATCH 06/35] fix: UniformNoise swapped the batch and event shapes of
 its base distribution

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 4b63d4b..82fd55e 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -44,8 +44,8 @@ class UniformNoise(Distribution):
 
     def __init__(self, distribution: Distribution):
         super(UniformNoise, self).__init__(
-            distribution.event_shape,
             distribution.batch_shape,
+            distribution.event_shape,
         )
 
         self._distribution = distribution
-- 
2.43.0


From 4fc16f01c7d19d81b517108d0e4996786e3e919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:54 +0000
Subject: [PATCH 07/35] fix: UniformNoise.expand returned the noiseless base
 distribution

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 82fd55e..3788316 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -82,7 +82,7 @@ class UniformNoise(Distribution):
         return self._distribution.enumerate_support(expand)
 
     def expand(self, batch_shape, _instance=None) -> Distribution:
-        return self._distribution.expand(batch_shape)
+        return UniformNoise(self._distribution.expand(batch_shape))
 
     def icdf(self, value: Tensor) -> Tensor:
         return self._distribution.icdf(value)
-- 
2.43.0


From 6d14976a621dd979d336afd3c1e08af3ac98f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:54 +0000
Subject: [PATCH 08/35] fix: QBottleneck.reset_hits did not reset the codebook
 hit counters

---
 neuralcompression/layers/_q_bottleneck.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..e4d394c 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,9 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for name, codebook_hits in self.named_buffers():
+            if name.startswith("codebook_hits"):
+                codebook_hits.zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From cedc1247c6234056fdbe8e902303b278accb9745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:32 +0000
Subject: [PATCH 09/35] fix: KernelInceptionDistance ignored its subset and
 kernel options

compute() always used the torch-fidelity defaults, whatever subsets,
subset_size, degree, gamma and coef were requested.
---
 neuralcompression/metrics/_kid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..3cca9e2 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -87,6 +87,11 @@ class KernelInceptionDistance(Metric):
         output = kid_features_to_metric(
             torch.cat(self.real_features).to(torch.float64),
             torch.cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From 1b4f8218e66cb14f96341109ad83c3cb752189fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:32 +0000
Subject: [PATCH 10/35] fix: Kodak force_download failed when the root
 directory exists

which is the one situation the option is documented for.
---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..f83157e 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=force)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From 7508fbe8c41f4ab43b9f89e15aa8db85d3940fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:32 +0000
Subject: [PATCH 11/35] fix: Vimeo90kSeptuplet image mode crashed without a
 pil_transform

The documentation promises that no default transform is applied in image
mode; loading an item called None instead.
---
 neuralcompression/data/_vimeo_90k_septuplet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..d99a849 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -109,8 +109,10 @@ class Vimeo90kSeptuplet(Dataset):
             return len(self.folder_list) * self.frames_per_group
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
-        img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
-        img = self.pil_transform(img_path)
+        img = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img
+        img = self.pil_transform(img)
         if not isinstance(img, Tensor):
             raise RuntimeError(
                 "Tensor not returned from pil_transform. "
-- 
2.43.0


From b5d0c02259a26505a53f059f92f52cd3f060dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:32 +0000
Subject: [PATCH 12/35] fix: CLIC2020Video frames came in directory order, not
 frame order

---
 neuralcompression/data/_clic_2020_video.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..46936ae 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -86,7 +86,7 @@ class CLIC2020Video(IterableDataset):
         if download:
             self.download()
 
-        self._video_paths = [Path(path.name) for path in self._root.glob("*")]
+        self._video_paths = sorted(Path(path.name) for path in self._root.glob("*"))
 
         self._video_sampler = video_sampler(self._video_paths)
 
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From 192d77fdd17b2a747944a6d92ba98cfae4ccfec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:21 +0000
Subject: [PATCH 13/35] fix: DVC.decompress derived wrong latent sizes for most
 frame sizes

The strided encoder rounds sizes up, the decoder rounded them down, so a
P-frame only decoded when every level had an even size.
---
 neuralcompression/models/deep_video_compression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..6f1d35b 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -225,8 +225,8 @@ class DVC(nn.Module):
                 transition information.
         """
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +241,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From e7ff40ddcb1b935e398d8edbc40f91d9b696089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 14/35] fix: memoize returned stale results for tensors that
 reuse an id

Tensors were keyed by id without keeping them alive, so a new tensor (or an
int) with the same id as a freed one hit the freed tensor's cache entry.
---
 projects/torch_vct/utils/memoize.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..2207b1f 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -83,6 +83,19 @@ def create_cache():
     )
 
 
+class _TensorKey:
+    """Identity key of a tensor, keeps it alive so that its id is not reused."""
+
+    def __init__(self, tensor: Tensor):
+        self.tensor = tensor
+
+    def __hash__(self):
+        return hash(self.tensor)
+
+    def __eq__(self, other):
+        return isinstance(other, _TensorKey) and self.tensor is other.tensor
+
+
 def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
     """Return a version of x that is hashable."""
     if isinstance(x, (list, tuple)):
@@ -92,7 +105,7 @@ def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
         return tuple((_ensure_hashable(k), _ensure_hashable(v)) for k, v in x.items())
 
     if isinstance(x, Tensor):
-        return hash(x)
+        return _TensorKey(x)
 
     assert hash(x) is not None
     return x
-- 
2.43.0


From 9432177239d1b52ba94f5f4ea6c86e48006e6dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 15/35] fix: ConvGDNSynthesis misreported its compression
 channels

so a pipeline with any number of channels but 192 could not be built.
---
 projects/torch_vct/neural/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/transforms.py b/projects/torch_vct/neural/transforms.py
index a9c409a..b62b2b7 100644
--- a/projects/torch_vct/neural/transforms.py
+++ b/projects/torch_vct/neural/transforms.py
@@ -73,7 +73,7 @@ class ConvGDNSynthesis(nn.Module):
         """
 
         super().__init__()
-        self._compression_channels = 192
+        self._compression_channels = compression_channels
 
         self.transforms = nn.Sequential(
             make_deconv(
-- 
2.43.0


From fefd5e6fe6022dba00f95b8d7f522ed62facbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:23 +0000
Subject: [PATCH 16/35] fix: BitsBackCodec state dict did not restore
 extra_bytes

The key was misspelt, so a restored codec reported a wrong used rate.
---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From e304fea4b94a6fc88b22482c683cfe4a89261703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 17/35] fix: information_content per batch element failed on
 non-contiguous tensors

---
 neuralcompression/functional/_information_content.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_information_content.py b/neuralcompression/functional/_information_content.py
index f9dfc65..cd1544b 100644
--- a/neuralcompression/functional/_information_content.py
+++ b/neuralcompression/functional/_information_content.py
@@ -43,7 +43,9 @@ def information_content(
     if reduction == "sum":
         natural = torch.sum(torch.log(probabilities))
     elif reduction == "batch_el":
-        natural = torch.log(probabilities).view(probabilities.shape[0], -1).sum(dim=-1)
+        natural = (
+            torch.log(probabilities).reshape(probabilities.shape[0], -1).sum(dim=-1)
+        )
     elif reduction == "none":
         natural = torch.log(probabilities)
 
-- 
2.43.0


From 4320ce57b915cbaed343a43583e29281d2a89c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 18/35] fix: quantization_offset raised for distributions that
 define no mean

---
 neuralcompression/functional/_quantization_offset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_quantization_offset.py b/neuralcompression/functional/_quantization_offset.py
index a584690..700694b 100644
--- a/neuralcompression/functional/_quantization_offset.py
+++ b/neuralcompression/functional/_quantization_offset.py
@@ -37,7 +37,7 @@ def quantization_offset(distribution: Distribution) -> Tensor:
     """
     try:
         offset = distribution.mean
-    except AttributeError:
+    except (AttributeError, NotImplementedError):
         offset = torch.tensor(0)
 
     with torch.no_grad():
-- 
2.43.0


From 28e018e76d9d0a71530f414df7fbe9f6d4c27338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:29 +0000
Subject: [PATCH 19/35] fix: estimate_tails never returned when its starting
 point is the solution

---
 neuralcompression/functional/_estimate_tails.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_estimate_tails.py b/neuralcompression/functional/_estimate_tails.py
index a727294..004c4aa 100644
--- a/neuralcompression/functional/_estimate_tails.py
+++ b/neuralcompression/functional/_estimate_tails.py
@@ -57,7 +57,8 @@ def estimate_tails(
     variance = torch.ones(shape, dtype=dtype)
 
     while torch.min(counts) < 100:
-        abs(func(tails) - target).backward(torch.ones_like(tails))
+        error = abs(func(tails) - target)
+        error.backward(torch.ones_like(tails))
 
         assert tails.grad is not None
         gradient = tails.grad.cpu()
@@ -70,6 +71,7 @@ def estimate_tails(
             tails -= (1e-2 * mean / (torch.sqrt(variance) + eps)).to(device)
 
         condition = torch.logical_or(counts > 0, gradient.cpu() * tails.cpu() > 0)
+        condition = torch.logical_or(condition, error.detach().cpu() == 0)
 
         counts = torch.where(condition, counts + 1, counts)
 
-- 
2.43.0


From 98a95235ce8058dbb76e31c802cf354dbb5542ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:05 +0000
Subject: [PATCH 20/35] fix: calc_psnr_numpy was wrong for integer images

The difference of unsigned images wraps around (and the square of int8/int16
ones overflows), so the PSNR of uint8 arrays, the natural input for the
default data range of 255, was meaningless.
---
 neuralcompression/metrics/_calc_psnr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/metrics/_calc_psnr.py b/neuralcompression/metrics/_calc_psnr.py
index d7ef5ec..e1c2fa2 100644
--- a/neuralcompression/metrics/_calc_psnr.py
+++ b/neuralcompression/metrics/_calc_psnr.py
@@ -40,5 +40,7 @@ def calc_psnr_numpy(
     Returns:
         PSNR between image and reference.
     """
-    mse = np.mean((image - reference) ** 2)
+    # integer images are compared in floating point, their difference would wrap
+    dtype = np.result_type(image, reference, np.float32)
+    mse = np.mean(np.subtract(image, reference, dtype=dtype) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * np.log10(mse)
-- 
2.43.0


From c1bd337dc2156e50f91ac3bbe940544502245b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:25 +0000
Subject: [PATCH 21/35] fix: FID metrics failed to compute after a distributed
 sync

---
 neuralcompression/metrics/_fid.py      | 5 +++--
 neuralcompression/metrics/_fid_swav.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/metrics/_fid.py b/neuralcompression/metrics/_fid.py
index 4fb0ed1..82ff406 100644
--- a/neuralcompression/metrics/_fid.py
+++ b/neuralcompression/metrics/_fid.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
 )
 from torchmetrics.image.fid import NoTrainInceptionV3
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 
 
 def _compute_fid_from_features(
@@ -90,6 +91,6 @@ class FrechetInceptionDistance(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
diff --git a/neuralcompression/metrics/_fid_swav.py b/neuralcompression/metrics/_fid_swav.py
index 807349b..8dfe88f 100644
--- a/neuralcompression/metrics/_fid_swav.py
+++ b/neuralcompression/metrics/_fid_swav.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
     fid_statistics_to_metric,
 )
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 from torchvision.transforms import Normalize
 
 
@@ -107,6 +108,6 @@ class FrechetInceptionDistanceSwAV(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
-- 
2.43.0


From 46c06385dde6f06aeb8e6f6c560119717f561829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 22/35] fix: CLIC2020Video yields every clip of a video before
 moving on

---
 neuralcompression/data/_clic_2020_video.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 46936ae..6586618 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -148,6 +148,10 @@ class CLIC2020Video(IterableDataset):
         return self
 
     def __next__(self) -> Dict:
+        if self._current_video:
+            # the current video has further clips
+            return self[self._current_video[1]]
+
         if not self._video_sampler_iterator:
             self._video_sampler_iterator = iter(
                 MultiProcessSampler(
-- 
2.43.0


From 4f43150e248e97af102349b0b4a276c83c8895d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 23/35] fix: iterating CLIC2020Video again starts a new pass

---
 neuralcompression/data/_clic_2020_video.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 6586618..79780a8 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -145,6 +145,12 @@ class CLIC2020Video(IterableDataset):
         return sample
 
     def __iter__(self):
+        # start a new pass over the videos
+        self._video_sampler_iterator = None
+        self._current_video = None
+        self._next_clip_start_sec = 0.0
+        self._clip_sampler.reset()
+
         return self
 
     def __next__(self) -> Dict:
-- 
2.43.0


From e725612491227c21ae784748bef4c70158e07826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 24/35] fix: CLIC2020Image(split='val', download=True) works on
 a downloaded root

---
 neuralcompression/data/_clic_2020_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_image.py b/neuralcompression/data/_clic_2020_image.py
index b89fe8e..0544132 100644
--- a/neuralcompression/data/_clic_2020_image.py
+++ b/neuralcompression/data/_clic_2020_image.py
@@ -106,6 +106,9 @@ class CLIC2020Image(Dataset):
         return len(self.paths)
 
     def download(self):
+        if self.split == "val" and any(self.root.joinpath(self.split).glob("*.png")):
+            return  # extracted and renamed by an earlier download
+
         extract_root = str(self.root)
 
         if self.split == "test":
-- 
2.43.0


From e35020f2f7abba05ec117bad4075b907f6b07c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 25/35] fix: UnetDiscriminator with
 output_downsampling_factor=2

---
 neuralcompression/models/_unet_discriminator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 6b07511..bd938dc 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -234,7 +234,7 @@ class UnetDiscriminator(Discriminator):
             out_planes=64,
             child=model,
             top=True,
-            clip_upsample=clip_upsample,
+            clip_upsample=num_downsamples > 0,
             norm_type=norm_type,
         )
 
-- 
2.43.0


From 12c28504d65a63f9a0381b6a851708ded5eca25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 26/35] fix: GANCompressionModule trains unconditional
 discriminators

---
 projects/illm/gan_compression_module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/illm/gan_compression_module.py b/projects/illm/gan_compression_module.py
index bfd406c..f4bbfb7 100644
--- a/projects/illm/gan_compression_module.py
+++ b/projects/illm/gan_compression_module.py
@@ -166,8 +166,10 @@ class GANCompressionModule(TargetRateCompressionModule):
         else:
             disc_output = output
 
-        fake_logits = self.discriminator(output.image.detach(), output.latent.detach())
-        real_logits = self.discriminator(disc_images, disc_output.latent.detach())
+        fake_logits = self.run_discriminator(
+            output.image.detach(), output.latent.detach()
+        )
+        real_logits = self.run_discriminator(disc_images, disc_output.latent.detach())
 
         disc_loss = self.discriminator_loss(
             real_logits=real_logits, fake_logits=fake_logits, target=real_target
@@ -233,7 +235,7 @@ class GANCompressionModule(TargetRateCompressionModule):
 
         # generator loss
         g_loss = self.generator_loss(
-            self.discriminator(output.image, output.latent), target
+            self.run_discriminator(output.image, output.latent), target
         )
 
         # rate loss
-- 
2.43.0


From 16a1ba1662d528029b87594eda84110c206b99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:33 +0000
Subject: [PATCH 27/35] fix: DVC validation bpp includes the I-frame

---
 projects/deep_video_compression/dvc_module.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b849609..412d600 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -277,18 +277,21 @@ class DvcModule(LightningModule):
 
     def validation_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/val_"
+
+        # compress the iframe and get its bpp cost (no grads)
+        batch, iframe_bpp = self.compress_iframe(batch)
+
         # gop = "Group of Pictures"
         logging_metrics = LoggingMetrics(
             gop_total_loss=0,
             gop_distortion_loss=0,
-            gop_bpp=0,
+            gop_bpp=iframe_bpp,
             gop_flow_bpp=0,
             gop_residual_bpp=0,
         )
         image2_list = []
         image2_est_list = []
 
-        batch, gop_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(self.num_pframes):
             image2 = batch[:, i + 1]
-- 
2.43.0


From 31599bfe1fdf9e65cd60366fc9e71d33a16bae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 28/35] fix: 8-bit PSNR of VCTModule wrapped around in uint8
 arithmetic

---
 projects/torch_vct/model_lightning.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index 4e34f19..ab183cd 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -17,6 +17,11 @@ from torchmetrics.functional import peak_signal_noise_ratio
 from utils.hydra_tools import OmegaConf  # ! Needed for resolvets to take effect
 
 
+def _quantize_8bit(video: Tensor) -> Tensor:
+    """Round to 8 bit levels, as floats: arithmetic on uint8 tensors wraps around"""
+    return (torch.clamp(video, 0.0, 1.0) * 255 + 0.5).to(torch.uint8).float()
+
+
 class VCTModule(pytorch_lightning.LightningModule):
     """Encapsulates model + loss + optimizer + metrics in a PL module"""
 
@@ -65,8 +70,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8),
-                (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                _quantize_8bit(recon_frames),
+                _quantize_8bit(batch.video_tensor),
                 data_range=255,
                 dim=(2, 3, 4),
             ).item()
@@ -107,8 +112,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8),
-                    (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                    _quantize_8bit(recon_frames),
+                    _quantize_8bit(batch.video_tensor),
                     data_range=255,
                     dim=(2, 3, 4),
                 ).item(),
@@ -127,7 +132,7 @@ class VCTModule(pytorch_lightning.LightningModule):
         assert self.training is False
 
         with torch.no_grad():
-            video_ref_uint8 = (batch.video_tensor[0] * 255 + 0.5).to(torch.uint8)
+            video_ref_uint8 = _quantize_8bit(batch.video_tensor[0])
             if run_fwd:
                 self.model._code_to_strings = False
                 forward_pass = self.model(batch)
@@ -136,7 +141,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                 # take the single batch and clamp it:
                 recon_clamped = torch.clamp(recon[0], 0.0, 1.0)
                 # caveat: real compression people use YCbCr
-                recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+                recon_uint8 = _quantize_8bit(recon_clamped)
                 cts_psnr = peak_signal_noise_ratio(
                     recon_uint8, video_ref_uint8, data_range=255
                 ).item()
@@ -166,7 +171,7 @@ class VCTModule(pytorch_lightning.LightningModule):
 
             # PSNR
             # caveat: real compression people use YCbCr
-            recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+            recon_uint8 = _quantize_8bit(recon_clamped)
             psnr = peak_signal_noise_ratio(
                 recon_uint8, video_ref_uint8, data_range=255
             ).item()
-- 
2.43.0


From cb063dbb62900bfa325dc2ba72ca6af524aab0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:42 +0000
Subject: [PATCH 29/35] fix: UVGDataModule(normalize=True) crashed on every
 frame

---
 projects/torch_vct/datamodules/uvg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/projects/torch_vct/datamodules/uvg.py b/projects/torch_vct/datamodules/uvg.py
index eacd297..440ec01 100644
--- a/projects/torch_vct/datamodules/uvg.py
+++ b/projects/torch_vct/datamodules/uvg.py
@@ -10,8 +10,7 @@ import torch.utils.data
 import torchvision
 from datamodules.video_data_api import VideoDataset
 from pytorch_lightning import LightningDataModule
-from pytorchvideo.transforms import Normalize
-from torchvision.transforms import Compose, ToTensor
+from torchvision.transforms import Compose, Normalize, ToTensor
 
 
 class UVGDataModule(LightningDataModule):
@@ -66,7 +65,7 @@ class UVGDataModule(LightningDataModule):
         self.pin_memory = pin_memory
 
         # The mean and std are the default in pytorchvideo.transforms.create_video_transform
-        # Note data is first /255 and then pytorchvideo.transforms.Normalize-d
+        # Note data is first /255 and then torchvision.transforms.Normalize-d (per image)
         # Omnivision uses [123.675, 116.28, 103.53]; [58.395, 57.12, 57.375]
         self.normalize = normalize
         if normalize:
-- 
2.43.0


From 51b088b21507a79d4d6a6c134e5f9b95b5f265d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:42 +0000
Subject: [PATCH 30/35] fix: OpenImagesDataModule trains with its default
 workers=0

---
 projects/illm/open_images_datamodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/illm/open_images_datamodule.py b/projects/illm/open_images_datamodule.py
index 27573d6..98a01e7 100644
--- a/projects/illm/open_images_datamodule.py
+++ b/projects/illm/open_images_datamodule.py
@@ -73,7 +73,7 @@ class OpenImagesDataModule(LightningDataModule):
             shuffle=True,
             num_workers=self.workers,
             pin_memory=self.pin_memory,
-            prefetch_factor=2,
+            prefetch_factor=2 if self.workers > 0 else None,
         )
 
     def val_dataloader(self):
-- 
2.43.0


From 6d80beb3da01944af75c0a8d3458660f3d907087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:42 +0000
Subject: [PATCH 31/35] fix: compress_iframe overwrote the caller's batch

---
 projects/deep_video_compression/dvc_module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index 412d600..1febb82 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -141,6 +141,7 @@ class DvcModule(LightningModule):
         with torch.no_grad():
             output = self.iframe_model(batch[:, 0])
 
+        batch = batch.clone()  # the caller may use its batch again
         batch[:, 0] = output["x_hat"]
         num_pixels = batch.shape[0] * batch.shape[-2] * batch.shape[-1]
         bpp_loss = sum(
-- 
2.43.0


From 0ec4b9c58f3be0465b89e0b4924fafaea36986be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:09 +0000
Subject: [PATCH 32/35] fix: arithmetic coder lost the last byte when the
 buffer was filled exactly

---
 projects/jax_entropy_coders/jax_arithmetic_coder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/jax_arithmetic_coder.py b/projects/jax_entropy_coders/jax_arithmetic_coder.py
index 3c712e4..a760d4e 100644
--- a/projects/jax_entropy_coders/jax_arithmetic_coder.py
+++ b/projects/jax_entropy_coders/jax_arithmetic_coder.py
@@ -579,7 +579,7 @@ def encode(
 
     bits, num_bytes = map_fun(messages, init_cdf_states)
 
-    if any([i > len(b) for b, i in zip(bits, num_bytes)]):
+    if any([i >= len(b) for b, i in zip(bits, num_bytes)]):
         raise RuntimeError("Message buffer overrun - try increasing buffer_oversize.")
 
     bits = [bytes(b[: i + 1]) for b, i in zip(bits, num_bytes)]
-- 
2.43.0


From c1248178103a3679cc947d9881935d72df13022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:13 +0000
Subject: [PATCH 33/35] fix: fixed_array_cdf_codec corrupted symbol 255 of
 uint8 messages

---
 projects/jax_entropy_coders/craystack/codecs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/jax_entropy_coders/craystack/codecs.py b/projects/jax_entropy_coders/craystack/codecs.py
index 118903c..410235d 100644
--- a/projects/jax_entropy_coders/craystack/codecs.py
+++ b/projects/jax_entropy_coders/craystack/codecs.py
@@ -87,6 +87,7 @@ def fixed_array_cdf_codec(
 
     def cdf_fun(symbols, cdf_state):
         cdf = cdf_state[0]
+        symbols = symbols.astype("int32")  # symbols + 1 must not wrap around
         return _lookup(cdf, symbols), _lookup(cdf, symbols + 1), cdf_state
 
     def inverse_cdf_fun(cdf_value, cdf_state):
-- 
2.43.0


From 460198bc26a5bd0062e09b697b2a4f5af1890d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:00 +0000
Subject: [PATCH 34/35] fix: bits-back ANS lost data when the stack held fewer
 bytes than were popped

---
 projects/jax_entropy_coders/craystack/_backend.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/jax_entropy_coders/craystack/_backend.py b/projects/jax_entropy_coders/craystack/_backend.py
index 742a2e2..4e49932 100644
--- a/projects/jax_entropy_coders/craystack/_backend.py
+++ b/projects/jax_entropy_coders/craystack/_backend.py
@@ -161,10 +161,16 @@ def tail_pop(
     limit, data = tail
     unsorted = lax.sort_key_val(pop_indices_flat, jnp.arange(pop_indices.size))[1]
 
-    limit = lax.cond(
+    # if the stack holds fewer bytes than are popped, the missing ones are placed
+    # below it so that pushing everything back restores the stack
+    missing = jnp.maximum(limit + pop_indices.sum() - len(data), 0)
+    limit, data = lax.cond(
         allow_empty_pop,
-        lambda _: jnp.clip(limit + pop_indices.sum(), 0, len(data)),
-        lambda _: limit + pop_indices.sum(),
+        lambda _: (
+            limit + pop_indices.sum() - missing,
+            jnp.roll(data, -missing[0]),
+        ),
+        lambda _: (limit + pop_indices.sum(), data),
         None,
     )
     # here we return a slice containing the information in the pop indices
-- 
2.43.0


From 23804bb7f3d4ca2ac619b87bb6e73ea56a0d1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:16 +0000
Subject: [PATCH 35/35] fix: VCTPipeline builds its entropy model with the
 requested context length

The entropy model was always built for two previous latents, so a pipeline
with context_len=3 failed as soon as it had three of them.
---
 projects/torch_vct/model_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..2a9fdc8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -181,7 +181,9 @@ class VCTPipeline(nn.Module):
         ), "Mismatched compression_channels"
 
         # Entropy model
-        self.entropy_model = VCTEntropyModel(num_channels=compression_channels)
+        self.entropy_model = VCTEntropyModel(
+            num_channels=compression_channels, context_len=context_len
+        )
         self._temporal_pad_token_maker = PerChannelWeight(
             num_channels=compression_channels
         )
-- 
2.43.0

