From 415ba7a04c342647988b3af9c3196e7f8b67a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:52 +0000
Subject: [PATCH 01/22] fix: Kodak force_download failed when the root
 directory already existed

---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..f83157e 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=force)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From 6579dddd5696c0d61bc2b338e61a437a19038982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 02/22] fix: CLIC2020Image val download failed when the split
 was already extracted

---
 neuralcompression/data/_clic_2020_image.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_clic_2020_image.py b/neuralcompression/data/_clic_2020_image.py
index b89fe8e..61e9949 100644
--- a/neuralcompression/data/_clic_2020_image.py
+++ b/neuralcompression/data/_clic_2020_image.py
@@ -118,7 +118,13 @@ class CLIC2020Image(Dataset):
         )
 
         if self.split == "val":
-            os.rename(self.root.joinpath("valid"), self.root.joinpath(self.split))
+            # The split may already be there, from an earlier (or interrupted) call.
+            extracted = self.root.joinpath("valid")
+            target = self.root.joinpath(self.split)
+            target.mkdir(exist_ok=True)
+            for path in list(extracted.iterdir()):
+                os.replace(path, target.joinpath(path.name))
+            extracted.rmdir()
 
         if self.split in {"train", "val"}:
             shutil.rmtree(self.root.joinpath("__MACOSX"))
-- 
2.43.0


From 90eccd9ac3834b8bdf5fbe9f0a29277d2188e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 03/22] fix: CLIC2020Video ordered videos and frames by raw
 directory listing

---
 neuralcompression/data/_clic_2020_video.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..46936ae 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -86,7 +86,7 @@ class CLIC2020Video(IterableDataset):
         if download:
             self.download()
 
-        self._video_paths = [Path(path.name) for path in self._root.glob("*")]
+        self._video_paths = sorted(Path(path.name) for path in self._root.glob("*"))
 
         self._video_sampler = video_sampler(self._video_paths)
 
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From f2bbc2b8e3ee680e45b64a4e2fdb070bf135e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:09 +0000
Subject: [PATCH 04/22] fix: CLIC2020Video passes lost clips, videos and whole
 epochs

---
 neuralcompression/data/_clic_2020_video.py | 34 ++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 46936ae..9ab152f 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -9,7 +9,7 @@ import time
 import urllib.request
 from concurrent.futures import ThreadPoolExecutor
 from pathlib import Path
-from typing import Callable, Dict, List, Optional, Tuple, Type, Union
+from typing import Callable, Dict, Iterator, List, Optional, Tuple, Type, Union
 from zipfile import ZipFile
 
 import torch
@@ -90,12 +90,12 @@ class CLIC2020Video(IterableDataset):
 
         self._video_sampler = video_sampler(self._video_paths)
 
-        self._video_sampler_iterator = iter(MultiProcessSampler(self._video_sampler))
+        self._video_sampler_iterator: Optional[Iterator[int]] = None
 
         self._next_clip_start_sec = 0.0
 
     def __getitem__(self, index: int) -> Dict:
-        if self._current_video:
+        if self._current_video and self._current_video[1] == index:
             video, index = self._current_video
         else:
             video_frame_paths = sorted(
@@ -109,6 +109,10 @@ class CLIC2020Video(IterableDataset):
 
             self._current_video = video, index
 
+            self._next_clip_start_sec = 0.0
+
+            self._clip_sampler.reset()
+
         clip_info = self._clip_sampler(
             self._next_clip_start_sec,
             video.duration,
@@ -145,17 +149,37 @@ class CLIC2020Video(IterableDataset):
         return sample
 
     def __iter__(self):
+        # Every pass starts over, with the samples of this worker (if any).
+        self._video_sampler_iterator = None
+
+        self._current_video = None
+
         return self
 
     def __next__(self) -> Dict:
-        if not self._video_sampler_iterator:
+        if self._video_sampler_iterator is None:
+            worker_info = torch.utils.data.get_worker_info()
+
+            if (
+                worker_info is not None
+                and isinstance(self._video_sampler, RandomSampler)
+                and self._video_sampler.generator is None
+            ):
+                # The workers split one permutation, so they have to agree on it.
+                self._video_sampler.generator = torch.Generator().manual_seed(
+                    worker_info.seed - worker_info.id
+                )
+
             self._video_sampler_iterator = iter(
                 MultiProcessSampler(
                     self._video_sampler,
                 ),
             )
 
-        index = next(self._video_sampler_iterator)
+        if self._current_video:
+            _, index = self._current_video
+        else:
+            index = next(self._video_sampler_iterator)
 
         return self[index]
 
-- 
2.43.0


From 5baa7251f5b01b2627be813f34cab5f7ac852ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:46 +0000
Subject: [PATCH 05/22] fix: FID and SwAV-FID raised when computed from states
 synchronised across ranks

---
 neuralcompression/metrics/_fid.py      | 5 +++--
 neuralcompression/metrics/_fid_swav.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/metrics/_fid.py b/neuralcompression/metrics/_fid.py
index 4fb0ed1..82ff406 100644
--- a/neuralcompression/metrics/_fid.py
+++ b/neuralcompression/metrics/_fid.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
 )
 from torchmetrics.image.fid import NoTrainInceptionV3
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 
 
 def _compute_fid_from_features(
@@ -90,6 +91,6 @@ class FrechetInceptionDistance(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
diff --git a/neuralcompression/metrics/_fid_swav.py b/neuralcompression/metrics/_fid_swav.py
index 807349b..8dfe88f 100644
--- a/neuralcompression/metrics/_fid_swav.py
+++ b/neuralcompression/metrics/_fid_swav.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
     fid_statistics_to_metric,
 )
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 from torchvision.transforms import Normalize
 
 
@@ -107,6 +108,6 @@ class FrechetInceptionDistanceSwAV(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
-- 
2.43.0


From 15ece3f110eb8dad46c83df2a544c3e6f552858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:46 +0000
Subject: [PATCH 06/22] fix: KID deadlocked across ranks with unequal numbers
 of updates

---
 neuralcompression/metrics/_kid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..72fa6c5 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -11,6 +11,7 @@ from torch.nn import Module
 from torch_fidelity.metric_kid import kid_features_to_metric
 from torchmetrics.image.kid import NoTrainInceptionV3
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 
 
 class KernelInceptionDistance(Metric):
@@ -71,8 +72,8 @@ class KernelInceptionDistance(Metric):
         self.normalize = normalize
 
         # states for extracted features
-        self.add_state("real_features", [], dist_reduce_fx=None)
-        self.add_state("fake_features", [], dist_reduce_fx=None)
+        self.add_state("real_features", [], dist_reduce_fx="cat")
+        self.add_state("fake_features", [], dist_reduce_fx="cat")
 
     def update(self, imgs: Tensor, real: bool) -> None:
         imgs = (imgs * 255).byte() if self.normalize else imgs
@@ -85,8 +86,8 @@ class KernelInceptionDistance(Metric):
 
     def compute(self) -> Tuple[Tensor, Tensor]:
         output = kid_features_to_metric(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From 42ea9fd9791c8cd1e34483eaa9bf2cd0edf0f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:46 +0000
Subject: [PATCH 07/22] fix: KID ignored its subset and kernel settings

---
 neuralcompression/metrics/_kid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 72fa6c5..4374da1 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -88,6 +88,11 @@ class KernelInceptionDistance(Metric):
         output = kid_features_to_metric(
             dim_zero_cat(self.real_features).to(torch.float64),
             dim_zero_cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From 4258e1ed1c94b61ea93700be29808356c2bacfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:26 +0000
Subject: [PATCH 08/22] fix: DVC could not decode P-frames whose smallest
 feature level has an odd size

---
 neuralcompression/models/deep_video_compression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..6f1d35b 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -225,8 +225,8 @@ class DVC(nn.Module):
                 transition information.
         """
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +241,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From e33abe009a831078b9444973ed45cd8eb5cf9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 09/22] fix: QBottleneck.reset_hits did not reset the codebook
 hit counts

---
 neuralcompression/layers/_q_bottleneck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..734b51f 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,8 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for level in range(len(self.codebooks)):
+            getattr(self, f"codebook_hits_{level}").zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From 008f01e73d168129d05fe7144f4fbfe385bbaeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:40 +0000
Subject: [PATCH 10/22] fix: memoize returned stale results for tensors reusing
 a freed tensor's identity

---
 projects/torch_vct/utils/memoize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..1ff2620 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -137,11 +137,13 @@ def memoize(f):
         if key in result_cache:
             assert _expect_cache_hit in [True, None]
             hit_counter[key] += 1
-            result = result_cache[key]
+            result, _ = result_cache[key]
         else:
             assert _expect_cache_hit in [False, None]
             result = f(*args, **kwargs)
-            result_cache[key] = result
+            # Tensors are keyed by identity: keep the arguments alive, so that no
+            # later tensor can take over the identity of one in this cache.
+            result_cache[key] = (result, (key_args, key_kwargs))
         return result
 
     # for inspection/testing:
-- 
2.43.0


From b9a1902f5f6faa692e3c5747836c8d328d58c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:49 +0000
Subject: [PATCH 11/22] fix: VCTPipeline.forward kept compressing to strings
 after compress_video

---
 projects/torch_vct/model_lightning.py |  1 -
 projects/torch_vct/model_pipeline.py  | 28 ++++++++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index 4e34f19..ebd550a 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -129,7 +129,6 @@ class VCTModule(pytorch_lightning.LightningModule):
         with torch.no_grad():
             video_ref_uint8 = (batch.video_tensor[0] * 255 + 0.5).to(torch.uint8)
             if run_fwd:
-                self.model._code_to_strings = False
                 forward_pass = self.model(batch)
                 recon, rate_args = forward_pass[-2], forward_pass[-1][0]
 
diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..17c96f8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -190,8 +190,6 @@ class VCTPipeline(nn.Module):
         )
         self._context_len = context_len
 
-        self._code_to_strings = None
-
     ## ENCODING FUNCTIONS
     # I-latents
     def encode_Iscene(
@@ -235,8 +233,9 @@ class VCTPipeline(nn.Module):
         scene_index: int,
         state: State,  # \hat y_t-1
         cache: memoize.Cache,
+        code_to_strings: bool = False,
     ) -> Tuple[State, Bottleneck]:
-        if not self.training and self._code_to_strings:
+        if not self.training and code_to_strings:
             # `compress` runs encoding and decoding
             output = self.entropy_model.compress(
                 latent_unquantized=scene,
@@ -266,12 +265,13 @@ class VCTPipeline(nn.Module):
         return new_state, bottleneck
 
     def encode_scenes(
-        self, scenes: Scenes, cache: memoize.Cache
+        self, scenes: Scenes, cache: memoize.Cache, code_to_strings: bool = False
     ) -> Generator[Bottleneck, None, None]:
         """
         Args:
             scenes: Scenes object, containing `tensor` of shape [B, T, C, H, W]
             cache: Cache object
+            code_to_strings: whether to compress to strings (eval mode only)
         """
         state = None
         for index, scene in enumerate(scenes.get_scenes_iter()):
@@ -279,7 +279,9 @@ class VCTPipeline(nn.Module):
                 state, encode_out = self.encode_Iscene(scene, cache=cache)
             else:
                 assert state is not None
-                state, encode_out = self.encode_Pscene(scene, index, state, cache=cache)
+                state, encode_out = self.encode_Pscene(
+                    scene, index, state, cache=cache, code_to_strings=code_to_strings
+                )
             yield encode_out
 
     # DECODING
@@ -339,19 +341,22 @@ class VCTPipeline(nn.Module):
             yield scene_reconstruction
 
     def encode_and_decode_scenes(
-        self, scenes: Scenes, cache: memoize.Cache
+        self, scenes: Scenes, cache: memoize.Cache, code_to_strings: bool = False
     ) -> Generator[NetworkOut, None, None]:
         """Encodes and decodes latents/scenes
 
         Args:
             scenes: Scenes object, containing `tensor` attribute of shape [B, T, C, H, W]
             cache: Cache object
+            code_to_strings: whether to compress to strings (eval mode only)
 
         Yields:
             `NetworkOut` object containng reconstruction of the scene/latent and
                 likelihoods
         """
-        encode_outs = self.encode_scenes(scenes, cache=cache)
+        encode_outs = self.encode_scenes(
+            scenes, cache=cache, code_to_strings=code_to_strings
+        )
 
         # Iterate over `encode_outs` twice: once to decode and once to construct and
         # yield the NetworkOut object
@@ -463,7 +468,6 @@ class VCTPipeline(nn.Module):
     def _prepare_for_compression(self):
         self.eval()
         self.entropy_model.update(force=False)
-        self._code_to_strings = True
         assert self.training is False
 
     def compress_video(
@@ -482,9 +486,11 @@ class VCTPipeline(nn.Module):
         x = self._pad(video.video_tensor, frames_shape)
         x = Scenes(self.analysis_transform(x))
 
-        # `encode_and_decode_scenes` compresses to strings if training we are in eval
-        # mode and _code_to_strings is set to True
-        network_outs = self.encode_and_decode_scenes(x, cache=None)  # no cache in eval
+        # `encode_and_decode_scenes` compresses to strings if we are in eval mode and
+        # code_to_strings is set to True
+        network_outs = self.encode_and_decode_scenes(
+            x, cache=None, code_to_strings=True  # no cache in eval
+        )
         rec_scenes = []
         bits = []
         for i, res in enumerate(network_outs):
-- 
2.43.0


From c25049861bb8effd8c3a72bbaebdb31ef90a908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 12/22] fix: bits-back codec keeps its extra byte count when
 restored from a saved state

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From f81e5e7fd7aa4dc51d6bf30ed157e7a59a4a3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 13/22] fix: a bits-back checkpoint only appears under its name
 once complete

---
 projects/bits_back_diffusion/encode.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/encode.py b/projects/bits_back_diffusion/encode.py
index b7bf816..0c9c58c 100644
--- a/projects/bits_back_diffusion/encode.py
+++ b/projects/bits_back_diffusion/encode.py
@@ -15,6 +15,7 @@ Usage (1 GPU, pretrained model, Cifar10):
 When using multiprocessing, each process independently
 compresses a subset of the data.
 """
+import os
 from itertools import islice
 from pathlib import Path
 from typing import Dict, Iterator, List, Tuple, Union
@@ -89,6 +90,23 @@ def main(cfg: DictConfig):
     logger.log("completed")
 
 
+def save_checkpoint(path: Path, codec: BitsBackCodec):
+    """
+    Save the state of the codec.
+
+    The checkpoint only appears under its final name once it is complete, such
+    that an interrupted job can always be resumed from its last checkpoint.
+
+    Args:
+        path: Path of the checkpoint file.
+        codec: Codec whose state is saved.
+    """
+    tmp_path = path.with_name(path.name + ".tmp")
+    with open(tmp_path, "wb") as f:
+        np.savez(f, **codec.state_dict())
+    os.replace(tmp_path, path)
+
+
 def encode(
     codec: BitsBackCodec,
     dataloader: Iterator[Tuple[torch.Tensor, dict]],
@@ -144,7 +162,7 @@ def encode(
             or stats.samples % save_interval < codec.data_shape[0]
         ):
             ckpt_path = Path(logger.get_dir()) / f"encode-ckpt{stats.samples:06d}.npz"
-            np.savez(ckpt_path, **codec.state_dict())
+            save_checkpoint(ckpt_path, codec)
 
     if codec.track:
         # log rates
@@ -184,7 +202,7 @@ def decode(codec: BitsBackCodec, save_dir: Union[str, Path], save_interval: int)
         # checkpoint
         if num_remaining % save_interval < codec.data_shape[0]:
             ckpt_path = save_dir / f"decode-ckpt{-num_remaining:06d}.npz"
-            np.savez(ckpt_path, **codec.state_dict())
+            save_checkpoint(ckpt_path, codec)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3888759d14ef91239168937cf83f0a6239f856a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 14/22] fix: an interrupted CIFAR-10 dump is not taken for a
 complete split

---
 projects/bits_back_diffusion/datasets/cifar10.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/datasets/cifar10.py b/projects/bits_back_diffusion/datasets/cifar10.py
index f3c65bd..7a74795 100644
--- a/projects/bits_back_diffusion/datasets/cifar10.py
+++ b/projects/bits_back_diffusion/datasets/cifar10.py
@@ -11,6 +11,7 @@ Adapted from `improved-diffusion.datasets.cifar10`
 """
 import argparse
 import logging
+import shutil
 import tempfile
 from pathlib import Path
 
@@ -66,11 +67,18 @@ def main():
         assert len(dataset) == SIZE[split]
 
         logger.info("dumping images...")
-        split_dir.mkdir(parents=True, exist_ok=True)
+        # dump to another name first, such that an interrupted (and thus incomplete)
+        # split is not taken for an existing one
+        part_dir = out_dir / f"{split}_32x32.part"
+        if split_dir.is_dir():
+            shutil.rmtree(part_dir, ignore_errors=True)
+            split_dir.rename(part_dir)
+        part_dir.mkdir(parents=True, exist_ok=True)
         for i in tqdm(range(len(dataset))):
             image, label = dataset[i]
-            filename = split_dir / f"{CLASSES[label]}_{i:05d}.png"
+            filename = part_dir / f"{CLASSES[label]}_{i:05d}.png"
             image.save(filename)
+        part_dir.rename(split_dir)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8bb5c335648e4dea40aedd75e11387e9e91fa6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 15/22] fix: ILLM image-log cache is written atomically and
 tolerates other ranks

---
 projects/illm/train.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/illm/train.py b/projects/illm/train.py
index 985b75e..57d7496 100644
--- a/projects/illm/train.py
+++ b/projects/illm/train.py
@@ -6,7 +6,9 @@
 import hashlib
 import logging
 import math
+import os
 import pickle
+import uuid
 from pathlib import Path
 from typing import List, Optional, Tuple, Union
 from warnings import warn
@@ -219,8 +221,7 @@ def build_module(cfg: DictConfig) -> ImageModule:
 def build_wandb_image_logger(cfg: DictConfig, data_module: OpenImagesDataModule):
     """Construct logger for sending images to wandb."""
     log_cache_dir = Path(cfg.image_logs.log_cache_dir)
-    if not log_cache_dir.exists():
-        log_cache_dir.mkdir(parents=True)
+    log_cache_dir.mkdir(exist_ok=True, parents=True)
 
     sha = hashlib.sha256()
     sha.update(str(cfg.data._target_).encode())
@@ -241,7 +242,9 @@ def build_wandb_image_logger(cfg: DictConfig, data_module: OpenImagesDataModule)
         eval_log_images = torch.stack(
             [data_module.eval_dataset[ind] for ind in cfg.image_logs.val_log_indices]
         )
-        with open(pkl_file, "wb") as f:
+        # other ranks and later runs read this file, so it must only appear complete
+        temp_file = log_cache_dir / f"{pkl_file.name}.{uuid.uuid4().hex}.tmp"
+        with open(temp_file, "wb") as f:
             pickle.dump(
                 {
                     "train_log_images": train_log_images,
@@ -249,6 +252,7 @@ def build_wandb_image_logger(cfg: DictConfig, data_module: OpenImagesDataModule)
                 },
                 f,
             )
+        os.replace(temp_file, pkl_file)
 
     return WandbImageCallback(train_log_images, eval_log_images)
 
-- 
2.43.0


From 157080f4c5996faa1dd78e0344f60262a4b363f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 16/22] fix: DVC validation PSNR no longer includes training
 batches

---
 projects/deep_video_compression/dvc_module.py | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b849609..6aa6261 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -121,8 +121,9 @@ class DvcModule(LightningModule):
             model, num_pframes, self.loss_functions
         )
 
-        # metrics
-        self.psnr = torchmetrics.PSNR(data_range=1.0)
+        # metrics, kept apart so that validation does not include train batches
+        self.train_psnr = torchmetrics.PSNR(data_range=1.0)
+        self.val_psnr = torchmetrics.PSNR(data_range=1.0)
 
     def recompose_model(self, model: DVC):
         """Used by trainer to rebuild the model after a training run."""
@@ -189,7 +190,7 @@ class DvcModule(LightningModule):
         )
 
     def log_all_metrics(
-        self, log_key, reduction, image2_list, image2_est_list, logging_metrics
+        self, log_key, reduction, image2_list, image2_est_list, logging_metrics, psnr
     ):
         self.log(f"{log_key}gop_loss", logging_metrics.gop_total_loss / reduction)
         self.log(
@@ -206,8 +207,8 @@ class DvcModule(LightningModule):
             )
 
         # logging metrics
-        self.psnr(torch.cat(image2_list), torch.cat(image2_est_list))
-        self.log(f"{log_key}psnr", self.psnr)
+        psnr(torch.cat(image2_list), torch.cat(image2_est_list))
+        self.log(f"{log_key}psnr", psnr)
 
     def training_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/train_"
@@ -263,7 +264,12 @@ class DvcModule(LightningModule):
         # stat reductions and logging
         reduction = self.num_pframes + 1
         self.log_all_metrics(
-            log_key, reduction, image2_list, image2_est_list, logging_metrics
+            log_key,
+            reduction,
+            image2_list,
+            image2_est_list,
+            logging_metrics,
+            self.train_psnr,
         )
 
         # auxiliary update
@@ -308,7 +314,12 @@ class DvcModule(LightningModule):
         reduction = self.num_pframes + 1
         self.log("val_loss", loss)
         self.log_all_metrics(
-            log_key, reduction, image2_list, image2_est_list, logging_metrics
+            log_key,
+            reduction,
+            image2_list,
+            image2_est_list,
+            logging_metrics,
+            self.val_psnr,
         )
 
     def configure_optimizers(self):
-- 
2.43.0


From 5627e5fbefffc10b2eba8af1ca189928863180f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 17/22] fix: DVC image logging no longer overwrites the frames
 it logs

---
 projects/deep_video_compression/train.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/deep_video_compression/train.py b/projects/deep_video_compression/train.py
index f55c04f..66cf530 100644
--- a/projects/deep_video_compression/train.py
+++ b/projects/deep_video_compression/train.py
@@ -64,7 +64,10 @@ class WandbImageCallback(pl.Callback):
 
     def on_validation_end(self, trainer, pl_module):
         image_dict = {}
-        batch = self.batch.to(device=pl_module.device, dtype=pl_module.dtype)
+        # copy, because compress_iframe overwrites the first frame
+        batch = self.batch.to(
+            device=pl_module.device, dtype=pl_module.dtype, copy=True
+        )
         batch, _ = pl_module.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(pl_module.num_pframes):
-- 
2.43.0


From 7000874d0048919bd644308ccd336014c295c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:35 +0000
Subject: [PATCH 18/22] fix: VCT PSNR on 8-bit levels no longer wraps around

---
 projects/torch_vct/model_lightning.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index ebd550a..62f9353 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -17,6 +17,11 @@ from torchmetrics.functional import peak_signal_noise_ratio
 from utils.hydra_tools import OmegaConf  # ! Needed for resolvets to take effect
 
 
+def to_255_scale(video: Tensor) -> Tensor:
+    """Round to 8-bit levels, kept as floats since differences of uint8 wrap around"""
+    return (torch.clamp(video, 0.0, 1.0) * 255 + 0.5).to(torch.uint8).float()
+
+
 class VCTModule(pytorch_lightning.LightningModule):
     """Encapsulates model + loss + optimizer + metrics in a PL module"""
 
@@ -65,8 +70,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8),
-                (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                to_255_scale(recon_frames),
+                to_255_scale(batch.video_tensor),
                 data_range=255,
                 dim=(2, 3, 4),
             ).item()
@@ -107,8 +112,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8),
-                    (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                    to_255_scale(recon_frames),
+                    to_255_scale(batch.video_tensor),
                     data_range=255,
                     dim=(2, 3, 4),
                 ).item(),
@@ -127,17 +132,16 @@ class VCTModule(pytorch_lightning.LightningModule):
         assert self.training is False
 
         with torch.no_grad():
-            video_ref_uint8 = (batch.video_tensor[0] * 255 + 0.5).to(torch.uint8)
+            video_ref_255 = to_255_scale(batch.video_tensor[0])
             if run_fwd:
                 forward_pass = self.model(batch)
                 recon, rate_args = forward_pass[-2], forward_pass[-1][0]
 
                 # take the single batch and clamp it:
-                recon_clamped = torch.clamp(recon[0], 0.0, 1.0)
                 # caveat: real compression people use YCbCr
-                recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+                recon_255 = to_255_scale(recon[0])
                 cts_psnr = peak_signal_noise_ratio(
-                    recon_uint8, video_ref_uint8, data_range=255
+                    recon_255, video_ref_255, data_range=255
                 ).item()
                 cts_rate = self.model.compute_rate(rate_args).item() / (H * W * T)
                 # Compute the rate excluding the first frame since we are technically
@@ -161,13 +165,11 @@ class VCTModule(pytorch_lightning.LightningModule):
                 batch.shape, bottleneck_args=output, force_cpu=False
             )
             # clamp the reconstructed video (it's batch size 1, so pick [0])
-            recon_clamped = torch.clamp(recon[0], 0.0, 1.0)
-
             # PSNR
             # caveat: real compression people use YCbCr
-            recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+            recon_255 = to_255_scale(recon[0])
             psnr = peak_signal_noise_ratio(
-                recon_uint8, video_ref_uint8, data_range=255
+                recon_255, video_ref_255, data_range=255
             ).item()
             # bits per pixel
             bpp = sum(bits_per_frame) / (H * W * T)
-- 
2.43.0


From fedd1508aeb8e2c2b5efac19b7973bd7632def61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:24 +0000
Subject: [PATCH 19/22] fix: dvc: count the intra frame's bits in the
 validation bits per pixel of a group

---
 projects/deep_video_compression/dvc_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index 6aa6261..f9ad0a3 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -283,18 +283,18 @@ class DvcModule(LightningModule):
 
     def validation_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/val_"
+        batch, iframe_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         # gop = "Group of Pictures"
         logging_metrics = LoggingMetrics(
             gop_total_loss=0,
             gop_distortion_loss=0,
-            gop_bpp=0,
+            gop_bpp=iframe_bpp,
             gop_flow_bpp=0,
             gop_residual_bpp=0,
         )
         image2_list = []
         image2_est_list = []
 
-        batch, gop_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(self.num_pframes):
             image2 = batch[:, i + 1]
-- 
2.43.0


From a75919da495bfce96c65b7d086805be0e3f217bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:24 +0000
Subject: [PATCH 20/22] fix: illm: train and validate with unconditional
 discriminators

---
 projects/illm/gan_compression_module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/illm/gan_compression_module.py b/projects/illm/gan_compression_module.py
index bfd406c..f4bbfb7 100644
--- a/projects/illm/gan_compression_module.py
+++ b/projects/illm/gan_compression_module.py
@@ -166,8 +166,10 @@ class GANCompressionModule(TargetRateCompressionModule):
         else:
             disc_output = output
 
-        fake_logits = self.discriminator(output.image.detach(), output.latent.detach())
-        real_logits = self.discriminator(disc_images, disc_output.latent.detach())
+        fake_logits = self.run_discriminator(
+            output.image.detach(), output.latent.detach()
+        )
+        real_logits = self.run_discriminator(disc_images, disc_output.latent.detach())
 
         disc_loss = self.discriminator_loss(
             real_logits=real_logits, fake_logits=fake_logits, target=real_target
@@ -233,7 +235,7 @@ class GANCompressionModule(TargetRateCompressionModule):
 
         # generator loss
         g_loss = self.generator_loss(
-            self.discriminator(output.image, output.latent), target
+            self.run_discriminator(output.image, output.latent), target
         )
 
         # rate loss
-- 
2.43.0


From 2c6c0d1f9d0b575a27782072f6af33b4ebddb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:24 +0000
Subject: [PATCH 21/22] fix: Vimeo-90k: return the image as it is in image mode
 without a transform

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..d99a849 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -109,8 +109,10 @@ class Vimeo90kSeptuplet(Dataset):
             return len(self.folder_list) * self.frames_per_group
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
-        img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
-        img = self.pil_transform(img_path)
+        img = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img
+        img = self.pil_transform(img)
         if not isinstance(img, Tensor):
             raise RuntimeError(
                 "Tensor not returned from pil_transform. "
-- 
2.43.0


From 6bf54f6543180016a0c12670e98b46c7625b8265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:40 +0000
Subject: [PATCH 22/22] fix: read the whole step number from a diffusion
 checkpoint's file name

parse_resume_step_from_filename only looked at the last six characters, so from
step 1,000,000 on an older checkpoint was taken for the newest one and training
resumed at a wrong step.
---
 .../bits_back_diffusion/bits_back_diffusion/script_util.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/script_util.py b/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
index 4646e83..4838b16 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
@@ -9,6 +9,7 @@ https://github.com/openai/improved-diffusion.
 """
 import copy
 import hashlib
+import re
 from pathlib import Path
 from typing import List, Set, Union
 
@@ -119,7 +120,10 @@ def parse_resume_step_from_filename(filename: Union[str, Path]) -> int:
     path = Path(filename)
     assert path.suffix in [".pt", ".npz"]
     assert any(s in path.name for s in ["ema", "model", "encode", "decode"])
-    return int(path.stem[-6:])
+    # the number of steps is padded to six digits, but can have more
+    match = re.search(r"-?\d+$", path.stem)
+    assert match is not None
+    return int(match.group())
 
 
 def update_checkpoint(
-- 
2.43.0

