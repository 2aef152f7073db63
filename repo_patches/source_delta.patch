From bcf6100dbca84c31f7f82cf7fe4eb7ec1a3cc324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 01/46] fix: keep SH coefficient order in consolidate()

---
 src/gsply/gsdata.py         | 4 ++--
 src/gsply/torch/gstensor.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index a085d3d..70b60af 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -861,9 +861,9 @@ class GSData:
             sh_coeffs = sh_bands * 3  # Total coefficients (9, 24, or 45)
             n_props = 14 + sh_coeffs
 
-            # Flatten shN from (N, bands, 3) to (N, bands*3)
+            # Flatten shN from (N, bands, 3) to channel-grouped (N, 3*bands), as in PLY files
             shn_flat = np.ascontiguousarray(
-                self.shN.reshape(n_gaussians, sh_coeffs), dtype=np.float32
+                self.shN.transpose(0, 2, 1).reshape(n_gaussians, sh_coeffs), dtype=np.float32
             )
 
             # Allocate and populate using JIT kernel
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 94cb4c3..aeb3785 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -885,7 +885,8 @@ class GSTensor:
         # Handle shN if present
         if self.shN is not None and self.shN.shape[1] > 0:
             sh_coeffs = self.shN.shape[1]
-            shN_flat = self.shN.reshape(n_gaussians, sh_coeffs * 3)
+            # Channel-grouped order [R0..Rk, G0..Gk, B0..Bk], as in PLY files
+            shN_flat = self.shN.transpose(1, 2).reshape(n_gaussians, sh_coeffs * 3)
             new_base[:, 6 : 6 + sh_coeffs * 3] = shN_flat
             opacity_idx = 6 + sh_coeffs * 3
         else:
-- 
2.43.0


From 676fd74a7842982ee99c06bdc8e806bdc3d19bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 02/46] fix: drop stale packed array after
 apply_pre_deactivations

---
 src/gsply/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index e8b4ae4..0d0a85c 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -428,6 +428,9 @@ def apply_pre_deactivations(
     data.scales = scales
     data.opacities = opacities
 
+    # Invalidate _base: it still holds the linear values
+    data._base = None
+
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
         scales.shape[0],
-- 
2.43.0


From f184fe80144465e295a5c99a929004735dab8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 03/46] fix: refuse PLY files that end inside the header
 instead of looping forever

---
 src/gsply/formats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 3f987b0..3cb6090 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -180,6 +180,8 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
         while True:
             line = f.readline()
+            if not line:
+                raise ValueError("Unexpected end of file in PLY header")
             header_size += len(line)
             line_str = line.decode("ascii").strip()
 
-- 
2.43.0


From e8746ff3599aec8b84c27a2f553206db3c72d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 04/46] fix: drop stale packed array after
 apply_masks(inplace=True)

---
 src/gsply/gsdata.py         | 4 ++--
 src/gsply/torch/gstensor.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 70b60af..59d35d2 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -817,8 +817,8 @@ class GSData:
                     self.masks = self.masks[combined_mask]
                 else:
                     self.masks = self.masks[combined_mask, :]
-            if self._base is not None:
-                self._base = self._base[combined_mask]
+            # The filtered fields are new arrays, no longer views of _base
+            self._base = None
             return self
         # Return filtered copy
         return self[combined_mask]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index aeb3785..8612f55 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1926,8 +1926,8 @@ class GSTensor:
                     self.masks = self.masks[combined_mask]
                 else:
                     self.masks = self.masks[combined_mask, :]
-            if self._base is not None:
-                self._base = self._base[combined_mask]
+            # The filtered fields are new arrays, no longer views of _base
+            self._base = None
             return self
         # Return filtered copy (leverages existing __getitem__ with _base optimization)
         return self[combined_mask]
-- 
2.43.0


From c9f66d3bd7576481fdea7f00aeee97bf6fd0ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 05/46] fix: drop stale packed array when a field is assigned a
 new array

---
 src/gsply/gsdata.py         | 10 ++++++++++
 src/gsply/torch/gstensor.py | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 59d35d2..73990f2 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -474,6 +474,16 @@ class GSData:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        """Set an attribute, dropping _base when a field stops being a view of it."""
+        if (
+            name in ("means", "scales", "quats", "opacities", "sh0", "shN")
+            and self.__dict__.get("_base") is not None
+            and value is not self.__dict__.get(name)
+        ):
+            self.__dict__["_base"] = None
+        object.__setattr__(self, name, value)
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 8612f55..78027de 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -103,6 +103,16 @@ class GSTensor:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        """Set an attribute, dropping _base when a field stops being a view of it."""
+        if (
+            name in ("means", "scales", "quats", "opacities", "sh0", "shN")
+            and self.__dict__.get("_base") is not None
+            and value is not self.__dict__.get(name)
+        ):
+            self.__dict__["_base"] = None
+        object.__setattr__(self, name, value)
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
-- 
2.43.0


From 257587884c1d73067fcce26cbda3c8289be0e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 06/46] fix: keep pickled and deep-copied containers consistent
 with their fields

---
 src/gsply/gsdata.py         | 4 ++++
 src/gsply/torch/gstensor.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 73990f2..e922a26 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -484,6 +484,10 @@ class GSData:
             self.__dict__["_base"] = None
         object.__setattr__(self, name, value)
 
+    def __getstate__(self):
+        """Pickle/deepcopy state: fields of the copy are not views of a common _base."""
+        return {**self.__dict__, "_base": None}
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 78027de..e14f2ae 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -113,6 +113,10 @@ class GSTensor:
             self.__dict__["_base"] = None
         object.__setattr__(self, name, value)
 
+    def __getstate__(self):
+        """Pickle/deepcopy state: fields of the copy are not views of a common _base."""
+        return {**self.__dict__, "_base": None}
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
-- 
2.43.0


From 936f178faa70e991658aa805a8c051ac54f68b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:17 +0000
Subject: [PATCH 07/46] fix: share the SH block of packed tensor containers
 like every other field

---
 src/gsply/torch/gstensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index e14f2ae..7a53d01 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -961,8 +961,8 @@ class GSTensor:
             shN_flat = base_tensor[:, 6 : 6 + sh_coeffs * 3]
             # PLY stores SH coefficients channel-grouped: [R0..Rk, G0..Gk, B0..Bk]
             # Reshape to [N, 3, K] then transpose to [N, K, 3] for gsplat convention
-            # contiguous() is required for correct memory layout after transpose
-            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2).contiguous()
+            # Like the other fields, shN is a view of base_tensor
+            shN = shN_flat.unflatten(1, (3, sh_coeffs)).transpose(1, 2)
             opacity_idx = 6 + sh_coeffs * 3
         else:
             shN = None
-- 
2.43.0


From a09372725a4efd86a8d5afdde6e54d04ae2a76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 08/46] fix: convert only non-PLY attributes when writing and
 leave the caller's data alone

plywrite() converted scales and opacities together whenever either label was
not PLY, destroying mixed-format scenes, did so in place on the caller's
container (or loose arrays), and wrote RGB colors as if they were SH.
---
 src/gsply/writer.py | 56 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 92aedc8..027915b 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -864,24 +864,54 @@ def _compute_chunk_boundaries(num_chunks: int, num_gaussians: int) -> tuple[np.n
     return chunk_starts, chunk_ends
 
 
-def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
-    """Ensure data is in PLY format (log-scales, logit-opacities).
+def _ensure_ply_format(data: GSData) -> GSData:
+    """Ensure data is in PLY format (log-scales, logit-opacities, SH colors).
 
-    Checks format flags and converts if needed. Used before writing PLY files.
+    Checks format flags and converts exactly the attributes that need it. Used before
+    writing PLY files. The given data is never modified.
 
     :param data: GSData to check/convert
-    :param inplace: If True, modify in-place for better performance
-    :returns: GSData in PLY format (may be same object if already in format)
+    :returns: GSData in PLY format (same object if already in format)
     """
     scales_format = data._format.get("scales")
     opacities_format = data._format.get("opacities")
+    sh0_format = data._format.get("sh0")
 
-    if scales_format != DataFormat.SCALES_PLY or opacities_format != DataFormat.OPACITIES_PLY:
-        logger.debug(
-            f"[PLY Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
-        )
-        return data.normalize(inplace=inplace)
-    return data
+    convert_scales = scales_format != DataFormat.SCALES_PLY
+    convert_opacities = opacities_format != DataFormat.OPACITIES_PLY
+    convert_sh0 = sh0_format == DataFormat.SH0_RGB
+    if not (convert_scales or convert_opacities or convert_sh0):
+        return data
+
+    logger.debug(
+        f"[PLY Write] Converting from {scales_format}/{opacities_format}/{sh0_format} "
+        f"to PLY format before writing"
+    )
+    scales, opacities, sh0 = data.scales, data.opacities, data.sh0
+    if convert_scales or convert_opacities:
+        normalized = data.normalize(inplace=False)
+        scales = normalized.scales if convert_scales else scales
+        opacities = normalized.opacities if convert_opacities else opacities
+    if convert_sh0:
+        sh0 = data.to_sh(inplace=False).sh0
+
+    return GSData(
+        means=data.means,
+        scales=scales,
+        quats=data.quats,
+        opacities=opacities,
+        sh0=sh0,
+        shN=data.shN,
+        masks=data.masks,
+        mask_names=data.mask_names,
+        _base=None,
+        _format={
+            **data._format,
+            "scales": DataFormat.SCALES_PLY,
+            "opacities": DataFormat.OPACITIES_PLY,
+            "sh0": DataFormat.SH0_SH,
+        },
+    )
 
 
 def _validate_and_normalize_inputs(
@@ -1582,14 +1612,14 @@ def plywrite(
                 file_path = Path(str(file_path) + ".compressed.ply")
 
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data)
 
         # Extract arrays for compressed write (compressed write doesn't use GSData yet)
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data)
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From cae6e8a7467642720d0bde4c4639be02613921fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 09/46] fix: convert to PLY format in every compressed writer,
 and only what needs it

GSTensor.save()/save_compressed(), compress_to_bytes() and compress_to_arrays()
wrote linear values as if they were log/logit; plywrite_gpu() and
to_ply_tensor() converted attributes that were in PLY format already.
---
 src/gsply/torch/gstensor.py | 28 ++++++++++++++++++++++------
 src/gsply/torch/io.py       | 13 ++-----------
 src/gsply/writer.py         | 18 ++++++------------
 3 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 7a53d01..7b72938 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -503,19 +503,23 @@ class GSTensor:
     def to_ply_tensor(self) -> GSTensor:
         """Convert to GSTensor with PLY-compatible log/logit scaling.
 
-        Returns a new GSTensor with log-scales and logit-opacities.
-        Useful for GPU-accelerated writing.
+        Returns a new GSTensor with log-scales and logit-opacities, converting only
+        what is not in that format yet. Useful for GPU-accelerated writing.
         """
         # Constants for numerical stability
         _MIN_SCALE = 1e-9
         _MIN_OPACITY = 1e-4
         _MAX_OPACITY = 1.0 - 1e-4
 
-        # Clone to avoid modifying original
-        scales = torch.log(torch.clamp(self.scales, min=_MIN_SCALE))
+        # Log scales (attributes already in PLY format are kept as they are)
+        scales = self.scales
+        if self._format.get("scales") != DataFormat.SCALES_PLY:
+            scales = torch.log(torch.clamp(scales, min=_MIN_SCALE))
 
         # Logit opacities: log(p / (1 - p))
-        opacities = torch.logit(torch.clamp(self.opacities, min=_MIN_OPACITY, max=_MAX_OPACITY))
+        opacities = self.opacities
+        if self._format.get("opacities") != DataFormat.OPACITIES_PLY:
+            opacities = torch.logit(torch.clamp(opacities, min=_MIN_OPACITY, max=_MAX_OPACITY))
 
         # Preserve format and update to PLY format
         format_flag = self._format.copy()
@@ -543,6 +547,18 @@ class GSTensor:
             _format=format_flag,  # Set to PLY format
         )
 
+    def _ensure_ply_format(self) -> GSTensor:
+        """Return this scene in the format PLY files store (self if already in it)."""
+        result = self
+        if (
+            result._format.get("scales") != DataFormat.SCALES_PLY
+            or result._format.get("opacities") != DataFormat.OPACITIES_PLY
+        ):
+            result = result.to_ply_tensor()
+        if result._format.get("sh0") == DataFormat.SH0_RGB:
+            result = result.to_sh(inplace=False)
+        return result
+
     def to_ply_data(self) -> GSData:
         """Convert to GSData with PLY-compatible log/logit scaling.
 
@@ -1482,7 +1498,7 @@ class GSTensor:
         file_path = Path(file_path)
 
         if compressed:
-            write_compressed_gpu(file_path, self)
+            write_compressed_gpu(file_path, self._ensure_ply_format())
         else:
             # Convert to GSData and save uncompressed
             from gsply.writer import plywrite
diff --git a/src/gsply/torch/io.py b/src/gsply/torch/io.py
index 293174d..9b5f244 100644
--- a/src/gsply/torch/io.py
+++ b/src/gsply/torch/io.py
@@ -7,7 +7,6 @@ matching the API style of the main gsply module.
 import logging
 from pathlib import Path
 
-from gsply.gsdata import DataFormat
 from gsply.torch.compression import read_compressed_gpu, write_compressed_gpu
 from gsply.torch.gstensor import GSTensor
 
@@ -92,16 +91,8 @@ def plywrite_gpu(
         )
 
     # Ensure data is in PLY format before writing (log-scales, logit-opacities)
-    # Check format flags and convert if needed
-    scales_format = gstensor._format.get("scales")
-    opacities_format = gstensor._format.get("opacities")
-
-    # Convert to PLY format if not already in PLY format
-    if scales_format != DataFormat.SCALES_PLY or opacities_format != DataFormat.OPACITIES_PLY:
-        logger.debug(
-            f"[GPU Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
-        )
-        gstensor = gstensor.normalize(inplace=False)  # Create copy with PLY format
+    # Check format flags and convert what needs it (never modifies the caller's tensor)
+    gstensor = gstensor._ensure_ply_format()
 
     file_path = Path(file_path)
     write_compressed_gpu(file_path, gstensor)
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 027915b..0add6a1 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1353,12 +1353,9 @@ def compress_to_bytes(
     """
     # Handle GSData input
     if isinstance(data_or_means, GSData):
-        means = data_or_means.means
-        scales = data_or_means.scales
-        quats = data_or_means.quats
-        opacities = data_or_means.opacities
-        sh0 = data_or_means.sh0
-        shN = data_or_means.shN  # noqa: N806
+        # Ensure data is in PLY format (log-scales, logit-opacities) before compressing
+        data = _ensure_ply_format(data_or_means)
+        means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
     else:
         # Use individual arrays
         means = data_or_means
@@ -1435,12 +1432,9 @@ def compress_to_arrays(
     """
     # Handle GSData input
     if isinstance(data_or_means, GSData):
-        means = data_or_means.means
-        scales = data_or_means.scales
-        quats = data_or_means.quats
-        opacities = data_or_means.opacities
-        sh0 = data_or_means.sh0
-        shN = data_or_means.shN  # noqa: N806
+        # Ensure data is in PLY format (log-scales, logit-opacities) before compressing
+        data = _ensure_ply_format(data_or_means)
+        means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
     else:
         # Use individual arrays
         means = data_or_means
-- 
2.43.0


From bb15dca8e48c13b0e49177e8856ece2e485fec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 10/46] fix: give every container its own list of mask layer
 names

---
 src/gsply/gsdata.py         | 4 +++-
 src/gsply/torch/gstensor.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index e922a26..eba340a 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -457,8 +457,10 @@ class GSData:
 
     def __post_init__(self):
         """Auto-detect format if not provided."""
-        # Copy format dict to avoid sharing mutable state between instances
+        # Copy format dict and layer names to avoid sharing mutable state between instances
         self._format = dict(self._format)
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
 
         # If _format is empty dict, auto-detect from values
         if not self._format:
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 7b72938..be527ad 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -85,8 +85,10 @@ class GSTensor:
 
     def __post_init__(self):
         """Auto-detect format if not provided."""
-        # Copy format dict to avoid sharing mutable state between instances
+        # Copy format dict and layer names to avoid sharing mutable state between instances
         self._format = dict(self._format)
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
 
         # If _format is empty dict, auto-detect from values
         if not self._format:
-- 
2.43.0


From b89c7d8cd9b79ae4e166f39d712217977bbc0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 11/46] fix: update format labels in
 apply_pre_activations/apply_pre_deactivations

---
 src/gsply/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 0d0a85c..90e3bf2 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -293,11 +293,8 @@ def apply_pre_activations(
         >>> data = gsply.plyread("scene_logits.ply")
         >>> gsply.apply_pre_activations(data, inplace=True)
     """
-    # Lazy import to avoid circular dependency (cached in function attribute)
-    if not hasattr(apply_pre_activations, "_GSData"):
-        from gsply.gsdata import GSData as _GSData
-
-        apply_pre_activations._GSData = _GSData
+    # Lazy import to avoid circular dependency
+    from gsply.gsdata import DataFormat  # noqa: PLC0415
 
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate exponentiation results.")
@@ -347,6 +344,9 @@ def apply_pre_activations(
     # and read from _base (which still has PLY format data), ignoring our changes.
     data._base = None
 
+    data._format["scales"] = DataFormat.SCALES_LINEAR
+    data._format["opacities"] = DataFormat.OPACITIES_LINEAR
+
     logger.debug(
         "[PreActivation] Activated %d Gaussians (min_scale=%.2e, max_scale=%.2f, min_quat_norm=%.2e)",
         scales.shape[0],
@@ -384,11 +384,8 @@ def apply_pre_deactivations(
         >>> data = gsply.GSData(...)  # Linear format
         >>> gsply.apply_pre_deactivations(data, inplace=True)
     """
-    # Lazy import to avoid circular dependency (cached in function attribute)
-    if not hasattr(apply_pre_deactivations, "_GSData"):
-        from gsply.gsdata import GSData as _GSData
-
-        apply_pre_deactivations._GSData = _GSData
+    # Lazy import to avoid circular dependency
+    from gsply.gsdata import DataFormat  # noqa: PLC0415
 
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate logarithm results.")
@@ -431,6 +428,9 @@ def apply_pre_deactivations(
     # Invalidate _base: it still holds the linear values
     data._base = None
 
+    data._format["scales"] = DataFormat.SCALES_PLY
+    data._format["opacities"] = DataFormat.OPACITIES_PLY
+
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
         scales.shape[0],
-- 
2.43.0


From 96e1b9f83f4eeed7dc25fc96103d5684f8c23fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 12/46] fix: do not alias the caller's array in the first mask
 layer

---
 src/gsply/gsdata.py         | 2 +-
 src/gsply/torch/gstensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index eba340a..ecfbecb 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -678,7 +678,7 @@ class GSData:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask[:, None]  # Shape (N, 1)
+            self.masks = mask[:, None].copy()  # Shape (N, 1), independent of the caller's array
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index be527ad..3a6a5be 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1793,7 +1793,7 @@ class GSTensor:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask.unsqueeze(-1)  # Shape (N, 1)
+            self.masks = mask.unsqueeze(-1).clone()  # Shape (N, 1), independent of the caller's
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
-- 
2.43.0


From 8f3f5b143e63061d5b3a9c2e30d215c8ed5c77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 13/46] fix: refuse a mask layer name that collides with an
 auto-generated one

---
 src/gsply/gsdata.py         | 12 +++++++-----
 src/gsply/torch/gstensor.py | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index ecfbecb..f059395 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -672,8 +672,12 @@ class GSData:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
-        # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        # Existing unnamed layers get names; check for duplicates among all of them
+        existing_names = self.mask_names
+        if existing_names is None and self.masks is not None:
+            num_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            existing_names = [f"layer_{i}" for i in range(num_layers)]
+        if existing_names is not None and name in existing_names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
@@ -685,9 +689,7 @@ class GSData:
             if self.masks.ndim == 1:
                 self.masks = self.masks[:, None]
             self.masks = np.column_stack([self.masks, mask])
-            if self.mask_names is None:
-                self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            self.mask_names = [*existing_names, name]
 
     def get_mask_layer(self, name: str) -> np.ndarray:
         """Get a mask layer by name.
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 3a6a5be..2c53722 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1787,8 +1787,12 @@ class GSTensor:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
-        # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        # Existing unnamed layers get names; check for duplicates among all of them
+        existing_names = self.mask_names
+        if existing_names is None and self.masks is not None:
+            num_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            existing_names = [f"layer_{i}" for i in range(num_layers)]
+        if existing_names is not None and name in existing_names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
@@ -1800,9 +1804,7 @@ class GSTensor:
             if self.masks.ndim == 1:
                 self.masks = self.masks.unsqueeze(-1)
             self.masks = torch.cat([self.masks, mask.unsqueeze(-1)], dim=1)
-            if self.mask_names is None:
-                self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            self.mask_names = [*existing_names, name]
 
     def get_mask_layer(self, name: str) -> torch.Tensor:
         """Get a mask layer by name.
-- 
2.43.0


From bb1ba1c0f63f9dd74bd81a86e4e9f699767d85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 14/46] fix: treat boolean lists (and NumPy masks on tensors)
 as masks when indexing

---
 src/gsply/gsdata.py         | 4 ++++
 src/gsply/torch/gstensor.py | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index f059395..32de806 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1901,6 +1901,10 @@ class GSData:
                 _format=self._format,  # Preserve format flag
             )
 
+        # A list of booleans is a mask, not a list of indices 0 and 1
+        if isinstance(key, list) and key and all(isinstance(k, (bool, np.bool_)) for k in key):
+            key = np.asarray(key, dtype=bool)
+
         # Handle boolean array masking
         if isinstance(key, np.ndarray) and key.dtype == bool:
             if len(key) != len(self):
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 2c53722..9b3956e 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1095,6 +1095,12 @@ class GSTensor:
                 _format=self._format,  # Preserve format flag
             )
 
+        # Boolean arrays and lists of booleans are masks, not lists of indices 0 and 1
+        if (isinstance(key, np.ndarray) and key.dtype == bool) or (
+            isinstance(key, list) and key and all(isinstance(k, (bool, np.bool_)) for k in key)
+        ):
+            key = torch.as_tensor(np.asarray(key), dtype=torch.bool, device=self.device)
+
         # Handle boolean tensor masking
         if isinstance(key, torch.Tensor) and key.dtype == torch.bool:
             if len(key) != len(self):
-- 
2.43.0


From e221d44d6bab5e40fe6395d31c180c2f7d7f4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 15/46] fix: read PLY files only as their header describes them

Readers misread files with properties or elements that shift the vertex data
(extra non-float properties, elements before the vertices, reordered or
resized elements of compressed files, other byte orders), took end_header
inside a comment for the end of the header, and indexed out of bounds for a
wrong chunk count.
---
 src/gsply/formats.py           | 135 +++++++++++++++++++----------
 src/gsply/reader.py            | 149 ++++++++++-----------------------
 src/gsply/torch/compression.py |  19 ++---
 3 files changed, 144 insertions(+), 159 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 3cb6090..254d239 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -1,5 +1,6 @@
 """Format detection and constants for Gaussian splatting PLY files."""
 
+import re
 from pathlib import Path
 from typing import Any
 
@@ -160,6 +161,89 @@ QUAT_NORM = 1.4142135623730951  # 1.0 / (sqrt(2) * 0.5) = sqrt(2)
 SH_DEGREE_TO_COEFFS = {0: 0, 1: 3, 2: 8, 3: 15}
 
 
+# The header ends with the first line that consists of "end_header" only (a comment that
+# mentions end_header does not end it)
+_END_HEADER_PATTERN = re.compile(rb"\n[ \t]*end_header[ \t\r]*\n")
+
+
+def find_header_end(data: bytes) -> int:
+    """Find where the PLY header ends.
+
+    :param data: Bytes from the start of the file
+    :returns: Offset of the first byte after the header, or -1 if the header is incomplete
+    """
+    match = _END_HEADER_PATTERN.search(data)
+    return match.end() if match else -1
+
+
+def parse_header_lines(header_lines: list[str]) -> dict[str, dict[str, Any]]:
+    """Parse the lines of a PLY header this package can read.
+
+    :param header_lines: All header lines, from "ply" to "end_header"
+    :returns: Elements in file order, each with its count and (type, name) properties
+    :raises ValueError: If the header is malformed or not binary little endian
+    """
+    lines = [line.split() for line in header_lines]
+    if not lines or lines[0] != ["ply"]:
+        raise ValueError("Not a valid PLY file")
+
+    elements: dict[str, dict[str, Any]] = {}
+    current: dict[str, Any] | None = None
+    formats = []
+    for parts in lines[1:]:
+        keyword = parts[0] if parts else ""
+        if keyword == "format":
+            formats.append(parts[1:2])
+        elif keyword == "element":
+            if len(parts) != 3 or not parts[2].isdigit() or parts[1] in elements:
+                raise ValueError(f"Invalid PLY element declaration: {' '.join(parts)}")
+            current = {"count": int(parts[2]), "properties": []}
+            elements[parts[1]] = current
+        elif keyword == "property":
+            if len(parts) < 3 or current is None:
+                raise ValueError(f"Invalid PLY property declaration: {' '.join(parts)}")
+            current["properties"].append((parts[1], parts[2] if len(parts) == 3 else None))
+
+    if formats != [["binary_little_endian"]]:
+        raise ValueError("Only binary little endian PLY files are supported")
+    return elements
+
+
+def classify_elements(elements: dict[str, dict[str, Any]]) -> tuple[bool, int | None]:
+    """Decide what kind of Gaussian splatting file the elements of a PLY header describe.
+
+    :param elements: Elements in file order, as returned by parse_header_lines
+    :returns: (True, None) for compressed, (False, sh_degree) for uncompressed,
+              (False, None) for anything else
+    """
+    order = list(elements)
+
+    # Compressed: chunk table, packed vertices and optional SH block, in that order
+    if order[:2] == ["chunk", "vertex"]:
+        if not _is_compressed_format(elements):
+            return False, None
+        if "sh" in elements:
+            sh_elem = elements["sh"]
+            sh_props = sh_elem["properties"]
+            if (
+                order[2] != "sh"
+                or sh_elem["count"] != elements["vertex"]["count"]
+                or sh_props != [("uchar", f"f_rest_{i}") for i in range(len(sh_props))]
+                or len(sh_props) % 3 != 0
+            ):
+                return False, None
+        return True, None
+
+    # Uncompressed: the data of the vertex element directly follows the header
+    if order[:1] == ["vertex"]:
+        vertex_props = elements["vertex"]["properties"]
+        for sh_degree, expected_names in EXPECTED_PROPERTIES_BY_SH_DEGREE.items():
+            if vertex_props == [("float", name) for name in expected_names]:
+                return False, sh_degree
+
+    return False, None
+
+
 def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
     """Parse PLY header to extract element definitions.
 
@@ -167,8 +251,7 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
     :returns: Tuple of (elements_dict, header_size_bytes)
     :raises ValueError: If PLY format is invalid
     """
-    elements = {}
-    current_element = None
+    header_lines = []
     header_size = 0
 
     with open(file_path, "rb") as f:
@@ -177,33 +260,20 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
         if line.strip() != b"ply":
             raise ValueError("Not a valid PLY file")
+        header_lines.append("ply")
 
         while True:
             line = f.readline()
-            if not line:
+            if not line.endswith(b"\n"):
                 raise ValueError("Unexpected end of file in PLY header")
             header_size += len(line)
-            line_str = line.decode("ascii").strip()
+            line_str = line.decode("ascii", errors="replace").strip()
+            header_lines.append(line_str)
 
             if line_str == "end_header":
                 break
 
-            parts = line_str.split()
-            if not parts:
-                continue
-
-            if parts[0] == "element":
-                element_name = parts[1]
-                element_count = int(parts[2])
-                elements[element_name] = {"count": element_count, "properties": []}
-                current_element = element_name
-
-            elif parts[0] == "property" and current_element:
-                prop_type = parts[1]
-                prop_name = parts[2]
-                elements[current_element]["properties"].append((prop_type, prop_name))
-
-    return elements, header_size
+    return parse_header_lines(header_lines), header_size
 
 
 def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
@@ -231,28 +301,7 @@ def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
     except Exception:
         return False, None
 
-    # Check for compressed format
-    if _is_compressed_format(elements):
-        return True, None
-
-    # Check for uncompressed format
-    if "vertex" not in elements:
-        return False, None
-
-    vertex_props = elements["vertex"]["properties"]
-    property_count = len(vertex_props)
-
-    # Try to match against known SH degrees
-    for sh_degree, expected_count in PROPERTY_COUNTS_BY_SH_DEGREE.items():
-        if property_count == expected_count:
-            # Verify property names match
-            prop_names = [prop[1] for prop in vertex_props]
-            expected_names = EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]
-            if prop_names == expected_names:
-                return False, sh_degree
-
-    # Unknown format
-    return False, None
+    return classify_elements(elements)
 
 
 # Expected chunk property names for compressed format
@@ -316,7 +365,7 @@ def _is_compressed_format(elements: dict[str, dict[str, Any]]) -> bool:
 
     # Check vertex element (4 uint properties)
     vertex_props = vertex_elem["properties"]
-    if len(vertex_props) < COMPRESSED_VERTEX_PROPERTIES:
+    if len(vertex_props) != COMPRESSED_VERTEX_PROPERTIES:
         return False
 
     # Verify vertex property types and names match expected format
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 97e5422..09965ec 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -32,7 +32,6 @@ from gsply.formats import (
     COLOR_G_SHIFT,
     COLOR_O_SHIFT,
     COLOR_R_SHIFT,
-    EXPECTED_PROPERTIES_BY_SH_DEGREE,
     INV_255,
     INV_1023,
     INV_2047,
@@ -50,8 +49,11 @@ from gsply.formats import (
     QUAT_NORM,
     SH_BANDS_TO_DEGREE,
     SH_C0,
+    classify_elements,
     detect_format,
+    find_header_end,
     get_sh_degree_from_property_count,
+    parse_header_lines,
 )
 
 # Import GSData from separate module
@@ -160,16 +162,18 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
         # Read first chunk (typical header is 300-2000 bytes)
         chunk = f.read(_HEADER_READ_CHUNK_SIZE)
 
-        # Find end_header marker
-        end_marker = b"end_header\n"
-        end_idx = chunk.find(end_marker)
+        # Find the end of the header
+        data_offset = find_header_end(chunk)
 
-        if end_idx == -1:
+        if data_offset == -1:
             # Header larger than chunk size - use line-by-line fallback
             f.seek(0)
             header_lines = []
             while True:
-                line = f.readline().decode("ascii").strip()
+                raw_line = f.readline()
+                if not raw_line.endswith(b"\n"):
+                    return None
+                line = raw_line.decode("ascii", errors="replace").strip()
                 header_lines.append(line)
                 if line == "end_header":
                     break
@@ -178,10 +182,8 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
             return header_lines, f.tell()
 
         # Fast path: decode entire header at once
-        header_bytes = chunk[: end_idx + len(end_marker)]
-        header_text = header_bytes.decode("ascii")
-        header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
-        data_offset = len(header_bytes)
+        header_text = chunk[:data_offset].decode("ascii", errors="replace")
+        header_lines = [line.strip() for line in header_text.split("\n")]
 
         return header_lines, data_offset
 
@@ -448,35 +450,17 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
                 return None
             header_lines, data_offset = header_result
 
-            # Parse header
-            vertex_count = None
-            is_binary_le = False
-            property_names = []
-
-            for line in header_lines:
-                if line.startswith("format "):
-                    format_type = line.split()[1]
-                    is_binary_le = format_type == "binary_little_endian"
-                elif line.startswith("element vertex "):
-                    vertex_count = int(line.split()[2])
-                elif line.startswith("property float "):
-                    prop_name = line.split()[2]
-                    property_names.append(prop_name)
-
-            # Validate format
-            if not is_binary_le or vertex_count is None:
+            # Parse header, validate format, property types, names and order
+            elements = parse_header_lines(header_lines)
+            is_compressed, sh_degree = classify_elements(elements)
+            if is_compressed or sh_degree is None:
                 return None
 
-            # Detect SH degree from property count
-            property_count = len(property_names)
-            sh_degree = get_sh_degree_from_property_count(property_count)
-
-            if sh_degree is None:
-                return None
+            vertex_count = elements["vertex"]["count"]
+            property_count = len(elements["vertex"]["properties"])
 
-            # Validate property names and order
-            expected_properties = EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]
-            if property_names != expected_properties:
+            # Refuse files that end before their data does
+            if f.seek(0, 2) - data_offset < vertex_count * property_count * 4:
                 return None
 
             # Seek to data position and read binary data
@@ -547,59 +531,12 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
 # ======================================================================================
 
 
-def _parse_elements_from_header(header_lines: list[str]) -> dict:
-    """Parse element information from PLY header lines.
-
-    :param header_lines: List of header lines from PLY file
-    :returns: Dictionary mapping element names to their properties and counts
-    """
-    elements = {}
-    current_element = None
-
-    for line in header_lines:
-        if line.startswith("element "):
-            parts = line.split()
-            name = parts[1]
-            count = int(parts[2])
-            elements[name] = {"count": count, "properties": []}
-            current_element = name
-        elif line.startswith("property ") and current_element:
-            parts = line.split()
-            prop_type = parts[1]
-            prop_name = parts[2]
-            elements[current_element]["properties"].append((prop_type, prop_name))
-
-    return elements
-
-
-def _is_compressed_format(header_lines: list) -> bool:
-    """Check if PLY header indicates compressed format."""
-    # Reuse element parsing logic
-    elements = _parse_elements_from_header(header_lines)
-
-    # Compressed format has "chunk" and "vertex" elements with specific properties
-    if "chunk" not in elements or "vertex" not in elements:
-        return False
-
-    chunk_props = elements["chunk"]["properties"]
-    if len(chunk_props) != 18:
-        return False
-
-    vertex_props = elements["vertex"]["properties"]
-    if len(vertex_props) != 4:
-        return False
-
-    expected_vertex = [
-        "packed_position",
-        "packed_rotation",
-        "packed_scale",
-        "packed_color",
-    ]
-    for (_, prop_name), expected_name in zip(vertex_props, expected_vertex, strict=False):
-        if prop_name != expected_name:
-            return False
-
-    return True
+def _compressed_data_size(elements: dict) -> int:
+    """Size in bytes of the data that follows a compressed PLY header."""
+    size = elements["chunk"]["count"] * 72 + elements["vertex"]["count"] * 16
+    if "sh" in elements:
+        size += elements["sh"]["count"] * len(elements["sh"]["properties"])
+    return size
 
 
 def _decompress_data_internal(
@@ -744,25 +681,21 @@ def _parse_header_from_bytes(compressed_bytes: bytes) -> tuple[list[str], int, d
     :raises ValueError: If header is invalid or not compressed format
     """
     # Fast path: Find end_header with byte search (like _read_header_fast)
-    end_marker = b"end_header\n"
-    end_idx = compressed_bytes.find(end_marker)
+    data_offset = find_header_end(compressed_bytes)
 
-    if end_idx == -1:
+    if data_offset == -1:
         raise ValueError("Invalid PLY: no end_header found")
 
     # Decode entire header at once (like _read_header_fast)
-    header_bytes = compressed_bytes[: end_idx + len(end_marker)]
-    header_text = header_bytes.decode("ascii")
-    header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
-    data_offset = len(header_bytes)
+    header_text = bytes(compressed_bytes[:data_offset]).decode("ascii", errors="replace")
+    header_lines = [line.strip() for line in header_text.split("\n")]
 
-    # Check if compressed format
-    if not _is_compressed_format(header_lines):
+    # Parse element info and check if compressed format
+    elements = parse_header_lines(header_lines)
+    is_compressed, _ = classify_elements(elements)
+    if not is_compressed:
         raise ValueError("Bytes do not contain compressed PLY format")
 
-    # Parse element info using shared helper
-    elements = _parse_elements_from_header(header_lines)
-
     return header_lines, data_offset, elements
 
 
@@ -798,12 +731,15 @@ def read_compressed(file_path: str | Path) -> GSData | None:
                 return None
             header_lines, data_offset = result
 
-            # Check if compressed format
-            if not _is_compressed_format(header_lines):
+            # Parse element info and check if compressed format
+            elements = parse_header_lines(header_lines)
+            is_compressed, _ = classify_elements(elements)
+            if not is_compressed:
                 return None
 
-            # Parse element info using shared helper
-            elements = _parse_elements_from_header(header_lines)
+            # Refuse files that end before their data does
+            if f.seek(0, 2) - data_offset < _compressed_data_size(elements):
+                return None
 
             # Seek to data and read binary from same file handle
             f.seek(data_offset)
@@ -855,6 +791,9 @@ def decompress_from_bytes(compressed_bytes: bytes) -> GSData:
     # Parse header using fast byte search (matches _read_header_fast approach)
     header_lines, data_offset, elements = _parse_header_from_bytes(compressed_bytes)
 
+    if len(compressed_bytes) - data_offset < _compressed_data_size(elements):
+        raise ValueError("Invalid PLY: data ends before the header says it should")
+
     # Read binary data directly from bytes (zero-copy with np.frombuffer)
     num_chunks = elements["chunk"]["count"]
     offset = data_offset
diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 64d3f71..82ed287 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -760,7 +760,8 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
     :returns: GSTensor with decompressed data on GPU
     """
     from gsply.gsdata import DataFormat, _create_format_dict, _get_sh_order_format
-    from gsply.reader import _parse_header_from_bytes
+    from gsply.formats import find_header_end
+    from gsply.reader import _compressed_data_size, _parse_header_from_bytes
     from gsply.torch.gstensor import GSTensor
 
     file_path = Path(file_path)
@@ -774,19 +775,15 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
             if not chunk:
                 break
             header_bytes += chunk
-            if b"end_header\n" in header_bytes:
+            if find_header_end(header_bytes) != -1:
                 break
 
-        # Find header end
-        end_idx = header_bytes.find(b"end_header\n")
-        if end_idx == -1:
-            raise ValueError("Invalid PLY: no end_header found")
-
-        header_bytes = header_bytes[: end_idx + len(b"end_header\n")]
-        data_offset = len(header_bytes)
-
         # Parse header
-        header_lines, _, elements = _parse_header_from_bytes(header_bytes)
+        header_lines, data_offset, elements = _parse_header_from_bytes(header_bytes)
+
+        # Refuse files that end before their data does
+        if f.seek(0, 2) - data_offset < _compressed_data_size(elements):
+            raise ValueError("Invalid PLY: data ends before the header says it should")
 
         num_chunks = elements["chunk"]["count"]
         num_vertices = elements["vertex"]["count"]
-- 
2.43.0


From 13efbe061dee7795ed4ee22cc7c3fdcc3495a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 16/46] fix: detect the format of loose arrays in
 compress_to_bytes/compress_to_arrays like plywrite does

---
 src/gsply/writer.py | 102 +++++++++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 44 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 0add6a1..3e44a37 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -40,12 +40,15 @@ from gsply.formats import (
     QUAT_B_SHIFT,
     QUAT_C_SHIFT,
     QUAT_INDEX_SHIFT,
+    SH_BANDS_TO_DEGREE,
     SH_C0,
 )
 from gsply.gsdata import (
     DataFormat,
     GSData,
     _create_format_dict,
+    _detect_format_from_values,
+    _get_sh_order_format,
     _interleave_sh0_jit,
     _interleave_shn_jit,
 )
@@ -864,6 +867,45 @@ def _compute_chunk_boundaries(num_chunks: int, num_gaussians: int) -> tuple[np.n
     return chunk_starts, chunk_ends
 
 
+def _gsdata_from_arrays(means, scales, quats, opacities, sh0, shn) -> GSData:
+    """Wrap individual arrays in a GSData, detecting the format from the values.
+
+    :param means: Gaussian centers, shape (N, 3)
+    :param scales: Scales, shape (N, 3)
+    :param quats: Rotations as quaternions, shape (N, 4)
+    :param opacities: Opacities, shape (N,)
+    :param sh0: DC spherical harmonics, shape (N, 3)
+    :param shn: Higher-order SH coefficients, shape (N, K, 3) or (N, K*3), or None
+    :returns: GSData sharing the arrays
+    """
+    scales_format, opacities_format = _detect_format_from_values(scales, opacities)
+
+    # Determine SH degree for format dict
+    if shn is not None and shn.shape[1] > 0:
+        sh_bands = shn.shape[1] // 3 if shn.ndim == 2 else shn.shape[1]
+        sh_degree = SH_BANDS_TO_DEGREE.get(sh_bands, 0)
+    else:
+        sh_degree = 0
+
+    return GSData(
+        means=means,
+        scales=scales,
+        quats=quats,
+        opacities=opacities,
+        sh0=sh0,
+        shN=shn if shn is not None else np.empty((means.shape[0], 0, 3), dtype=np.float32),
+        _base=None,  # No _base for manually created data
+        _format=_create_format_dict(
+            scales=scales_format,
+            opacities=opacities_format,
+            sh0=DataFormat.SH0_SH,  # Assume SH format
+            sh_order=_get_sh_order_format(sh_degree),
+            means=DataFormat.MEANS_RAW,
+            quats=DataFormat.QUATS_RAW,
+        ),
+    )
+
+
 def _ensure_ply_format(data: GSData) -> GSData:
     """Ensure data is in PLY format (log-scales, logit-opacities, SH colors).
 
@@ -1353,9 +1395,7 @@ def compress_to_bytes(
     """
     # Handle GSData input
     if isinstance(data_or_means, GSData):
-        # Ensure data is in PLY format (log-scales, logit-opacities) before compressing
-        data = _ensure_ply_format(data_or_means)
-        means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
+        data = data_or_means
     else:
         # Use individual arrays
         means = data_or_means
@@ -1364,6 +1404,12 @@ def compress_to_bytes(
                 "When passing individual arrays, scales, quats, opacities, and sh0 are required. "
                 "Consider using GSData for cleaner API: compress_to_bytes(data)"
             )
+        data = _gsdata_from_arrays(
+            *_validate_and_normalize_inputs(means, scales, quats, opacities, sh0, shN, validate)
+        )
+
+    # Ensure data is in PLY format (log-scales, logit-opacities, SH colors) before compressing
+    means, scales, quats, opacities, sh0, shN = _ensure_ply_format(data).unpack()  # noqa: N806
 
     # Validate and normalize inputs
     means, scales, quats, opacities, sh0, shN = _validate_and_normalize_inputs(  # noqa: N806
@@ -1432,9 +1478,7 @@ def compress_to_arrays(
     """
     # Handle GSData input
     if isinstance(data_or_means, GSData):
-        # Ensure data is in PLY format (log-scales, logit-opacities) before compressing
-        data = _ensure_ply_format(data_or_means)
-        means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
+        data = data_or_means
     else:
         # Use individual arrays
         means = data_or_means
@@ -1443,6 +1487,12 @@ def compress_to_arrays(
                 "When passing individual arrays, scales, quats, opacities, and sh0 are required. "
                 "Consider using GSData for cleaner API: compress_to_arrays(data)"
             )
+        data = _gsdata_from_arrays(
+            *_validate_and_normalize_inputs(means, scales, quats, opacities, sh0, shN, validate)
+        )
+
+    # Ensure data is in PLY format (log-scales, logit-opacities, SH colors) before compressing
+    means, scales, quats, opacities, sh0, shN = _ensure_ply_format(data).unpack()  # noqa: N806
 
     # Validate and normalize inputs
     means, scales, quats, opacities, sh0, shN = _validate_and_normalize_inputs(  # noqa: N806
@@ -1549,44 +1599,8 @@ def plywrite(
                 "When passing individual arrays, all of data (means), scales, quats, "
                 "opacities, and sh0 must be provided"
             )
-        # Create GSData without _base (will auto-consolidate below)
-        # Automatically detect format from values (always returns valid format)
-        from gsply.gsdata import _detect_format_from_values, _get_sh_order_format
-
-        scales_format, opacities_format = _detect_format_from_values(scales, opacities)
-
-        # Determine SH degree for format dict
-        if shN is not None and shN.shape[1] > 0:
-            if shN.ndim == 2:
-                sh_bands = shN.shape[1] // 3
-            else:
-                sh_bands = shN.shape[1]
-            from gsply.formats import SH_BANDS_TO_DEGREE
-
-            sh_degree = SH_BANDS_TO_DEGREE.get(sh_bands, 0)
-        else:
-            sh_degree = 0
-
-        # Create format dict (always provided)
-        format_dict = _create_format_dict(
-            scales=scales_format,
-            opacities=opacities_format,
-            sh0=DataFormat.SH0_SH,  # Assume SH format
-            sh_order=_get_sh_order_format(sh_degree),
-            means=DataFormat.MEANS_RAW,
-            quats=DataFormat.QUATS_RAW,
-        )
-
-        data = GSData(
-            means=data,
-            scales=scales,
-            quats=quats,
-            opacities=opacities,
-            sh0=sh0,
-            shN=shN if shN is not None else np.empty((data.shape[0], 0, 3), dtype=np.float32),
-            _base=None,  # No _base for manually created data
-            _format=format_dict,  # Auto-detected format (always provided)
-        )
+        # Create GSData without _base, detecting the format from the values
+        data = _gsdata_from_arrays(data, scales, quats, opacities, sh0, shN)
 
     # Note: Auto-consolidate was removed for better performance
     # The standard path already uses optimized JIT interleaving kernels,
-- 
2.43.0


From b2875ee64347c5fff8730a211625291cf96a3f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 17/46] fix: keep the SH degree of empty scenes in packed
 uncompressed writes

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 3e44a37..02185f4 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1220,7 +1220,7 @@ def write_uncompressed(
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
         num_sh_rest = (
-            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.size > 0) else None
+            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.shape[1] > 0) else None
         )
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
-- 
2.43.0


From 2ce36e9c84984f379cd49f8a7e49c1986a70fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 18/46] fix: decode fully transparent and opaque Gaussians on
 tensors as on arrays

---
 src/gsply/torch/compression.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 82ed287..f7e190a 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -233,10 +233,9 @@ def _unpack_colors_and_opacities_gpu(
     # Convert RGB to SH0: sh0 = (color - 0.5) / SH_C0 (use pre-computed constant)
     sh0 = (color_rgb - 0.5) * _INV_SH_C0
 
-    # Convert opacity from linear to logit space
-    # opacity = -log(1/x - 1)
-    epsilon = 1e-7
-    opacities = torch.logit(co, eps=epsilon)
+    # Convert opacity from linear to logit space: -log(1/x - 1), limited to +-10 at the ends
+    # of the range like the CPU decoder
+    opacities = torch.logit(co).clamp(-10.0, 10.0)
 
     return sh0, opacities
 
-- 
2.43.0


From 9d9fa8d31032abf4a0fb05a2269d778a954ac2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 19/46] fix: accept torch.device when reading compressed files
 to the CPU

---
 src/gsply/torch/compression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index f7e190a..bd3aff9 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -316,6 +316,7 @@ def decompress_gpu(
     :param device: Device to decompress on (default "cuda")
     :returns: Tuple of (means, scales, quats, opacities, sh0, shN) as GPU tensors
     """
+    device = str(device)  # device may also be given as torch.device
     num_vertices = vertex_data.shape[0]
     num_chunks = chunk_data.shape[0]
 
-- 
2.43.0


From 5f79edd2b5df2a734129b6d03c86de46afde28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 20/46] fix: let GSTensor.load() decide by the file's content,
 not its name

---
 src/gsply/torch/gstensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 9b3956e..4b2f0b9 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -8,7 +8,7 @@ from pathlib import Path
 import numpy as np
 import torch
 
-from gsply.formats import SH_BANDS_TO_DEGREE, SH_C0
+from gsply.formats import SH_BANDS_TO_DEGREE, SH_C0, detect_format
 
 # Import DataFormat, FormatDict, GSData, and helpers from gsdata
 # No circular dependency - gsdata.py doesn't import GSTensor
@@ -1564,8 +1564,8 @@ class GSTensor:
         """
         file_path = Path(file_path)
 
-        # Auto-detect format from extension
-        is_compressed = file_path.name.endswith((".ply_compressed", ".compressed.ply"))
+        # Auto-detect format from the file itself (names do not decide what a file contains)
+        is_compressed, _ = detect_format(file_path)
 
         if is_compressed:
             # Use GPU decompression
-- 
2.43.0


From fc6df0edf6ee0cf586a308011309d460ec796f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 21/46] fix: refuse damaged SOG bundles with the documented
 ValueError

Truncated archives, broken textures and incomplete metadata raised assorted
exceptions; undersized codebooks were read out of bounds and undersized or
differently laid out palette textures were misread.
---
 src/gsply/sog_reader.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 19c9e9b..6f27adc 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -36,6 +36,7 @@ import io
 import json
 import logging
 import zipfile
+import zlib
 from pathlib import Path
 
 import numba
@@ -409,6 +410,13 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _check_codebook(codebook: np.ndarray, rgba: np.ndarray, name: str) -> None:
+    """Refuse codebooks that do not have an entry for every color value in use."""
+    used = rgba.reshape(-1, 4)[:, :3]
+    if used.size and codebook.shape[0] <= int(used.max()):
+        raise ValueError(f"SOG {name} codebook too small for its texture")
+
+
 def sogread(file_path: str | Path | bytes) -> GSData:
     """Read SOG (Splat Ordering Grid) format file.
 
@@ -432,6 +440,25 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         ...     sog_bytes = f.read()
         >>> data = sogread(sog_bytes)  # Returns GSData
     """
+    try:
+        return _sogread(file_path)
+    except (
+        zipfile.BadZipFile,
+        zlib.error,
+        EOFError,
+        NotImplementedError,
+        RuntimeError,
+        KeyError,
+        IndexError,
+        TypeError,
+        AttributeError,
+    ) as e:
+        # Damaged archive or texture, incomplete or malformed metadata
+        raise ValueError(f"Invalid SOG file: {e}") from e
+
+
+def _sogread(file_path: str | Path | bytes) -> GSData:
+    """Read SOG format file (see sogread)."""
     entries: dict[str, bytes] | None = None
     path_obj: Path | None = None
 
@@ -523,6 +550,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     else:
         # v2: codebook lookup
         scales_codebook = np.array(meta["scales"]["codebook"], dtype=np.float32)
+        _check_codebook(scales_codebook, scales_rgba[: count * 4], "scales")
         sx, sy, sz = _decode_scales_jit(scales_rgba, scales_codebook, count)
     scales[:, 0] = sx
     scales[:, 1] = sy
@@ -544,6 +572,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     else:
         # v2: codebook lookup + logit transform on alpha channel
         sh0_codebook = np.array(meta["sh0"]["codebook"], dtype=np.float32)
+        _check_codebook(sh0_codebook, sh0_rgba[: count * 4], "sh0")
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_jit(sh0_rgba, sh0_codebook, count)
 
     sh0 = np.empty((count, 3), dtype=np.float32)
@@ -578,6 +607,8 @@ def sogread(file_path: str | Path | bytes) -> GSData:
                 raise ValueError("SOG shN labels texture too small for count")
 
             centroids_width = 64 * sh_coeffs
+            if cw != centroids_width:
+                raise ValueError("SOG shN centroids texture does not have 64 entries per row")
 
             if is_v3:
                 # v3: linear dequantization with scalar min/max
@@ -599,6 +630,8 @@ def sogread(file_path: str | Path | bytes) -> GSData:
                 # v2: codebook lookup
                 palette_count = shn_meta["count"]
                 codebook = np.array(shn_meta["codebook"], dtype=np.float32)
+                if palette_count > ch * 64:
+                    raise ValueError("SOG shN centroids texture too small for count")
                 shn = _decode_shn_jit(  # noqa: N806
                     labels_rgba,
                     centroids_rgba,
-- 
2.43.0


From e2a1059f2175e175d11e28a6c5de34a219189ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 22/46] fix: write packed arrays of other dtypes as the float32
 the header promises

---
 src/gsply/writer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 02185f4..e6c9c28 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1224,12 +1224,14 @@ def write_uncompressed(
         )
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
-        buffer_size = (
-            _LARGE_BUFFER_SIZE if data._base.nbytes > _LARGE_FILE_THRESHOLD else _SMALL_BUFFER_SIZE
-        )
+        # The file holds float32; a copy is made only if the packed array is of another type
+        # (GSTensor.to_gsdata() of a float64 or half-precision tensor)
+        base = np.asarray(data._base, dtype=np.float32)
+
+        buffer_size = _LARGE_BUFFER_SIZE if base.nbytes > _LARGE_FILE_THRESHOLD else _SMALL_BUFFER_SIZE
         with open(file_path, "wb", buffering=buffer_size) as f:
             f.write(header_bytes)
-            data._base.tofile(f)
+            base.tofile(f)
 
         logger.debug(
             f"[Gaussian PLY] Wrote uncompressed (zero-copy): {num_gaussians} Gaussians to {file_path.name}"
-- 
2.43.0


From ef564bbb23a992f35462303810f2cba6eefb53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 23/46] fix: let the tensor compressor write empty scenes

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index bd3aff9..ffc4969 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -447,7 +447,7 @@ def _compute_chunk_bounds_gpu(
         data_padded = data
 
     # Reshape to (NumChunks, 256, D)
-    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, -1)
+    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, data.shape[1])
 
     # Create mask to exclude padded values in last chunk
     # For last chunk, mask out positions >= num_gaussians
@@ -627,7 +627,7 @@ def _pack_sh_gpu(shN: torch.Tensor) -> torch.Tensor:  # noqa: N803
     """
     # Transpose [N, K, 3] -> [N, 3, K] then flatten to [N, 3*K]
     # This gives channel-grouped order matching original 3DGS PLY format
-    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], -1)
+    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], shN.shape[1] * 3)
 
     # Quantize: shN * 32 + 128, clamped to [0, 255]
     return torch.clamp(sh_flat * 32.0 + 128.0, 0.0, 255.0).to(torch.uint8)
-- 
2.43.0


From d1b160e3bdf9da073657a765f1c929171cfd351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:23 +0000
Subject: [PATCH 24/46] fix: read headers with many comment lines whatever
 their length

---
 src/gsply/reader.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 09965ec..4a5ac08 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -96,7 +96,6 @@ _INV_SH_C0 = 1.0 / SH_C0  # = 3.544907701811032
 
 # Header reading constants
 _HEADER_READ_CHUNK_SIZE = 8192  # bytes - typical header is 300-2000 bytes
-_MAX_HEADER_LINES = 200  # sanity limit to prevent infinite loops on malformed files
 
 # ======================================================================================
 # PRE-COMPUTED SLICE INDICES (Optimization to eliminate branching)
@@ -177,8 +176,6 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
                 header_lines.append(line)
                 if line == "end_header":
                     break
-                if len(header_lines) > _MAX_HEADER_LINES:
-                    return None
             return header_lines, f.tell()
 
         # Fast path: decode entire header at once
-- 
2.43.0


From d628f609eb4a7736abe3ecf81cbe866cb126732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 25/46] fix: refuse SOG bundles whose value ranges do not cover
 every channel

---
 src/gsply/sog_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 6f27adc..ee31b65 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -417,6 +417,12 @@ def _check_codebook(codebook: np.ndarray, rgba: np.ndarray, name: str) -> None:
         raise ValueError(f"SOG {name} codebook too small for its texture")
 
 
+def _check_ranges(mins: np.ndarray, maxs: np.ndarray, channels: int, name: str) -> None:
+    """Refuse value ranges that do not give a minimum and a maximum for every channel."""
+    if mins.ndim != 1 or maxs.ndim != 1 or min(mins.size, maxs.size) < channels:
+        raise ValueError(f"SOG {name} ranges do not cover its {channels} channels")
+
+
 def sogread(file_path: str | Path | bytes) -> GSData:
     """Read SOG (Splat Ordering Grid) format file.
 
@@ -546,6 +552,7 @@ def _sogread(file_path: str | Path | bytes) -> GSData:
         # v3: linear min/max dequantization
         sc_mins = np.array(meta["scales"]["mins"], dtype=np.float32)
         sc_maxs = np.array(meta["scales"]["maxs"], dtype=np.float32)
+        _check_ranges(sc_mins, sc_maxs, 3, "scales")
         sx, sy, sz = _decode_scales_linear_jit(scales_rgba, sc_mins, sc_maxs, count)
     else:
         # v2: codebook lookup
@@ -566,6 +573,7 @@ def _sogread(file_path: str | Path | bytes) -> GSData:
         # v3: linear min/max dequantization (4 channels: RGB + opacity in logit space)
         sh0_mins = np.array(meta["sh0"]["mins"], dtype=np.float32)
         sh0_maxs = np.array(meta["sh0"]["maxs"], dtype=np.float32)
+        _check_ranges(sh0_mins, sh0_maxs, 4, "sh0")
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_linear_jit(
             sh0_rgba, sh0_mins, sh0_maxs, count
         )
-- 
2.43.0


From 6087af4e014824472ffb1791ff37c03362762c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:17 +0000
Subject: [PATCH 26/46] fix: report failed writes (ndarray.tofile loses errors
 of its last flush)

---
 src/gsply/torch/compression.py |  6 +++---
 src/gsply/writer.py            | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index ffc4969..6b28d5e 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -914,10 +914,10 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     # Write to file
     with open(file_path, "wb") as f:
         f.write(header_bytes)
-        chunk_bounds.tofile(f)
-        packed_vertex.tofile(f)
+        f.write(np.ascontiguousarray(chunk_bounds))
+        f.write(np.ascontiguousarray(packed_vertex))
         if packed_sh is not None:
-            packed_sh.tofile(f)
+            f.write(np.ascontiguousarray(packed_sh))
 
     logger.info(
         f"[GPU Write] Saved {num_gaussians:,} Gaussians to {file_path.name} "
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index e6c9c28..40c0a5c 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1231,7 +1231,8 @@ def write_uncompressed(
         buffer_size = _LARGE_BUFFER_SIZE if base.nbytes > _LARGE_FILE_THRESHOLD else _SMALL_BUFFER_SIZE
         with open(file_path, "wb", buffering=buffer_size) as f:
             f.write(header_bytes)
-            base.tofile(f)
+            # Not base.tofile(f), which does not report a failed write of buffered data
+            f.write(np.ascontiguousarray(base))
 
         logger.debug(
             f"[Gaussian PLY] Wrote uncompressed (zero-copy): {num_gaussians} Gaussians to {file_path.name}"
@@ -1276,7 +1277,7 @@ def write_uncompressed(
     )
     with open(file_path, "wb", buffering=buffer_size) as f:
         f.write(header_bytes)
-        output_array.tofile(f)
+        f.write(np.ascontiguousarray(output_array))
 
     logger.debug(
         f"[Gaussian PLY] Wrote uncompressed: {num_gaussians} Gaussians to {file_path.name}"
@@ -1346,10 +1347,10 @@ def write_compressed(
     # Write to file
     with open(file_path, "wb") as f:
         f.write(header_bytes)
-        chunk_bounds.tofile(f)
-        packed_data.tofile(f)
+        f.write(np.ascontiguousarray(chunk_bounds))
+        f.write(np.ascontiguousarray(packed_data))
         if packed_sh is not None:
-            packed_sh.tofile(f)
+            f.write(np.ascontiguousarray(packed_sh))
 
     logger.debug(
         f"[Gaussian PLY] Wrote compressed: {num_gaussians} Gaussians to {file_path.name} "
-- 
2.43.0


From ae388b2b9e800b5c336666d0d5e90f89dd022986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 27/46] fix: threads compressing at once no longer fail when
 the compiled kernel cache is cleared

---
 src/gsply/torch/compression.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 6b28d5e..d8fa862 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -88,16 +88,19 @@ def _get_compiled_fn(name: str, fn: object) -> object:
     if not _TORCH_COMPILE_AVAILABLE or _TORCH_COMPILE_DISABLED:
         return fn
 
-    if name not in _COMPILED_FUNCTIONS:
+    # Look the entry up once: a failing kernel in another thread may clear the cache meanwhile
+    compiled = _COMPILED_FUNCTIONS.get(name)
+    if compiled is None:
         try:
             # Use default mode (reduce-overhead has issues with int32 bit ops on Windows)
-            _COMPILED_FUNCTIONS[name] = torch.compile(fn, mode="default")
+            compiled = torch.compile(fn, mode="default")
             logger.debug("Compiled %s with torch.compile", name)
         except Exception as e:
             logger.debug("Failed to compile %s: %s, using original", name, e)
-            _COMPILED_FUNCTIONS[name] = fn
+            compiled = fn
+        _COMPILED_FUNCTIONS[name] = compiled
 
-    return _COMPILED_FUNCTIONS[name]
+    return compiled
 
 
 def _call_with_fallback(compiled_fn: object, original_fn: object, *args: object) -> object:
-- 
2.43.0


From 8c304df53b1080daa9353d9aee508d49ff304a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 28/46] fix: sigmoid and logit compute integer and other
 non-float32/64 arrays in floating point

---
 src/gsply/utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 90e3bf2..73838a8 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -64,6 +64,18 @@ def _logit_impl(x: np.ndarray, out: np.ndarray, eps: float):
         out.flat[i] = np.log(val / (1.0 - val))
 
 
+def _as_float_array(x: np.ndarray) -> np.ndarray:
+    """Convert input of the elementwise kernels to a dtype they can compute in.
+
+    :param x: Input values of any numeric dtype
+    :returns: x itself for native float32 and float64 arrays, otherwise a float64 array
+    """
+    x = np.asarray(x)
+    if x.dtype.type not in (np.float32, np.float64) or not x.dtype.isnative:
+        x = x.astype(np.float64)
+    return x
+
+
 def logit(x: np.ndarray | float, eps: float = 1e-6) -> np.ndarray | float:
     """Compute logit function (inverse sigmoid) with numerical stability.
 
@@ -74,11 +86,12 @@ def logit(x: np.ndarray | float, eps: float = 1e-6) -> np.ndarray | float:
     :param eps: Epsilon for numerical stability (clamping)
     :returns: Logit values
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         val = max(eps, min(val, 1.0 - eps))
         return np.log(val / (1.0 - val))
 
+    x = _as_float_array(x)
     out = np.empty_like(x)
     _logit_impl(x, out, eps)
     return out
@@ -105,13 +118,14 @@ def sigmoid(x: np.ndarray | float) -> np.ndarray | float:
     :param x: Input values (logits)
     :returns: Values in [0, 1] range (probabilities)
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         if val >= 0:
             return 1.0 / (1.0 + np.exp(-val))
         z = np.exp(val)
         return z / (1.0 + z)
 
+    x = _as_float_array(x)
     out = np.empty_like(x)
     _sigmoid_impl(x, out)
     return out
-- 
2.43.0


From ca0af2eaa37e7e2fb65d3ab23c49d876832f038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 29/46] fix: normalising rotations with large components no
 longer overflows to zero

---
 src/gsply/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 73838a8..4edd285 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -203,10 +203,11 @@ def _activate_gaussians_numba(
         opacities[i] = sigmoid
 
         # Quaternion activation: normalize with safety floor
-        qx = quats[i, 0]
-        qy = quats[i, 1]
-        qz = quats[i, 2]
-        qw = quats[i, 3]
+        # (in double precision: squares of large or tiny components leave the float32 range)
+        qx = np.float64(quats[i, 0])
+        qy = np.float64(quats[i, 1])
+        qz = np.float64(quats[i, 2])
+        qw = np.float64(quats[i, 3])
 
         norm = np.sqrt(qx * qx + qy * qy + qz * qz + qw * qw)
         if norm < min_quat_norm:
-- 
2.43.0


From b8dc51826d076de02bbb2d88657c7707d2672dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 30/46] fix: activation limits that vanish in single precision
 are refused

---
 src/gsply/utils.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 4edd285..4cb1def 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -311,6 +311,11 @@ def apply_pre_activations(
     # Lazy import to avoid circular dependency
     from gsply.gsdata import DataFormat  # noqa: PLC0415
 
+    # The kernel computes in float32: validate the limits it will use
+    min_scale = np.float32(min_scale)
+    max_scale = np.float32(max_scale)
+    min_quat_norm = np.float32(min_quat_norm)
+
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate exponentiation results.")
     if max_scale <= 0 or max_scale < min_scale:
@@ -345,9 +350,9 @@ def apply_pre_activations(
         scales,
         opacity_view,
         quats,
-        np.float32(min_scale),
-        np.float32(max_scale),
-        np.float32(min_quat_norm),
+        min_scale,
+        max_scale,
+        min_quat_norm,
     )
 
     data.scales = scales
@@ -402,6 +407,11 @@ def apply_pre_deactivations(
     # Lazy import to avoid circular dependency
     from gsply.gsdata import DataFormat  # noqa: PLC0415
 
+    # The kernel computes in float32: validate the limits it will use
+    min_scale = np.float32(min_scale)
+    min_opacity = np.float32(min_opacity)
+    max_opacity = np.float32(max_opacity)
+
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate logarithm results.")
     if min_opacity <= 0 or max_opacity >= 1.0:
@@ -432,9 +442,9 @@ def apply_pre_deactivations(
     _deactivate_gaussians_numba(
         scales,
         opacity_view,
-        np.float32(min_scale),
-        np.float32(min_opacity),
-        np.float32(max_opacity),
+        min_scale,
+        min_opacity,
+        max_opacity,
     )
 
     data.scales = scales
-- 
2.43.0


From 45e0530af85b03efb64100bfe6b336acd63f6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 31/46] fix: compressed writer packs rotations of very large or
 very small length

---
 src/gsply/writer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 40c0a5c..e07ca2d 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -532,10 +532,11 @@ def _pack_all_jit(
         # ======================================================================
         # SECTION 4: Pack quaternions (2+10-10-10 bits, smallest-three)
         # ======================================================================
-        qw = sorted_quats[i, 0]
-        qx = sorted_quats[i, 1]
-        qy = sorted_quats[i, 2]
-        qz = sorted_quats[i, 3]
+        # Double precision: squares of very large or small components leave float32's range
+        qw = np.float64(sorted_quats[i, 0])
+        qx = np.float64(sorted_quats[i, 1])
+        qy = np.float64(sorted_quats[i, 2])
+        qz = np.float64(sorted_quats[i, 3])
 
         # --- Step 4.1: Normalize quaternion ---
         qnorm = np.sqrt(qw * qw + qx * qx + qy * qy + qz * qz)
-- 
2.43.0


From 835b35a0b4417382efda537c30f0da3e6a16396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 32/46] fix: tensor codec packs rotations of very large or very
 small length

---
 src/gsply/torch/compression.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index d8fa862..ec8990c 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -577,8 +577,12 @@ def _pack_quaternions_gpu(quats: torch.Tensor) -> torch.Tensor:
     :returns: (NumChunks, 256) uint32 packed quaternions
     """
     # Normalize quaternions
-    norms = torch.norm(quats, dim=-1, keepdim=True)
-    quats_norm = quats / torch.clamp(norms, min=1e-7)
+    # (by the largest component first, so that the squares stay inside float32's range)
+    tiny = torch.finfo(quats.dtype).tiny
+    largest = quats.abs().amax(dim=-1, keepdim=True)
+    quats_unit = quats / torch.clamp(largest, min=tiny)
+    norms = torch.norm(quats_unit, dim=-1, keepdim=True)
+    quats_norm = quats_unit / torch.clamp(norms, min=tiny)
 
     # Find largest component by absolute value
     abs_quats = torch.abs(quats_norm)
-- 
2.43.0


From 7223979ef87d59cc37b6d370ebe6eaa8bbde84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 33/46] fix: compressing half-precision tensors packs points
 into wrong fields

---
 src/gsply/torch/compression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index ec8990c..2faa6b7 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -658,6 +658,11 @@ def compress_gpu(
     :param shN: (N, K, 3) higher-order SH or None on GPU
     :returns: Tuple of (chunk_bounds, packed_vertex_data, packed_sh_data) as CPU numpy arrays
     """
+    # The stream holds float32 bounds and up to 11-bit steps, which half precision cannot count
+    means, scales, quats = means.float(), scales.float(), quats.float()
+    opacities, sh0 = opacities.float(), sh0.float()
+    shN = shN.float() if shN is not None else None  # noqa: N806
+
     num_gaussians = means.shape[0]
     num_chunks = (num_gaussians + CHUNK_SIZE - 1) // CHUNK_SIZE
     padded_size = num_chunks * CHUNK_SIZE
-- 
2.43.0


From 2a6c48ddc0ee9972a6a2805de72ef2f6480d2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 34/46] fix: normalizing half-precision tensors gives
 infinities

---
 src/gsply/torch/gstensor.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 4b2f0b9..60600c5 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from collections.abc import Callable
 from dataclasses import dataclass, field
 from pathlib import Path
 
@@ -30,6 +31,21 @@ from gsply.torch.compression import read_compressed_gpu, write_compressed_gpu
 # (writer.py and reader.py import GSData at module level, creating circular imports)
 
 
+def _clamped(
+    fn: Callable, values: torch.Tensor, low: float, high: float | None = None
+) -> torch.Tensor:
+    """Apply fn to values limited to [low, high], with limits half precision cannot hold.
+
+    :param fn: Element-wise function that is finite inside the limits
+    :param values: Tensor of any floating point type
+    :param low: Lower limit
+    :param high: Upper limit or None
+    :returns: Tensor of the same type as values
+    """
+    wide = values.to(torch.promote_types(values.dtype, torch.float32))
+    return fn(torch.clamp(wide, min=low, max=high)).to(values.dtype)
+
+
 @dataclass
 class GSTensor:
     """GPU-accelerated Gaussian Splatting data container using PyTorch tensors.
@@ -516,12 +532,12 @@ class GSTensor:
         # Log scales (attributes already in PLY format are kept as they are)
         scales = self.scales
         if self._format.get("scales") != DataFormat.SCALES_PLY:
-            scales = torch.log(torch.clamp(scales, min=_MIN_SCALE))
+            scales = _clamped(torch.log, scales, _MIN_SCALE)
 
         # Logit opacities: log(p / (1 - p))
         opacities = self.opacities
         if self._format.get("opacities") != DataFormat.OPACITIES_PLY:
-            opacities = torch.logit(torch.clamp(opacities, min=_MIN_OPACITY, max=_MAX_OPACITY))
+            opacities = _clamped(torch.logit, opacities, _MIN_OPACITY, _MAX_OPACITY)
 
         # Preserve format and update to PLY format
         format_flag = self._format.copy()
@@ -602,13 +618,10 @@ class GSTensor:
         max_opacity = 1.0 - 1e-4
 
         # Convert linear scales to log-scales: log(scale)
-        scales = torch.log(torch.clamp(self.scales, min=min_scale))
+        scales = _clamped(torch.log, self.scales, min_scale)
 
         # Convert linear opacities to logit-opacities: logit(opacity)
-        # Use eps=min_opacity to match GSData behavior (1e-4)
-        opacities = torch.logit(
-            torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
-        )
+        opacities = _clamped(torch.logit, self.opacities, min_opacity, max_opacity)
 
         if inplace:
             self.scales = scales
-- 
2.43.0


From ebaf771d1f269926fd66812466c8dec475877a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 35/46] fix: keep float64 values when separate arrays go to
 float64 tensors

---
 src/gsply/torch/gstensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 60600c5..a80ac0c 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -432,7 +432,9 @@ class GSTensor:
             n_props = 14  # SH0
 
         # Stack all arrays into single base array on CPU
-        base_cpu = np.empty((n, n_props), dtype=np.float32)
+        # (keep float64 values when they are asked for, as the fast path does)
+        base_dtype = np.float64 if dtype == torch.float64 else np.float32
+        base_cpu = np.empty((n, n_props), dtype=base_dtype)
         base_cpu[:, 0:3] = data.means
         base_cpu[:, 3:6] = data.sh0
 
-- 
2.43.0


From 9c159a90e20bf039f3fd74a939e5e4c7396fb19d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 36/46] fix: writers accept SH arrays with the wrong number of
 rows

---
 src/gsply/writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index e07ca2d..2754646 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1003,6 +1003,11 @@ def _validate_and_normalize_inputs(
 
     # Step 4: Flatten shN if needed (from (N, K, 3) to (N, K*3))
     shn = _flatten_shn(shn, validate)
+    if validate and shn is not None:
+        assert shn.ndim == 2 and shn.shape[0] == num_gaussians and shn.shape[1] % 3 == 0, (
+            f"shN array has incorrect shape: expected {num_gaussians} rows of K*3 coefficients, "
+            f"got {shn.shape}. Ensure all arrays have the same number of Gaussians (N)."
+        )
 
     return means, scales, quats, opacities, sh0, shn
 
-- 
2.43.0


From 85cd38485f1e0d8c64ed97604dbcbba0e3a2f21f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 37/46] fix: consolidating and transferring misshapen fields
 reads foreign memory or broadcasts

---
 src/gsply/gsdata.py            | 26 ++++++++++++++++++++++++++
 src/gsply/torch/compression.py |  3 +++
 src/gsply/torch/gstensor.py    |  5 +++++
 3 files changed, 34 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 32de806..073d9af 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -288,6 +288,30 @@ def create_rasterizer_format(
     )
 
 
+def _check_field_shapes(data, complete_degree: bool = False) -> None:
+    """Refuse containers whose fields do not describe the same Gaussians.
+
+    :param data: GSData or GSTensor
+    :param complete_degree: Also refuse SH bands that are not a complete degree
+    :raises ValueError: If a field has an unexpected shape
+    """
+    n = data.means.shape[0]
+    bands = data.shN.shape[1] if data.shN is not None else 0
+    if complete_degree and bands and bands not in SH_BANDS_TO_DEGREE:
+        raise ValueError(f"shN has {bands} bands, which is not a complete SH degree (0-3)")
+    for name, allowed in (
+        ("means", [(n, 3)]),
+        ("scales", [(n, 3)]),
+        ("quats", [(n, 4)]),
+        ("opacities", [(n,), (n, 1)]),
+        ("sh0", [(n, 3)]),
+        ("shN", [(n, bands, 3)]),
+    ):
+        field = getattr(data, name)
+        if field is not None and tuple(field.shape) not in allowed:
+            raise ValueError(f"{name} has shape {tuple(field.shape)}, expected {allowed[0]}")
+
+
 def _detect_format_from_values(
     scales: np.ndarray, opacities: np.ndarray
 ) -> tuple[DataFormat, DataFormat]:
@@ -861,6 +885,8 @@ class GSData:
         if self._base is not None:
             return self  # Already consolidated
 
+        _check_field_shapes(self, complete_degree=True)
+
         # Create base array with standard layout
         n_gaussians = len(self)
 
diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 2faa6b7..043d6e2 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -862,7 +862,10 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     :param file_path: Output file path
     :param gstensor: GSTensor on GPU to compress and save
     """
+    from gsply.gsdata import _check_field_shapes  # noqa: PLC0415
+
     file_path = Path(file_path)
+    _check_field_shapes(gstensor)
 
     # Compress on GPU
     chunk_bounds, packed_vertex, packed_sh = compress_gpu(
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index a80ac0c..a59ddad 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -17,6 +17,7 @@ from gsply.gsdata import (
     DataFormat,
     FormatDict,
     GSData,
+    _check_field_shapes,
     _create_format_dict,
     _detect_format_from_values,
     _get_sh_order_format,
@@ -416,6 +417,8 @@ class GSTensor:
                 mask_names=data.mask_names,
             )
 
+        _check_field_shapes(data, complete_degree=True)
+
         # Fallback: Stack arrays on CPU then transfer (2x faster than separate transfers)
         # Convert to Python int to avoid numpy _NoValueType issues
         n = int(len(data))
@@ -913,6 +916,8 @@ class GSTensor:
         if self._base is not None:
             return self  # Already consolidated
 
+        _check_field_shapes(self, complete_degree=True)
+
         # Determine property count based on SH degree
         n_gaussians = len(self)
 
-- 
2.43.0


From abbde72cb613f7b63c449f1e22ce9107f10941e0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 38/46] fix: uncompressed files of incomplete SH degrees are
 written but cannot be read

---
 src/gsply/writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 2754646..cdbbd5f 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1257,6 +1257,9 @@ def write_uncompressed(
 
     # Build header using pre-computed templates (3-5% faster)
     num_sh_rest = shn.shape[1] if shn is not None else None
+    if num_sh_rest and num_sh_rest // 3 not in SH_BANDS_TO_DEGREE:
+        # Uncompressed files exist for complete degrees only, no reader would accept this one
+        raise ValueError(f"shN has {num_sh_rest // 3} bands, which is not a complete SH degree (0-3)")
     header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
     # STANDARD PATH: Construct array using JIT-compiled interleaving (2.8-5x faster)
-- 
2.43.0


From 636dd3438726c88ac9be6d886659c6fc7d924fdd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 39/46] fix: the array encoder flattens runs narrower than
 1e-10

Positions, log-scales or colours of a 256-row run whose extent is below
1e-10 were divided by 1e-10 instead of the extent and all quantised to
(nearly) the minimum, unlike in the tensor encoder.
---
 src/gsply/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index cdbbd5f..d65af11 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1080,7 +1080,8 @@ def _compress_data_internal(
     # Pre-compute ranges using vectorized NumPy operations
     # Uses np.maximum to handle zero-range case (replaces conditional: r if r > 0 else 1.0)
     # This is faster than Python loop for large num_chunks
-    min_range_epsilon = np.float32(1e-10)  # Small epsilon to avoid division by zero
+    # Smallest normal float32: avoids division by zero without flattening narrow ranges
+    min_range_epsilon = np.finfo(np.float32).tiny
 
     # Position ranges (vectorized subtraction + max with epsilon)
     range_x = np.maximum(max_x - min_x, min_range_epsilon)
-- 
2.43.0


From 44d9aaedb9b42327217a26f6c6c7529a468bc38f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 40/46] fix: compressing tensors that require gradients raises

---
 src/gsply/torch/compression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 043d6e2..89f3775 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -659,9 +659,9 @@ def compress_gpu(
     :returns: Tuple of (chunk_bounds, packed_vertex_data, packed_sh_data) as CPU numpy arrays
     """
     # The stream holds float32 bounds and up to 11-bit steps, which half precision cannot count
-    means, scales, quats = means.float(), scales.float(), quats.float()
-    opacities, sh0 = opacities.float(), sh0.float()
-    shN = shN.float() if shN is not None else None  # noqa: N806
+    means, scales, quats = (t.detach().float() for t in (means, scales, quats))
+    opacities, sh0 = opacities.detach().float(), sh0.detach().float()
+    shN = shN.detach().float() if shN is not None else None  # noqa: N806
 
     num_gaussians = means.shape[0]
     num_chunks = (num_gaussians + CHUNK_SIZE - 1) // CHUNK_SIZE
-- 
2.43.0


From 8f5bd30fba9925dab63df0ed65b48c103c7391ce Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 41/46] fix: selecting with fractional or nested indices
 returns other rows, numpy integers are refused

---
 src/gsply/gsdata.py         | 21 ++++++++++++++++++---
 src/gsply/torch/gstensor.py |  7 +++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 073d9af..d9804fc 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -312,6 +312,21 @@ def _check_field_shapes(data, complete_degree: bool = False) -> None:
             raise ValueError(f"{name} has shape {tuple(field.shape)}, expected {allowed[0]}")
 
 
+def _row_indices(key: np.ndarray | list) -> np.ndarray:
+    """Row numbers of a list or array of indices.
+
+    :param key: List or array of integers
+    :returns: One-dimensional integer array
+    :raises IndexError: If the key is not a sequence of integers
+    """
+    indices = np.asarray(key)
+    if indices.ndim != 1 or (indices.size > 0 and indices.dtype.kind not in "iu"):
+        raise IndexError("Indices must be a one-dimensional list or array of integers")
+    if indices.dtype.kind == "u" and np.any(indices > np.iinfo(np.intp).max):
+        raise IndexError("Index out of bounds")
+    return indices.astype(np.intp)
+
+
 def _detect_format_from_values(
     scales: np.ndarray, opacities: np.ndarray
 ) -> tuple[DataFormat, DataFormat]:
@@ -1676,7 +1691,7 @@ class GSData:
             return self[key]
 
         # For single index, create single-element GSData copy
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             if key < 0:
                 key = len(self) + key
             if key < 0 or key >= len(self):
@@ -1884,7 +1899,7 @@ class GSData:
             data[10:20].copy()  # Explicit copy of slice
         """
         # Handle single index - return tuple for efficiency
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             # Convert negative index
             if key < 0:
                 key = len(self) + key
@@ -1959,7 +1974,7 @@ class GSData:
 
         # Handle integer array indexing
         if isinstance(key, (np.ndarray, list)):
-            indices = np.asarray(key, dtype=np.intp)
+            indices = _row_indices(key)
             # Check bounds
             if np.any(indices < -len(self)) or np.any(indices >= len(self)):
                 raise IndexError("Index out of bounds")
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index a59ddad..ba047cd 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -21,6 +21,7 @@ from gsply.gsdata import (
     _create_format_dict,
     _detect_format_from_values,
     _get_sh_order_format,
+    _row_indices,
     create_ply_format,
     create_rasterizer_format,
 )
@@ -1075,7 +1076,7 @@ class GSTensor:
         :returns: Single Gaussian (tuple) or new GSTensor
         """
         # Handle single index - return tuple
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             # Convert negative index
             if key < 0:
                 key = len(self) + key
@@ -1151,7 +1152,9 @@ class GSTensor:
         # Handle integer tensor/array indexing
         if isinstance(key, (torch.Tensor, list, np.ndarray)):
             if isinstance(key, (list, np.ndarray)):
-                key = torch.as_tensor(key, dtype=torch.long, device=self.device)
+                key = torch.as_tensor(_row_indices(key), device=self.device)
+            elif key.ndim != 1 or key.is_floating_point() or key.is_complex():
+                raise IndexError("Indices must be a one-dimensional tensor of integers")
 
             # Try fast path with _base
             if self._base is not None:
-- 
2.43.0


From 1a70c00144cc5c51e62fc0de8da85c485d1ac868 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 42/46] fix: combining containers of different precision rounds
 to the first one's

---
 src/gsply/gsdata.py         | 35 +++++++++++++++++++++--------------
 src/gsply/torch/gstensor.py |  6 +++---
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index d9804fc..1f2d25b 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1054,7 +1054,10 @@ class GSData:
             # Optimized: Pre-allocate and use direct assignment
             n1 = len(self)
             n2 = len(other)
-            combined_base = np.empty((n1 + n2, self._base.shape[1]), dtype=self._base.dtype)
+            combined_base = np.empty(
+                (n1 + n2, self._base.shape[1]),
+                dtype=np.result_type(self._base.dtype, other._base.dtype),
+            )
             combined_base[:n1] = self._base
             combined_base[n1:] = other._base
 
@@ -1174,12 +1177,12 @@ class GSData:
         n2 = len(other)
         total = n1 + n2
 
-        # Pre-allocate output arrays
-        means = np.empty((total, 3), dtype=self.means.dtype)
-        scales = np.empty((total, 3), dtype=self.scales.dtype)
-        quats = np.empty((total, 4), dtype=self.quats.dtype)
-        opacities = np.empty(total, dtype=self.opacities.dtype)
-        sh0 = np.empty((total, 3), dtype=self.sh0.dtype)
+        # Pre-allocate output arrays (wide enough for the values of both)
+        means = np.empty((total, 3), dtype=np.result_type(self.means, other.means))
+        scales = np.empty((total, 3), dtype=np.result_type(self.scales, other.scales))
+        quats = np.empty((total, 4), dtype=np.result_type(self.quats, other.quats))
+        opacities = np.empty(total, dtype=np.result_type(self.opacities, other.opacities))
+        sh0 = np.empty((total, 3), dtype=np.result_type(self.sh0, other.sh0))
 
         # Direct assignment (faster than concatenate)
         means[:n1] = self.means
@@ -1261,19 +1264,23 @@ class GSData:
         # Calculate total size
         total = sum(len(arr) for arr in arrays)
 
-        # Pre-allocate output arrays (single allocation for efficiency)
-        means = np.empty((total, 3), dtype=arrays[0].means.dtype)
-        scales = np.empty((total, 3), dtype=arrays[0].scales.dtype)
-        quats = np.empty((total, 4), dtype=arrays[0].quats.dtype)
-        opacities = np.empty(total, dtype=arrays[0].opacities.dtype)
-        sh0 = np.empty((total, 3), dtype=arrays[0].sh0.dtype)
+        def _common_dtype(name):
+            fields = [getattr(arr, name) for arr in arrays]
+            return np.result_type(*{field.dtype for field in fields if field is not None})
+
+        # Pre-allocate output arrays (single allocation for efficiency, wide enough for all values)
+        means = np.empty((total, 3), dtype=_common_dtype("means"))
+        scales = np.empty((total, 3), dtype=_common_dtype("scales"))
+        quats = np.empty((total, 4), dtype=_common_dtype("quats"))
+        opacities = np.empty(total, dtype=_common_dtype("opacities"))
+        sh0 = np.empty((total, 3), dtype=_common_dtype("sh0"))
 
         # Handle shN
         combined_shN = None  # noqa: N806
         if any(arr.shN is not None for arr in arrays):
             # Get shN shape from first array that has it
             sh_bands = next(arr.shN.shape[1] for arr in arrays if arr.shN is not None)
-            combined_shN = np.empty((total, sh_bands, 3), dtype=arrays[0].sh0.dtype)  # noqa: N806
+            combined_shN = np.empty((total, sh_bands, 3), dtype=_common_dtype("shN"))  # noqa: N806
 
         # Copy data in one pass
         offset = 0
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index ba047cd..89637d8 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1296,9 +1296,9 @@ class GSTensor:
                 f"Use normalize() or denormalize() to convert formats before concatenating."
             )
 
-        # Ensure same device and dtype
-        if other.device != self.device or other.dtype != self.dtype:
-            other = other.to(device=self.device, dtype=self.dtype)
+        # Ensure same device (torch.cat promotes to the wider dtype)
+        if other.device != self.device:
+            other = other.to(device=self.device)
 
         # Preserve requires_grad (if either requires grad, result should too)
         requires_grad = self.means.requires_grad or other.means.requires_grad
-- 
2.43.0


From af6613629f5e6d7b057fb1e15bb6bfcd5cbfd69a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 43/46] fix: combining repeats the row of a field that is too
 short

---
 src/gsply/gsdata.py         | 10 ++++++++++
 src/gsply/torch/gstensor.py |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 1f2d25b..37a6391 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1117,6 +1117,8 @@ class GSData:
             )
 
         # Fallback: Concatenate individual arrays
+        _check_field_shapes(self)
+        _check_field_shapes(other)
         combined_shN = None  # noqa: N806
         if self.shN is not None or other.shN is not None:
             # Ensure both have shN (use zeros if missing)
@@ -1261,6 +1263,9 @@ class GSData:
                     f"Use normalize() or denormalize() to convert formats before concatenating."
                 )
 
+        for arr in arrays:
+            _check_field_shapes(arr)
+
         # Calculate total size
         total = sum(len(arr) for arr in arrays)
 
@@ -1294,6 +1299,11 @@ class GSData:
 
             if combined_shN is not None:
                 if arr.shN is not None:
+                    if arr.shN.shape[1] != sh_bands:
+                        raise ValueError(
+                            f"Cannot concatenate shN with different band counts: "
+                            f"{sh_bands} vs {arr.shN.shape[1]}"
+                        )
                     combined_shN[offset : offset + n] = arr.shN
                 else:
                     # Fill with zeros for arrays without shN
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 89637d8..95b051b 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1377,6 +1377,12 @@ class GSTensor:
             )
 
         # Fallback: Concatenate individual tensors (still GPU-optimized)
+        for name in ("scales", "quats", "opacities", "sh0", "shN"):
+            for operand in (self, other):
+                field = getattr(operand, name)
+                if field is not None and field.shape[0] != len(operand):
+                    raise ValueError(f"{name} has {field.shape[0]} rows, expected {len(operand)}")
+
         combined_shN = None
         if self.shN is not None or other.shN is not None:
             # Ensure both have shN (use zeros if missing)
-- 
2.43.0


From 2415ac053372d22839f79870a59fe9d29d8d9129 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 44/46] fix: tensors of mixed precision are not converted, and
 rounded when packed

---
 src/gsply/torch/gstensor.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 95b051b..e885926 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -825,12 +825,17 @@ class GSTensor:
         if device is None and dtype is None:
             return self
 
-        # Determine target device and dtype
+        # Determine target device and dtype (None: every field keeps its own)
         target_device = torch.device(device) if device is not None else self.device
-        target_dtype = dtype if dtype is not None else self.dtype
+        target_dtype = dtype
 
         # If already on target device and dtype, return self
-        if target_device == self.device and target_dtype == self.dtype:
+        fields = (self.means, self.scales, self.quats, self.opacities, self.sh0, self.shN)
+        if all(
+            field is None
+            or (field.device == target_device and target_dtype in (None, field.dtype))
+            for field in fields
+        ):
             return self
 
         # Fast path: Use _base if available
@@ -931,7 +936,11 @@ class GSTensor:
             n_props = 14  # SH0
 
         # Create base tensor
-        new_base = torch.empty((n_gaussians, n_props), dtype=self.dtype, device=self.device)
+        base_dtype = self.dtype  # wide enough for every field
+        for field in (self.scales, self.quats, self.opacities, self.sh0, self.shN):
+            if field is not None:
+                base_dtype = torch.promote_types(base_dtype, field.dtype)
+        new_base = torch.empty((n_gaussians, n_props), dtype=base_dtype, device=self.device)
         new_base[:, 0:3] = self.means
         new_base[:, 3:6] = self.sh0
 
-- 
2.43.0


From ba476f56e37186b7943785e11fa6dd8f80cffb66 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 45/46] fix: gradients set on the fields of a packed tensor
 container are lost

Slicing, cloning, combining and converting a container took its base tensor,
which knows nothing of requires_grad set on the fields: the results silently
carried no gradient (or were new leaves).
---
 src/gsply/torch/gstensor.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index e885926..87ce8a3 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -839,8 +839,9 @@ class GSTensor:
             return self
 
         # Fast path: Use _base if available
-        if self._base is not None:
-            new_base = self._base.to(
+        base = self._grad_base()
+        if base is not None:
+            new_base = base.to(
                 device=target_device, dtype=target_dtype, non_blocking=non_blocking
             )
             new_masks = None
@@ -1033,17 +1034,28 @@ class GSTensor:
             _format=format_flag,  # Format dict (always provided)
         )
 
+    def _grad_base(self) -> torch.Tensor | None:
+        """The base tensor, unless fields require gradients that do not pass through it."""
+        base = self._base
+        if base is None or base.requires_grad:
+            return base
+        fields = (self.means, self.scales, self.quats, self.opacities, self.sh0, self.shN)
+        if any(field is not None and field.requires_grad for field in fields):
+            return None
+        return base
+
     def _slice_from_base(self, indices_or_mask):
         """Efficiently slice data when _base tensor exists.
 
         :param indices_or_mask: Slice, boolean mask, or integer indices
         :returns: New GSTensor with sliced data, or None if no _base
         """
-        if self._base is None:
+        base = self._grad_base()
+        if base is None:
             return None
 
         # Slice the base tensor
-        base_subset = self._base[indices_or_mask]
+        base_subset = base[indices_or_mask]
 
         # Handle masks if present
         if self.masks is not None:
@@ -1219,8 +1231,9 @@ class GSTensor:
             >>> gstensor_copy.means[0] = 0  # Doesn't affect original
         """
         # Optimize: If we have _base, clone it and recreate views (2-3x faster)
-        if self._base is not None:
-            new_base = self._base.clone()
+        base = self._grad_base()
+        if base is not None:
+            new_base = base.clone()
             masks_clone = self.masks.clone() if self.masks is not None else None
             mask_names_copy = self.mask_names.copy() if self.mask_names is not None else None
 
@@ -1313,13 +1326,14 @@ class GSTensor:
         requires_grad = self.means.requires_grad or other.means.requires_grad
 
         # Fast path: If both have _base with same format, concatenate base tensors
+        self_base, other_base = self._grad_base(), other._grad_base()
         if (
-            self._base is not None
-            and other._base is not None
-            and self._base.shape[1] == other._base.shape[1]
+            self_base is not None
+            and other_base is not None
+            and self_base.shape[1] == other_base.shape[1]
         ):
             # Concatenate base tensors (GPU-optimized)
-            combined_base = torch.cat([self._base, other._base], dim=0)
+            combined_base = torch.cat([self_base, other_base], dim=0)
             if requires_grad:
                 combined_base.requires_grad_(True)
 
-- 
2.43.0


From 8eb2fb3206ff8d0a6f6cabefbeb37d5350d9dbd0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 46/46] fix: optimizers refuse tensors loaded with
 requires_grad=True

The fields were views of a tensor that requires gradients, so no leaves; the
documented training workflow failed with "can't optimize a non-leaf Tensor".
---
 src/gsply/torch/gstensor.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 87ce8a3..355ec93 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -402,7 +402,6 @@ class GSTensor:
 
             # Single tensor transfer (zero CPU copy if already contiguous)
             base_tensor = torch.from_numpy(base_array).to(device=device_obj, dtype=dtype)
-            base_tensor.requires_grad_(requires_grad)
 
             # Transfer masks separately if present
             masks_tensor = None
@@ -411,12 +410,13 @@ class GSTensor:
                 masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
             # Recreate GSTensor from base tensor (preserve format from GSData)
-            return cls._recreate_from_base(
+            result = cls._recreate_from_base(
                 base_tensor,
                 format_flag=data._format,
                 masks_tensor=masks_tensor,
                 mask_names=data.mask_names,
             )
+            return result._track_gradients() if requires_grad else result
 
         _check_field_shapes(data, complete_degree=True)
 
@@ -457,7 +457,6 @@ class GSTensor:
 
         # Single GPU transfer (2x faster than 5 separate transfers)
         base_tensor = torch.from_numpy(base_cpu).to(device=device_obj, dtype=dtype)
-        base_tensor.requires_grad_(requires_grad)
 
         # Transfer masks separately
         masks_tensor = None
@@ -466,12 +465,20 @@ class GSTensor:
             masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
         # Recreate GSTensor from base tensor (preserve format from GSData)
-        return cls._recreate_from_base(
+        result = cls._recreate_from_base(
             base_tensor,
             format_flag=data._format,
             masks_tensor=masks_tensor,
             mask_names=data.mask_names,
         )
+        return result._track_gradients() if requires_grad else result
+
+    def _track_gradients(self) -> GSTensor:
+        """Make every field a leaf tensor that requires gradients (as optimizers need them)."""
+        for field in (self.means, self.scales, self.quats, self.opacities, self.sh0, self.shN):
+            if field is not None:
+                field.requires_grad_(True)
+        return self
 
     def to_gsdata(self) -> GSData:
         """Convert GSTensor back to GSData (CPU NumPy arrays).
-- 
2.43.0

