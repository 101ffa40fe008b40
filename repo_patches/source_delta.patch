From 77d3e60df9a2203fae1303db3fd449bd80ec0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 01/70] fix: reject invalid navigator and scaling before
 blockfile truncates the file

---
 rsciio/blockfile/_api.py | 71 +++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index dbe12a5..5cf45bf 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -432,6 +432,42 @@ def file_writer(
         original_scale = intensity_scaling
 
     header, note = get_header_from_signal(signal, endianness=endianness)
+    # Everything that can be rejected is rejected before the file is created
+    if navigator is None:
+        navigator = np.zeros((signal["data"].shape[0], signal["data"].shape[1]))
+    elif isinstance(navigator, str) and (navigator == "navigator"):
+        if smetadata.get("_HyperSpy._sig_navigator", False):
+            navigator = smetadata["_HyperSpy._sig_navigator.data"]
+        else:
+            navigator = signal["data"].mean(axis=(-2, -1))
+    elif hasattr(navigator, "shape"):
+        # Is numpy array-like
+        # check that the shape is ok
+        if navigator.shape != signal["data"].shape[:2]:
+            raise ValueError(
+                "Size of the provided `navigator` does not match the "
+                "navigation dimensions of the dataset."
+            )
+    else:
+        raise ValueError("The `navigator` argument is expected to be array-like")
+    if intensity_scaling is not None:
+        navigator = rescale_intensity(
+            navigator, in_range=original_scale, out_range=np.uint8
+        )
+    navigator = np.asanyarray(navigator.astype(endianness + "u1"))
+    if int(header["Data_offset_1"][0]) + navigator.nbytes > int(
+        header["Data_offset_2"][0]
+    ):
+        raise ValueError("Signal navigation size does not match data dimensions.")
+    if intensity_scaling is not None:
+        array_data = rescale_intensity(
+            signal["data"],
+            in_range=original_scale,
+            out_range=np.uint8,
+        )
+    else:
+        array_data = signal["data"]
+    array_data = array_data.astype(endianness + "u1")
     with open(filename, "wb") as f:
         # Write header
         header.tofile(f)
@@ -443,45 +479,12 @@ def file_writer(
         zero_pad = int(header["Data_offset_1"][0]) - f.tell()
         np.zeros((zero_pad,), np.byte).tofile(f)
         # Write virtual bright field
-        if navigator is None:
-            navigator = np.zeros((signal["data"].shape[0], signal["data"].shape[1]))
-        elif isinstance(navigator, str) and (navigator == "navigator"):
-            if smetadata.get("_HyperSpy._sig_navigator", False):
-                navigator = smetadata["_HyperSpy._sig_navigator.data"]
-            else:
-                navigator = signal["data"].mean(axis=(-2, -1))
-        elif hasattr(navigator, "shape"):
-            # Is numpy array-like
-            # check that the shape is ok
-            if navigator.shape != signal["data"].shape[:2]:
-                raise ValueError(
-                    "Size of the provided `navigator` does not match the "
-                    "navigation dimensions of the dataset."
-                )
-        else:
-            raise ValueError("The `navigator` argument is expected to be array-like")
-        if intensity_scaling is not None:
-            navigator = rescale_intensity(
-                navigator, in_range=original_scale, out_range=np.uint8
-            )
-        navigator = navigator.astype(endianness + "u1")
-        np.asanyarray(navigator).tofile(f)
+        navigator.tofile(f)
         # Zero pad until next data block
-        if f.tell() > int(header["Data_offset_2"][0]):
-            raise ValueError("Signal navigation size does not match data dimensions.")
         zero_pad = int(header["Data_offset_2"][0]) - f.tell()
         np.zeros((zero_pad,), np.byte).tofile(f)
         file_location = f.tell()
 
-    if intensity_scaling is not None:
-        array_data = rescale_intensity(
-            signal["data"],
-            in_range=original_scale,
-            out_range=np.uint8,
-        )
-    else:
-        array_data = signal["data"]
-    array_data = array_data.astype(endianness + "u1")
     # Write full data stack:
     # We need to pad each image with magic 'AA55', then a u32 serial
     pixels = array_data.shape[-2:]
-- 
2.43.0


From 5bb3944b0ce56546db395187b1f59f0a72ff779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 02/70] fix: do not convert units in the caller's axes when
 writing blockfile

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 5cf45bf..7f69b18 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -124,7 +124,7 @@ def get_header_from_signal(signal, endianness="<"):
         note = ""
     # The navigation and signal units are 'nm' and 'cm', respectively, so we
     # convert the units accordingly before saving the signal
-    axes = signal["axes"]
+    axes = [dict(axis) for axis in signal["axes"]]
     sig_axes = [axis for axis in axes if not axis["navigate"]]
     nav_axes = [axis for axis in axes if axis["navigate"]]
     for axis in sig_axes:
-- 
2.43.0


From 314af5568759125193173ac66163e90c65097523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 03/70] fix: write and read every blockfile header field with
 the requested endianness

---
 rsciio/blockfile/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 7f69b18..fc58391 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -88,8 +88,8 @@ def get_header_dtype_list(endianness="<"):
             ("Camera_length", end + "u4"),  # [10 * mm]
             ("Acquisition_time", end + "f8"),  # [Serial date]
         ]
-        + [("Centering_N%d" % i, "f8") for i in range(8)]
-        + [("Distortion_N%02d" % i, "f8") for i in range(14)]
+        + [("Centering_N%d" % i, end + "f8") for i in range(8)]
+        + [("Distortion_N%02d" % i, end + "f8") for i in range(14)]
     )
 
     return dtype_list
@@ -97,7 +97,7 @@ def get_header_dtype_list(endianness="<"):
 
 def get_default_header(endianness="<"):
     """Returns a header pre-populated with default values."""
-    dt = np.dtype(get_header_dtype_list())
+    dt = np.dtype(get_header_dtype_list(endianness))
     header = np.zeros((1,), dtype=dt)
     header["ID"][0] = "IMGBLO".encode()
     header["MAGIC"][0] = magics[0]
-- 
2.43.0


From 1db840bd80b118683a5622ba1e7d44bbd153b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 04/70] fix: close the blockfile when reading it fails

---
 rsciio/blockfile/_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index fc58391..3729284 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -229,9 +229,13 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
     """
 
     _logger.debug("Reading blockfile: %s" % filename)
+    with open(filename, "rb") as f:
+        _logger.debug("File opened")
+        return _read_blockfile(f, filename, lazy, chunks, endianness)
+
+
+def _read_blockfile(f, filename, lazy, chunks, endianness):
     metadata = {}
-    f = open(filename, "rb")
-    _logger.debug("File opened")
 
     # Get header
     header = np.fromfile(f, dtype=get_header_dtype_list(endianness), count=1)
@@ -350,7 +354,6 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         "mapping": mapping,
     }
 
-    f.close()
     return [
         dictionary,
     ]
-- 
2.43.0


From 8f2ddb14d69f24c6b85ed76a59797c0d72e2d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 05/70] fix: close the file reopened by the DigitalMicrograph
 reader when reading fails

---
 rsciio/digitalmicrograph/_api.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7df7ede..222a817 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -649,17 +649,11 @@ class ImageObject(object):
                 order=self.order,
             )
         else:
-            need_to_close = False
             if self.file.closed:
-                self.file = open(self.filename, "rb")
-                need_to_close = True
-            self.file.seek(self.imdict.ImageData.Data.offset)
-            count = self.imdict.ImageData.Data.size
-            if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
-                count = int(count / 2)
-            data = np.fromfile(self.file, dtype=self.dtype, count=count)
-            if need_to_close:
-                self.file.close()
+                with open(self.filename, "rb") as f:
+                    data = self._read_data(f)
+            else:
+                data = self._read_data(self.file)
 
         if self.imdict.ImageData.DataType in (27, 28):  # New packed complex
             return self.unpack_new_packed_complex(data)
@@ -675,6 +669,13 @@ class ImageObject(object):
 
         return data
 
+    def _read_data(self, f):
+        f.seek(self.imdict.ImageData.Data.offset)
+        count = self.imdict.ImageData.Data.size
+        if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
+            count = int(count / 2)
+        return np.fromfile(f, dtype=self.dtype, count=count)
+
     def unpack_new_packed_complex(self, data):
         packed_shape = (self.shape[0], int(self.shape[1] / 2 + 1))
         data = data.reshape(packed_shape)
-- 
2.43.0


From 33bc5af8365b44e66b68048f2b89611c919aec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 06/70] fix: close EMD files when reading lazily or writing
 fails

---
 rsciio/emd/_api.py      | 5 +++--
 rsciio/emd/_emd_ncem.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsciio/emd/_api.py b/rsciio/emd/_api.py
index 4ebc9c2..2a92e22 100644
--- a/rsciio/emd/_api.py
+++ b/rsciio/emd/_api.py
@@ -211,8 +211,9 @@ def file_reader(
             )
         else:
             raise IOError("The file is not a supported EMD file.")
-    except Exception as e:
-        raise e
+    except BaseException:
+        file.close()
+        raise
     finally:
         if not lazy:
             file.close()
diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index dc548a5..d7207dd 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -472,6 +472,10 @@ class EMD_NCEM:
             emd_file = h5py.File(file, "w")
         else:
             emd_file = file
+        with emd_file:
+            self._write_to_file(emd_file, signal, **kwargs)
+
+    def _write_to_file(self, emd_file, signal, **kwargs):
         # Write version:
         ver_maj, ver_min = EMD_VERSION.split(".")
         emd_file.attrs["version_major"] = ver_maj
@@ -490,7 +494,6 @@ class EMD_NCEM:
         signal_group = emd_file.require_group("signals")
         signal_group.attrs["emd_group_type"] = 1
         self._write_signal_to_group(signal_group, signal, **kwargs)
-        emd_file.close()
 
     def _write_signal_to_group(self, signal_group, signal, chunks=None, **kwargs):
         # Save data:
-- 
2.43.0


From fc3268aeb1e99392f4ff673b4ed755bd3d5bc192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 07/70] fix: close hspy files whenever reading or writing fails

---
 rsciio/hspy/_api.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 097cd4b..b2e213f 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -183,9 +183,9 @@ def file_reader(filename, lazy=False, **kwds):
     mode = kwds.pop("mode", "r")
     f = h5py.File(filename, mode=mode, **kwds)
 
-    reader = HyperspyReader(f)
     # Use try, except, finally to close file when an error is raised
     try:
+        reader = HyperspyReader(f)
         exp_dict_list = reader.read(lazy=lazy)
     except BaseException as err:
         if lazy:
@@ -277,6 +277,23 @@ def file_writer(
             _close_tracked_handles(filename)
         f = h5py.File(filename, mode=mode)
 
+    # Use try, finally to close file when an error is raised
+    try:
+        _write_signal(
+            f,
+            signal,
+            chunks=chunks,
+            compression=compression,
+            write_dataset=write_dataset,
+            show_progressbar=show_progressbar,
+            **kwds,
+        )
+    finally:
+        if close_file:
+            f.close()
+
+
+def _write_signal(f, signal, **kwds):
     f.attrs["file_format"] = "HyperSpy"
     f.attrs["file_format_version"] = version
     exps = f.require_group("Experiments")
@@ -287,24 +304,8 @@ def file_writer(
         group_name = group_name.replace("/", "-")
     expg = exps.require_group(group_name)
 
-    writer = HyperspyWriter(
-        f,
-        signal,
-        expg,
-        chunks=chunks,
-        compression=compression,
-        write_dataset=write_dataset,
-        show_progressbar=show_progressbar,
-        **kwds,
-    )
-    # Use try, except, finally to close file when an error is raised
-    try:
-        writer.write()
-    except BaseException as err:
-        raise err
-    finally:
-        if close_file:
-            f.close()
+    writer = HyperspyWriter(f, signal, expg, **kwds)
+    writer.write()
 
 
 file_writer.__doc__ %= (
-- 
2.43.0


From 1145e4848cb2e4e141aaed430718399bd4ff7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 08/70] fix: close NeXus files after reading them into memory
 and when reading fails

---
 rsciio/nexus/_api.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c854948..a136f9e 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -517,9 +517,44 @@ def file_reader(
 
     if mapping is None:
         mapping = {}
+    fin = h5py.File(filename, "r")
+    try:
+        signal_dict_list = _read_signals(
+            fin,
+            filename,
+            lazy,
+            dataset_key,
+            dataset_path,
+            metadata_key,
+            skip_array_metadata,
+            nxdata_only,
+            hardlinks_only,
+            use_default,
+            mapping,
+        )
+    except BaseException:
+        fin.close()
+        raise
+    if not lazy:
+        fin.close()
+    return signal_dict_list
+
+
+def _read_signals(
+    fin,
+    filename,
+    lazy,
+    dataset_key,
+    dataset_path,
+    metadata_key,
+    skip_array_metadata,
+    nxdata_only,
+    hardlinks_only,
+    use_default,
+    mapping,
+):
     original_metadata = {}
     learning = {}
-    fin = h5py.File(filename, "r")
     signal_dict_list = []
 
     dataset_key = _check_search_keys(dataset_key)
-- 
2.43.0


From 1831ee2adf6ef0e6c19d78a42dc6b63cb170436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 09/70] fix: close the image file after reading its tags

---
 rsciio/image/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 303160c..7712a67 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -247,8 +247,8 @@ def file_reader(filename, lazy=False, **kwds):
 
     om = {}
 
-    im = Image.open(filename)
-    om["exif_tags"] = _parse_exif_tags(im)
+    with Image.open(filename) as im:
+        om["exif_tags"] = _parse_exif_tags(im)
     axes = _parse_axes_from_metadata(om["exif_tags"], dc.shape)
 
     return [
-- 
2.43.0


From b209e6e5b3e773a7e43fc6c96705a562ac149ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 10/70] fix: do not modify the caller's imshow_kwds and
 scalebar_kwds

---
 rsciio/image/_api.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 7712a67..7be6e4c 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -91,8 +91,7 @@ def file_writer(
     sig_axes = [ax for ax in signal["axes"] if not ax["navigate"]]
     nav_axes = [ax for ax in signal["axes"] if ax["navigate"]]
 
-    if scalebar_kwds is None:
-        scalebar_kwds = dict()
+    scalebar_kwds = dict() if scalebar_kwds is None else dict(scalebar_kwds)
     scalebar_kwds.setdefault("box_alpha", 0.75)
     scalebar_kwds.setdefault("location", "lower left")
 
@@ -123,8 +122,7 @@ def file_writer(
 
         dpi = 100
 
-        if imshow_kwds is None:
-            imshow_kwds = dict()
+        imshow_kwds = dict() if imshow_kwds is None else dict(imshow_kwds)
         imshow_kwds.setdefault("cmap", "gray")
 
         axes = []
-- 
2.43.0


From 6dac80439b7f19775e064f5f996312b28c0e69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 11/70] fix: lazy loading of images

---
 rsciio/image/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 7be6e4c..4c52cad 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -239,7 +239,8 @@ def file_reader(filename, lazy=False, **kwds):
         from dask.array import from_delayed
 
         val = delayed(_read_data, pure=True)(filename, **kwds)
-        dc = from_delayed(val, shape=val.shape, dtype=val.dtype)
+        image = _read_data(filename, **kwds)
+        dc = from_delayed(val, shape=image.shape, dtype=image.dtype)
     else:
         dc = _read_data(filename, **kwds)
 
-- 
2.43.0


From f2970c12f396c7365840ce4e906d2b4229317bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 12/70] fix: compare all the channels before reducing a colour
 image to grayscale

---
 rsciio/image/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 4c52cad..7ae3a06 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -271,7 +271,7 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 1] == dc[:, :, 2]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From 120c2edec8a4536f905b0398e3e94573395a2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 13/70] fix: do not modify the caller's frame_shifts and
 frame_start_index

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 15ceefc..2ec3e49 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -469,7 +469,7 @@ def _read_pts(
             frame_start_index = np.full(max_frame, -1, dtype=np.int32)
             frame_start_index[0] = 0
         else:
-            frame_start_index = np.asarray(frame_start_index)
+            frame_start_index = np.array(frame_start_index)
 
         # fill with -1 as invalid index (not loaded)
         if frame_start_index.size < max_frame:
@@ -811,7 +811,7 @@ def _readcube(
 
     max_value = np.iinfo(SI_dtype).max
 
-    frame_shifts = np.asarray(frame_shifts)
+    frame_shifts = np.array(frame_shifts)
     frame_list = np.asarray(frame_list)
     max_shift = frame_shifts[frame_list].max(axis=0)
     min_shift = frame_shifts[frame_list].min(axis=0)
-- 
2.43.0


From b95c5b8ad6c7d876356fa749d34c49cb7052c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 14/70] fix: close the JEOL eds file after reading it

---
 rsciio/jeol/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 2ec3e49..0fadadd 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1233,8 +1233,12 @@ def _read_eds(filename, **kwargs):
         Always len(image_list) == 1
         None on read error
     """
+    with open(filename, "br") as fd:
+        return _read_eds_file(fd, filename)
+
+
+def _read_eds_file(fd, filename):
     header = {}
-    fd = open(filename, "br")
     # file_magic
     _ = np.fromfile(fd, "<I", 1)[0]
     np.fromfile(fd, "<b", 6)
-- 
2.43.0


From fc7a6a5c6e4abd7fff1dcec6705f020f593d934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 15/70] fix: close the mrc file after reading its header

---
 rsciio/mrc/_api.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index fd91f8e..5dc2cc7 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -574,17 +574,20 @@ def file_reader(
 
             metadata["_HyperSpy"]["navigators"][name] = signal
 
-    f = open(filename, "rb")
-    std_header = np.fromfile(f, dtype=get_std_dtype_list(endianness), count=1)
-    fei_header = None
-    if std_header["NEXT"] / 1024 == 128:
-        _logger.info(f"{filename} seems to contain an extended FEI header")
-        fei_header = np.fromfile(f, dtype=get_fei_dtype_list(endianness), count=1024)
-    if f.tell() == 1024 + std_header["NEXT"]:
-        _logger.debug("The FEI header was correctly loaded")
-    else:
-        f.seek(1024 + std_header["NEXT"][0])
+    with open(filename, "rb") as f:
+        std_header = np.fromfile(f, dtype=get_std_dtype_list(endianness), count=1)
         fei_header = None
+        if std_header["NEXT"] / 1024 == 128:
+            _logger.info(f"{filename} seems to contain an extended FEI header")
+            fei_header = np.fromfile(
+                f, dtype=get_fei_dtype_list(endianness), count=1024
+            )
+        if f.tell() == 1024 + std_header["NEXT"]:
+            _logger.debug("The FEI header was correctly loaded")
+        else:
+            f.seek(1024 + std_header["NEXT"][0])
+            fei_header = None
+        data_offset = f.tell()
     NX, NY, NZ = std_header["NX"], std_header["NY"], std_header["NZ"]
     shape = (NX[0], NY[0], NZ[0])
     if navigation_shape is not None:
@@ -592,7 +595,7 @@ def file_reader(
 
     data = file.memmap_distributed(
         filename,
-        offset=f.tell(),
+        offset=data_offset,
         shape=shape[::-1],
         dtype=get_data_type(std_header["MODE"]),
         positions=positions,
-- 
2.43.0


From f549b9e702d0e60a30fa86b33fa39e354a7df41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 16/70] fix: close the netCDF file when reading it fails

---
 rsciio/netcdf/_api.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rsciio/netcdf/_api.py b/rsciio/netcdf/_api.py
index d8aecce..b926f92 100644
--- a/rsciio/netcdf/_api.py
+++ b/rsciio/netcdf/_api.py
@@ -100,14 +100,16 @@ def file_reader(filename, lazy=False):
 
     ncfile = netcdf_file_reader(filename, "r")
 
-    if (
-        hasattr(ncfile, "file_format_version")
-        and ncfile.file_format_version == "EELSLab 0.1"
-    ):
-        dictionary = nc_hyperspy_reader_0dot1(ncfile, filename)
-    else:
+    try:
+        if (
+            hasattr(ncfile, "file_format_version")
+            and ncfile.file_format_version == "EELSLab 0.1"
+        ):
+            dictionary = nc_hyperspy_reader_0dot1(ncfile, filename)
+        else:
+            raise IOError("Unsupported netCDF file")
+    finally:
         ncfile.close()
-        raise IOError("Unsupported netCDF file")
 
     return (dictionary,)
 
@@ -162,7 +164,6 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
         "acquisition": acquisition_dict,
         "treatments": treatments_dict,
     }
-    ncfile.close()
     # Now we'll map some parameters
     record_by = "image" if original_metadata["record_by"] == "image" else "spectrum"
     if record_by == "image":
-- 
2.43.0


From 0239af6b8630e74c71cd5f55250473f4d749353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 17/70] fix: remove the evaluation of the history text of
 netCDF files

---
 rsciio/netcdf/_api.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rsciio/netcdf/_api.py b/rsciio/netcdf/_api.py
index b926f92..bd8a0f8 100644
--- a/rsciio/netcdf/_api.py
+++ b/rsciio/netcdf/_api.py
@@ -121,8 +121,6 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
     calibration_dict, acquisition_dict, treatments_dict = {}, {}, {}
     dc = ncfile.variables["data_cube"]
     data = dc[:]
-    if "history" in calibration_dict:
-        calibration_dict["history"] = eval(ncfile.history)
     for attrib in attrib2netcdf.items():
         if hasattr(dc, attrib[1]):
             value = eval("dc." + attrib[1])
-- 
2.43.0


From ed66f5b43ad3b55b05444f800cd2bf018b29609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 18/70] fix: return a list from the netCDF reader as documented

---
 rsciio/netcdf/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/netcdf/_api.py b/rsciio/netcdf/_api.py
index bd8a0f8..3dce103 100644
--- a/rsciio/netcdf/_api.py
+++ b/rsciio/netcdf/_api.py
@@ -111,7 +111,9 @@ def file_reader(filename, lazy=False):
     finally:
         ncfile.close()
 
-    return (dictionary,)
+    return [
+        dictionary,
+    ]
 
 
 file_reader.__doc__ %= (FILENAME_DOC, LAZY_UNSUPPORTED_DOC, RETURNS_DOC)
-- 
2.43.0


From db664d9c0a47a6926991afe230f6db3fa239063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 19/70] fix: close prz files when reading them fails

---
 rsciio/pantarhei/_api.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c5816bf..4b43309 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -81,7 +81,13 @@ def file_reader(
 
     # Load metadata
     # this is lazy, only the ZipFile meta data gets loaded as of yet!
-    prz_file = np.load(filename, allow_pickle=False)
+    with np.load(filename, allow_pickle=False) as prz_file:
+        return _read_prz(
+            prz_file, filename, lazy, chunks, allow_restricted_pickle, **kwargs
+        )
+
+
+def _read_prz(prz_file, filename, lazy, chunks, allow_restricted_pickle, **kwargs):
     if "meta_data_json" in prz_file:
         meta_data = json.loads(prz_file["meta_data_json"][()])[0]
     elif allow_restricted_pickle:
@@ -90,7 +96,8 @@ def file_reader(
             "Only load prz files you completely trust."
         )
         # uses `RestrictedUnpickler`
-        meta_data = read_pickled_array(prz_file.zip.open("meta_data.npy"))[0]
+        with prz_file.zip.open("meta_data.npy") as f:
+            meta_data = read_pickled_array(f)[0]
     else:
         _logger.warning(
             """With `allow_restricted_pickle=False` no meta data can be loaded
@@ -133,7 +140,6 @@ def file_reader(
     else:
         data = prz_file["data"]
 
-    prz_file.close()
     return import_pr(data, meta_data, filename)
 
 
-- 
2.43.0


From 9bebfb76f5929e84cdc78c318efe03842c754a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 20/70] fix: close the USID file when reading it fails

---
 rsciio/usid/_api.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rsciio/usid/_api.py b/rsciio/usid/_api.py
index c446535..8ee3877 100644
--- a/rsciio/usid/_api.py
+++ b/rsciio/usid/_api.py
@@ -431,6 +431,17 @@ def file_reader(filename, lazy=False, dataset_path=None, ignore_non_uniform_dims
     # Need to keep h5 file handle open indefinitely if lazy
     # Using "with" will cause the file to be closed
     h5_f = h5py.File(filename, "r")
+    try:
+        signals = _read_signals(h5_f, lazy, dataset_path, ignore_non_uniform_dims)
+    except BaseException:
+        h5_f.close()
+        raise
+    if not lazy:
+        h5_f.close()
+    return signals
+
+
+def _read_signals(h5_f, lazy, dataset_path, ignore_non_uniform_dims):
     if dataset_path is None:
         all_main_dsets = usid.hdf_utils.get_all_main(h5_f)
         signals = []
@@ -449,8 +460,6 @@ def file_reader(filename, lazy=False, dataset_path=None, ignore_non_uniform_dims
         signals = _usidataset_to_signal_dict(
             h5_dset, ignore_non_uniform_dims=ignore_non_uniform_dims, lazy=lazy
         )
-    if not lazy:
-        h5_f.close()
     return signals
 
 
-- 
2.43.0


From 7f25f9cc2c1af33442547f86c96fde0b83bea5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 21/70] fix: close HDF5 files when listing their content fails

---
 rsciio/utils/hdf5.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/rsciio/utils/hdf5.py b/rsciio/utils/hdf5.py
index 6f3bd0e..118463b 100644
--- a/rsciio/utils/hdf5.py
+++ b/rsciio/utils/hdf5.py
@@ -80,19 +80,18 @@ def read_metadata_from_file(
         datasets present in a file.
     """
     search_keys = _check_search_keys(metadata_key)
-    fin = h5py.File(filename, "r")
-    # search for NXdata sets...
-    # strip out the metadata (basically everything other than NXdata)
-    stripped_metadata = _load_metadata(
-        fin, lazy=lazy, skip_array_metadata=skip_array_metadata
-    )
+    with h5py.File(filename, "r") as fin:
+        # search for NXdata sets...
+        # strip out the metadata (basically everything other than NXdata)
+        stripped_metadata = _load_metadata(
+            fin, lazy=lazy, skip_array_metadata=skip_array_metadata
+        )
     stripped_metadata = _find_search_keys_in_dict(
         stripped_metadata, search_keys=search_keys
     )
     if verbose:
         pprint.pprint(stripped_metadata)  # noqa: T203
 
-    fin.close()
     return stripped_metadata
 
 
@@ -136,7 +135,14 @@ def list_datasets_in_file(
         metadata present in a file.
     """
     search_keys = _check_search_keys(dataset_key)
-    fin = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as fin:
+        return _list_datasets(fin, search_keys, hardlinks_only, verbose)
+
+
+list_datasets_in_file.__doc__ %= FILENAME_DOC
+
+
+def _list_datasets(fin, search_keys, hardlinks_only, verbose):
     # search for NXdata sets...
     # strip out the metadata (basically everything other than NXdata)
     nexus_data_paths, hdf_dataset_paths = _find_data(
@@ -155,13 +161,9 @@ def list_datasets_in_file(
                 print(hdfd, fin[hdfd].shape)  # noqa: T201
         else:
             print("No HDF datasets found or data is captured by NXdata")  # noqa: T201
-    fin.close()
     return nexus_data_paths, hdf_dataset_paths
 
 
-list_datasets_in_file.__doc__ %= FILENAME_DOC
-
-
 def _get_keys_from_group(group):
     # Return a list of ids of items contains in the group
     return list(group.keys())
-- 
2.43.0


From 9513e4f7f467a253939b8493d429d2eb492e233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 22/70] fix: validate semper files also when python runs with
 -O

---
 rsciio/semper/_api.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 9d0739f..47498d2 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -216,7 +216,8 @@ class SemperFormat(object):
         rec_length = np.fromfile(unf_file, dtype="<i", count=1)[0]  # length of label
         label = sarray2dict(np.fromfile(unf_file, dtype=cls.LABEL_DTYPES, count=1))
         label["SEMPER"] = "".join([str(chr(label_)) for label_ in label["SEMPER"]])
-        assert label["SEMPER"] == "Semper"
+        if label["SEMPER"] != "Semper":
+            raise IOError("The label is not a Semper label!")
         # Process dimensions:
         for key in ["NCOL", "NROW", "NLAY", "ICCOLN", "ICROWN", "ICLAYN"]:
             value = (
@@ -270,7 +271,8 @@ class SemperFormat(object):
             "\x00", ""
         )
         # Sanity check:
-        assert np.fromfile(unf_file, dtype="<i4", count=1)[0] == rec_length
+        if np.fromfile(unf_file, dtype="<i4", count=1)[0] != rec_length:
+            raise IOError("Error while reading the label (length is not correct)!")
         # Return label:
         return label
 
@@ -376,9 +378,8 @@ class SemperFormat(object):
             rec_length = np.fromfile(f, dtype="<i4", count=1)[0]  # length of header
             header = np.fromfile(f, dtype=cls.HEADER_DTYPES[: rec_length // 2], count=1)
             metadata.update(sarray2dict(header))
-            assert np.frombuffer(f.read(4), dtype=np.int32)[0] == rec_length, (
-                "Error while reading the header (length is not correct)!"
-            )
+            if np.frombuffer(f.read(4), dtype=np.int32)[0] != rec_length:
+                raise IOError("Error while reading the header (length is not correct)!")
             data_format = cls.IFORM_DICT[metadata["IFORM"]]
             iversn, remain = divmod(metadata["IFLAG"], 10000)
             ilabel, ntitle = divmod(remain, 1000)
@@ -386,13 +387,14 @@ class SemperFormat(object):
             # Read title:
             title = ""
             if ntitle > 0:
-                assert (
-                    np.fromfile(f, dtype="<i4", count=1)[0] == ntitle
-                )  # length of title
+                # length of title
+                if np.fromfile(f, dtype="<i4", count=1)[0] != ntitle:
+                    raise IOError("Error while reading the title length!")
                 title = b"".join(np.fromfile(f, dtype="c", count=ntitle))
                 title = title.decode()
                 metadata["TITLE"] = title
-                assert np.fromfile(f, dtype="<i4", count=1)[0] == ntitle
+                if np.fromfile(f, dtype="<i4", count=1)[0] != ntitle:
+                    raise IOError("Error while reading the title length!")
             if ilabel:
                 try:
                     metadata.update(cls._read_label(f))
@@ -516,7 +518,8 @@ class SemperFormat(object):
         """
         data = signal["data"]
         smetadata = DTBox(signal["metadata"], box_dots=True)
-        assert len(data.shape) <= 3, "Only up to 3-dimensional datasets can be handled!"
+        if len(data.shape) > 3:
+            raise ValueError("Only up to 3-dimensional datasets can be handled!")
         scales, offsets, units = [1.0] * 3, [0.0] * 3, [None] * 3  # Defaults!
         for i in range(len(data.shape)):
             scales[i] = signal["axes"][i]["scale"]
@@ -674,7 +677,8 @@ def _read_data(fobj, fname, position, data_format, shape):
             # byte (0) is added which has to be skipped during read in:
             data[k, j, :] = row[:ncol]
             test = np.fromfile(fobj, dtype="<i4", count=1)[0]
-            assert test == rec_length
+            if test != rec_length:
+                raise IOError("Error while reading the data (length is not correct)!")
     return data
 
 
-- 
2.43.0


From 095d40747d66d959063baa4424e98dbd5f3fc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 23/70] fix: create the semper label before truncating the file

---
 rsciio/semper/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 47498d2..b27f4b2 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -449,6 +449,8 @@ class SemperFormat(object):
         nlay, nrow, ncol = self.data.shape
         data, iform = self._check_format(self.data)
         title = self.title if self.title is not None else ""
+        # Create the label first, it fails when the title or units are not suitable
+        label = None if skip_header else self._get_label()
         with open(filename, "wb") as f:
             if not skip_header:
                 # Create header:
@@ -476,8 +478,6 @@ class SemperFormat(object):
                     f.write(
                         struct.pack("<i", len(title))
                     )  # record length, 4 byte format!
-                # Create label:
-                label = self._get_label()
                 # Write label:
                 f.write(struct.pack("<i", 2 * 256))  # record length, 4 byte format!
                 f.write(label.tobytes())
-- 
2.43.0


From 8c08dbcd0443219bb04127d2fefe3f3367aae8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 24/70] fix: close the semper file reopened for lazy data

---
 rsciio/semper/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index b27f4b2..f4ac232 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -661,7 +661,12 @@ def pack_to_intbytes(fmt, value):
 
 def _read_data(fobj, fname, position, data_format, shape):
     if fobj.closed:
-        fobj = open(fname, "rb")
+        with open(fname, "rb") as fobj:
+            return _read_rows(fobj, position, data_format, shape)
+    return _read_rows(fobj, position, data_format, shape)
+
+
+def _read_rows(fobj, position, data_format, shape):
     fobj.seek(position)
     nlay, nrow, ncol = shape
     data = np.empty(shape, dtype=data_format)
-- 
2.43.0


From 0bde35e94ccf10235ee22ba8e9d79ada4f2a906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 25/70] fix: read and write semper data as little-endian
 whatever the host and array byte order

---
 rsciio/semper/_api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index f4ac232..5650927 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -378,7 +378,7 @@ class SemperFormat(object):
             rec_length = np.fromfile(f, dtype="<i4", count=1)[0]  # length of header
             header = np.fromfile(f, dtype=cls.HEADER_DTYPES[: rec_length // 2], count=1)
             metadata.update(sarray2dict(header))
-            if np.frombuffer(f.read(4), dtype=np.int32)[0] != rec_length:
+            if np.frombuffer(f.read(4), dtype="<i4")[0] != rec_length:
                 raise IOError("Error while reading the header (length is not correct)!")
             data_format = cls.IFORM_DICT[metadata["IFORM"]]
             iversn, remain = divmod(metadata["IFLAG"], 10000)
@@ -487,11 +487,13 @@ class SemperFormat(object):
                 for j in range(nrow):
                     row = self.data[k, j, :]
                     # Record length = bytes per entry * ncol:
-                    record_length = np.dtype(self.IFORM_DICT[iform]).itemsize * ncol
+                    # semper files are always little-endian
+                    dtype = np.dtype(self.IFORM_DICT[iform]).newbyteorder("<")
+                    record_length = dtype.itemsize * ncol
                     f.write(
                         struct.pack("<i", record_length)
                     )  # record length, 4 byte format!
-                    f.write(row.tobytes())
+                    f.write(row.astype(dtype).tobytes())
                     # SEMPER always expects an even number of bytes per row,
                     # which is only a problem for writing single byte data
                     # (IFORM = 0, np.byte). If ncol is odd, an empty byte (0)
@@ -668,6 +670,8 @@ def _read_data(fobj, fname, position, data_format, shape):
 
 def _read_rows(fobj, position, data_format, shape):
     fobj.seek(position)
+    # semper files are always little-endian
+    data_format = np.dtype(data_format).newbyteorder("<")
     nlay, nrow, ncol = shape
     data = np.empty(shape, dtype=data_format)
     for k in range(nlay):
-- 
2.43.0


From a672ccea5c04a3cc4a6659f99cb17473ba3d8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 26/70] fix: write the units of each axis in semper files

---
 rsciio/semper/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 5650927..6fa193a 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -327,9 +327,9 @@ class SemperFormat(object):
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
         xunit = self.units[0] if self.units[0] is not None else ""
         label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[0] if self.units[0] is not None else ""
+        yunit = self.units[1] if self.units[1] is not None else ""
         label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[0] if self.units[0] is not None else ""
+        zunit = self.units[2] if self.units[2] is not None else ""
         label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
         return label
 
-- 
2.43.0


From f0b1b2aff7c67163dd375921134f33160cff8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 27/70] fix: validate prz metadata also when python runs with
 -O

---
 rsciio/pantarhei/_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 4b43309..86f3dba 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -288,8 +288,8 @@ def import_pr(data, meta_data, filename=None):
         "size",
         "ref_size",
     ]:
-        if key in meta_data:
-            assert isinstance(meta_data[key], (list, tuple))
+        if key in meta_data and not isinstance(meta_data[key], (list, tuple)):
+            raise ValueError(f"The metadata entry '{key}' must be a list or a tuple.")
             if isinstance(meta_data[key], list):
                 old_meta_data = meta_data[key].copy()
             else:
@@ -483,7 +483,10 @@ def _metadata_converter_out(metadata, original_metadata=None):
         meta_data["ref_size"] = meta_data["ref_size"][::-1]
         for key in ["content.types", "user.calib", "inherited.calib", "device.calib"]:
             if key in meta_data:
-                assert isinstance(meta_data[key], (list, tuple))
+                if not isinstance(meta_data[key], (list, tuple)):
+                    raise ValueError(
+                        f"The metadata entry '{key}' must be a list or a tuple."
+                    )
                 if isinstance(meta_data[key], list):
                     old_meta_data = meta_data[key].copy()
                 else:
-- 
2.43.0


From 83b2b29d2515cc9636646b8145d44596353dc0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 28/70] fix: close TIFF files when reading them fails

---
 rsciio/tiff/_api.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 97eeba4..dd4976c 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -198,22 +198,26 @@ def file_reader(
     # and the file needs to stay open when loading lazily
     # close the file manually
     tiff = TiffFile(filename, **kwds)
-    if multipage_as_list:
-        handles = tiff.pages  # use full access with pages interface
-    else:
-        handles = tiff.series  # use fast access with series interface
-    dict_list = [
-        _read_tiff(
-            tiff,
-            handle,
-            filename,
-            force_read_resolution,
-            lazy=lazy,
-            hamamatsu_streak_axis_type=hamamatsu_streak_axis_type,
-            **kwds,
-        )
-        for handle in handles
-    ]
+    try:
+        if multipage_as_list:
+            handles = tiff.pages  # use full access with pages interface
+        else:
+            handles = tiff.series  # use fast access with series interface
+        dict_list = [
+            _read_tiff(
+                tiff,
+                handle,
+                filename,
+                force_read_resolution,
+                lazy=lazy,
+                hamamatsu_streak_axis_type=hamamatsu_streak_axis_type,
+                **kwds,
+            )
+            for handle in handles
+        ]
+    except BaseException:
+        tiff.close()
+        raise
     if not lazy:
         tiff.close()
 
-- 
2.43.0


From e9eb84cdbb8b89929fd4477ae6f7b183c6e6e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 29/70] fix: close Tofwerk files when reading them fails

---
 rsciio/tofwerk/_api.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index 4b07463..1e12da3 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -882,7 +882,39 @@ def file_reader(
 
     filename = str(filename)
     f = h5py.File(filename, "r")
+    try:
+        signals = _read_signals(
+            f,
+            filename,
+            lazy,
+            signal,
+            chunks,
+            mz_range,
+            depth_range,
+            dtype,
+            show_progressbar,
+            peak_data_batch_size,
+        )
+    except BaseException:
+        f.close()
+        raise
+    if not lazy:
+        f.close()
+    return signals
+
 
+def _read_signals(
+    f,
+    filename,
+    lazy,
+    signal,
+    chunks,
+    mz_range,
+    depth_range,
+    dtype,
+    show_progressbar,
+    peak_data_batch_size,
+):
     if not _is_tofwerk_file(f):
         f.close()
         raise IOError(
@@ -1443,9 +1475,6 @@ def file_reader(
             }
         )
 
-    if not lazy:
-        f.close()
-
     return signals
 
 
-- 
2.43.0


From 802358843cb325565cf48ff39bb40eafec9b8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 30/70] fix: close zspy zip stores when reading or writing
 fails

---
 rsciio/zspy/_api.py | 64 +++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index 473c6ac..d185efa 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -245,6 +245,26 @@ def file_writer(
     _logger.debug(f"File mode: {mode}")
     _logger.debug(f"Zarr store: {store}")
 
+    try:
+        _write_signal(
+            store,
+            mode,
+            signal,
+            chunks=chunks,
+            compressor=compressor,
+            write_dataset=write_dataset,
+            show_progressbar=show_progressbar,
+            **kwds,
+        )
+    finally:
+        if isinstance(store, (zarr.ZipStore, zarr.DBMStore, zarr.LMDBStore)):
+            if close_file:
+                store.close()
+            else:
+                store.flush()
+
+
+def _write_signal(store, mode, signal, **kwds):
     f = zarr.open_group(store=store, mode=mode)
     f.attrs["file_format"] = "ZSpy"
     f.attrs["file_format_version"] = version
@@ -256,24 +276,9 @@ def file_writer(
         group_name = group_name.replace("/", "-")
     expg = exps.require_group(group_name)
 
-    writer = ZspyWriter(
-        f,
-        signal,
-        expg,
-        chunks=chunks,
-        compressor=compressor,
-        write_dataset=write_dataset,
-        show_progressbar=show_progressbar,
-        **kwds,
-    )
+    writer = ZspyWriter(f, signal, expg, **kwds)
     writer.write()
 
-    if isinstance(store, (zarr.ZipStore, zarr.DBMStore, zarr.LMDBStore)):
-        if close_file:
-            store.close()
-        else:
-            store.flush()
-
 
 file_writer.__doc__ %= (
     FILENAME_DOC.replace("read", "write to"),
@@ -299,8 +304,26 @@ def file_reader(filename, lazy=False, **kwds):
     """
     # check that this is a not zarr store before checking if it is a zip file
     if not isinstance(filename, MutableMapping) and zipfile.is_zipfile(filename):
-        filename = zarr.storage.ZipStore(filename, mode="r")
+        store = zarr.storage.ZipStore(filename, mode="r")
+        try:
+            to_return = _read_store(store, lazy, **kwds)
+        except BaseException:
+            store.close()
+            raise
+        if not lazy:
+            # Close the file if not lazy
+            store.close()
+        return to_return
+
+    to_return = _read_store(filename, lazy, **kwds)
+    if not lazy and isinstance(filename, zarr.storage.ZipStore):
+        # Close the file if not lazy
+        filename.close()
+
+    return to_return
+
 
+def _read_store(filename, lazy, **kwds):
     if isinstance(filename, zarr.storage.ZipStore) and "mode" in kwds.keys():
         _logger.warning(
             "Specifying `mode` when opening a zspy file with a ZipStore is not supported."
@@ -320,12 +343,7 @@ def file_reader(filename, lazy=False, **kwds):
         )
         raise
 
-    to_return = ZspyReader(f).read(lazy=lazy)
-    if not lazy and isinstance(filename, zarr.storage.ZipStore):
-        # Close the file if not lazy
-        filename.close()
-
-    return to_return
+    return ZspyReader(f).read(lazy=lazy)
 
 
 file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
-- 
2.43.0


From c1aa5361afc43dc3db85407729213562b335ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 31/70] fix: close the lazily read hspy file when it can not be
 tracked

---
 rsciio/hspy/_api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index b2e213f..8917f74 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -187,15 +187,14 @@ def file_reader(filename, lazy=False, **kwds):
     try:
         reader = HyperspyReader(f)
         exp_dict_list = reader.read(lazy=lazy)
+        if lazy:
+            _track_lazy_handle(f)
     except BaseException as err:
         if lazy:
             # in the finally block, the file is closed only when lazy=False,
             # so we need to close it here in case of exception
             f.close()
         raise err
-    else:
-        if lazy:
-            _track_lazy_handle(f)
     finally:
         if not lazy:
             f.close()
-- 
2.43.0


From 05e649735f54927139524c082b01407f461be151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 32/70] fix: do not modify the caller's original_metadata when
 writing msa

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5be67ff..29c77c2 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -420,7 +420,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     FORMAT = "EMSA/MAS Spectral Data File"
     md = DTBox(signal["metadata"], box_dots=True)
     if signal["original_metadata"].get("FORMAT", None) == FORMAT:
-        loc_kwds = signal["original_metadata"]
+        loc_kwds = dict(signal["original_metadata"])
         if format is not None:
             loc_kwds["DATATYPE"] = format
         else:
-- 
2.43.0


From d0ad52c6edf103cae5880cf3b229aaca4a6787f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 33/70] fix: writing a SEM spectrum to msa changed the mapping
 of all later files

---
 rsciio/msa/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 29c77c2..b1dcda9 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -507,11 +507,12 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             loc_kwds[key] = value
 
     for key, dic in keywords.items():
-        if dic["mapped_to"] is not None:
+        mapped_to = dic["mapped_to"]
+        if mapped_to is not None:
             if "SEM" in md.Signal.signal_type:
-                dic["mapped_to"] = dic["mapped_to"].replace("TEM", "SEM")
-            if dic["mapped_to"] in md:
-                loc_kwds[key] = eval("md.%s" % dic["mapped_to"])
+                mapped_to = mapped_to.replace("TEM", "SEM")
+            if mapped_to in md:
+                loc_kwds[key] = md[mapped_to]
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
-- 
2.43.0


From bd39777c3df9ea370c444b796fde47407e2262fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 34/70] fix: reject an unknown msa format before truncating the
 file

---
 rsciio/msa/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index b1dcda9..06599e2 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -514,6 +514,9 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             if mapped_to in md:
                 loc_kwds[key] = md[mapped_to]
 
+    if format not in ["XY", "Y"]:
+        raise ValueError("format must be one of: None, 'XY' or 'Y'")
+
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
         # (although they shouldn't)
@@ -549,8 +552,6 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             for y in signal["data"]:
                 f.write("%f%s" % (y, separator))
                 f.write("\u000d\u000a")
-        else:
-            raise ValueError("format must be one of: None, 'XY' or 'Y'")
 
         f.write("#%-12s: End Of Data and File" % "ENDOFDATA")
 
-- 
2.43.0


From c3cadbead90988be337963c04032315396afe0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 35/70] fix: reject unsupported NeXus axes before truncating
 the file

---
 rsciio/nexus/_api.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index a136f9e..c1fe182 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1127,6 +1127,16 @@ def _write_nexus_attr(dictionary, group, skip_keys=None):
                     _write_nexus_attr(dictionary[key], group[key], skip_keys=skip_keys)
 
 
+def _check_axes(signal):
+    """Reject the axes, which can't be written."""
+    for ax in signal["axes"]:
+        if ax["name"] is not None:
+            if ax["_type"] == "FunctionalDataAxis":
+                raise ValueError("Not supported")
+            elif ax["_type"] not in ["DataAxis", "UniformDataAxis"]:
+                raise RuntimeError(f"Axis of type ({ax['_type']}) are not supported.")
+
+
 def _write_signal(signal, nxgroup, signal_name, **kwds):
     """Store the signal data as an NXdata dataset.
 
@@ -1169,12 +1179,8 @@ def _write_signal(signal, nxgroup, signal_name, **kwds):
             nxdata.attrs[indices] = _parse_to_file(index_in_array)
             if ax["_type"] == "DataAxis":
                 data = ax["axis"]
-            elif ax["_type"] == "UniformDataAxis":
-                data = ax["offset"] + ax["scale"] * np.arange(ax["size"])
-            elif ax["_type"] == "FunctionalDataAxis":
-                raise ValueError("Not supported")
             else:
-                raise RuntimeError(f"Axis of type ({ax['_type']}) are not supported.")
+                data = ax["offset"] + ax["scale"] * np.arange(ax["size"])
             dset = nxdata.require_dataset(
                 ax["name"], data=data, shape=data.shape, dtype=data.dtype
             )
@@ -1232,6 +1238,9 @@ def file_writer(
     if not isinstance(signal, list):
         signal = [signal]
 
+    for sig in signal:
+        _check_axes(sig)
+
     with h5py.File(filename, mode="w") as f:
         f.attrs["file_format"] = "nexus"
         f.attrs["file_writer"] = "hyperspy_nexus_v3"
-- 
2.43.0


From 6a2bda915803436d2f309e8c17cdec6cca78cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 36/70] fix: reject ragged dask arrays before truncating the
 hspy or NeXus file

---
 rsciio/hspy/_api.py  | 18 ++++++++++++------
 rsciio/nexus/_api.py |  3 ++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 8917f74..7457205 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -76,6 +76,15 @@ current_file_version = None  # Format version of the file being read
 default_version = Version(version)
 
 
+def _check_ragged(data):
+    if is_dask_array(data) and data.ndim == 1 and data.dtype == object:
+        # https://github.com/hyperspy/rosettasciio/issues/198
+        raise ValueError(
+            "Saving a 1-D ragged dask array to hspy is not supported yet. "
+            "Please use the .zspy extension."
+        )
+
+
 class HyperspyReader(HierarchicalReader):
     _file_type = "hspy"
     _is_hdf5 = True
@@ -122,12 +131,7 @@ class HyperspyWriter(HierarchicalWriter):
             if is_dask_array(data_):
                 if data_.chunks != dset_.chunks:
                     data[i] = data_.rechunk(dset_.chunks)
-                if data_.ndim == 1 and data_.dtype == object:
-                    # https://github.com/hyperspy/rosettasciio/issues/198
-                    raise ValueError(
-                        "Saving a 1-D ragged dask array to hspy is not supported yet. "
-                        "Please use the .zspy extension."
-                    )
+                _check_ragged(data_)
                 # for performance reason, we write the data later, with all data
                 # at the same time in a single `dask.array.store` call
             # "write_direct" doesn't play well with empty array
@@ -242,6 +246,8 @@ def file_writer(
     """
     if not isinstance(write_dataset, bool):
         raise ValueError("`write_dataset` argument has to be a boolean.")
+    if write_dataset:
+        _check_ragged(signal["data"])
 
     if "shuffle" not in kwds:
         # Use shuffle by default to improve compression
diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c1fe182..d913037 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -33,7 +33,7 @@ from rsciio._docstrings import (
     SIGNAL_DOC,
 )
 from rsciio._hierarchical import get_signal_chunks
-from rsciio.hspy._api import overwrite_dataset
+from rsciio.hspy._api import _check_ragged, overwrite_dataset
 from rsciio.utils._array import is_dask_array
 from rsciio.utils._dictionary import DTBox
 
@@ -1240,6 +1240,7 @@ def file_writer(
 
     for sig in signal:
         _check_axes(sig)
+        _check_ragged(sig["data"])
 
     with h5py.File(filename, mode="w") as f:
         f.attrs["file_format"] = "nexus"
-- 
2.43.0


From e741ca6f11e614da75f13d59b94cef0e7801b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 37/70] fix: do not modify the caller's rpl_info

---
 rsciio/ripple/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index f4f8214..a56f27f 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -297,6 +297,8 @@ def file_reader(
                 rpl_info = parse_ripple(f)
         else:
             raise IOError('File has wrong extension: "%s"' % filename[-3:])
+    else:
+        rpl_info = dict(rpl_info)
 
     for ext in ["raw", "RAW"]:
         rawfname = filename[:-3] + ext
-- 
2.43.0


From 26bd54d7d2c80c9f348aa1ff5b510c376cd7f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 38/70] fix: return a copy of the module-level metadata mapping

---
 rsciio/blockfile/_api.py | 2 +-
 rsciio/mrc/_api.py       | 2 +-
 rsciio/mrcz/_api.py      | 2 +-
 rsciio/tia/_api.py       | 2 +-
 rsciio/tiff/_api.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 3729284..3d81f5e 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -351,7 +351,7 @@ def _read_blockfile(f, filename, lazy, chunks, endianness):
         "axes": axes,
         "metadata": metadata,
         "original_metadata": original_metadata,
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
 
     return [
diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 5dc2cc7..55c1be9 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -703,7 +703,7 @@ def file_reader(
         "axes": axes,
         "metadata": metadata,
         "original_metadata": original_metadata,
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
 
     return [
diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 2e478ac..e3a8e7e 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -137,7 +137,7 @@ def file_reader(filename, lazy=False, mmap_mode="c", endianness="<", **kwds):
         "axes": axes,
         "metadata": metadata,
         "original_metadata": {"mrcz_header": mrcz_header},
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
 
     return [
diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b516bb2..d4583d4 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -687,7 +687,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         "metadata": metadata,
         "axes": axes,
         "original_metadata": original_metadata,
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
     return [
         dictionary,
diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index dd4976c..4d8d207 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -405,7 +405,7 @@ def _read_tiff(
         "original_metadata": op,
         "axes": axes,
         "metadata": md,
-        "mapping": metadata_mapping,
+        "mapping": dict(metadata_mapping),
     }
 
 
-- 
2.43.0


From 62f0578238235df806a868483cbf009f650e20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 39/70] fix: keep the units of non-linear NeXus axes

---
 rsciio/nexus/_api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index d913037..85f744a 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -266,6 +266,7 @@ def _get_nav_list(data, dataentry):
                                     "name": ax,
                                     "scale": 1,
                                     "offset": 0,
+                                    "units": units,
                                     "navigate": navigation,
                                 }
                             )
-- 
2.43.0


From f5e6b3575e9e0fb7770707019bb487061d0d4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 40/70] fix: give the units of the stack axis of Velox spectra

---
 rsciio/emd/_emd_velox.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index 6b9f1c1..cbfe601 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -223,6 +223,7 @@ class FeiEMDReader(object):
                         "offset": 0,
                         "scale": 1,
                         "size": data.shape[0],
+                        "units": None,
                         "navigate": True,
                     }
                 ]
-- 
2.43.0


From 0af8cf9b1d2fd77496e81a68b66ef6422eb8a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 41/70] fix: give the offset of the axes of DE mrc files

---
 rsciio/mrc/_api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 55c1be9..99234b2 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -426,6 +426,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
                     "size": s,  # if -1, get from the .mrc file
                     "units": axes_units[i],
                     "scale": axes_scales[i],
+                    "offset": 0,
                     "navigate": navigate[i],
                     "index_in_array": ind,
                 }
-- 
2.43.0


From 254eb5349c9091a8d3ac2018a565b92984d7b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 42/70] fix: reject lazy loading where hamamatsu and topspin do
 not support it

---
 rsciio/hamamatsu/_api.py | 7 +++++--
 rsciio/topspin/_api.py   | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsciio/hamamatsu/_api.py b/rsciio/hamamatsu/_api.py
index d2fa939..a63ecb5 100644
--- a/rsciio/hamamatsu/_api.py
+++ b/rsciio/hamamatsu/_api.py
@@ -25,7 +25,7 @@ from pathlib import Path
 import numpy as np
 from numpy.polynomial.polynomial import polyfit
 
-from rsciio._docstrings import FILENAME_DOC, LAZY_DOC, RETURNS_DOC
+from rsciio._docstrings import FILENAME_DOC, LAZY_UNSUPPORTED_DOC, RETURNS_DOC
 
 _logger = logging.getLogger(__name__)
 
@@ -523,6 +523,9 @@ def file_reader(filename, lazy=False, use_uniform_signal_axes=False, **kwds):
 
     %s
     """
+    if lazy is not False:
+        raise NotImplementedError("Lazy loading is not supported.")
+
     filesize = Path(filename).stat().st_size
     original_filename = Path(filename).name
     result = {}
@@ -544,4 +547,4 @@ def file_reader(filename, lazy=False, use_uniform_signal_axes=False, **kwds):
     ]
 
 
-file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
+file_reader.__doc__ %= (FILENAME_DOC, LAZY_UNSUPPORTED_DOC, RETURNS_DOC)
diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index bfe7627..435b9bb 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -97,6 +97,9 @@ def file_reader(
     >>> file_reader("fname.app5", dryrun=True)
     """
 
+    if lazy is not False:
+        raise NotImplementedError("Lazy loading is not supported.")
+
     def looks_like_a_guid(name):
         """Checks if a text string matches the shape of a guid"""
         lengths = [len(x) for x in name.split("-")]
-- 
2.43.0


From fa112c2a5ddae380de3f3f487b2ebe5a7c8ff964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 43/70] fix: read text files as UTF-8 whatever the locale

---
 rsciio/dens/_api.py            | 2 +-
 rsciio/impulse/_api.py         | 4 ++--
 rsciio/mrc/_api.py             | 2 +-
 rsciio/protochips/_api.py      | 2 +-
 rsciio/quantumdetector/_api.py | 2 +-
 rsciio/tia/_api.py             | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rsciio/dens/_api.py b/rsciio/dens/_api.py
index fed247d..a15e7d9 100644
--- a/rsciio/dens/_api.py
+++ b/rsciio/dens/_api.py
@@ -56,7 +56,7 @@ def file_reader(filename, lazy=False):
     if lazy is not False:
         raise NotImplementedError("Lazy loading is not supported.")
 
-    with open(filename, "rt") as f:
+    with open(filename, "rt", encoding="utf-8") as f:
         # Strip leading, empty lines
         line = str(f.readline())
         while line.strip() == "" and not f.closed:
diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index 617cde1..3b8c4cb 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -58,7 +58,7 @@ class ImpulseCSV:
         self._read_data()
 
     def _parse_header(self):
-        with open(self.filename, "r") as f:
+        with open(self.filename, "r", encoding="utf-8") as f:
             s = f.readline()
             self.column_names = s.strip().split(",")
             if not self._is_impulse_csv_file():
@@ -150,7 +150,7 @@ class ImpulseCSV:
                 "_".join(str(self.filename).split("_")[:-1]) + "_Metadata.log"
             ).replace("\\", "/")
             if os.path.isfile(metadata_file):
-                with open(metadata_file, newline="") as csvfile:
+                with open(metadata_file, newline="", encoding="utf-8") as csvfile:
                     metadata_file_reader = csv.reader(csvfile, delimiter=",")
                     for row in metadata_file_reader:
                         if notes_section:
diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 99234b2..74973ec 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -287,7 +287,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         The shape of the data in real space.
     """
     original_metadata = {}
-    with open(filename) as metadata:
+    with open(filename, encoding="utf-8") as metadata:
         for line in metadata.readlines():
             try:
                 key, value = line.split("=")
diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 0cb8838..60fe151 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -80,7 +80,7 @@ class ProtochipsCSV(object):
         self._read_data()
 
     def _parse_header(self):
-        with open(self.filename, "r") as f:
+        with open(self.filename, "r", encoding="utf-8") as f:
             s = f.readline()
             self.column_name = s.replace(", ", ",").replace("\n", "").split(",")
             if not self._is_protochips_csv_file():
diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 92f9c6a..56b6e1c 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -356,7 +356,7 @@ load_mib_data.__doc__ %= (
 
 def parse_hdr_file(path):
     result = {}
-    with open(path, "r") as f:
+    with open(path, "r", encoding="utf-8") as f:
         for line in f:
             if line.startswith("HDR") or line.startswith("End\t"):
                 continue
diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index d4583d4..b4628d3 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -254,7 +254,7 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
     filename = os.path.splitext(filename)[0]
     if dump_xml:
         for i, obj in enumerate(objects):
-            with open(filename + "-object-%s.xml" % i, "w") as f:
+            with open(filename + "-object-%s.xml" % i, "w", encoding="utf-8") as f:
                 f.write(obj)
 
     ser_files = sorted(glob(filename + "_[0-9].ser"))
-- 
2.43.0


From 28ba3e0868378290f42d56c25959543b137334f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 44/70] fix: return the selected NeXus datasets in the order of
 the file

---
 rsciio/nexus/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 85f744a..14ae22d 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -861,8 +861,9 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
             [j for j in nx_datasets if any(s in j for s in search_keys)]
         )
 
-    matched_nexus = list(matched_nexus)
-    matched_hdf = list(matched_hdf)
+    # keep the order of the file, the order of a set of str is not reproducible
+    matched_nexus = [j for j in nx_datasets if j in matched_nexus]
+    matched_hdf = [j for j in hdf_datasets if j in matched_hdf]
 
     return matched_nexus, matched_hdf
 
-- 
2.43.0


From 768116e638ed54c706403016a94f29033734523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 45/70] fix: read EDAX maps with the requested endianness also
 when not lazy

---
 rsciio/edax/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 33d49eb..fd95b43 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -851,7 +851,10 @@ def si_reader(
     else:
         with open(filename, "rb") as f:
             data = np.fromfile(
-                f, dtype=data_type, offset=data_offset, count=nx * ny * nz
+                f,
+                dtype=np.dtype(f"{endianness}{data_type}"),
+                offset=data_offset,
+                count=nx * ny * nz,
             )
             data = data.reshape((ny, nx, nz))
 
-- 
2.43.0


From 08e9c136ec640c443a94d11e6c666cc809176660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 46/70] fix: read mrc data with the requested endianness

---
 rsciio/mrc/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 74973ec..1c74705 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -208,7 +208,7 @@ def get_std_dtype_list(endianness="<"):
         ("ND2", end + "u2"),
         ("VD1", end + "u2"),
         ("VD2", end + "u2"),
-        ("TILTANGLES", (np.float32, 6)),
+        ("TILTANGLES", (end + "f4", 6)),
         ("XORIGIN", end + "f4"),
         ("YORIGIN", end + "f4"),
         ("ZORIGIN", end + "f4"),
@@ -249,7 +249,7 @@ def get_fei_dtype_list(endianness="<"):
     return dtype_list
 
 
-def get_data_type(mode):
+def get_data_type(mode, endianness="<"):
     mode_to_dtype = {
         0: np.uint8,
         1: np.int16,
@@ -261,7 +261,7 @@ def get_data_type(mode):
 
     mode = int(mode[0])
     if mode in mode_to_dtype:
-        return np.dtype(mode_to_dtype[mode])
+        return np.dtype(mode_to_dtype[mode]).newbyteorder(endianness)
     else:
         raise ValueError(f"Unrecognised mode '{mode}'.")
 
@@ -598,7 +598,7 @@ def file_reader(
         filename,
         offset=data_offset,
         shape=shape[::-1],
-        dtype=get_data_type(std_header["MODE"]),
+        dtype=get_data_type(std_header["MODE"], endianness),
         positions=positions,
         chunks=chunks,
     )
-- 
2.43.0


From 9dc99734887c1daebe56102398e827eddc94f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 47/70] fix: read bruker data as little-endian on every
 platform

---
 rsciio/bruker/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0b14870..1da0b71 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -141,7 +141,7 @@ class SFSTreeItem:
                 temp_table = fn.read(self.sfs.usable_chunk)
             self.pointers = (
                 np.frombuffer(
-                    temp_table[: self.size_in_chunks * 4], dtype="uint32"
+                    temp_table[: self.size_in_chunks * 4], dtype="<u4"
                 ).astype(np.int64)
                 * self.sfs.chunksize
                 + 0x138
@@ -665,7 +665,7 @@ class HyperHeader:
         image.width = int(xml_node.find("./Width").text)  # in pixels
         image.height = int(xml_node.find("./Height").text)  # in pixels
         # in bytes ('u1','u2','u4')
-        image.dtype = "u" + xml_node.find("./ItemSize").text
+        image.dtype = "<u" + xml_node.find("./ItemSize").text
         image.plane_count = int(xml_node.find("./PlaneCount").text)
         image.images = []
         for i in range(image.plane_count):
@@ -1159,7 +1159,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 offset = 0
             if flag == 0:
                 data1 = buffer1[offset : offset + data_size2]
-                arr16 = np.frombuffer(data1, dtype=np.uint16)
+                arr16 = np.frombuffer(data1, dtype="<u2")
                 pixel = np.bincount(arr16, minlength=chan1 - 1)
                 offset += data_size2
             elif flag == 1:  # and (chan1 != chan2)
-- 
2.43.0


From a68e91930949ff9c96f377d3176b6caeff65bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 48/70] fix: read digitalsurf points as little-endian on every
 platform

---
 rsciio/digitalsurf/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c8fa496..bdfa311 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2216,7 +2216,7 @@ class DigitalSurfHandler(object):
     def _unpack_data(self, file, encoding="latin-1"):
         # Size of datapoints in bytes. Always int16 (==2) or 32 (==4)
         psize = int(self._get_work_dict_key_value("_15_Size_of_Points") / 8)
-        dtype = np.int16 if psize == 2 else np.int32
+        dtype = "<i2" if psize == 2 else "<i4"
 
         if self._get_work_dict_key_value("_01_Signature") != "DSCOMPRESSED":
             # If the points are not compressed we need to read the exact
-- 
2.43.0


From 65262ffac4b899652feae422af598ccb541cc9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 49/70] fix: read and write tvips files as little-endian on
 every platform and for any array

---
 rsciio/tvips/_api.py | 60 ++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 666bfc2..22e0d4c 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -43,39 +43,39 @@ _logger = logging.getLogger(__name__)
 
 
 TVIPS_RECORDER_GENERAL_HEADER = [
-    ("size", "u4"),  # likely the size of generalheader in bytes
-    ("version", "u4"),  # 1 or 2
-    ("dimx", "u4"),  # image size width
-    ("dimy", "u4"),  # image size height
-    ("bitsperpixel", "u4"),  # 8 or 16
-    ("offsetx", "u4"),  # generally 0
-    ("offsety", "u4"),
-    ("binx", "u4"),  # camera binning
-    ("biny", "u4"),
-    ("pixelsize", "u4"),  # physical pixel size in nm
-    ("ht", "u4"),  # high tension, voltage
-    ("magtotal", "u4"),  # magnification/camera length
-    ("frameheaderbytes", "u4"),  # number of bytes per frame header
+    ("size", "<u4"),  # likely the size of generalheader in bytes
+    ("version", "<u4"),  # 1 or 2
+    ("dimx", "<u4"),  # image size width
+    ("dimy", "<u4"),  # image size height
+    ("bitsperpixel", "<u4"),  # 8 or 16
+    ("offsetx", "<u4"),  # generally 0
+    ("offsety", "<u4"),
+    ("binx", "<u4"),  # camera binning
+    ("biny", "<u4"),
+    ("pixelsize", "<u4"),  # physical pixel size in nm
+    ("ht", "<u4"),  # high tension, voltage
+    ("magtotal", "<u4"),  # magnification/camera length
+    ("frameheaderbytes", "<u4"),  # number of bytes per frame header
     ("dummy", "S204"),  # placeholder contains TVIPS TVIPS TVIPS...
 ]
 
 
 TVIPS_RECORDER_FRAME_HEADER = [
-    ("num", "u4"),  # tends to cycle
-    ("timestamp", "u4"),  # seconds since 1.1.1970
-    ("ms", "u4"),  # additional milliseconds to the timestamp
-    ("LUTidx", "u4"),  # related to color, useless
-    ("fcurrent", "f4"),  # usually 0 for all frames
-    ("mag", "u4"),  # same for all frames, can be different from magtotal
-    ("mode", "u4"),  # 1 -> image, 2 -> diffraction
-    ("stagex", "f4"),
-    ("stagey", "f4"),
-    ("stagez", "f4"),
-    ("stagea", "f4"),
-    ("stageb", "f4"),
-    ("rotidx", "u4"),  # encodes information about the scan
-    ("temperature", "f4"),  # cycles between 0.0 and 9.0 with step 1.0
-    ("objective", "f4"),  # kind of randomly between 0.0 and 1.0
+    ("num", "<u4"),  # tends to cycle
+    ("timestamp", "<u4"),  # seconds since 1.1.1970
+    ("ms", "<u4"),  # additional milliseconds to the timestamp
+    ("LUTidx", "<u4"),  # related to color, useless
+    ("fcurrent", "<f4"),  # usually 0 for all frames
+    ("mag", "<u4"),  # same for all frames, can be different from magtotal
+    ("mode", "<u4"),  # 1 -> image, 2 -> diffraction
+    ("stagex", "<f4"),
+    ("stagey", "<f4"),
+    ("stagez", "<f4"),
+    ("stagea", "<f4"),
+    ("stageb", "<f4"),
+    ("rotidx", "<u4"),  # encodes information about the scan
+    ("temperature", "<f4"),  # cycles between 0.0 and 9.0 with step 1.0
+    ("objective", "<f4"),  # kind of randomly between 0.0 and 1.0
     # TODO: sometimes scan positions may be present in header, may require more reverse engineering
 ]
 
@@ -166,7 +166,7 @@ def _get_frame_record_dtype_from_signal(signal, extra_bytes=0):
         fhdtype.append(("extra", bytes, extra_bytes))
     dimx = signal["axes"][-1]["size"]
     dimy = signal["axes"][-2]["size"]
-    fhdtype.append(("data", signal["data"].dtype, (dimy, dimx)))
+    fhdtype.append(("data", signal["data"].dtype.newbyteorder("<"), (dimy, dimx)))
     dt = np.dtype(fhdtype)
     return dt
 
@@ -290,7 +290,7 @@ def file_reader(
         f.seek(0)
         # read the main header in file 0
         header = np.fromfile(f, dtype=TVIPS_RECORDER_GENERAL_HEADER, count=1)
-        dtype = np.dtype(f"u{header['bitsperpixel'][0] // 8}")
+        dtype = np.dtype(f"<u{header['bitsperpixel'][0] // 8}")
         dimx = header["dimx"][0]
         dimy = header["dimy"][0]
         # the size of the frame header varies with version
-- 
2.43.0


From a3fa2b6666a428f8bc605f0e16c30563e3f57b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 50/70] fix: read jeol data as little-endian on every platform

---
 rsciio/jeol/_api.py | 68 ++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 0fadadd..9f4344f 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -32,19 +32,19 @@ _logger = logging.getLogger(__name__)
 
 jTYPE = {
     1: "B",
-    2: "H",
-    3: "i",
-    4: "f",
-    5: "d",
+    2: "<H",
+    3: "<i",
+    4: "<f",
+    5: "<d",
     6: "B",
-    7: "H",
-    8: "i",
-    9: "f",
-    10: "d",
+    7: "<H",
+    8: "<i",
+    9: "<f",
+    10: "<d",
     11: "?",
     12: "c",
     13: "c",
-    14: "H",
+    14: "<H",
     20: "c",
     65553: "?",
     65552: "?",
@@ -357,7 +357,7 @@ def _read_pts(
         _ = _decode(fd.read(128).rstrip(b"\x00"))
         # memo
         _ = _decode(fd.read(132).rstrip(b"\x00"))
-        datefile = datetime(1899, 12, 30) + timedelta(days=np.fromfile(fd, "d", 1)[0])
+        datefile = datetime(1899, 12, 30) + timedelta(days=np.fromfile(fd, "<d", 1)[0])
         fd.seek(head_pos + 12)
         header = _parsejeol(fd)
         meas_data_header = header["PTTD Data"]["AnalyzableMap MeasData"]
@@ -394,7 +394,7 @@ def _read_pts(
 
         fd.seek(data_pos)
         # read spectrum image
-        rawdata = np.fromfile(fd, dtype="u2")
+        rawdata = np.fromfile(fd, dtype="<u2")
 
         scale = (
             header["PTTD Param"]["Params"]["PARAMPAGE0_SEM"]["ScanSize"]
@@ -1380,27 +1380,27 @@ def _read_eds_file(fd, filename):
             "AccKV": np.fromfile(fd, "<d", 1)[0],
             "AccNA": np.fromfile(fd, "<d", 1)[0],
             "skip": np.fromfile(fd, "<b", 38),
-            "MnKaRES": np.fromfile(fd, "d", 1)[0],
-            "WorkD": np.fromfile(fd, "d", 1)[0],  # codespell:ignore
-            "InsD": np.fromfile(fd, "d", 1)[0],
-            "XtiltAng": np.fromfile(fd, "d", 1)[0],
-            "TakeAng": np.fromfile(fd, "d", 1)[0],
-            "IncAng": np.fromfile(fd, "d", 1)[0],
+            "MnKaRES": np.fromfile(fd, "<d", 1)[0],
+            "WorkD": np.fromfile(fd, "<d", 1)[0],  # codespell:ignore
+            "InsD": np.fromfile(fd, "<d", 1)[0],
+            "XtiltAng": np.fromfile(fd, "<d", 1)[0],
+            "TakeAng": np.fromfile(fd, "<d", 1)[0],
+            "IncAng": np.fromfile(fd, "<d", 1)[0],
             "skip2": np.fromfile(fd, "<i", 1)[0],
-            "ScanSize": np.fromfile(fd, "d", 1)[0],
+            "ScanSize": np.fromfile(fd, "<d", 1)[0],
             "DT_64": np.fromfile(fd, "<H", 1)[0],
             "DT_128": np.fromfile(fd, "<H", 1)[0],
             "DT_256": np.fromfile(fd, "<H", 1)[0],
             "DT_512": np.fromfile(fd, "<H", 1)[0],
             "DT_1K": np.fromfile(fd, "<H", 1)[0],
-            "DetH": np.fromfile(fd, "d", 1)[0],
-            "DirAng": np.fromfile(fd, "d", 1)[0],
-            "XtalAng": np.fromfile(fd, "d", 1)[0],
-            "ElevAng": np.fromfile(fd, "d", 1)[0],
-            "ValidSize": np.fromfile(fd, "d", 1)[0],
+            "DetH": np.fromfile(fd, "<d", 1)[0],
+            "DirAng": np.fromfile(fd, "<d", 1)[0],
+            "XtalAng": np.fromfile(fd, "<d", 1)[0],
+            "ElevAng": np.fromfile(fd, "<d", 1)[0],
+            "ValidSize": np.fromfile(fd, "<d", 1)[0],
             "WinCMat": _decode(fd.read(4).rstrip(b"\x00")),
             "WinCZ": np.fromfile(fd, "<H", 1)[0],
-            "WinCThic": np.fromfile(fd, "d", 1)[0],
+            "WinCThic": np.fromfile(fd, "<d", 1)[0],
             "WinChem": _decode(fd.read(16).rstrip(b"\x00")),
             "WinChem_nelem": np.fromfile(fd, "<H", 1)[0],
             "WinChem_Z1": np.fromfile(fd, "<H", 1)[0],
@@ -1408,18 +1408,18 @@ def _read_eds_file(fd, filename):
             "WinChem_Z3": np.fromfile(fd, "<H", 1)[0],
             "WinChem_Z4": np.fromfile(fd, "<H", 1)[0],
             "WinChem_Z5": np.fromfile(fd, "<H", 1)[0],
-            "WinChem_m1": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m2": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m3": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m4": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m5": np.fromfile(fd, "d", 1)[0],
-            "WinThic": np.fromfile(fd, "d", 1)[0],
-            "WinDens": np.fromfile(fd, "d", 1)[0],
+            "WinChem_m1": np.fromfile(fd, "<d", 1)[0],
+            "WinChem_m2": np.fromfile(fd, "<d", 1)[0],
+            "WinChem_m3": np.fromfile(fd, "<d", 1)[0],
+            "WinChem_m4": np.fromfile(fd, "<d", 1)[0],
+            "WinChem_m5": np.fromfile(fd, "<d", 1)[0],
+            "WinThic": np.fromfile(fd, "<d", 1)[0],
+            "WinDens": np.fromfile(fd, "<d", 1)[0],
             "SpatMat": _decode(fd.read(4).rstrip(b"\x00")),
             "SpatZ": np.fromfile(fd, "<H", 1)[0],
-            "SpatThic": np.fromfile(fd, "d", 1)[0],
-            "SiDead": np.fromfile(fd, "d", 1)[0],
-            "SiThic": np.fromfile(fd, "d", 1)[0],
+            "SpatThic": np.fromfile(fd, "<d", 1)[0],
+            "SiDead": np.fromfile(fd, "<d", 1)[0],
+            "SiThic": np.fromfile(fd, "<d", 1)[0],
         }
 
     hv = footer["Parameters"]["AccKV"]
-- 
2.43.0


From f2b29e1e19e7f940faa9e680764745b9639af50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 51/70] fix: read the scaling of hamamatsu tiff files as
 little-endian on every platform

---
 rsciio/tiff/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 4d8d207..227cbf1 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -727,12 +727,12 @@ def _get_hamamatsu_streak_description(tiff, op):
         xax = np.arange(xlen)
     else:
         fh.seek(x_scale_address, 0)
-        xax = np.fromfile(fh, dtype="f", count=xlen)
+        xax = np.fromfile(fh, dtype="<f4", count=xlen)
     if y_scale_address is None:
         yax = np.arange(ylen)
     else:
         fh.seek(y_scale_address, 0)
-        yax = np.fromfile(fh, dtype="f", count=ylen)
+        yax = np.fromfile(fh, dtype="<f4", count=ylen)
 
     dict_meta["Scaling"]["ScalingXaxis"] = xax
     dict_meta["Scaling"]["ScalingYaxis"] = yax
-- 
2.43.0


From c40a5717eeeb8df9b06677a2176ba7f03d1613ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 52/70] fix: record the byte order of multi-byte data in rpl
 files

---
 rsciio/ripple/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index a56f27f..5081089 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -23,6 +23,7 @@
 
 import logging
 import os.path
+import sys
 from io import StringIO
 
 import numpy as np
@@ -61,7 +62,8 @@ dtype2keys = {
     "int64": ("signed", 8),
 }
 
-endianess2rpl = {"=": "dont-care", "<": "little-endian", ">": "big-endian"}
+endianess2rpl = {"|": "dont-care", "<": "little-endian", ">": "big-endian"}
+endianess2rpl["="] = f"{sys.byteorder}-endian"
 
 # Warning: for selection lists use tuples not lists.
 rpl_keys = {
@@ -520,7 +522,7 @@ def file_writer(filename, signal, encoding="latin-1"):
 
     # Gather the information to write the rpl
     data_type, data_length = dtype2keys[dtype_name]
-    byte_order = endianess2rpl[dc.dtype.byteorder.replace("|", "=")]
+    byte_order = endianess2rpl[dc.dtype.byteorder]
     offset = 0
 
     signal_type = md.get("Signal.signal_type", "")
-- 
2.43.0


From 0b98be031957dec3de8b09d43cec9d302a38fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 53/70] fix: read rpl data without byte order as little-endian
 on every platform

---
 rsciio/ripple/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 5081089..18267c9 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -237,7 +237,8 @@ def read_raw(rpl_info, filename, chunks="auto"):
     elif endian == "little-endian":
         endian = "<"
     else:
-        endian = "="
+        # not specified for multi-byte data: the same on every platform
+        endian = "<"
 
     data_type += str(int(data_length) * 8)
     data_type = np.dtype(data_type)
-- 
2.43.0


From 90341664adff8451e647b98c4c8575917cb3fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 54/70] fix: read big-endian DigitalMicrograph data

---
 rsciio/digitalmicrograph/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 222a817..e46be08 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -595,7 +595,11 @@ class ImageObject(object):
             27: "complex64",  # not numpy: 8-Byte packed complex (FFT data)
             28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
         }
-        return imdtype_dict[self.imdict.ImageData.DataType]
+        dtype = np.dtype(imdtype_dict[self.imdict.ImageData.DataType])
+        # the data are stored in the byte order of the tags
+        return dtype.newbyteorder(
+            {"little": "<", "big": ">"}[self.imdict.ImageData.Data.endian]
+        )
 
     @property
     def signal_type(self):
-- 
2.43.0


From d76ce02f676730b5781acad17724798cf504d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 55/70] fix: do not require h5py for zspy files

---
 rsciio/_hierarchical.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index aba0587..da3e6d9 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -21,7 +21,6 @@ import datetime
 import logging
 import warnings
 
-import h5py
 import numpy as np
 from packaging.version import Version
 
@@ -48,6 +47,8 @@ def flatten_data(x, is_hdf5=False):
         data_ = np.array(x[i]).ravel()
         if np.issubdtype(data_.dtype, np.dtype("U")):
             if is_hdf5:
+                import h5py
+
                 # h5py doesn't support numpy unicode dtype, convert to
                 # compatible dtype
                 new_data[i] = data_.astype(h5py.string_dtype())
@@ -664,10 +665,14 @@ class HierarchicalReader:
 
     @staticmethod
     def _parse_iterable(data):
-        if h5py.check_string_dtype(data.dtype) and hasattr(data, "asstr"):
+        # only h5py datasets have "asstr", h5py is not required to read zspy files
+        if hasattr(data, "asstr"):
+            import h5py
+
             # h5py 3.0 and newer
             # https://docs.h5py.org/en/3.0.0/strings.html
-            data = data.asstr()[:]
+            if h5py.check_string_dtype(data.dtype):
+                data = data.asstr()[:]
         return np.array(data)
 
 
-- 
2.43.0


From bc41790003ceacc66f2df5b96d4933caae69ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 56/70] fix: do not swallow KeyboardInterrupt

---
 rsciio/quantumdetector/_api.py | 4 ++--
 rsciio/utils/_tools.py         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 56b6e1c..c1ee9a9 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -131,14 +131,14 @@ class MIBProperties:
                     self.file_size = f.tell()
                     self.buffer = False
                     self.path = path
-            except BaseException:  # pragma: no cover
+            except Exception:  # pragma: no cover
                 raise RuntimeError("File does not contain MIB header.")
         elif isinstance(path, bytes):
             try:
                 head = path[:384].decode().split(",")
                 self.file_size = len(path)
                 self.buffer = True
-            except BaseException:  # pragma: no cover
+            except Exception:  # pragma: no cover
                 raise RuntimeError("Buffer does not contain MIB header.")
         else:  # pragma: no cover
             raise TypeError("`path` must be a str or a buffer.")
diff --git a/rsciio/utils/_tools.py b/rsciio/utils/_tools.py
index fe7343f..90ee6c8 100644
--- a/rsciio/utils/_tools.py
+++ b/rsciio/utils/_tools.py
@@ -121,7 +121,7 @@ def get_file_handle(data, warn=True):
                 tiff_pages_series = data.dask[arrkey_tifffile][2][0]
             return tiff_pages_series.parent.filehandle._fh
         # can raise IndexError or AttributeError
-        except BaseException:  # pragma: no cover
+        except Exception:  # pragma: no cover
             if warn:
                 _logger.warning(
                     "Failed to retrieve file handle, either the file is "
-- 
2.43.0


From 67da60bab4a39fd3f9d5b9afee389ee8b5fcaa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 57/70] fix: reorder prz metadata after validating it

---
 rsciio/pantarhei/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 86f3dba..2d0f51c 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -288,8 +288,11 @@ def import_pr(data, meta_data, filename=None):
         "size",
         "ref_size",
     ]:
-        if key in meta_data and not isinstance(meta_data[key], (list, tuple)):
-            raise ValueError(f"The metadata entry '{key}' must be a list or a tuple.")
+        if key in meta_data:
+            if not isinstance(meta_data[key], (list, tuple)):
+                raise ValueError(
+                    f"The metadata entry '{key}' must be a list or a tuple."
+                )
             if isinstance(meta_data[key], list):
                 old_meta_data = meta_data[key].copy()
             else:
-- 
2.43.0


From b1ec55b7b2e5850e9a228eb6ecd74700f60ea0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 58/70] fix: describe uncalibrated prz axes completely

---
 rsciio/pantarhei/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 2d0f51c..a2a220b 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -315,6 +315,9 @@ def import_pr(data, meta_data, filename=None):
             "navigate": label in navigation_dimensions,
             "name": label,
             "size": data.shape[i],
+            "units": "",
+            "scale": 1,
+            "offset": 0,
         }
         if calib:
             if "unit" in calib:
-- 
2.43.0


From 9dd86cbecb5770312a36ceed0d1322a31a555197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 59/70] fix: read the tvips acquisition time as UTC

---
 rsciio/tvips/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 22e0d4c..05fc0cd 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -443,7 +443,9 @@ def file_reader(
             }
             for i in range(dim)
         ]
-    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0])
+    dtobj = datetime.fromtimestamp(
+        all_metadata[0]["timestamp"][0], tz=timezone.utc
+    )
     date = dtobj.date().isoformat()
     time = dtobj.time().isoformat()
     current = all_metadata[0]["fcurrent"][0]
-- 
2.43.0


From 672d42a754f5f404e7114dba6f08a48fb9af4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 60/70] fix: match mrc virtual image names to the images

---
 rsciio/mrc/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 1c74705..84c9dd3 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -117,7 +117,7 @@ def find_related_de_files(movie_filename: str):
         return out
 
     # Collect all candidate .mrc files sharing the same timestamp and acquisitionNumber
-    all_mrc = glob.glob(os.path.join(dir_name, f"{prefix}*.mrc"))
+    all_mrc = sorted(glob.glob(os.path.join(dir_name, f"{prefix}*.mrc")))
 
     # Virtual images via regex (supports '<digits>' and 'virt<digits>')
     virtual_images = []
-- 
2.43.0


From f329c2883f02e1f647d2ee07e6709dcfefea1d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 61/70] fix: reject empty impulse heater logs instead of
 reading them forever

---
 rsciio/dens/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/dens/_api.py b/rsciio/dens/_api.py
index a15e7d9..e89154b 100644
--- a/rsciio/dens/_api.py
+++ b/rsciio/dens/_api.py
@@ -59,7 +59,7 @@ def file_reader(filename, lazy=False):
     with open(filename, "rt", encoding="utf-8") as f:
         # Strip leading, empty lines
         line = str(f.readline())
-        while line.strip() == "" and not f.closed:
+        while line != "" and line.strip() == "":
             line = str(f.readline())
         try:
             date, version = line.split("\t")
-- 
2.43.0


From 53e82cbf39575ca92ad13a775380a921f9fe29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 62/70] fix: stop at wdf blocks that are smaller than their
 header

---
 rsciio/renishaw/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 79bf4ce..6737e73 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -534,6 +534,9 @@ class WDFReader(object):
                 )
                 break
             else:
+                if block_size < block_header_size:
+                    _logger.warning(f"{block_name} size ({block_size}) invalid.")
+                    break
                 _logger.debug(f"{block_name}   {block_uid}   {curpos:<{9}}{block_size}")
                 block_info[block_name.replace(" ", "") + "_" + str(block_uid)] = (
                     curpos + block_header_size,
-- 
2.43.0


From 2a2ebaac8955caf745538d3cdd305cb911720d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 63/70] fix: raise an error for truncated ELID files

---
 rsciio/phenom/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/phenom/_api.py b/rsciio/phenom/_api.py
index b017699..65144b3 100644
--- a/rsciio/phenom/_api.py
+++ b/rsciio/phenom/_api.py
@@ -217,9 +217,10 @@ class ElidReader:
     def _read(self, size=1):
         data = self._decompressor.decompress(b"", size)
         while self._decompressor.needs_input:
-            data += self._decompressor.decompress(
-                self._file.read(self._block_size), size - len(data)
-            )
+            block = self._file.read(self._block_size)
+            if not block:
+                raise EOFError("The file is truncated.")
+            data += self._decompressor.decompress(block, size - len(data))
         return data
 
     def _read_bool(self):
-- 
2.43.0


From 35d1b8cd47a66ae93683276496780e89a573d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 64/70] fix: raise an error for cyclic folders in bcf files

---
 rsciio/bruker/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 1da0b71..e173453 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -378,6 +378,8 @@ class SFS_reader:
             for f in range(len(paths)):
                 if paths[f][-1] != -1:
                     paths[f].extend(paths[paths[f][-1]])
+                    if len(paths[f]) > len(paths):
+                        raise ValueError("The folder structure of the file is cyclic.")
         names = [j.name for j in temp_item_list]
         names.append("root")  # temp root item in dictionary
         for p in paths:
-- 
2.43.0


From 4cc36000aed8cceb33dbec46567dbc0f0d4f82b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 65/70] fix: load velox EELS spectrum images lazily when asked
 to

---
 rsciio/emd/_emd_velox.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index cbfe601..143eeda 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -749,7 +749,13 @@ class FeiEMDReader(object):
             axes = []
             eels_dict = {}
             data_node_path = f"EelsSpectrumImage/{bin_id}/Data"
-            data_cube = self.d_grp[data_node_path][:]
+            dataset = self.d_grp[data_node_path]
+            if self.lazy:
+                import dask.array as da
+
+                data_cube = da.from_array(dataset, chunks=dataset.chunks or "auto")
+            else:
+                data_cube = dataset[:]
 
             if data_cube.ndim == 3:
                 data_cube = data_cube.transpose(2, 0, 1)
-- 
2.43.0


From abb1171ddd66e6b50f7aa71c5466eaf0e27fa3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 66/70] fix: accept pathlib.Path in the quantumdetector reader

---
 rsciio/quantumdetector/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index c1ee9a9..bf48336 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -123,6 +123,8 @@ class MIBProperties:
         """
 
         # read the first header from the start of the file or buffer
+        if isinstance(path, Path):
+            path = str(path)
         if isinstance(path, str):
             try:
                 with open(path, "rb") as f:
-- 
2.43.0


From 5081e4fc3239b5470b018762da8e76e380aa9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 67/70] fix: accept pathlib.Path in the usid reader

---
 rsciio/usid/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/usid/_api.py b/rsciio/usid/_api.py
index 8ee3877..0597465 100644
--- a/rsciio/usid/_api.py
+++ b/rsciio/usid/_api.py
@@ -423,8 +423,8 @@ def file_reader(filename, lazy=False, dataset_path=None, ignore_non_uniform_dims
 
     %s
     """
-    if not isinstance(filename, str):
-        raise TypeError("filename should be a string")
+    if not isinstance(filename, (str, os.PathLike)):
+        raise TypeError("filename should be a string or a path")
     if not os.path.isfile(filename):
         raise FileNotFoundError(f"No file found at: {filename}")
 
-- 
2.43.0


From 51a1fa6e9e020ca6dd116309e6b7d5ceabab39e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 68/70] fix: accept pathlib.Path in the mrc reader

---
 rsciio/mrc/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 84c9dd3..8505451 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -498,7 +498,7 @@ def file_reader(
     external_images_names = None
 
     if metadata_file == "auto":
-        if "movie" in filename:
+        if "movie" in str(filename):
             info = find_related_de_files(filename)
             # Populate from related DE files helper
             metadata_file = info.get("info_file")
-- 
2.43.0


From 8240f6be6c352668d433de7efc43ce2be81315ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:21 +0000
Subject: [PATCH 69/70] fix: accept pathlib.Path in the ripple reader

---
 rsciio/ripple/_api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 18267c9..ffc051d 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -294,6 +294,7 @@ def file_reader(
 
     %s
     """
+    filename = str(filename)
     if not rpl_info:
         if filename[-3:] in file_extensions:
             with open(filename, encoding=encoding, errors="replace") as f:
-- 
2.43.0


From a1aa1237e13861d65b868457c9c68d91d0bec88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:40 +0000
Subject: [PATCH 70/70] fix: accept pathlib.Path in the tvips reader

---
 rsciio/tvips/_api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 05fc0cd..528295c 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -270,6 +270,7 @@ def file_reader(
 
     %s
     """
+    filename = str(filename)
     # check whether we start at the first tvips file
     _is_valid_first_tvips_file(filename)
 
-- 
2.43.0

