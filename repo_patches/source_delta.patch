From a4f2b558b2ee0ae71061c3616bff3beb067cb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 01/58] fix: failed custom batch parameter no longer ends the
 batch when errors are ignored

---
 surfalize/batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..4670d00 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -390,6 +390,7 @@ class _CustomParameter:
         except CalculationError as error:
             if not ignore_errors:
                 raise error
+            result = dict()
         return result
 
 
-- 
2.43.0


From 31e996a065e0a7f9e84b3c10270c4a3c7d95be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 02/58] fix: registering a custom batch parameter twice raises
 BatchError instead of AttributeError

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 4670d00..10f9fa8 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -760,7 +760,7 @@ class Batch:
         """
         if isinstance(step, (_Parameter, _CustomParameter)):
             if step.name in {s.name for s in self._steps if isinstance(s, (_Parameter, _CustomParameter))}:
-                raise BatchError(f'The parameter "{step.identifier}" is already registered. Consider giving it an '
+                raise BatchError(f'The parameter "{step.name}" is already registered. Consider giving it an '
                                  f'alternate name using the keyword argument "custom_name".')
         self._steps.append(step)
 
-- 
2.43.0


From f63473db936929088a54ae145d6b7310ad84e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 03/58] fix: a parameter computed while another thread edits
 the surface is not cached as current

---
 surfalize/cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surfalize/cache.py b/surfalize/cache.py
index 8c18d3b..0b95b14 100644
--- a/surfalize/cache.py
+++ b/surfalize/cache.py
@@ -24,16 +24,19 @@ def cache(method):
     def wrapped_method(self, *args, **kwargs):
         # This only work for hashable arguments
         key = (method.__name__, str(args), str(kwargs.items()))
+        # Hold on to the current cache: if another thread edits the data while the value is computed, the cache is
+        # replaced and the outdated value must not end up in the new one
+        method_cache = self._method_cache
         try:
             # Cache hit
-            value = self._method_cache[key]
+            value = method_cache[key]
             #print(f'Cache hit on {method.__name__}')
             return value
         except KeyError:
             # Cache miss
             #print(f'Cache miss on {method.__name__}')
             value = method(self, *args, **kwargs)
-            self._method_cache[key] = value
+            method_cache[key] = value
             return value
 
     return wrapped_method
-- 
2.43.0


From 47ea7389bd74e7716ecfb24bef6b5c585c282b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 04/58] fix: stepheight_level is an operation and must not be
 cached

---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..cfcb35c 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -768,7 +768,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From 6235e0a12735af316558fb4bca31424c8bb2fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 05/58] fix: cropped, zoomed and sliced surfaces and profiles
 no longer share memory with their source

---
 surfalize/profile.py | 4 ++--
 surfalize/surface.py | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..13b405c 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -238,7 +238,7 @@ class Profile(BaseTopography):
         if x0 < 0 or x1 > self.size - 1 or x0 >= x1:
             raise ValueError('Interval is out of bounds!')
 
-        data = self.data[x0:x1 + 1]
+        data = self.data[x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -262,7 +262,7 @@ class Profile(BaseTopography):
         """
         n = self.size
         nn = int(n / factor)
-        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1]
+        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
diff --git a/surfalize/surface.py b/surfalize/surface.py
index cfcb35c..61916a2 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -268,7 +268,8 @@ class Surface(BaseTopography):
                 step_y = item[0].step * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
                 step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+        # Copy the data, since a view would share its memory with this surface
+        return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
@@ -647,7 +648,7 @@ class Surface(BaseTopography):
         xmin = int((nx - w)/2) + 1
         xmax = int(nx - (nx - w)/2) - 1
         
-        rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
+        rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1].copy()
         width_um = (self.width_um * pre_comp_cos + self.height_um * pre_comp_sin) * w / nx
         height_um = (self.width_um * pre_comp_sin + self.height_um * pre_comp_cos) * h / ny
         step_y = height_um / rotated_cropped.shape[0]
@@ -679,7 +680,7 @@ class Surface(BaseTopography):
         """
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
-        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]
+        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -713,7 +714,7 @@ class Surface(BaseTopography):
         if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
             raise ValueError('Box is out of bounds!')
 
-        data = self.data[y0:y1 + 1, x0:x1 + 1]
+        data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From b89b57c56c45edb70ca029a027010e65e472590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 06/58] fix: fill_nonmeasured returns a new object when called
 without inplace on complete data

---
 surfalize/profile.py | 2 +-
 surfalize/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 13b405c..fc62f5a 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -145,7 +145,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 61916a2..49c93bf 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -508,7 +508,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else Surface(self.data.copy(), self.step_x, self.step_y)
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
-- 
2.43.0


From d826bb41fd0b7c2c55dfcd85a060037ce3c4f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 07/58] fix: a bandpass filter that fails halfway no longer
 leaves the topography half filtered

---
 surfalize/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..b0f6411 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -388,7 +388,12 @@ class BaseTopography(CachedInstance):
 
             lowpass_filter = GaussianFilter(filter_type='lowpass', cutoff=cutoff, endeffect_mode=endeffect_mode)
             highpass_filter = GaussianFilter(filter_type='highpass', cutoff=cutoff2, endeffect_mode=endeffect_mode)
-            return highpass_filter(lowpass_filter(self, inplace=inplace), inplace=inplace)
+            # The surface is only changed once both filters have succeeded
+            filtered = highpass_filter(lowpass_filter(self, inplace=False), inplace=False)
+            if inplace:
+                self._set_data(data=filtered._data)
+                return self
+            return filtered
 
         if filter_type == 'lowpass':
             lowpass_filter = GaussianFilter(filter_type='lowpass', cutoff=cutoff, endeffect_mode=endeffect_mode)
-- 
2.43.0


From 20df4fabcf0063a9b25a709b6ca8bf663666c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 08/58] fix: assigning invalid height data leaves the surface
 or profile unchanged

---
 surfalize/profile.py | 3 ++-
 surfalize/surface.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index fc62f5a..557a185 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,8 +84,9 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
+        length_um = (value.shape[0] - 1) * self.step
         self._data = value
-        self.length_um = (value.shape[0] - 1) * self.step
+        self.length_um = length_um
         self.clear_cache()
 
     @property
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 49c93bf..faebbb3 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,9 +139,10 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
+        ny, nx = value.shape
         self._data = value
-        self.width_um = (value.shape[1] - 1) * self.step_x
-        self.height_um = (value.shape[0] - 1) * self.step_y
+        self.width_um = (nx - 1) * self.step_x
+        self.height_um = (ny - 1) * self.step_y
         self.clear_cache()
 
     @property
-- 
2.43.0


From 61de3cc180dc477d6fd42ef44296d6159d1065f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 09/58] fix: modifying the dictionary returned by
 height_parameters no longer changes later results

---
 surfalize/surface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index faebbb3..028665d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -866,8 +866,6 @@ class Surface(BaseTopography):
    
     # Height parameters ################################################################################################
 
-    @cache
-    @no_nonmeasured_points
     def height_parameters(self):
         """
         Calculates the roughness parameters from the height parameter family.
@@ -877,6 +875,12 @@ class Surface(BaseTopography):
         -------
         dict[str: float]
         """
+        # The cached dictionary itself must not be handed out, since it could be modified by the caller
+        return self._height_parameters().copy()
+
+    @cache
+    @no_nonmeasured_points
+    def _height_parameters(self):
         mean = self.data.mean()
         centered_data = self.data - mean
         abs_centered_data = np.abs(centered_data)
-- 
2.43.0


From 290d22cd250c0843e71cbef893d6f97d3dc5991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 10/58] fix: the position of a file-like object is restored
 when reading or writing it fails

---
 surfalize/file/common.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..45fa1d1 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -2,7 +2,7 @@ import struct
 import os
 import io
 import functools
-from contextlib import contextmanager
+from contextlib import contextmanager, suppress
 from pathlib import Path
 import warnings
 import numpy as np
@@ -179,7 +179,14 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
+        try:
+            yield file_or_path
+        except BaseException:
+            # Restore the position also on failure. The original error is the one that should reach the user, so an
+            # error while seeking is not allowed to replace it.
+            with suppress(Exception):
+                file_or_path.seek(current_pos, 0)
+            raise
         file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
-- 
2.43.0


From 113d44fd4793c9b298dc696d748a0f0dd36a8e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 11/58] fix: raw streams that read or write fewer bytes than
 requested no longer lose data

---
 surfalize/file/common.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 45fa1d1..8eea7d4 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -169,6 +169,29 @@ def decode(data, encoding):
         encoding = chardet.detect(data)['encoding']
     return data.decode(encoding)
 
+@contextmanager
+def _complete_raw_io(stream, mode):
+    """
+    Context manager that yields a buffered file object in place of a raw, unbuffered stream. A raw stream is allowed to
+    read or write fewer bytes than requested, which the readers and writers do not expect. The raw stream is never
+    closed.
+    """
+    if 'r' in mode:
+        buffered = io.BufferedReader(stream)
+        try:
+            yield buffered
+        finally:
+            buffered.detach()
+    else:
+        buffer = io.BytesIO()
+        yield buffer
+        remaining = buffer.getbuffer()
+        while remaining:
+            written = stream.write(remaining)
+            if not written:
+                raise OSError('The stream does not accept any more data.')
+            remaining = remaining[written:]
+
 @contextmanager
 def open_file_like(file_or_path, mode='r'):
     """
@@ -180,7 +203,11 @@ def open_file_like(file_or_path, mode='r'):
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
         try:
-            yield file_or_path
+            if isinstance(file_or_path, io.RawIOBase):
+                with _complete_raw_io(file_or_path, mode) as f:
+                    yield f
+            else:
+                yield file_or_path
         except BaseException:
             # Restore the position also on failure. The original error is the one that should reach the user, so an
             # error while seeking is not allowed to replace it.
-- 
2.43.0


From 7b3e1d7997cc08c57c89907ad834a21af5a5d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 12/58] fix: saving to a full disk no longer loses the last
 heights without an error

---
 surfalize/file/common.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 8eea7d4..7a41f6c 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -399,10 +399,9 @@ def read_array(fileobject, dtype, count=-1, offset=0):
     return result
 
 def write_array(data, fileobject):
-    try:
-        data.tofile(fileobject)
-    except io.UnsupportedOperation:
-        fileobject.write(data.tobytes())
+    # ndarray.tofile writes through a duplicated file descriptor and does not report if the final bytes could not be
+    # written, e.g. when the disk is full. Therefore, the array is written through the file object.
+    fileobject.write(data.tobytes())
 
 class RawSurface:
 
-- 
2.43.0


From 5a648967d8d9efd166b84b60cbc2c528d5cf3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 13/58] fix: format detection reads a stream from its current
 position

---
 surfalize/file/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 7a41f6c..d3705a2 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -510,13 +510,14 @@ class FileHandler:
         # loading with the specified file format, we check if the file magic is compatible with another reader
         for magic, reader in self._readers_by_magic.items():
             with open_file_like(self.file, 'rb') as filehandle:
+                start_pos = filehandle.tell()
                 detected_magic = filehandle.read(len(magic))
                 if detected_magic == magic:
                     if self.is_path_like() and reader._suffix != suffix:
                         warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
                                       f'seems to actually be of type {reader._suffix}. Check if the file extensions is '
                                       f'correct. The file was now loaded as {reader._suffix}.')
-                    filehandle.seek(0, 0)
+                    filehandle.seek(start_pos, 0)
                     return reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
 
         # Else, as a last resort, we try all available readers. We are only probing here and silently discard any
-- 
2.43.0


From e729a4a8c72bbecef78bc3099f536b68e3fdfd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 14/58] fix: a stream whose format is found by probing the
 readers is loaded

---
 surfalize/file/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index d3705a2..602de7c 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -527,10 +527,12 @@ class FileHandler:
                 with open_file_like(self.file, 'rb') as filehandle, warnings.catch_warnings():
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
-                # The probing succeeded, so we emit the mismatch warning outside the suppression context
-                warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
-                              f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
-                              f'correct. The file was now loaded as {reader_suffix}.')
+                # The probing succeeded, so we emit the mismatch warning outside the suppression context. A stream has
+                # no suffix that could mismatch.
+                if self.is_path_like():
+                    warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
+                                  f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
+                                  f'correct. The file was now loaded as {reader_suffix}.')
                 return result
             except Exception:
                 pass
-- 
2.43.0


From ffc095492e9aff96469f3dda9d852573618d0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 15/58] fix: probing file formats in several threads does not
 leave warnings suppressed

---
 surfalize/file/common.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 602de7c..fcbc7f5 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -2,6 +2,7 @@ import struct
 import os
 import io
 import functools
+import threading
 from contextlib import contextmanager, suppress
 from pathlib import Path
 import warnings
@@ -218,6 +219,19 @@ def open_file_like(file_or_path, mode='r'):
     else:
         raise TypeError("Expected a file path or file-like object")
 
+_warnings_lock = threading.RLock()
+
+@contextmanager
+def _suppress_warnings():
+    """
+    Context manager that suppresses all warnings. The warning filters are shared by all threads. If several threads
+    loaded files at once without the lock, restoring the filters in a different order than they were saved would leave
+    the warnings suppressed for the rest of the process.
+    """
+    with _warnings_lock, warnings.catch_warnings():
+        warnings.simplefilter('ignore')
+        yield
+
 class FormatFromPrevious:
 
     def __init__(self, previous, dtype):
@@ -524,8 +538,7 @@ class FileHandler:
         # reader that fails, so we also suppress any warnings the probed readers might emit on incompatible data.
         for reader_suffix, reader in self._readers_by_suffix.items():
             try:
-                with open_file_like(self.file, 'rb') as filehandle, warnings.catch_warnings():
-                    warnings.simplefilter('ignore')
+                with open_file_like(self.file, 'rb') as filehandle, _suppress_warnings():
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
                 # The probing succeeded, so we emit the mismatch warning outside the suppression context. A stream has
                 # no suffix that could mismatch.
-- 
2.43.0


From da172bd612cc98ac5f7b5dac4c766653971585c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 16/58] fix: the format argument of save is respected for paths
 and suffixes are case insensitive

---
 surfalize/file/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index fcbc7f5..e82c961 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -556,12 +556,15 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
+        if self.format is not None:
+            suffix = self.format
+        elif self.is_path_like():
             suffix = self.file.suffix
         else:
-            suffix = self.format
+            suffix = None
         if not suffix:
             raise ValueError('No format for the file specified.') from None
+        suffix = suffix.lower()
         if suffix not in self._writers:
             raise UnsupportedFileFormatError(
                 f"File format {suffix} is currently not supported for writing.") from None
-- 
2.43.0


From 25b509f45c438e4f5446035c69e678a69015e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 17/58] fix: surfaces saved in the compressed sur format can be
 loaded again

---
 surfalize/file/sur.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..c592d3c 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -376,6 +376,13 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     comment = comment.encode(encoding)
 
+    compressed_data_size = 0
+    if compressed:
+        uncompressed_data = data.tobytes()
+        compressed_data = zlib.compress(uncompressed_data)
+        # The data block consists of the directory count, one directory and the compressed stream
+        compressed_data_size = 4 + 8 + len(compressed_data)
+
     header = {
         'code': MAGIC_CLASSIC if not compressed else MAGIC_COMPRESSED,
         'format': 0,  # PC Format
@@ -422,7 +429,7 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'year': timestamp.year,
         'week_day': timestamp.weekday(),
         'measurement_duration': 0,
-        'compressed_data_size': 0,
+        'compressed_data_size': compressed_data_size,
         'length_comment': len(comment),
         'length_private': 0,
         'client_zone': 'Exported by surfalize',
@@ -442,8 +449,6 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
         filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
         filehandle.write(compressed_data)
-- 
2.43.0


From afe5e48ca6de4ee6b82680359de62c2504ce407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 18/58] fix: heights in single precision are saved correctly in
 the sur format

---
 surfalize/file/sur.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index c592d3c..1dd4ad5 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -364,9 +364,11 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     INT_DATA_MIN = INT32_MIN + 2
     INT_DATA_MAX = INT32_MAX - 1
-    data_max = np.nanmax(surface.data)
-    data_min = np.nanmin(surface.data)
-    data = ((surface.data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    # The integer range cannot be represented in single precision
+    data = surface.data.astype('float64')
+    data_max = np.nanmax(data)
+    data_min = np.nanmin(data)
+    data = ((data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From ee8aebb1a58f9538b66c9ce8668c3d010ea78efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 19/58] fix: a constant surface with nonmeasured points keeps
 its heights in the sur format

---
 surfalize/file/sur.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index 1dd4ad5..b59631f 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -368,7 +368,8 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
     data = surface.data.astype('float64')
     data_max = np.nanmax(data)
     data_min = np.nanmin(data)
-    data = ((data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    # A surface of constant height has no range to scale by
+    data = ((data - data_min) / ((data_max - data_min) or 1)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From c5ee255a30fc39d5c972d14f7982577a91c5e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 20/58] fix: sflz files with signed integer heights are read
 with the correct offset

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..bd7026b 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -86,7 +86,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
-- 
2.43.0


From 6f1cab5c68977ebc0148a48cd6edce6339b57cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 21/58] fix: heights in single precision are saved correctly in
 the sflz format

---
 surfalize/file/sflz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index bd7026b..b16ef70 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -107,7 +107,8 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
     }
 
     dtype = np.dtype(dtype)
-    data = surface.data
+    # The range of the integer types cannot be represented in single precision
+    data = surface.data.astype('float64')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
-- 
2.43.0


From d9eaa38ca4e15f7e27dae93979f522c15aa31ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 22/58] fix: surfaces with nonmeasured points can be saved in
 the sflz format

---
 surfalize/file/sflz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index b16ef70..82bf032 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -109,6 +109,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
     dtype = np.dtype(dtype)
     # The range of the integer types cannot be represented in single precision
     data = surface.data.astype('float64')
+    if dtype.kind in ['i', 'u'] and not np.isfinite(data).all():
+        # Integer types cannot represent nonmeasured points
+        dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
@@ -118,7 +121,8 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         header['max_value'] = max_val
         dtype_min = np.iinfo(dtype).min
         dtype_max = np.iinfo(dtype).max
-        data_norm = (data - min_val) / (max_val - min_val)
+        # A surface of constant height has no range to scale by
+        data_norm = (data - min_val) / ((max_val - min_val) or 1)
         data = data_norm * (dtype_max - dtype_min) + dtype_min
     else:
         header['scaled'] = False
-- 
2.43.0


From 5ddfb3ba82818959eacce3b2b586aabf43251823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 23/58] fix: sflz files with non-ascii image layer names can be
 loaded again

---
 surfalize/file/sflz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 82bf032..7eeabba 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -149,7 +149,8 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                # The layout encodes strings as utf-8, where a character may take up several bytes
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From 5798984b8af5afcb19d3368056cf4812b6485c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 24/58] fix: heights loaded from sflz and plux files are
 writable

---
 surfalize/file/plux.py | 4 ++--
 surfalize/file/sflz.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 590bd21..591bd20 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -42,10 +42,10 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = float(root.find('GENERAL/FOV_Y').text)
     size = shape_x * shape_y
 
-    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x))
+    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
     if read_image_layers:
-        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
+        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3)).copy()
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
         else:
diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 7eeabba..3f9273d 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -74,7 +74,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
         layer_header = LAYOUT_LAYER_HEADER.read(filehandle)
         compressed_data = filehandle.read(layer_header['size'])
         data = decompress(compressed_data, compression_algorithm)
-        data = np.frombuffer(data, dtype=layer_header['datatype'])
+        data = np.frombuffer(data, dtype=layer_header['datatype']).copy()
         if layer_header['channels'] > 1:
             data = data.reshape(layer_header['height'], layer_header['width'], layer_header['channels'])
         else:
-- 
2.43.0


From 952b9f4734aafee7f0c9c5bc040c4fcc41ce4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 25/58] fix: plux files without an image can be loaded when
 image layers are requested

---
 surfalize/file/plux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 591bd20..1987a20 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -14,6 +14,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     with zipfile.ZipFile(filehandle) as archive:
         contents = archive.namelist()
         data_raw = archive.read(TOPOGRAPHY_FILE_NAME)
+        img_raw = None
         if read_image_layers and IMAGE_FILE_NAME in contents:
             img_raw = archive.read(IMAGE_FILE_NAME)
         xml_metadata = archive.read(XML_METADATA_FILE_NAME)
@@ -44,7 +45,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
 
     data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
-    if read_image_layers:
+    if img_raw is not None:
         img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3)).copy()
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
-- 
2.43.0


From f048efa1de20fda1d82307b1a37c673b4e5242d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 26/58] fix: image layers of nms files that are not square can
 be loaded

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index 3e5a7ea..a822679 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -36,7 +36,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = dy * 1e-3
     image_layers = {}
     if read_image_layers:
-        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, ny)
+        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, nx)
 
     metadata = dict(date=date)
 
-- 
2.43.0


From 9cc5bcd057a4774e3769219aefb6e53224300c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 27/58] fix: surfaces saved in the ascii sdf format can be
 loaded again

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..963620e 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From 6f9b364bfade8d8ff2c360dd558be9911917f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 28/58] fix: loading a fits file that ends within its header
 raises instead of never returning

---
 surfalize/file/fits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1159b58..d833e9e 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,6 +1,6 @@
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'SIMPLE'
 BLOCKSIZE = 2880
@@ -58,6 +58,8 @@ def read_header(filehandle, encoding='auto'):
     header = dict()
     while not has_ended:
         block = filehandle.read(BLOCKSIZE)
+        if not block:
+            raise CorruptedFileError('The file ends before the end of the header.')
         partial_header, has_ended = parse_header_block(decode(block, encoding))
         header.update(partial_header)
     return header
-- 
2.43.0


From 4219f2c8fe7d75d3708d7a46b7f8275d470ad468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 29/58] fix: a fits layer that fills its last block does not
 hide the next layer

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index d833e9e..155e65c 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -94,7 +94,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
             # Skip the remaining blocksize
-            filehandle.seek(BLOCKSIZE - (datasize % BLOCKSIZE), 1)
+            filehandle.seek(-datasize % BLOCKSIZE, 1)
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
 
         if filehandle.tell() >= filesize:
-- 
2.43.0


From 51d97c73d07f6e916024de0edb74425cf08329f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 30/58] fix: loading a truncated gwy file raises instead of
 reading strings beyond its end

---
 surfalize/file/gwy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index b68caab..f687d9f 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -3,7 +3,7 @@ import struct
 import numpy as np
 
 from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
 # This is not specified by the file standard but we nonetheless assume that the name will never be longer than that
@@ -29,6 +29,8 @@ def read_null_terminated_string(filehandle, maxsize=STR_MAX_SIZE, encoding='auto
     i = 0
     while i < maxsize:
         char = filehandle.read(1)
+        if not char:
+            raise CorruptedFileError('The file ends within a string.')
         if char == b'\x00':
             break
         string += char
-- 
2.43.0


From 820caad9afe7a2933545f8bbc18c20b1d06627a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 31/58] fix: x3p files with integer heights can be loaded

---
 surfalize/file/x3p.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 4dcb6e0..23d60d9 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -88,7 +88,8 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
             raise CorruptedFileError('Binary file containing topographical data not found.') from None
 
         with archive.open(bin_path, 'r') as data_file:
-            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * CONVERSION_FACTOR
+            # Integer types would overflow when multiplied by the conversion factor
+            data = read_array(data_file, dtype=dtype).reshape(ny, nx).astype('float64') * CONVERSION_FACTOR
 
         metadata = {}
         if record2 is not None:
-- 
2.43.0


From 81b8c1479bedca391a887a09d14888f8b6daa680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 32/58] fix: requesting example files from a server that does
 not answer raises instead of never returning

---
 surfalize/examples.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/surfalize/examples.py b/surfalize/examples.py
index 0ebd471..96ee8e9 100644
--- a/surfalize/examples.py
+++ b/surfalize/examples.py
@@ -4,12 +4,21 @@ from dataclasses import dataclass
 
 try:
     import requests
-    from requests.exceptions import ConnectionError
+    from requests.exceptions import ConnectionError, Timeout
 except ImportError:
     raise ImportError("Please install requests library to load example files")
 
 EXAMPLE_FILES_URL = "https://api.github.com/repos/fredericjs/surfalize/contents/tests/test_files"
 
+# Time in seconds after which a server that does not answer is given up
+TIMEOUT = 30
+
+def _get(url):
+    try:
+        return requests.get(url, timeout=TIMEOUT)
+    except (ConnectionError, Timeout):
+        raise ConnectionError('Could not connect to github!') from None
+
 
 @dataclass
 class ExampleFile:
@@ -32,10 +41,7 @@ class ExampleFile:
         Surface
         """
         from .surface import Surface
-        try:
-            response = requests.get(self.url)
-        except ConnectionError:
-            raise ConnectionError('Could not connect to github!') from None
+        response = _get(self.url)
         if Path(self.name).suffix:
             format_ = Path(self.name).suffix
         else:
@@ -57,10 +63,7 @@ def list_examples(format=None):
     -------
     list[ExampleFile]
     """
-    try:
-        response = requests.get(EXAMPLE_FILES_URL)
-    except ConnectionError:
-        raise ConnectionError('Could not connect to github!') from None
+    response = _get(EXAMPLE_FILES_URL)
     files = [ExampleFile(f['name'], f['download_url']) for f in response.json()]
     if format is not None:
         files = [f for f in files if Path(f.name).suffix == format]
-- 
2.43.0


From 78dc857e03f0b2fbb75033c18b0e16fc13d0751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 33/58] fix: an error response of the example server is
 reported as such

---
 surfalize/examples.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/examples.py b/surfalize/examples.py
index 96ee8e9..b0cccaa 100644
--- a/surfalize/examples.py
+++ b/surfalize/examples.py
@@ -15,9 +15,12 @@ TIMEOUT = 30
 
 def _get(url):
     try:
-        return requests.get(url, timeout=TIMEOUT)
+        response = requests.get(url, timeout=TIMEOUT)
     except (ConnectionError, Timeout):
         raise ConnectionError('Could not connect to github!') from None
+    # The body of an error response, e.g. when the rate limit is exceeded, is neither a file list nor a file
+    response.raise_for_status()
+    return response
 
 
 @dataclass
-- 
2.43.0


From 9cea6ed1a454849bddbe3d94c1e9ea838b0ed65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 34/58] fix: a single file can be converted to a format other
 than sur

---
 surfalize/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 3b920a6..f853d79 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -200,7 +200,8 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     Convert a file or all files in a directory to another format.
     """
-    if output_path.is_file():
+    # The format of a single file is given by the name it is saved under
+    if input_path.is_file() and output_path.suffix:
         format = output_path.suffix
 
     if format != '.sur' and compressed:
-- 
2.43.0


From a70391d47cea5b8bbcb0195e3d2c560fa783abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 35/58] fix: converting a directory no longer overwrites the
 output of files with the same stem

---
 surfalize/cli.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index f853d79..4a61145 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -226,11 +226,15 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         return
 
     output_path.mkdir(parents=True, exist_ok=True)
-    for input_file in input_path.iterdir():
-        if input_file.is_file() and input_file.suffix in supported_formats_read:
-            out = output_path / (input_file.stem + format)
-            convert_file(input_file, out, skip_image_layers, **kwargs)
-            click.echo(f"Converted {input_file} → {out}")
+    input_files = [file for file in input_path.iterdir()
+                   if file.is_file() and file.suffix in supported_formats_read]
+    stems = [file.stem for file in input_files]
+    for input_file in input_files:
+        # Files that only differ in their suffix must not be converted to the same output file
+        name = input_file.stem if stems.count(input_file.stem) == 1 else input_file.name
+        out = output_path / (name + format)
+        convert_file(input_file, out, skip_image_layers, **kwargs)
+        click.echo(f"Converted {input_file} → {out}")
 
 
 # ---------------------------------------------------------------------
-- 
2.43.0


From d7bb47d454e7499097c58a00f2ad7b789168f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 36/58] fix: converting a directory includes files with an
 upper case suffix

---
 surfalize/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 4a61145..8800e10 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -227,7 +227,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
 
     output_path.mkdir(parents=True, exist_ok=True)
     input_files = [file for file in input_path.iterdir()
-                   if file.is_file() and file.suffix in supported_formats_read]
+                   if file.is_file() and file.suffix.lower() in supported_formats_read]
     stems = [file.stem for file in input_files]
     for input_file in input_files:
         # Files that only differ in their suffix must not be converted to the same output file
-- 
2.43.0


From 7d3cfbd3431ee2e7f238ac6225fa3f09a773e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 37/58] fix: converting a directory no longer overwrites output
 when one file is named like another without its suffix

---
 surfalize/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 8800e10..4627b8c 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -229,9 +229,12 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     input_files = [file for file in input_path.iterdir()
                    if file.is_file() and file.suffix.lower() in supported_formats_read]
     stems = [file.stem for file in input_files]
+    names = [file.name for file in input_files]
     for input_file in input_files:
-        # Files that only differ in their suffix must not be converted to the same output file
-        name = input_file.stem if stems.count(input_file.stem) == 1 else input_file.name
+        # Files that only differ in their suffix must not be converted to the same output file, nor may the name
+        # without suffix be the full name of another file
+        is_unique = stems.count(input_file.stem) == 1 and input_file.stem not in names
+        name = input_file.stem if is_unique else input_file.name
         out = output_path / (name + format)
         convert_file(input_file, out, skip_image_layers, **kwargs)
         click.echo(f"Converted {input_file} → {out}")
-- 
2.43.0


From aca88056a1c5dfb54de1048e51b064f31d9e6e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 38/58] fix: os3d files without an image can be loaded when
 image layers are requested

---
 surfalize/file/os3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/os3d.py b/surfalize/file/os3d.py
index 83d2983..dc06fe5 100644
--- a/surfalize/file/os3d.py
+++ b/surfalize/file/os3d.py
@@ -42,7 +42,7 @@ def read_os3d(filehandle, read_image_layers=False, encoding='utf-8'):
     metadata = header
     metadata['timestamp'] = dateutil.parser.parse(header['chArrayMeasureDateTime'])
 
-    has_image = struct.unpack('b', filehandle.read(1))
+    has_image, = struct.unpack('b', filehandle.read(1))
     image_layers = {}
     if has_image and read_image_layers:
         img_data = io.BytesIO(filehandle.read())
-- 
2.43.0


From 40f4eae39fadcd073ae23bc3c8c84c685cfb6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 39/58] fix: fits layers with a header of more than one block
 are read from the right position

---
 surfalize/file/fits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 155e65c..6ebea9b 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -87,6 +87,8 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
         block = filehandle.read(BLOCKSIZE)
         if block.startswith(b'XTENSION'):
             hdu_header, has_ended = parse_header_block(decode(block, encoding))
+            if not has_ended:
+                hdu_header.update(read_header(filehandle, encoding=encoding))
             if hdu_header['NAXIS'] != 2:
                 raise UnsupportedFileFormatError("Array with number of dimensions not equal to 2 detected.")
             datasize = hdu_header['NAXIS1'] * hdu_header['NAXIS2'] * int(abs(hdu_header['BITPIX'] / 8))
-- 
2.43.0


From 1f1bdcc4967a2d39c3710fc8f4897fe3df3ecc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 40/58] fix: gwy files with untitled channels or with entries
 that belong to no channel can be loaded

---
 surfalize/file/gwy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index f687d9f..f37fc52 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -69,7 +69,7 @@ def _filter_candidates_by_name(tree, candidates, guesses=('height', 'topo')):
     """
     reduced_candidates = []
     for layer_key in candidates:
-        title = tree['GwyContainer'][f'/{layer_key}/data/title'].lower()
+        title = tree['GwyContainer'].get(f'/{layer_key}/data/title', '').lower()
         if any([guess in title for guess in guesses]):
             reduced_candidates.append(layer_key)
     if not reduced_candidates:
@@ -124,7 +124,7 @@ def guess_image_channels(tree, layer_candidates):
 def get_image_related_layer_keys(tree):
     image_related_layers = []
     for key in tree['GwyContainer']:
-        mo = re.search(r'/(\d+)/', key)
+        mo = re.fullmatch(r'/(\d+)/data', key)
         if mo:
             image_related_layers.append(mo.group(1))
     return list(set(image_related_layers))
@@ -256,7 +256,7 @@ def read_gwy(filehandle, read_image_layers=False, encoding='utf-8'):
         image_channel_keys = guess_image_channels(tree, image_related_layers)
         for layer_key in image_channel_keys:
             datafield = tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']
-            title = tree['GwyContainer'][f'/{layer_key}/data/title']
+            title = tree['GwyContainer'].get(f'/{layer_key}/data/title', layer_key)
             img_data = datafield['data']
 
             img_unit_xy = datafield['si_unit_xy']['GwySIUnit']['unitstr']
-- 
2.43.0


From 24c4a6e30674dd7710c94b58e1ed0f7f94ab59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 41/58] fix: the spacing of xyz files is the distance between
 neighbouring points

---
 surfalize/file/xyz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 51f795f..7b9fd52 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -18,8 +18,9 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     ny = y.size
     if nx * ny != raw_data.shape[0]:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
-    step_x = (x.max() - x.min()) / (nx) * 10**6
-    step_y = (y.max() - y.min()) / (ny) * 10**6
+    # n points span n - 1 steps
+    step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
+    step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
     data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From fb6159959dc1ffe5ffe4dd9dcfd34ab5ceacf58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 42/58] fix: xyz files that list their points column by column
 are not scrambled

---
 surfalize/file/xyz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 7b9fd52..4e3ef3f 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -21,6 +21,10 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     # n points span n - 1 steps
     step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
     step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
-    data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
+    if ny > 1 and raw_data[0, 0] == raw_data[1, 0]:
+        # The points are listed column by column
+        data = raw_data[:,2].reshape(nx, ny).T.copy() * 10**6
+    else:
+        data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From 2060771d2fef39f09d3522e5822347addea3596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 43/58] fix: fits files whose header has a history or a value
 with an equals sign can be loaded

---
 surfalize/file/fits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 6ebea9b..e567111 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -37,14 +37,14 @@ def parse_header_block(block):
     header = dict()
     block_ended = False
     for line in lines:
-        if not line or line.startswith('COMMENT'):
+        if not line or line.startswith(('COMMENT', 'HISTORY')):
             continue
         if line == 'END':
             block_ended = True
             break
         if '/' in line:
             line = line.split('/')[0]
-        left, right = line.split('=')
+        left, right = line.split('=', 1)
         left = left.strip()
         right = right.strip()
         if left.startswith('HIERARCH'):
-- 
2.43.0


From f236c1d5cb11fe8d2e9cefa0defdbffb40b6781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:50 +0000
Subject: [PATCH 44/58] =?UTF-8?q?fix:=20gwy=20files=20whose=20heights=20ar?=
 =?UTF-8?q?e=20given=20in=20=C2=B5m=20can=20be=20loaded?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 surfalize/file/gwy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index f37fc52..86717d7 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -2,7 +2,7 @@ import re
 import struct
 import numpy as np
 
-from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
+from .common import get_unit_conversion, RawSurface, FileHandler, read_array, decode
 from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
@@ -43,8 +43,11 @@ def _filter_candidates_by_z_unit_presence(tree, candidates):
     for layer_key in candidates:
         if 'si_unit_z' in tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']:
             unit = tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']['si_unit_z']['GwySIUnit']['unitstr']
-            if unit in UNIT_EXPONENT.keys():
-                reduced_candidates.append(layer_key)
+            try:
+                get_unit_conversion(unit, 'um')
+            except ValueError:
+                continue
+            reduced_candidates.append(layer_key)
     return reduced_candidates
 
 def _filter_candidates_by_name(tree, candidates, guesses=('height', 'topo')):
-- 
2.43.0


From 2574c2af052f529a1e2a9b42bd5374768982fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 45/58] fix: tmd files are read from the position of the stream

---
 surfalize/file/tmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 731535e..c703af9 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -20,10 +20,11 @@ HEADER_LAYOUT = Layout(
 
 @FileHandler.register_reader(suffix='.tmd', magic=MAGIC)
 def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
+    start = filehandle.tell()
     magic = filehandle.read(len(MAGIC))
     if magic != MAGIC:
         raise CorruptedFileError('Incorrect file magic detected.')
-    filehandle.seek(0)
+    filehandle.seek(start)
     header = HEADER_LAYOUT.read(filehandle)
     data = read_array(filehandle, dtype=DTYPE)
     if data.size != header['height'] * header['width']:
-- 
2.43.0


From 94e5b7a41dd8b31842f7880ede3ead3483dc938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 46/58] fix: al3d files are written at and read from the
 position of the stream

---
 surfalize/file/al3d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/al3d.py b/surfalize/file/al3d.py
index 7857396..7665a09 100644
--- a/surfalize/file/al3d.py
+++ b/surfalize/file/al3d.py
@@ -35,10 +35,11 @@ def write_al3d(filehandle, surface, encoding='utf-8'):
     header['Rows'] = surface.size.y
     header['TextureImageOffset'] = 0
 
+    start = filehandle.tell()
     filehandle.write(MAGIC)
     for key, value in header.items():
         write_tag(filehandle, key, value, encoding=encoding)
-    pos = filehandle.tell()
+    pos = filehandle.tell() - start
     n_padding = header['DepthImageOffset'] - pos - 2
     filehandle.write(b'\x00' * n_padding + b'\r\n')
     data = surface.data.astype(DTYPE) * 1e-6
@@ -46,6 +47,7 @@ def write_al3d(filehandle, surface, encoding='utf-8'):
 
 @FileHandler.register_reader(suffix='.al3d', magic=MAGIC)
 def read_al3d(filehandle, read_image_layers=False, encoding='utf-8'):
+    start = filehandle.tell()
     magic = filehandle.read(17)
     if magic != MAGIC:
         raise CorruptedFileError('Incompatible file magic detected.')
@@ -69,7 +71,7 @@ def read_al3d(filehandle, read_image_layers=False, encoding='utf-8'):
     step_x = float(header['PixelSizeXMeter']) * 1e6
     step_y = float(header['PixelSizeYMeter']) * 1e6
     offset = int(header['DepthImageOffset'])
-    filehandle.seek(offset)
+    filehandle.seek(start + offset)
     data = read_array(filehandle, dtype=np.float32, count=nx * ny, offset=0).reshape(ny, nx)
 
     invalidValue = float(header['InvalidPixelValue'])
-- 
2.43.0


From 5bfcd988d1acd1e4272ceba1b9b24ee1a01ad4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 47/58] fix: surfaces saved in the tmd format with a non-ascii
 comment can be loaded again

---
 surfalize/file/tmd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index c703af9..dfc4a93 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -37,11 +37,13 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
 
 @FileHandler.register_writer(suffix='.tmd')
 def write_tmd(filehandle, surface, encoding='utf-8', comment='Exported by surfalize'):
-    if len(comment) > COMMENT_LEN:
+    # The length of the field is given in bytes
+    n_comment = len(comment.encode(encoding))
+    if n_comment > COMMENT_LEN:
         raise ValueError(f'Comment has too many characters. Maximum number allows is {COMMENT_LEN}')
     header = {
         'header': decode(MAGIC, encoding) + LINE_TERMINATION,
-        'comment': comment + ' ' * (COMMENT_LEN - len(comment)) + LINE_TERMINATION,
+        'comment': comment + ' ' * (COMMENT_LEN - n_comment) + LINE_TERMINATION,
         'width': surface.size.x,
         'height': surface.size.y,
         'length_x': surface.size.x * surface.step_x,
-- 
2.43.0


From a456a7127312983e877daf2114d9e236669b7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 48/58] fix: fits, nms, opd, vk and zmg files are read from the
 position of the stream

---
 surfalize/file/fits.py |  3 ++-
 surfalize/file/nms.py  | 11 ++++++-----
 surfalize/file/opd.py  |  3 ++-
 surfalize/file/vk.py   |  3 +++
 surfalize/file/zmg.py  |  3 ++-
 5 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index e567111..587cb09 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -75,11 +75,12 @@ def get_file_size(filehandle):
 def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     filesize = get_file_size(filehandle)
 
+    start = filehandle.tell()
     magic = filehandle.read(len(MAGIC))
     if magic != MAGIC:
         raise FileFormatError("Invalid file magic detected.")
 
-    filehandle.seek(0)
+    filehandle.seek(start)
     header = read_header(filehandle, encoding=encoding)
 
     layers = dict()
diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index a822679..b2fa3f3 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -16,15 +16,16 @@ DTYPE_IMG = np.uint8
 
 @FileHandler.register_reader(suffix='.nms')
 def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
-    filehandle.seek(OFFSET_Z, 0)
+    start = filehandle.tell()
+    filehandle.seek(start + OFFSET_Z, 0)
     zmin, zmax = struct.unpack('<2d', filehandle.read(16))
-    filehandle.seek(OFFSET_DATE, 0)
+    filehandle.seek(start + OFFSET_DATE, 0)
     date = dateutil.parser.parse(decode(filehandle.read(16), encoding))
-    filehandle.seek(OFFSET_POINTS, 0)
+    filehandle.seek(start + OFFSET_POINTS, 0)
     nx, ny = struct.unpack('<2I', filehandle.read(8))
-    filehandle.seek(OFFSET_SPACING, 0)
+    filehandle.seek(start + OFFSET_SPACING, 0)
     dx, dy = struct.unpack('<2d', filehandle.read(16))
-    filehandle.seek(HEADER_SIZE, 0)
+    filehandle.seek(start + HEADER_SIZE, 0)
 
     data = read_array(filehandle, dtype=DTYPE_HEIGHT, count=nx * ny)
     #nonmeasured_points_mask = (data == 0)
diff --git a/surfalize/file/opd.py b/surfalize/file/opd.py
index 9bf909e..dfa2ac1 100644
--- a/surfalize/file/opd.py
+++ b/surfalize/file/opd.py
@@ -84,11 +84,12 @@ def read_block_definition(filehandle, encoding='utf-8'):
 
 @FileHandler.register_reader(suffix='.opd', magic=MAGIC)
 def read_opd(filehandle, read_image_layers=False, encoding='utf-8'):
+    start = filehandle.tell()
     magic = filehandle.read(len(MAGIC))
     if magic != MAGIC:
         raise CorruptedFileError('Magic was not recognized.')
     # We need to jump back because we use the name of the directory block as part of the file magic
-    filehandle.seek(2, 0)
+    filehandle.seek(start + 2, 0)
 
     name, directory_block = read_block_definition(filehandle, encoding=encoding)
     if name != 'Directory':
diff --git a/surfalize/file/vk.py b/surfalize/file/vk.py
index b8464dd..785e36b 100644
--- a/surfalize/file/vk.py
+++ b/surfalize/file/vk.py
@@ -158,8 +158,11 @@ def read_string_data(filehandle, offset, encoding='auto'):
 @FileHandler.register_reader(suffix='.vk4', magic=b'VK4_')
 def read_vk4(filehandle, read_image_layers=False, encoding='auto'):
     metadata = dict()
+    start = filehandle.tell()
     header = filehandle.read(HEADER_SIZE)
     offset_table = LAYOUT_OFFSET_TABLE.read(filehandle)
+    # The offsets are counted from the beginning of the file
+    offset_table = {name: start + offset for name, offset in offset_table.items()}
     filehandle.seek(offset_table['meas_conds'], 0)
     measurement_conditions = LAYOUT_MEASUREMENT_CONDITIONS.read(filehandle)
 
diff --git a/surfalize/file/zmg.py b/surfalize/file/zmg.py
index e75b27b..f1d67ec 100644
--- a/surfalize/file/zmg.py
+++ b/surfalize/file/zmg.py
@@ -19,10 +19,11 @@ LAYOUT_HEADER = Layout(
 
 @FileHandler.register_reader(suffix='.zmg', magic=MAGIC)
 def read_zmg(filehandle, read_image_layers=False, encoding='utf-8'):
+    start = filehandle.tell()
     detected_magic = filehandle.read(len(MAGIC))
     if detected_magic != MAGIC:
         raise CorruptedFileError('Wrong magic detected!')
-    filehandle.seek(0, 0)
+    filehandle.seek(start, 0)
     header = LAYOUT_HEADER.read(filehandle, encoding=encoding)
     filehandle.seek(header['comment_size'], 1)
     data_length = header['res_x'] * header['res_y']
-- 
2.43.0


From 417d89c9768ffd0302e09f7d1179e14964b695d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:52 +0000
Subject: [PATCH 49/58] fix: a batch made from a directory includes files with
 an upper case suffix

---
 surfalize/batch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 10f9fa8..d496279 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -2,6 +2,7 @@ import inspect
 import io
 from multiprocessing.pool import ThreadPool
 from functools import partial
+from fnmatch import fnmatchcase
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Optional
@@ -449,6 +450,10 @@ def _task(file, steps, ignore_errors, preserve_chaining_order):
             results.update(result)
     return results
 
+def _find_files(dir_path, extension):
+    # The case of file extensions is ignored, as it is when a file is loaded
+    return [path for path in dir_path.glob('*') if fnmatchcase(path.name.lower(), f'*{extension.lower()}')]
+
 #TODO batch image export
 class Batch:
     """
@@ -610,7 +615,7 @@ class Batch:
         elif isinstance(file_extensions, str):
             file_extensions = [file_extensions]
         for extension in file_extensions:
-            filepaths.extend(list(dir_path.glob(f'*{extension}')))
+            filepaths.extend(_find_files(dir_path, extension))
         return cls(filepaths, additional_data=additional_data)
 
     def add_files(self, files):
@@ -659,7 +664,7 @@ class Batch:
         elif isinstance(file_extensions, str):
             file_extensions = [file_extensions]
         for extension in file_extensions:
-            self._files.extend(list(dir_path.glob(f'*{extension}')))
+            self._files.extend(_find_files(dir_path, extension))
         return self
 
     def _disptach_tasks(self, multiprocessing=True, ignore_errors=True, on_file_complete=None,
-- 
2.43.0


From 2bf4e4529d3ab129fb305cd1c9c3dc7768376e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 50/58] fix: a step that raises StopIteration no longer ends
 the batch without an error

---
 surfalize/batch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index d496279..7363b05 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -450,6 +450,14 @@ def _task(file, steps, ignore_errors, preserve_chaining_order):
             results.update(result)
     return results
 
+def _pool_task(file, **kwargs):
+    try:
+        return _task(file, **kwargs)
+    except StopIteration as error:
+        # The pool hands out the results through an iterator, which a StopIteration would end as if there were no more
+        # files
+        raise RuntimeError('A step of the batch raised StopIteration.') from error
+
 def _find_files(dir_path, extension):
     # The case of file extensions is ignored, as it is when a file is loaded
     return [path for path in dir_path.glob('*') if fnmatchcase(path.name.lower(), f'*{extension.lower()}')]
@@ -708,7 +716,7 @@ class Batch:
         results = []
         if multiprocessing:
             with ThreadPool() as pool:
-                task = partial(_task, steps=self._steps, ignore_errors=ignore_errors,
+                task = partial(_pool_task, steps=self._steps, ignore_errors=ignore_errors,
                                preserve_chaining_order=preserve_chaining_order)
                 with tqdm(total=len(self._files), desc='Processing files') as progress_bar:
                     for result in pool.imap_unordered(task, self._files):
-- 
2.43.0


From 82f66d1d4901a35b87b24a71b2f0766e32a342fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 51/58] fix: a step that raises SystemExit no longer makes the
 batch wait forever

---
 surfalize/batch.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 7363b05..479fb99 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -451,12 +451,12 @@ def _task(file, steps, ignore_errors, preserve_chaining_order):
     return results
 
 def _pool_task(file, **kwargs):
+    # The error is returned and raised by the caller of the pool: the pool would take a StopIteration for the end of the
+    # results and would never deliver a result for a file whose worker ended with SystemExit or KeyboardInterrupt.
     try:
-        return _task(file, **kwargs)
-    except StopIteration as error:
-        # The pool hands out the results through an iterator, which a StopIteration would end as if there were no more
-        # files
-        raise RuntimeError('A step of the batch raised StopIteration.') from error
+        return _task(file, **kwargs), None
+    except BaseException as error:
+        return None, error
 
 def _find_files(dir_path, extension):
     # The case of file extensions is ignored, as it is when a file is loaded
@@ -719,7 +719,9 @@ class Batch:
                 task = partial(_pool_task, steps=self._steps, ignore_errors=ignore_errors,
                                preserve_chaining_order=preserve_chaining_order)
                 with tqdm(total=len(self._files), desc='Processing files') as progress_bar:
-                    for result in pool.imap_unordered(task, self._files):
+                    for result, error in pool.imap_unordered(task, self._files):
+                        if error is not None:
+                            raise error
                         results.append(result)
                         if on_file_complete is not None:
                             on_file_complete(result)
-- 
2.43.0


From 97878d57cc1a3ad1f67f5737ef7a320ee104b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 52/58] fix: the report of a directory includes files with an
 upper case suffix

---
 surfalize/cli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 4627b8c..e482238 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -260,9 +260,8 @@ def report(input_path, open_after, periodic_parameters, **kwargs):
     input_path = Path(input_path).absolute()
 
     if input_path.is_dir():
-        files = []
-        for ext in supported_formats_read:
-            files.extend(input_path.glob(f'*{ext}'))
+        files = [file for file in input_path.iterdir()
+                 if file.is_file() and file.suffix.lower() in supported_formats_read]
     else:
         files = [input_path]
 
-- 
2.43.0


From 19b4ca974bb073df412c3f6f4e65fd172fee4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 53/58] fix: the image layers of a gwy file no longer depend on
 the hash seed

---
 surfalize/file/gwy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 86717d7..641a8f5 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -130,7 +130,7 @@ def get_image_related_layer_keys(tree):
         mo = re.fullmatch(r'/(\d+)/data', key)
         if mo:
             image_related_layers.append(mo.group(1))
-    return list(set(image_related_layers))
+    return image_related_layers
 
 
 class Container:
@@ -269,6 +269,9 @@ def read_gwy(filehandle, read_image_layers=False, encoding='utf-8'):
             if img_nx != nx or img_ny != ny or img_unit_xy != unit_xy:
                 continue
 
+            # Several channels can have the same title
+            if title in image_layers:
+                title = f'{title} ({layer_key})'
             image_layers[title] = img_data.reshape(ny, nx)
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=image_layers)
-- 
2.43.0


From 2f7c1bc158b1850ef01be130c478ff83b9e4bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 54/58] fix: measurements of an archive get their original file
 names on every system

---
 surfalize/file/cag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 364fabf..5abe6a2 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -1,11 +1,13 @@
 import re
-from pathlib import Path
+from pathlib import Path, PureWindowsPath
+from xml.sax.saxutils import unescape
 import zipfile
 
 def parse_idx_table(idx_table_str):
     file_ids = re.findall(r'<Path>(.+)</Path>', idx_table_str)
     file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)
-    file_names = [Path(file_path).name for file_path in file_paths]
+    # The table is XML and its paths are those of the Windows system on which the archive was created
+    file_names = [PureWindowsPath(unescape(file_path)).name for file_path in file_paths]
     file_dict = dict(zip(file_ids, file_names))
     return file_dict
 
-- 
2.43.0


From 489c4bfb50579376fbfa715a022ec67e9e55d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 55/58] fix: measurements of the same name in an archive no
 longer overwrite each other

---
 surfalize/file/cag.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 5abe6a2..739b2ea 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -21,7 +21,7 @@ def extract_cag(filepath, target=None):
     with zipfile.ZipFile(filepath, 'r') as zip_ref:
         idx_table = None
         file_list = zip_ref.infolist()
-        vk_files = []
+        written = set()
         for file_name in file_list:
             with zip_ref.open(file_name) as file:
                 magic = file.read(5)
@@ -35,5 +35,13 @@ def extract_cag(filepath, target=None):
                             with p.open() as xmlfile:
                                 idx_table = parse_idx_table(xmlfile.read())
                 file.seek(0)
-                with open(target / idx_table[file_id], 'wb') as target_file:
+                file_name = idx_table[file_id]
+                # Several measurements can have the same name
+                number = 1
+                while file_name in written or (number > 1 and file_name in idx_table.values()):
+                    number += 1
+                    original = Path(idx_table[file_id])
+                    file_name = f'{original.stem} ({number}){original.suffix}'
+                written.add(file_name)
+                with open(target / file_name, 'wb') as target_file:
                     target_file.write(file.read())
\ No newline at end of file
-- 
2.43.0


From 72b167e03ed21d9e4dbff333762428f36e694d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 56/58] fix: extracting several archives into one new directory
 at once no longer fails

---
 surfalize/file/cag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 739b2ea..449cdf5 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -17,7 +17,7 @@ def extract_cag(filepath, target=None):
     else:
         target = Path(target)
         if not target.exists():
-            target.mkdir()
+            target.mkdir(exist_ok=True)
     with zipfile.ZipFile(filepath, 'r') as zip_ref:
         idx_table = None
         file_list = zip_ref.infolist()
-- 
2.43.0


From 47e03115c08e0c22bd0958755e9e6c351f3a7cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:03 +0000
Subject: [PATCH 57/58] fix: a failed batch execution leaves no worker behind
 that still reads from the caller's streams

---
 surfalize/batch.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 479fb99..31c0488 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,6 +1,7 @@
 import inspect
 import io
 from multiprocessing.pool import ThreadPool
+from contextlib import contextmanager
 from functools import partial
 from fnmatch import fnmatchcase
 from dataclasses import dataclass
@@ -458,6 +459,17 @@ def _pool_task(file, **kwargs):
     except BaseException as error:
         return None, error
 
+@contextmanager
+def _thread_pool():
+    # When an error ends the execution, workers can still be busy with a file. They have to be waited for since they
+    # read from the streams of the caller, who may use these again as soon as the execution has ended.
+    pool = ThreadPool()
+    try:
+        yield pool
+    finally:
+        pool.terminate()
+        pool.join()
+
 def _find_files(dir_path, extension):
     # The case of file extensions is ignored, as it is when a file is loaded
     return [path for path in dir_path.glob('*') if fnmatchcase(path.name.lower(), f'*{extension.lower()}')]
@@ -715,7 +727,7 @@ class Batch:
         """
         results = []
         if multiprocessing:
-            with ThreadPool() as pool:
+            with _thread_pool() as pool:
                 task = partial(_pool_task, steps=self._steps, ignore_errors=ignore_errors,
                                preserve_chaining_order=preserve_chaining_order)
                 with tqdm(total=len(self._files), desc='Processing files') as progress_bar:
-- 
2.43.0


From 9183dd0c9f434b12f00d246e8c783fc1112069be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:35 +0000
Subject: [PATCH 58/58] fix: the 2d plot of a surface with missing points draws
 nothing into other axes or figures

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 028665d..be9d6dd 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -10,6 +10,7 @@ from collections import namedtuple
 # Scipy stack
 import numpy as np
 import matplotlib.pyplot as plt
+from matplotlib.lines import Line2D
 from matplotlib.patches import Rectangle
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 from scipy.linalg import lstsq
@@ -1777,7 +1778,7 @@ class Surface(BaseTopography):
         ax.set_xlabel('x [µm]')
         ax.set_ylabel('y [µm]')
         if layer == 'Topography' and self.has_missing_points:
-            handles = [plt.plot([], [], marker='s', c=maskcolor, ls='')[0]]
+            handles = [Line2D([], [], marker='s', c=maskcolor, ls='')]
             ax.legend(handles, ['non-measured points'], loc='lower right', fancybox=False, framealpha=1, fontsize=6)
         if save_to:
             fig.savefig(save_to, dpi=300, bbox_inches='tight')
-- 
2.43.0

