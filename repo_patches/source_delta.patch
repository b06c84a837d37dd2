From d48803695715f86d9bee6c52149d2af00ac7776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 01/69] fix: literal codec must encode repr, or strings do not
 decode

---
 dustgoggles/codex/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..e306945 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -40,7 +40,7 @@ def ast_codec_factory():
     Python literals than using JSON serialization, but is much slower.
     """
     def encode(value: Any) -> bytes:
-        return str(value).encode()
+        return repr(value).encode()
 
     def decode(blob: bytes) -> Any:
         return ast.literal_eval(blob.decode())
-- 
2.43.0


From f004ffe3d7a67f5818ae5dbc45306e331b0e0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 02/69] fix: delete_block(missing_ok=True) must tolerate a
 missing block

---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..a417b92 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -49,7 +49,7 @@ def delete_block(address: str, missing_ok=False):
         block = SharedMemory(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From 090d1c7cead33a1ebd8ca9d245c0b6ba7608ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 03/69] fix: deactivated resource tracker must still track
 other resource types

---
 dustgoggles/codex/memutilz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index a417b92..bf3da97 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -84,14 +84,14 @@ def deactivate_shared_memory_resource_tracker():
     def fix_register(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.register(self, name, rtype)
+        return resource_tracker._resource_tracker.register(name, rtype)
     resource_tracker.register = fix_register
 
     # noinspection PyUnresolvedReferences
     def fix_unregister(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.unregister(self, name, rtype)
+        return resource_tracker._resource_tracker.unregister(name, rtype)
     resource_tracker.unregister = fix_unregister
 
     if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
-- 
2.43.0


From c7974389737a2eefa83dedce51a01703fe7184d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 04/69] fix: deleting from a locked MetaTagIndex deadlocked on
 its own lock

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..ba8d52e 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -583,7 +583,7 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            found_at = self._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 9d83340edfc488bb3ed20f13779c6bf0e6a62ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 05/69] fix: GridPaper.clear treated its key list as a mapping

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index ba8d52e..28eb400 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -921,7 +921,7 @@ class GridPaper(AbstractNotepad):
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
+        for key in self.update_index():
             del self[key]
 
     def __str__(self):
-- 
2.43.0


From d7e98e021c5ff4074b55f221e530a7ea0d9bf1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 06/69] fix: Notepad reads of absent keys must raise KeyError,
 and None is a value

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 28eb400..83dec13 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -747,10 +747,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not found in this object's space.")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From 019df2fabd7c6d4b017ff8825b6ced86314a6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 07/69] fix: a Notepad set that fails must not leave its key in
 the index

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 83dec13..c5972e0 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -762,8 +762,8 @@ class Notepad(AbstractNotepad):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
         try:
-            self.index.add(key, meta, exists_ok=exists_ok)
             self.memorize(value, self.address(key), exists_ok)
+            self.index.add(key, meta, exists_ok=exists_ok)
             if self.debug is True:
                 log(f"{here()},,set key={key} to {value}")
         except FileExistsError:
-- 
2.43.0


From a78e948a845305fe822cc6b12aaab47c5d85e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 08/69] fix: re-sticking an object of another encoded size
 raised

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c5972e0..0245915 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -987,7 +987,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From 9b07aa09b4b3e1eca965e5e19a9689bc0a12e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 09/69] fix: array mnemonic exists_ok, growing overwrites, and
 0-d and empty arrays

---
 dustgoggles/codex/codecs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index e306945..a2d6e32 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,11 +133,17 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        if (exists_ok is False) and exists_block(address):
+            raise FileExistsError
+        # shared memory blocks cannot be empty
+        size = max(array.size * array.itemsize, 1)
+        block = open_block(address, size)
+        if block.size < size:
+            block = open_block(address, size, overwrite=True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
             "dtype": array.dtype.str,
-- 
2.43.0


From 5299384ce3da7aa93f5aa8b778726ebaabe7b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 10/69] fix: GridPaper reads with fetch=False raised instead of
 returning the block

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0245915..70ac05b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -849,6 +849,8 @@ class GridPaper(AbstractNotepad):
 
     def __getitem__(self, key, fetch=True, copy=True):
         try:
+            if fetch is False:
+                return self.remember(self.index[key], fetch)
             result, block = self.remember(self.index[key], fetch, copy)
             if copy is False:
                 self._open_blocks.append(block)
-- 
2.43.0


From b3dd676332ce33d20c4d33e7fe6dca7b61520d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 11/69] fix: deleting a reserved key destroyed the index's own
 blocks

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 70ac05b..95added 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -776,8 +776,8 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
@@ -902,8 +902,8 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-- 
2.43.0


From 27adb249a8d489643aba86c41da0552b2a4a84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 12/69] fix: get_from must return the default for missing
 non-string keys

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..ceff34f 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -154,7 +154,7 @@ def get_from(collection, keys, default=None):
     for key in keys:
         try:
             level = getitemattr(level, key)
-        except AttributeError:
+        except (AttributeError, TypeError):
             return default
     return level
 
-- 
2.43.0


From 71053379afdba1a17c0b519189c9bc470521dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 13/69] fix: rmerge dropped custom mapping types below the top
 level

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index ceff34f..ef4901c 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -306,7 +306,7 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]])
+            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
         else:
             output[kv[0]] = map2[kv[0]]
     return output
-- 
2.43.0


From 17c28e5cb49fc7a61fa1b4c77d7927916fbc2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 14/69] fix: dig_for searched depth-first, contrary to its
 documentation

---
 dustgoggles/structures.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index ef4901c..a3c88b8 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -229,18 +229,16 @@ def dig_for(mapping, predicate, mtypes):
     """
     return the first item, using a breadth-first search, matching ref
     """
-    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
-    if level_items:
-        return level_items
-    if not nests:
-        return None
-    dug, iternests = None, iter(nests)
-    while dug is None:
-        try:
-            dug = dig_for(next(iternests), predicate, mtypes)
-        except StopIteration:
-            return None
-    return dug
+    level = [mapping]
+    while level:
+        next_level = []
+        for nest in level:
+            level_items, nests = _evaluate_diglevel(nest, predicate, mtypes)
+            if level_items:
+                return level_items
+            next_level += nests
+        level = next_level
+    return None
 
 
 def dig_wrapper(mapping, ref, match, base_pred, element_ix, mtypes):
-- 
2.43.0


From d84f8d4851012959812263a1b7a4fb94cd06cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 15/69] fix: MaybePool results after a chunked map were
 unpacked as chunks

---
 dustgoggles/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index a3c88b8..5fb5f62 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -375,6 +375,7 @@ class MaybePool:
             rec['args'] = rec.get('args', ())
             rec['kwargs'] = rec.get('kwargs', {})
         if (as_chunks is False) or (self.pool is None):
+            self.chunked = False
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
-- 
2.43.0


From 7231ef97f871b91ecd263b489e46d0107cacf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 16/69] fix: scraping text that looks like an impossible
 literal raised

---
 dustgoggles/scrape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..542bae8 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,10 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        # all the exceptions literal_eval can raise on malformed input
+        except (
+            ValueError, SyntaxError, TypeError, MemoryError, RecursionError
+        ):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From 35aacd8e8a7152cafb16ea34811f3d727cfc505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 17/69] fix: scrape_subframe failed on zero-padded integers and
 single values

---
 dustgoggles/scrape.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 542bae8..c9ac47f 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -55,8 +55,9 @@ def scrape_subframe(label_text: str) -> tuple:
     total lines, total line samples
     if image is not subframed, should be (1, 1, 1200, 1648)
     """
-    return literal_eval(
-        ",".join(
+    return tuple(
+        map(
+            int,
             re.findall(r"\d+", re.search(SUBFRAME_GROUP, label_text).group())
         )
     )
-- 
2.43.0


From 9d8ff2d7afccee2d2e92b8d74f40659d627e475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 18/69] fix: a Tracker dump that cannot be serialized corrupted
 the log file

---
 dustgoggles/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index 4c4074b..b62c609 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -82,6 +82,8 @@ class Tracker(TrivialTracker):
         self.log["write_timestamp"] = dt.datetime.now().isoformat()
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
+        # serialize before touching the file: a failure must not corrupt it
+        serialized = json.dumps(self.log, indent=2).encode('utf-8')
         mode = "rb+" if self.outpath.exists() else "wb"
         with self.outpath.open(mode) as stream:
             if mode == "rb+":
@@ -89,7 +91,7 @@ class Tracker(TrivialTracker):
                 stream.write(b",\n")
             else:
                 stream.write(b"[")
-            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))
+            stream.write(serialized)
             stream.write(b"]")
 
     _paused = False
-- 
2.43.0


From 30763e046b883b3422ef9cac63bd77deee4f2cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 19/69] fix: downcast of zeros and non-finite values returned a
 bare array

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 382d9cd..ded7d4f 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -209,7 +209,7 @@ def downcast(
     if arr_nzero.size == 0 and not has_nonfinite:
         return _maybeseries(arr, np.uint8, library, name, 0, 0)
     elif arr_nzero.size == 0 and use_nillable_int is False:
-        return arr.astype(np.float16)
+        return _maybeseries(arr, np.float16, library, name, 0, 0)
     elif arr_nzero.size == 0:
         return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
     amin, amax = arr_finite.min(), arr_finite.max()
-- 
2.43.0


From 46cb982f0438fac75943a8e9650810e90a1490a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 20/69] fix: downcast chose integer types that overflow at
 2**32, 2**63, 2**64

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index ded7d4f..bf46adc 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -149,6 +149,9 @@ def check_in_dtype_bounds(
     amin: Union[int, float], amax: Union[int, float], dt: np.dtype
 ):
     info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)
+    if dt.kind in 'iu':
+        # numpy would round the bounds to the precision of amin / amax
+        amin, amax = map(itemize_numpy, (amin, amax))
     try:
         return bool(amin >= info.min and amax <= info.max)
     except TypeError:  # just too big!
-- 
2.43.0


From 7033b67a6b32b24b315d18bc9563f4e69f74ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 21/69] fix: downcast_df lost the row labels and misaligned its
 columns

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index bf46adc..268a6d0 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -261,9 +261,9 @@ def downcast_df(
         if not is_numeric_dtype(col.dtype):
             cast_series.append(col if copy_all is False else col.copy())
             continue
-        cast_series.append(
-            downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
-        )
+        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
+        recast.index = df.index
+        cast_series.append(recast)
     if reassemble is True:
         return pd.concat(cast_series, axis=1)
     return cast_series
-- 
2.43.0


From 6945611e530f614542f655b1a5103f2c0c5b5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 22/69] fix: check_and_drop_duplicate_columns compared each
 column with itself

---
 dustgoggles/pivot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 268a6d0..8728411 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -50,9 +50,13 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     if len(extra_columns) == 0:
         return dataframe
     for column in extra_columns:
-        test_equality = dataframe.loc[:, column] == dataframe.loc[:, column]
-        if not test_equality.all(axis=None):
-            raise ValueError
+        block = dataframe.loc[:, column]
+        for ix in range(1, block.shape[1]):
+            first, other = block.iloc[:, 0], block.iloc[:, ix]
+            test_equality = (first == other).fillna(False)
+            test_equality |= first.isna() & other.isna()
+            if not test_equality.all():
+                raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
-- 
2.43.0


From 2c0a2896aec34ed8487d5c945c202f8f29e5ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 23/69] fix: extract_constants returned missing or wrong-axis
 constant values

---
 dustgoggles/pivot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 8728411..4c3172e 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -107,7 +107,10 @@ def extract_constants(
         constants = df.loc[constant_indices]
         variables = df.loc[~constant_indices]
     if to_dict:
-        constants = constants.iloc[0].to_dict()
+        if how == "columns":
+            constants = constants.T
+        # if dropna is True, the first value of a constant may be missing
+        constants = constants.bfill().iloc[0].to_dict()
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From 6f6059efbd4a4dbf133795cce172df1fa101ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 24/69] fix: downcast with use_nillable_int could not build
 nillable integers

---
 dustgoggles/pivot.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 4c3172e..48f4a66 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -166,7 +166,11 @@ def check_in_dtype_bounds(
 
 
 def _maybeseries(arr, dtype, library, name, aerr, rerr):
-    arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
+    if isinstance(dtype, pd.api.extensions.ExtensionDtype):
+        # pandas, unlike numpy, refuses to truncate
+        arr = pd.Series(np.trunc(arr)).astype(dtype)
+    else:
+        arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
     if library == 'pandas':
         arr = pd.Series(arr, name=name)
     return {'recast': arr, 'aerr': aerr, 'rerr': rerr}
@@ -214,6 +218,9 @@ def downcast(
         # there's no meaningful way to recast in this case
         return _maybeseries(arr, arr.dtype, library, name, 0, 0)
     has_nonfinite = arr_finite.size < arr.size
+    if np.isinf(arr).any():
+        # nillable integers can hold missing values, but not infinities
+        use_nillable_int = False
     nzero_mask = arr_finite != 0
     arr_nzero = arr_finite[nzero_mask]
     if arr_nzero.size == 0 and not has_nonfinite:
@@ -249,7 +256,7 @@ def downcast(
         if kind in ('uint', 'int') and has_nonfinite:
             # we've already checked to make sure we're returning this as pandas
             dtype = getattr(
-                pd, f"{kind[0].upper()}{kind[1:].capitalize}{number}Dtype"
+                pd, f"{'U' if kind == 'uint' else ''}Int{number}Dtype"
             )()
         return _maybeseries(arr, dtype, library, name, aerr, rerr)
     raise TypeError("Unusual error in recasting this array.")
-- 
2.43.0


From 711cd5c2749c0b6e9fdbd2ecc8ff88fc9c616805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 25/69] fix: sort_chunked passed verbose to read_between as
 columns

---
 dustgoggles/mosaic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..0a25c86 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -156,7 +156,11 @@ def sort_chunked(
     try:
         for window in windows:
             window_table = read_between(
-                sort_reader, sort_column, window, relevant_records, verbose
+                sort_reader,
+                sort_column,
+                window,
+                relevant_records,
+                verbose=verbose
             )
             if window_table is None:
                 continue
-- 
2.43.0


From 87ff200d58f04cd59451a0eda96b075b246d9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 26/69] fix: sort_chunked dropped huge maxima and ignored
 direction across windows

---
 dustgoggles/mosaic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 0a25c86..1d404d0 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -152,7 +152,10 @@ def sort_chunked(
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    # the last window must include the maximum, however large it is
+    windows[-1] = (windows[-1][0], np.inf)
+    if direction == "descending":
+        windows.reverse()
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From e405659cafe04cbef7857f15df7badf84df09fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 27/69] fix: replacing a tracked step tracked both old and new
 steps

---
 dustgoggles/composition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 1bea027..429d2b5 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -77,6 +77,11 @@ class Composition:
     def _add_track_send(self, step_name: Hashable):
         if self.tracker is None:
             return
+        # a replaced step must not still be tracked as its predecessor
+        self.sends[step_name] = [
+            send for send in self.sends.get(step_name, ())
+            if not hasattr(send[0], 'tracks_step')
+        ]
         self.add_send(
             step_name,
             pipe=_track_factory(self.tracker, step_name, self.steps[step_name])
@@ -293,4 +298,5 @@ def _track_factory(tracker, step, func):
     def track(_):
         return tracker.track(func, step=step)
 
+    track.tracks_step = True
     return track
-- 
2.43.0


From dabea4b61acd16d03c384b9364fe5214b0cb5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 28/69] fix: unloading a Dynamic that was never loaded raised
 AttributeError

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..bcc321d 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -134,7 +134,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From 037d6a7ce969ce54a9fd7c55b25d2644cac7e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 29/69] fix: Dynamic.from_function lost source and globals and
 could not reload

---
 dustgoggles/dynamic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index bcc321d..35600ec 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -184,7 +184,13 @@ class Dynamic:
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
         dynamic.globals_ = func.__globals__
+        source, globals_ = dynamic.source, dynamic.globals_
         dynamic.__init__(*init_args, **init_kwargs)
+        # the constructor overwrites these with its own arguments
+        if dynamic.source is None:
+            dynamic.source = source
+        if dynamic.globals_ is None:
+            dynamic.globals_ = globals_
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 72fb1205775f24c4f42448c138f70200db2019f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 30/69] fix: rmerge took time exponential in nesting depth

---
 dustgoggles/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 5fb5f62..2b87dd2 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -301,6 +301,8 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
     output = {}
     only_in_one = set(map1.keys()).symmetric_difference(map2.keys())
     for kv in chain(map1.items(), map2.items()):
+        if kv[0] in output:
+            continue
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-- 
2.43.0


From 9b318da44b51c299b7ff1194af45101bc50a8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 31/69] fix: unnest merged the contents of empty-string keys
 into their parents

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 2b87dd2..787d247 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -47,7 +47,7 @@ def _unnest(nested, mtypes, escape, levels):
     if not isinstance(nested, mtypes):
         return nested
     prefix = f"{escape}_{escape}".join(map(str, levels))
-    if len(prefix) > 0:
+    if len(levels) > 0:
         prefix = f"{escape}{prefix}{escape}_"
     long_records = []
     for level, maybe_mapping in nested.items():
-- 
2.43.0


From 3be8b8edae184e2199a8d3731d7ebd9dc37ab78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 32/69] fix: Tracker ignored the names of bound methods and
 classes

---
 dustgoggles/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index b62c609..f9f0136 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -48,7 +48,7 @@ class Tracker(TrivialTracker):
         self.counter = count(1)
 
     def track(self, func, **metadata):
-        if "__name__" in dir(func):
+        if hasattr(func, "__name__"):
             target = func.__name__
         else:
             target = str(func)
-- 
2.43.0


From 42da0362de35d07d506e7c31f5599b26a58bb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 33/69] fix: typed_columns selected columns of other types that
 share a name

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 48f4a66..44adf4d 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -144,7 +144,7 @@ def typed_columns(df, typenames):
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
     type_pattern = f"u?({'|'.join(typenames)})".lower()
-    return df[df.dtypes.loc[names.str.match(type_pattern)].index]
+    return df.loc[:, names.str.match(type_pattern).to_numpy(dtype=bool)]
 
 
 def numeric_columns(df):
-- 
2.43.0


From a9d934196da8ffc24e1219bf6ddee482d33adbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 34/69] fix: squeeze lost labels whose aggregated value is
 missing

---
 dustgoggles/pivot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 44adf4d..053dab6 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -369,6 +369,8 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
         values=series.name,
         index=ixname,
         aggfunc=aggfunc,
+        # keep labels whose aggregate is missing
+        dropna=False,
     )[sname]
     squeezed.index.name = series.index.name
     squeezed.name = series.name
-- 
2.43.0


From e012f09074962485c2259a38aa3dd45b437cecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 35/69] fix: squeeze raised AttributeError for series of pandas
 extension types

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 053dab6..7197bc2 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -358,7 +358,7 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
     is not.
     """
     if aggfunc is None:
-        if series.dtype.char == "?":
+        if series.dtype == bool:
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-- 
2.43.0


From ae06eae7719699bd00287501c056fd66232e24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 36/69] fix: parquet metadata of columns without statistics
 raised TypeError

---
 dustgoggles/mosaic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 1d404d0..8a57ecd 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -27,7 +27,8 @@ def parquet_metadata_records(parquet_fn):
     ):
         record = meta.row_group(group_ix).column(col_ix).to_dict()
         if "statistics" in record.keys():
-            record |= record.pop("statistics")
+            # None for columns written without statistics
+            record |= record.pop("statistics") or {}
         records.append(record | {"row_group": group_ix, "col_ix": col_ix})
     return records
 
-- 
2.43.0


From 73cafe6f2af2574be2b02bdbe3dc38eb25e8625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 37/69] fix: extended parquet summaries raised for columns with
 equal row group sizes

---
 dustgoggles/mosaic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8a57ecd..a5a36b4 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -47,7 +47,8 @@ def _flatten_meta_df(meta_df, extended):
         col_stats = col_slice[
             ["num_values", "total_compressed_size", "total_uncompressed_size"]
         ].sum()
-        col_series.append(pd.concat([pd.Series(constants), col_stats]))
+        # the sums replace sizes that happen to be equal in every row group
+        col_series.append(pd.Series(constants | col_stats.to_dict()))
     return pd.concat(col_series, axis=1).T
 
 
-- 
2.43.0


From c9ed10ab47dd4bc9adf8d273da9a5d9d9f293f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 38/69] fix: arrays of Python objects were stored in shared
 memory as bare pointers

---
 dustgoggles/codex/codecs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a2d6e32..846388e 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,6 +133,9 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
+        if array.dtype.hasobject:
+            # these hold pointers, which mean nothing outside this process
+            raise TypeError("arrays of objects cannot be shared.")
         if (exists_ok is False) and exists_block(address):
             raise FileExistsError
         # shared memory blocks cannot be empty
-- 
2.43.0


From bb279609684cec8e3d5bebc46b8d402f3c35dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 39/69] fix: closing an index with keys left their blocks for
 the next index of that name

---
 dustgoggles/codex/implements.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 95added..72962eb 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -483,7 +483,13 @@ class TagIndex(ShareableIndex):
         with self.lock_class(self.name, self.debug):
             return self._delitem(target)
 
+    def _delete_keys(self):
+        for ix, key in self._enumerate_keys():
+            delete_block(self.hash_address(key), True)
+            delete_block(self.key_address(ix), True)
+
     def close(self):
+        self._delete_keys()
         self.memory.unlink()
         self.memory.close()
         if exists_block(f"{self.name}_count"):
@@ -558,6 +564,11 @@ class MetaTagIndex(TagIndex):
                 output.append(val)
             yield tuple(output)
 
+    def _delete_keys(self):
+        super()._delete_keys()
+        for ix in range(self.length):
+            delete_block(self.val_address(ix), True)
+
     def keys(self):
         return [key for _, key in self._enumerate(True)]
 
-- 
2.43.0


From fdad4a3736d0b088aaeb0d744604f09987aab6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 40/69] fix: opening a block that another process is just
 creating raised ValueError

---
 dustgoggles/codex/memutilz.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index bf3da97..8445233 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -1,5 +1,6 @@
 from multiprocessing.shared_memory import SharedMemory
 import sys
+import time
 
 
 def open_block(address, size, create=True, overwrite=False):
@@ -12,13 +13,28 @@ def open_block(address, size, create=True, overwrite=False):
         return SharedMemory(address, size=size, create=create)
     except FileExistsError:
         if overwrite is False:
-            return SharedMemory(address)
+            return _attach_block(address)
         old_block = SharedMemory(address)
         old_block.unlink()
         old_block.close()
         return SharedMemory(address, True, size)
 
 
+def _attach_block(address, tries=1000):
+    """
+    attach to an existing block. another process may have just created it and
+    not yet given it its size; wait for that.
+    """
+    for _ in range(tries):
+        try:
+            return SharedMemory(address)
+        except ValueError as error:
+            if "cannot mmap an empty file" not in str(error):
+                raise
+            time.sleep(0)
+    return SharedMemory(address)
+
+
 def fetch_block_bytes(address: str) -> bytes:
     """
     get the contents of the shared memory block at address as a binary blob.
-- 
2.43.0


From 6e0b5304c3bbf79eb6fa50452b7cd9cf1b585b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 41/69] fix: two processes could be inside a SlidingLock at
 once

---
 dustgoggles/codex/implements.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 72962eb..9bde3f1 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -184,9 +184,11 @@ class SlidingLock:
             log(f"{here()},{self.number},entering cleanup")
         self.release()
 
+    def _read_count(self):
+        return int.from_bytes(self.count.buf.tobytes(), "little")
+
     def _renumber(self):
-        self.floor = int.from_bytes(self.count.buf.tobytes(), "little")
-        self.number = self.floor + 1
+        self.number = self._read_count() + 1
         while self.marker is None:
             try:
                 self.marker = SharedMemory(
@@ -194,12 +196,22 @@ class SlidingLock:
                 )
             except FileExistsError:
                 self.number += 1
+                continue
+            # the slot may have been used and freed since we read the count.
+            # take only slots above the floor, which others wait for.
+            self.floor = self._read_count()
+            if self.number <= self.floor:
+                self.marker.unlink()
+                self.marker.close()
+                self.marker = None
+                self.number = self.floor + 1
         if getattr(self, "debug") is True:
             log(f"{here()},{self.number},taking slot {self.number}")
 
     def _check_acquirement(self):
         for other_number in reversed(range(self.floor, self.number)):
-            if exists_block(f"{self.name}_{other_number}_lock"):
+            # whoever has a slot either has the lock or will ask for it
+            if exists_block(f"{self.name}_{other_number}"):
                 if getattr(self, "debug") is True:
                     log(f"{here()},{self.number},{other_number} has precedence")
                 # # # # #
-- 
2.43.0


From 244bfe15af7825cb887594c68d75084bb3d7ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 42/69] fix: Composition steps with a func attribute (Dynamics)
 were bypassed or failed

---
 dustgoggles/composition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 429d2b5..911635e 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -226,7 +226,8 @@ class Composition:
         else:
             args = keyfilter(lambda k: isinstance(k, int), insert)
             kwargs = keyfilter(lambda k: isinstance(k, str), insert)
-        if "func" in dir(step):
+        # not just "func": a Dynamic has that too, but is not a partial
+        if {"func", "args", "keywords"}.issubset(dir(step)):
             return self._call_partial_step(state, step, args, kwargs)
         if len(args) == 0:
             return step(state, **kwargs)
-- 
2.43.0


From b33c7cc80380bcc33b16db4f14959c68ddbe4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 43/69] fix: read_between ignored its columns argument

---
 dustgoggles/mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index a5a36b4..72c363e 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -118,7 +118,9 @@ def read_between(
             less_than, pac.greater_equal(less_than[field], bounds[0])
         )
         bound_groups.append(more_than)
-    return pa.concat_tables(bound_groups)
+    table = pa.concat_tables(bound_groups)
+    # field is needed for filtering, so columns are selected only now
+    return table if columns is None else table.select(columns)
 
 
 def sort_chunked(
-- 
2.43.0


From be290bf60d74a091c78aa98253762491fc10ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 44/69] fix: unpack_column changed the frame it was given

---
 dustgoggles/pivot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 7197bc2..0965331 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -335,6 +335,7 @@ def unpack(series: pd.Series):
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
     unpacked = unpack(df[colname])
+    df = df.copy()
     df.loc[unpacked.index, unpacked.columns] = unpacked
     return df.drop(columns=colname)
 
-- 
2.43.0


From f50c0c603ecb92f4f7b16f0278af537de5bf6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 45/69] fix: function_names raised AttributeError for partial
 and other nameless steps

---
 dustgoggles/composition.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 911635e..37ca807 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -1,5 +1,4 @@
 from itertools import count
-from operator import attrgetter
 from typing import Optional, Union, Mapping, Any, Callable, Sequence, Hashable, \
     MutableSequence
 
@@ -104,7 +103,11 @@ class Composition:
 
     @property
     def function_names(self):
-        return list(map(attrgetter("__name__"), self.steps.values()))
+        # like Tracker: partials and other callable objects have no name
+        return [
+            getattr(step, "__name__", None) or str(step)
+            for step in self.steps.values()
+        ]
 
     def _perform_sends(self, step_name: Hashable, state: Any):
         """
-- 
2.43.0


From 5efbc35408e0232600cc17c5b66a6ffd57f0d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 46/69] fix: metadata that an index cannot hold left the entry
 half stored

---
 dustgoggles/codex/implements.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 9bde3f1..12e7464 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -322,6 +322,10 @@ class ShareableIndex(ABC):
         """destroy this object and everything about it."""
         pass
 
+    def validate(self, value):
+        """raise an exception if value cannot be assigned to a key."""
+        pass
+
     def remove(self, key):
         """"remove a key from this index."""
         return self.__delitem__(key)
@@ -448,9 +452,12 @@ class TagIndex(ShareableIndex):
             log(f"{here()},,set {self.length} to {key}")
         return self.length
 
-    def add(self, key, value=None, exists_ok=True):
+    def validate(self, value):
         if value is not None:
             raise ValueError("TagIndex does not support value-setting.")
+
+    def add(self, key, value=None, exists_ok=True):
+        self.validate(value)
         with self.lock_class(self.name, self.debug):
             return self._add(key, exists_ok)
 
@@ -541,6 +548,7 @@ class MetaTagIndex(TagIndex):
         super().__init__(name, create, cleanup_on_exit, debug, no_lockout)
         memorize, remember = generic_mnemonic_factory()
         encode, decode = json_codec_factory()
+        self.encode = encode
         self.memorize = partial(memorize, exists_ok=True, encode=encode)
         self.remember = partial(remember, fetch=True, decode=decode)
         if create is True:
@@ -590,7 +598,12 @@ class MetaTagIndex(TagIndex):
     def items(self):
         return [(key, val) for _, key, val in self._enumerate(True, True)]
 
+    def validate(self, value):
+        self.encode(value)
+
     def add(self, key, value=None, exists_ok=True):
+        # a value that can't be encoded must not leave its key behind
+        self.validate(value)
         with self.lock_class(self.name, self.debug):
             writehead = super()._add(key, exists_ok)
             if value is not None:
@@ -784,6 +797,7 @@ class Notepad(AbstractNotepad):
     def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
+        self.index.validate(meta)
         try:
             self.memorize(value, self.address(key), exists_ok)
             self.index.add(key, meta, exists_ok=exists_ok)
-- 
2.43.0


From 188ba9d70aab9e52e4786ee5cfe8ab051a75456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 47/69] fix: extract_constants compares list cells whole

---
 dustgoggles/pivot.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 0965331..83aaa34 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -87,7 +87,16 @@ def extract_constants(
         method = "iterrows" if how == "columns" else "items"
         for ix, series in getattr(df, method)():
             series = series if dropna is False else series.dropna()
-            if (len(series) == 0) or (series == series.iloc[0]).all():
+            if len(series) == 0:
+                constant_indices.loc[ix] = True
+                continue
+            first = series.iloc[0]
+            if isinstance(first, list):
+                # pandas would compare the cells with the list's elements
+                equal = series.map(lambda cell: cell == first)
+            else:
+                equal = series == first
+            if equal.all():
                 constant_indices.loc[ix] = True
     except TypeError:
         # TODO: still necessary?
-- 
2.43.0


From 10b399c23ae5fddf4a0a2eb726d591a2d8bf9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 48/69] fix: typed_columns of a series of extension or unsigned
 type

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 83aaa34..3ab4381 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -147,12 +147,12 @@ def typed_columns(df, typenames):
     """return columns of df of types that match patterns given in typenames."""
     if isinstance(typenames, str):
         typenames = (typenames,)
-    if isinstance(df.dtypes, np.dtype):
-        if re.match("|".join(typenames).lower(), df.dtypes.name.lower()):
+    type_pattern = f"u?({'|'.join(typenames)})".lower()
+    if isinstance(df, pd.Series):
+        if re.match(type_pattern, df.dtype.name.lower()):
             return df
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
-    type_pattern = f"u?({'|'.join(typenames)})".lower()
     return df.loc[:, names.str.match(type_pattern).to_numpy(dtype=bool)]
 
 
-- 
2.43.0


From 9e1e919c07c9f10080e0dfb2a089a5f6694a9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 49/69] fix: an index gave one key's metadata for another while
 others removed keys

---
 dustgoggles/codex/implements.py | 42 ++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 12e7464..cc57cb5 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -614,25 +614,35 @@ class MetaTagIndex(TagIndex):
         found_at = self.check(key)
         if found_at is None:
             raise KeyError(f"{key} not found in index.")
-        valblock = SharedMemory(self.val_address(found_at))
-        return valblock.buf.tobytes()
+        try:
+            valblock = SharedMemory(self.val_address(found_at))
+            valbytes = valblock.buf.tobytes()
+        except FileNotFoundError:
+            if self.check(key) == found_at:
+                raise
+            return self[key]
+        # another process may have moved the key in the meantime
+        return valbytes if self.check(key) == found_at else self[key]
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = self._delitem(target)
-            if (
-                (found_at == self.length - 1)
-                or not exists_block(self.val_address(self.length - 1))
-            ):
-                delete_block(self.val_address(found_at), True)
-            elif exists_block(self.val_address(self.length - 1)):
-                valblock = SharedMemory(self.val_address(self.length - 1))
-                valbytes = valblock.buf.tobytes()
-                moved_block = open_block(
-                    self.val_address(found_at), size=len(valbytes), overwrite=True
-                )
-                moved_block.buf[:] = valbytes
-                delete_block(self.val_address(self.length - 1))
+            found_at = self.check(target)
+            self.update_length()
+            last = self.length - 1
+            # move the last value before its key, so that readers of the key
+            # always find its own value
+            if found_at not in (None, last):
+                if exists_block(self.val_address(last)):
+                    valblock = SharedMemory(self.val_address(last))
+                    valbytes = valblock.buf.tobytes()
+                    moved_block = open_block(
+                        self.val_address(found_at), size=len(valbytes), overwrite=True
+                    )
+                    moved_block.buf[:] = valbytes
+                else:
+                    delete_block(self.val_address(found_at), True)
+            self._delitem(target)
+            delete_block(self.val_address(last), True)
         return found_at
 
 
-- 
2.43.0


From abfe937c1cb5126f66a957fa175a84c5c9fb3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 50/69] fix: show a Sticky that holds a class

__str__ and __repr__ looked up on an object that is itself a class give the
unbound methods of its instances, so showing such a Sticky raised TypeError.
---
 dustgoggles/codex/implements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index cc57cb5..0d5bdf7 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1042,12 +1042,12 @@ class Sticky:
 
     def __str__(self):
         if self._cached_value is not None:
-            return self._cached_value.__str__()
+            return str(self._cached_value)
         else:
             return f'unread sticky'
 
     def __repr__(self):
         if self._cached_value is not None:
-            return f"sticky: {self._cached_value.__repr__()}"
+            return f"sticky: {self._cached_value!r}"
         else:
             return 'unread sticky'
-- 
2.43.0


From 28f67fe69b2dd6a026013a559a47f65698ed69dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 51/69] fix: an exception a function returned was raised by get
 in process

---
 dustgoggles/structures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 787d247..09e6460 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -339,15 +339,17 @@ class HashDict:
 
 class MaybeResult:
     def __init__(self, func, args, kwargs):
+        # func may also simply return an exception
+        self.failed = False
         try:
             self.value = func(*args, **kwargs)
         except KeyboardInterrupt:
             raise
         except Exception as ex:
-            self.value = ex
+            self.value, self.failed = ex, True
 
     def get(self):
-        if isinstance(self.value, Exception):
+        if self.failed:
             raise self.value
         return self.value
 
-- 
2.43.0


From 3411b805cd4b52a9acb701420abd1bc470b01503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 52/69] fix: sends and captures into deques and other mutable
 sequences were lost

---
 dustgoggles/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 37ca807..b7f2e9c 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -191,7 +191,7 @@ class Composition:
     def place_into(self, thing, target, pointer):
         if isinstance(target, (str, int)):
             self.add_insert(target, pointer, thing)
-        elif isinstance(target, list):
+        elif isinstance(target, MutableSequence):
             if pointer is None:
                 target.append(thing)
             else:
-- 
2.43.0


From 5ff145e8c5a524b6feef38ef3dfbe66d05187fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 53/69] fix: constants of complex columns as a dictionary
 raised TypeError

---
 dustgoggles/pivot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 3ab4381..f8a8f36 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -119,7 +119,10 @@ def extract_constants(
         if how == "columns":
             constants = constants.T
         # if dropna is True, the first value of a constant may be missing
-        constants = constants.bfill().iloc[0].to_dict()
+        if constants.iloc[:1].isna().any(axis=None):
+            # as objects, because pandas cannot fill all types (e.g. complex)
+            constants = constants.astype(object).bfill()
+        constants = constants.iloc[0].to_dict()
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From 83b5f9641a1fe707b7157a12a98a92cc6d437a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 54/69] fix: missing cells of extension types counted as equal
 in extract_constants

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index f8a8f36..0cd6591 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -96,7 +96,8 @@ def extract_constants(
                 equal = series.map(lambda cell: cell == first)
             else:
                 equal = series == first
-            if equal.all():
+            # comparing extension types gives missing values, not False
+            if equal.fillna(False).all():
                 constant_indices.loc[ix] = True
     except TypeError:
         # TODO: still necessary?
-- 
2.43.0


From 8a8de1fcc34ebed3b31c7ca0cc1bb823eccae433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 55/69] fix: disjoint lost everything of iterators

---
 dustgoggles/func.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/func.py b/dustgoggles/func.py
index 7aed0f7..e3034b1 100644
--- a/dustgoggles/func.py
+++ b/dustgoggles/func.py
@@ -72,6 +72,8 @@ def intersection(*iterables: Iterable) -> set:
 
 
 def disjoint(*sets: Iterable) -> list[list]:
+    # iterators can only be read once
+    sets = [tuple(this_set) for this_set in sets]
     shared = intersection(*sets)
     return [
         [file for file in this_set if file not in shared] for this_set in sets
-- 
2.43.0


From 0a85e890896ecdbad84c0cf4e960e96021986101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 56/69] fix: smash frames that have columns named variable or
 value, or a name for their columns

---
 dustgoggles/pivot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 0cd6591..eabe001 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -329,12 +329,14 @@ def smash(df, by, values=None):
     by = listify(by)
     if values is not None:
         df = df.loc[df[by].isin(values).all(axis=1)]
-    df = df.melt(by)
+    # names that df's own columns, or the name of its columns, cannot clash with
+    variable, value = object(), object()
+    df = df.melt(by, var_name=variable, value_name=value)
     names = reduce(
         lambda x, y: x + "_" + y,
-        [v for _, v in df[by + ["variable"]].astype(str).items()],
+        [v for _, v in df[by + [variable]].astype(str).items()],
     )
-    return pd.Series(df["value"].to_numpy(), index=names)
+    return pd.Series(df[value].to_numpy(), index=names)
 
 
 def unpack(series: pd.Series):
-- 
2.43.0


From 6f0f5ac573d47f94373bb2014e7557ad007d042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 57/69] fix: compare equal-named categorical columns whose
 categories differ

---
 dustgoggles/pivot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index eabe001..6a0eb3a 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -52,7 +52,11 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     for column in extra_columns:
         block = dataframe.loc[:, column]
         for ix in range(1, block.shape[1]):
-            first, other = block.iloc[:, 0], block.iloc[:, ix]
+            # categoricals refuse comparison if their categories differ
+            first, other = (
+                col.astype(object) if col.dtype == "category" else col
+                for col in (block.iloc[:, 0], block.iloc[:, ix])
+            )
             test_equality = (first == other).fillna(False)
             test_equality |= first.isna() & other.isna()
             if not test_equality.all():
-- 
2.43.0


From 4d85b2036e226b19a446d2fd0294aaa63b0afb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 58/69] fix: keep the name and type of a downcast frame's
 columns, also if there are none

---
 dustgoggles/pivot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 6a0eb3a..3d74474 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -296,7 +296,11 @@ def downcast_df(
         recast.index = df.index
         cast_series.append(recast)
     if reassemble is True:
-        return pd.concat(cast_series, axis=1)
+        if len(cast_series) == 0:
+            return df.copy()
+        recast_df = pd.concat(cast_series, axis=1)
+        recast_df.columns = df.columns
+        return recast_df
     return cast_series
     # cast_series, cast_records = [], []
     # for name, col in num.items():
-- 
2.43.0


From 42dcdad788fe3fe2219cf329b3707fdd2653ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 59/69] fix: downcast empty integer arrays

---
 dustgoggles/pivot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 3d74474..b9b5136 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -228,6 +228,8 @@ def downcast(
             f"This function doesn't handle {arr.dtype} arrays. Cast to an "
             f"integer or real type first if you want to use this function."
         )
+    if arr.size == 0:
+        return _maybeseries(arr, arr.dtype, library, name, 0, 0)
     if arr.dtype.kind in 'ui':
         return _downcast_int_array(arr, library, name)
     arr_finite = arr[np.isfinite(arr)]
-- 
2.43.0


From 3e73405b48ae5175b4eb5c3b19d161bc7a1b7ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:02 +0000
Subject: [PATCH 60/69] fix: squeeze series that share a name with their index,
 or are called index

---
 dustgoggles/pivot.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index b9b5136..98fd02c 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -388,16 +388,15 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-    df = pd.DataFrame(series).reset_index()
-    ixname = "index" if series.index.name is None else series.index.name
-    sname = 0 if series.name is None else series.name
+    # the series and its index may have the same name
+    df = series.rename("value").rename_axis("label").reset_index()
     squeezed = df.pivot_table(
-        values=series.name,
-        index=ixname,
+        values="value",
+        index="label",
         aggfunc=aggfunc,
         # keep labels whose aggregate is missing
         dropna=False,
-    )[sname]
+    )["value"]
     squeezed.index.name = series.index.name
     squeezed.name = series.name
     return squeezed
-- 
2.43.0


From c7600e60be7afa74a65118305c2ce9e8d6e9d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 61/69] fix: closing a Sticky must unregister its cleanup on
 exit

Once closed by hand, the handle's exit function raised FileNotFoundError,
or removed a note that had been stuck at the address since. The other
classes unregister theirs.
---
 dustgoggles/codex/implements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0d5bdf7..6fd7ef7 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1029,6 +1029,7 @@ class Sticky:
         block = SharedMemory(self.address)
         block.unlink()
         block.close()
+        atexit.unregister(self.close)
 
     def pull(self):
         return self.close()
-- 
2.43.0


From fca28830c91241c0a04205aff04f72230f043a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:59 +0000
Subject: [PATCH 62/69] fix: listing an index in one thread must not disturb
 updates in another

---
 dustgoggles/codex/implements.py | 42 ++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 6fd7ef7..d5b4c2d 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -397,18 +397,21 @@ class TagIndex(ShareableIndex):
         return f"{self.name}_key_{index_ix}"
 
     def update_length(self):
+        # other threads may use this object, and change self.length, at any
+        # time. work with the returned value.
         try:
-            self.length = int.from_bytes(self.memory.buf.tobytes(), "little")
+            length = self.length = int.from_bytes(self.memory.buf.tobytes(), "little")
         except ValueError as error:
             if "not enough values" not in str(error):
                 raise error
             return self.update_length()
+        return length
 
     def update(self):
-        self.cache = []
+        cache = self.cache = []
         for ix, key in self._enumerate_keys():
-            self.cache.append(key)
-        return self.cache
+            cache.append(key)
+        return cache
 
     def check(self, target) -> Optional[int]:
         if exists_block(self.hash_address(target)):
@@ -417,8 +420,7 @@ class TagIndex(ShareableIndex):
         return None
 
     def _enumerate_keys(self):
-        self.update_length()
-        for ix in range(self.length):
+        for ix in range(self.update_length()):
             try:
                 keyblock = SharedMemory(self.key_address(ix))
                 key = keyblock.buf.tobytes().decode()
@@ -434,23 +436,23 @@ class TagIndex(ShareableIndex):
                     log(f"{here()},,{key} already in index at {found_at}")
                 return found_at
             raise FileExistsError
-        self.update_length()
-        new_length_bytes = (self.length + 1).to_bytes(8, "little")
+        length = self.update_length()
+        new_length_bytes = (length + 1).to_bytes(8, "little")
         self.memory.buf[:] = new_length_bytes
         keybytes = str(key).encode()
         keyblock = open_block(
-            self.key_address(self.length),
+            self.key_address(length),
             create=True,
             size=len(keybytes),
             overwrite=True
         )
         keyblock.buf[:] = keybytes
-        position_bytes = self.length.to_bytes(8, "little")
+        position_bytes = length.to_bytes(8, "little")
         nameblock = open_block(self.hash_address(key), create=True, size=8)
         nameblock.buf[:] = position_bytes
         if getattr(self, "debug") is True:
-            log(f"{here()},,set {self.length} to {key}")
-        return self.length
+            log(f"{here()},,set {length} to {key}")
+        return length
 
     def validate(self, value):
         if value is not None:
@@ -465,9 +467,9 @@ class TagIndex(ShareableIndex):
         found_at = self.check(target)
         if found_at is None:
             raise KeyError(f"{target} not found in this index.")
-        self.update_length()
-        if found_at != self.length - 1:
-            lastblock = SharedMemory(self.key_address(self.length - 1))
+        length = self.update_length()
+        if found_at != length - 1:
+            lastblock = SharedMemory(self.key_address(length - 1))
             lastkey = lastblock.buf.tobytes()
             moved_block = open_block(
                 self.key_address(found_at),
@@ -482,14 +484,14 @@ class TagIndex(ShareableIndex):
             if getattr(self, "debug") is True:
                 log(
                     f"{here()},,overwrote block at position {found_at} "
-                    f"with block at position {self.length - 1} "
+                    f"with block at position {length - 1} "
                 )
         else:
             delete_block(self.key_address(found_at))
             if getattr(self, "debug") is True:
                 log(f"{here()},,deleted block at position {found_at}")
         delete_block(self.hash_address(target))
-        new_length_bytes = (self.length - 1).to_bytes(8, "little")
+        new_length_bytes = (length - 1).to_bytes(8, "little")
         self.memory.buf[:] = new_length_bytes
         if getattr(self, "debug") is True:
             log(
@@ -574,8 +576,7 @@ class MetaTagIndex(TagIndex):
             in zip((get_keys, get_values), (self._load_key, self._load_value))
         ]
         load = juxt(loaders)
-        self.update_length()
-        for ix in range(self.length):
+        for ix in range(self.update_length()):
             key, val = load(ix)
             output = [ix]
             if get_keys is True:
@@ -627,8 +628,7 @@ class MetaTagIndex(TagIndex):
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
             found_at = self.check(target)
-            self.update_length()
-            last = self.length - 1
+            last = self.update_length() - 1
             # move the last value before its key, so that readers of the key
             # always find its own value
             if found_at not in (None, last):
-- 
2.43.0


From 784cac162489f9bcbbdaf16bfc435b5ef07330b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:13 +0000
Subject: [PATCH 63/69] fix: mapping an iterator of records into a pool lost
 all of them

---
 dustgoggles/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 09e6460..eb7da39 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -374,6 +374,8 @@ class MaybePool:
             self.pool = Pool(threads)
 
     def map(self, func, argrecs, as_chunks=False):
+        # iterators can only be read once
+        argrecs = tuple(argrecs)
         for i, rec in enumerate(argrecs):
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
-- 
2.43.0


From f8b82a6dc0fe48a95345b6a481da8e67d9d8e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 64/69] fix: dumping an absent key of a Notepad emptied or made
 a file

---
 dustgoggles/codex/implements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index d5b4c2d..3bccc3b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -842,9 +842,11 @@ class Notepad(AbstractNotepad):
     def dump(self, key, fn=None, mode="wb"):
         if fn is None:
             fn = f"{self.prefix}_{key}".replace(".", "_")
+        # without an entry, leave any file alone
+        raw = self.get_raw(key)
         with open(fn, mode) as file:
             # noinspection PyTypeChecker
-            file.write(self.get_raw(key))
+            file.write(raw)
 
     def close(self, dump=False):
         try:
-- 
2.43.0


From 8569a57b61dd806d2a263681ac39256765b2dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 65/69] fix: read_between failed on row groups without values
 or statistics

---
 dustgoggles/mosaic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 72c363e..1fc47ef 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -103,6 +103,10 @@ def read_between(
     """
     bound_records = []
     for rec in meta_records:
+        if rec.get("min") is None or rec.get("max") is None:
+            # written without statistics, or nothing in it but missing values
+            bound_records.append(rec)
+            continue
         if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
             bound_records.append(rec)
     if verbose is True:
-- 
2.43.0


From 24078d98a4be2f2f00753194eb4bda0d53243f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 66/69] fix: extract_constants took columns or rows of one
 label for one another

---
 dustgoggles/pivot.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 98fd02c..c9ab14b 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -83,16 +83,17 @@ def extract_constants(
     """
     if how not in ("rows", "columns"):
         raise ValueError(f"unknown how {how}")
+    # by position, because labels may repeat
     if how == "rows":
-        constant_indices = pd.Series(False, df.columns)
+        constant_indices = np.zeros(len(df.columns), dtype=bool)
     else:
-        constant_indices = pd.Series(False, df.index)
+        constant_indices = np.zeros(len(df.index), dtype=bool)
     try:
         method = "iterrows" if how == "columns" else "items"
-        for ix, series in getattr(df, method)():
+        for ix, (_, series) in enumerate(getattr(df, method)()):
             series = series if dropna is False else series.dropna()
             if len(series) == 0:
-                constant_indices.loc[ix] = True
+                constant_indices[ix] = True
                 continue
             first = series.iloc[0]
             if isinstance(first, list):
@@ -102,18 +103,16 @@ def extract_constants(
                 equal = series == first
             # comparing extension types gives missing values, not False
             if equal.fillna(False).all():
-                constant_indices.loc[ix] = True
+                constant_indices[ix] = True
     except TypeError:
         # TODO: still necessary?
         if how == "columns":
             raise NotImplementedError("nested fields not supported columnwise")
-        for c in df.columns:
-            if isinstance(df[c].iloc[0], list):
-                test_series = df[c].map(tuple)
-            else:
-                test_series = df[c]
+        for ix, (_, test_series) in enumerate(df.items()):
+            if isinstance(test_series.iloc[0], list):
+                test_series = test_series.map(tuple)
             if (test_series.iloc[0] == test_series).all():
-                constant_indices.loc[c] = True
+                constant_indices[ix] = True
     if how == "rows":
         constants = df.loc[:, constant_indices]
         variables = df.loc[:, ~constant_indices]
-- 
2.43.0


From e77da54888e914c8dfc9792ec6e7263443e08751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 67/69] fix: unpack_column mixed up or refused rows of one
 label

---
 dustgoggles/pivot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index c9ab14b..bba5bca 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -358,9 +358,12 @@ def unpack(series: pd.Series):
 
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
+    labels = df.index
+    # the rows' labels may repeat
+    df = df.reset_index(drop=True)
     unpacked = unpack(df[colname])
-    df = df.copy()
     df.loc[unpacked.index, unpacked.columns] = unpacked
+    df.index = labels
     return df.drop(columns=colname)
 
 
-- 
2.43.0


From 16d1e9731b32dc6404fa2e5e124cf4b588933ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:43 +0000
Subject: [PATCH 68/69] fix: extract_constants failed on empty frames

---
 dustgoggles/pivot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index bba5bca..08bd503 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -126,7 +126,11 @@ def extract_constants(
         if constants.iloc[:1].isna().any(axis=None):
             # as objects, because pandas cannot fill all types (e.g. complex)
             constants = constants.astype(object).bfill()
-        constants = constants.iloc[0].to_dict()
+        if len(constants) == 0:
+            # there are no values at all
+            constants = dict.fromkeys(constants.columns, np.nan)
+        else:
+            constants = constants.iloc[0].to_dict()
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From e6d90f6ea2c1e21fbd7dad12e92a41e87aae11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:46 +0000
Subject: [PATCH 69/69] fix: sort_chunked failed on files or row groups without
 rows

---
 dustgoggles/mosaic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 1fc47ef..ca71c21 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -153,10 +153,15 @@ def sort_chunked(
         rec for rec in meta_records if rec["path_in_schema"] == sort_column
     ]
     if schema is None:
-        schema = sort_reader.read_row_group(0).schema
+        schema = sort_reader.schema_arrow
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
+    if sort_reader.metadata.num_rows == 0:
+        sort_writer.close()
+        return
+    # row groups without rows have no minimum or maximum
+    relevant_records = [rec for rec in relevant_records if rec["num_values"]]
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-- 
2.43.0

