From f79d98bba3a774192060946210ae588605a17211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:27 +0000
Subject: [PATCH 01/33] fix: ObjectDBR.__contains__ must ask has_object

'sha in db' returned a (nonexistent) attribute lookup instead of querying the
database: it raised AttributeError for every database.
---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From aeb0bc6d84fe7c0dd2b2169087fa074b75276977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:27 +0000
Subject: [PATCH 02/33] fix: DecompressMemMapReader.read must not return more
 than requested

When buffered data was prepended, the size still to be read was computed from
the size including that prefix, although size was already reduced by it. The
result could become zero or negative, which reads everything that is left.
---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..014a2d8 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -314,7 +314,7 @@ class DecompressMemMapReader(LazyMixin):
         # to read, if we are called by compressed_bytes_read - it manipulates
         # us to empty the stream
         if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
+            dcompdat += self.read(size - (len(dcompdat) - len(dat)))
         # END handle special case
         return dcompdat
 
-- 
2.43.0


From 8a70810310a176ba5efd27757f103bae8875a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:27 +0000
Subject: [PATCH 03/33] fix: DecompressMemMapReader.seek must drop the buffered
 data

After a partial read of an object with header, seek(0) kept the remainder of
the previous buffer, and the header was then parsed out of content bytes.
---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 014a2d8..1d48ed6 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -205,6 +205,8 @@ class DecompressMemMapReader(LazyMixin):
         # END handle offset
 
         self._zip = zlib.decompressobj()
+        self._buf = None
+        self._buflen = 0
         self._br = self._cws = self._cwe = self._cbr = 0
         if self._phi:
             self._phi = False
-- 
2.43.0


From 60aba0e72ddf9df68daf501eb5e78239d5845b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 04/33] fix: DecompressMemMapReader must not count unused data
 twice

If the previous decompress call left an unconsumed tail, zlib puts the data
following the compressed stream into both unconsumed_tail and unused_data.
compressed_bytes_read() was short by that amount, hence iterating a pack broke
after any object larger than one chunk.
---
 gitdb/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1d48ed6..0229ce7 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -298,8 +298,11 @@ class DecompressMemMapReader(LazyMixin):
         # IT's CERTAINLY GOING TO BITE US IN THE FUTURE ... .
         if getattr(zlib, 'ZLIB_RUNTIME_VERSION', zlib.ZLIB_VERSION) in ('1.2.7', '1.2.5') and not sys.platform == 'darwin':
             unused_datalen = len(self._zip.unconsumed_tail)
+        elif self._zip.eof:
+            # a tail left by the previous call is replaced by a copy of the unused data, don't count it twice
+            unused_datalen = min(len(self._zip.unused_data), len(indata))
         else:
-            unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
+            unused_datalen = len(self._zip.unconsumed_tail)
         # # end handle very special case ...
 
         self._cbr += len(indata) - unused_datalen
-- 
2.43.0


From 29b5185812fb1bb1337659e4f4b6168fcd813a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:58 +0000
Subject: [PATCH 05/33] fix: compressed_bytes_read must terminate for empty
 objects

read() returns right away if there is nothing left to read, hence the loop
looking for the end of the compressed data never ended for empty objects, and
for those which contain more data than announced. Iterating a pack containing
an empty blob would hang.
---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 0229ce7..47cb690 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -183,6 +183,8 @@ class DecompressMemMapReader(LazyMixin):
             else:
                 # pass in additional pages, until we have unused data
                 while not self._zip.unused_data and self._cbr != len(self._m):
+                    # assure there is something left to read, even if the object is empty
+                    self._br = -1
                     self.read(mmap.PAGESIZE)
                 # END scrub-loop default zlib
             # END handle stream scrubbing
-- 
2.43.0


From 7d5acbdb2c53936cb88f6f024ce1bb09d32ef838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 06/33] fix: DecompressMemMapReader.read must not signal EOF
 prematurely

Small reads feed small windows, which may contain nothing but zlib header
information and thus don't produce any output yet. read() returned an empty
result, which is indistinguishable from the end of the stream.
---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 47cb690..5c6b1c0 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -320,7 +320,7 @@ class DecompressMemMapReader(LazyMixin):
         # Note: dcompdat can be empty even though we still appear to have bytes
         # to read, if we are called by compressed_bytes_read - it manipulates
         # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
+        if (dcompdat or indata) and not self._zip.eof and (len(dcompdat) - len(dat)) < size and self._br < self._s:
             dcompdat += self.read(size - (len(dcompdat) - len(dat)))
         # END handle special case
         return dcompdat
-- 
2.43.0


From 4d3c6aab733bb665a2d5943d524ffd9b51e89638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 07/33] fix: DeltaApplyReader must verify source and target
 size of deltas

A delta which was made for another base, or which produces less or more data
than it announced, silently yielded wrong content: the scratch buffers are
larger than the result and were handed out including stale data.
---
 gitdb/stream.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 5c6b1c0..8495f93 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -450,7 +450,11 @@ class DeltaApplyReader(LazyMixin):
         # For the actual copying, we use a seek and write pattern of buffer
         # slices.
         final_target_size = None
+        source_size = self._bstream.size
         for (dbuf, offset, src_size, target_size), dstream in zip(reversed(buffer_info_list), reversed(self._dstreams)):
+            if src_size != source_size:
+                raise ValueError("Delta expects a base of %i bytes, got %i" % (src_size, source_size))
+            # END sanity check
             # allocate a buffer to hold all delta data - fill in the data for
             # fast access. We do this as we know that reading individual bytes
             # from our stream would be slower than necessary ( although possible )
@@ -466,6 +470,9 @@ class DeltaApplyReader(LazyMixin):
                 c_apply_delta(bbuf, ddata, tbuf)
             else:
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
+                if tbuf.tell() != target_size:
+                    raise ValueError("Delta should produce %i bytes, got %i" % (target_size, tbuf.tell()))
+                # END sanity check
             #######################################################################
 
             # finally, swap out source and target buffers. The target is now the
@@ -473,7 +480,7 @@ class DeltaApplyReader(LazyMixin):
             bbuf, tbuf = tbuf, bbuf
             bbuf.seek(0)
             tbuf.seek(0)
-            final_target_size = target_size
+            final_target_size = source_size = target_size
         # END for each delta to apply
 
         # its already seeked to 0, constrain it to the actual size
-- 
2.43.0


From e70c2a280ba0aa32c8c1caad682ff7f571977670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 08/33] fix: offset deltas are relative to their own position

If a REF delta resolved to an OFS delta, collect_streams_at_offset used the
relative offset as absolute position in the pack.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..31a7042 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -889,7 +889,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From 80adbc2dd480adde9cf9050130f35e64df410399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 09/33] fix: raise BadObject when streaming an unresolvable
 delta

info() already did so, stream() raised a ValueError instead.
---
 gitdb/pack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 31a7042..81af197 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -735,6 +735,8 @@ class PackEntity(LazyMixin):
             # To prevent it from applying the deltas when querying the size,
             # we extract it from the delta stream ourselves
             streams = self.collect_streams_at_offset(offset)
+            if streams[-1].type_id in delta_types:
+                raise BadObject(sha, "Could not resolve delta object")
             dstream = DeltaApplyReader.new(streams)
 
             return ODeltaStream(sha, dstream.type, None, dstream)
-- 
2.43.0


From 28b36dbbd8af05a8303049bccbdb15094bb9b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 10/33] fix: PackIndexFile.offsets() must resolve 64 bit
 offsets

It returned the raw table, thus the positions in the 64 bit table (with the
high bit set) instead of offsets into the pack.
---
 gitdb/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 81af197..d95464e 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -409,6 +409,9 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
+            if any(ofs & 0x80000000 for ofs in a):
+                # some offsets are stored in the 64 bit region, and need to be looked up there
+                return tuple(self.offset(index) for index in range(self.size()))
             return a
         else:
             return tuple(self.offset(index) for index in range(self.size()))
-- 
2.43.0


From c730c35d8ad58ef2cb3ae7fcac6490ef8d5f8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 11/33] fix: partial_sha_to_index must detect ambiguous names

It compared the full shas of the neighbours, which always differ, instead of
checking whether both match the given prefix.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index d95464e..7afae68 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -487,7 +487,7 @@ class PackIndexFile(LazyMixin):
                 next_sha = None
                 if lo + 1 < self.size():
                     next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
+                if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
             # END if we have a match
-- 
2.43.0


From 164e2f7b58325070b2125458be0e2173b1a5e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 12/33] fix: is_valid_stream must return False if the sha
 doesn't match

It raised AssertionError.
---
 gitdb/pack.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 7afae68..9c3ae4e 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -850,7 +850,6 @@ class PackEntity(LazyMixin):
             # write a loose object, which is the basis for the sha
             write_object(stream.type, stream.size, stream.read, shawriter.write)
 
-            assert shawriter.sha(as_hex=False) == sha
             return shawriter.sha(as_hex=False) == sha
         # END handle crc/sha verification
         return True
-- 
2.43.0


From f4ec2534db39ad9674de683f450468b3491a068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 13/33] fix: FDStream.write must write everything

os.write may write less than it was given.
---
 gitdb/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 8495f93..6ed7de0 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -704,7 +704,8 @@ class FDStream:
 
     def write(self, data):
         self._pos += len(data)
-        os.write(self._fd, data)
+        while data:
+            data = data[os.write(self._fd, data):]
 
     def read(self, count=0):
         if count == 0:
-- 
2.43.0


From 44944e23a906f3fe6b87584bda3ba799bb9373d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 14/33] fix: FDStream.read without size raised AttributeError

---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 6ed7de0..afac279 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -709,7 +709,7 @@ class FDStream:
 
     def read(self, count=0):
         if count == 0:
-            count = os.path.getsize(self._filepath)
+            count = os.fstat(self._fd).st_size
         # END handle read everything
 
         bytes = os.read(self._fd, count)
-- 
2.43.0


From fec850a58936a604c03d56d8d345053bd9593faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 15/33] fix: FDCompressedSha1Writer.close must close the
 descriptor in any case

It leaked it if the remaining data could not be written.
---
 gitdb/stream.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index afac279..401e278 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -683,10 +683,12 @@ class FDCompressedSha1Writer(Sha1Writer):
         return len(data)
 
     def close(self):
-        remainder = self.zip.flush()
-        if write(self.fd, remainder) != len(remainder):
-            raise self.exc
-        return close(self.fd)
+        try:
+            remainder = self.zip.flush()
+            if write(self.fd, remainder) != len(remainder):
+                raise self.exc
+        finally:
+            close(self.fd)
 
     #} END stream interface
 
-- 
2.43.0


From 356926f6286b5e7329e415c3a29470c72a56932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 16/33] fix: PackFile must verify the signature on each access

If it didn't match, the error was only raised once. From there on, the
attributes were set and garbage was used.
---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 9c3ae4e..96e1f94 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -534,15 +534,16 @@ class PackFile(LazyMixin):
 
     def _set_cache_(self, attr):
         # we fill the whole cache, whichever attribute gets queried first
-        self._cursor = mman.make_cursor(self._packpath).use_region()
+        cursor = mman.make_cursor(self._packpath).use_region()
 
         # read the header information
-        type_id, self._version, self._size = unpack_from(">LLL", self._cursor.map(), 0)
+        type_id, version, size = unpack_from(">LLL", cursor.map(), 0)
 
         # TODO: figure out whether we should better keep the lock, or maybe
         # add a .keep file instead ?
         if type_id != self.pack_signature:
             raise ParseError("Invalid pack signature: %i" % type_id)
+        self._cursor, self._version, self._size = cursor, version, size
 
     def _iter_objects(self, start_offset, as_stream=True):
         """Handle the actual iteration of objects within this pack"""
-- 
2.43.0


From 9a5bb49d8692ce021db829c5aff7c0eda1ce64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 17/33] fix: PackIndexFile must not remember state of a failed
 initialization

The size and version checks were effective only once.
---
 gitdb/pack.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 96e1f94..866140f 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -273,23 +273,25 @@ class PackIndexFile(LazyMixin):
             # Note: We don't lock the file when reading as we cannot be sure
             # that we can actually write to the location - it could be a read-only
             # alternate for instance
-            self._cursor = mman.make_cursor(self._indexpath).use_region()
+            cursor = mman.make_cursor(self._indexpath).use_region()
             # We will assume that the index will always fully fit into memory !
-            if mman.window_size() > 0 and self._cursor.file_size() > mman.window_size():
+            if mman.window_size() > 0 and cursor.file_size() > mman.window_size():
                 raise AssertionError("The index file at %s is too large to fit into a mapped window (%i > %i). This is a limitation of the implementation" % (
-                    self._indexpath, self._cursor.file_size(), mman.window_size()))
+                    self._indexpath, cursor.file_size(), mman.window_size()))
             # END assert window size
+            self._cursor = cursor
         else:
             # now its time to initialize everything - if we are here, someone wants
             # to access the fanout table or related properties
 
             # CHECK VERSION
             mmap = self._cursor.map()
-            self._version = (mmap[:4] == self.index_v2_signature and 2) or 1
-            if self._version == 2:
+            version = (mmap[:4] == self.index_v2_signature and 2) or 1
+            if version == 2:
                 version_id = unpack_from(">L", mmap, 4)[0]
-                assert version_id == self._version, "Unsupported index version: %i" % version_id
+                assert version_id == version, "Unsupported index version: %i" % version_id
             # END assert version
+            self._version = version
 
             # SETUP FUNCTIONS
             # setup our functions according to the actual version
-- 
2.43.0


From 3627f3a5e8bdbc02d5a013669f4bfc8607c616ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 18/33] fix: GitDB must report an invalid root on each access

After the first InvalidDBRoot, the database appeared to be empty.
---
 gitdb/db/git.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index a1ed142..4cc2643 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -43,29 +43,30 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            self._dbs = list()
+            dbs = list()
             loose_db = None
             for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
                                    (self.loose_dir, self.LooseDBCls),
                                    (self.alternates_dir, self.ReferenceDBCls)):
                 path = self.db_path(subpath)
                 if os.path.exists(path):
-                    self._dbs.append(dbcls(path))
+                    dbs.append(dbcls(path))
                     if dbcls is self.LooseDBCls:
-                        loose_db = self._dbs[-1]
+                        loose_db = dbs[-1]
                     # END remember loose db
                 # END check path exists
             # END for each db type
 
             # should have at least one subdb
-            if not self._dbs:
+            if not dbs:
                 raise InvalidDBRoot(self.root_path())
             # END handle error
 
             # we the first one should have the store method
             assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
 
-            # finally set the value
+            # finally set the values
+            self._dbs = dbs
             self._loose_db = loose_db
         else:
             super()._set_cache_(attr)
-- 
2.43.0


From 04866a201c4bf05a2f5146e0eb16361813032fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 19/33] fix: PackedDB must not remember an incomplete list of
 packs

If update_cache failed, the packs read so far (possibly none) were considered
complete, and objects in the other packs seemed to be missing.
---
 gitdb/db/pack.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..e3df1ab 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -51,7 +51,13 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
     def _set_cache_(self, attr):
         if attr == '_entities':
             self._entities = list()
-            self.update_cache(force=True)
+            try:
+                self.update_cache(force=True)
+            except BaseException:
+                # try again next time, instead of working with an incomplete list
+                del(self._entities)
+                raise
+            # END handle failure
         # END handle entities initialization
 
     def _sort_entities(self):
@@ -142,7 +148,6 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         if not force and stat.st_mtime <= self._st_mtime:
             return False
         # END abort early on no change
-        self._st_mtime = stat.st_mtime
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
@@ -172,6 +177,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # reinitialize prioritiess
         self._sort_entities()
+        self._st_mtime = stat.st_mtime
         return True
 
     def entities(self):
-- 
2.43.0


From 070cf7671da34eff62589f5c925cc3f8d84c4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 20/33] fix: ReferenceDB must not remember an incomplete list
 of databases

---
 gitdb/db/ref.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..03d0a3e 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -26,7 +26,13 @@ class ReferenceDB(CompoundDB):
     def _set_cache_(self, attr):
         if attr == '_dbs':
             self._dbs = list()
-            self._update_dbs_from_ref_file()
+            try:
+                self._update_dbs_from_ref_file()
+            except BaseException:
+                # try again next time, instead of working with an incomplete list
+                del(self._dbs)
+                raise
+            # END handle failure
         else:
             super()._set_cache_(attr)
         # END handle attrs
-- 
2.43.0


From 95fb98bcef7bc335e2e0f268d4a904377655fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 21/33] fix: PackedDB must ignore packs without index

A pack is created by renaming the pack first, and its index afterwards. If the
database was updated in between, it failed.
---
 gitdb/db/pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index e3df1ab..9c8b032 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -151,7 +151,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
-        pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
+        # packs without index are incomplete, they are just being written or removed
+        pack_files = {path for path in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+                      if os.path.isfile(os.path.splitext(path)[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From c9e571ead2e1d5f3d84c0142ef04e52eaaab657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 22/33] fix: PackEntity.create must write everything, and clean
 up on error

os.write may write less than it was given, which corrupted the pack. If the
pack could not be written, the temporary files were left behind and their
descriptors leaked.
---
 gitdb/pack.py | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 866140f..9bc7e94 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -4,6 +4,7 @@
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
 """Contains PackIndexFile and PackFile implementations"""
 import zlib
+from contextlib import suppress
 
 from gitdb.exc import (
     BadObject,
@@ -53,6 +54,7 @@ from gitdb.base import (      # Amazing !
 from gitdb.stream import (
     DecompressMemMapReader,
     DeltaApplyReader,
+    FDStream,
     Sha1Writer,
     NullStream,
     FlexibleSha1Writer
@@ -1018,20 +1020,36 @@ class PackEntity(LazyMixin):
         :return: PackEntity instance initialized with the new pack
 
         **Note:** for more information on the other parameters see the write_pack method"""
-        pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
-        index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
-
-        pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
-        os.close(pack_fd)
-        os.close(index_fd)
-
-        fmt = "pack-%s.%s"
-        new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
-        os.rename(pack_path, new_pack_path)
-        os.rename(index_path, new_index_path)
+        streams = list()
+        tmp_paths = list()
+        try:
+            for prefix in ('pack', 'index'):
+                fd, path = tempfile.mkstemp('', prefix, base_dir)
+                streams.append(FDStream(fd))
+                tmp_paths.append(path)
+            # END for each temporary file
+            pack_write, index_write = streams[0].write, streams[1].write
+
+            pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
+            while streams:
+                streams.pop().close()
+            # END close temporary files
+
+            fmt = "pack-%s.%s"
+            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            os.rename(tmp_paths[0], new_pack_path)
+            os.rename(tmp_paths[1], new_index_path)
+        except BaseException:
+            for stream in streams:
+                stream.close()
+            # END close what's still open
+            for path in tmp_paths:
+                with suppress(OSError):
+                    os.remove(path)
+            # END remove what's still there
+            raise
+        # END assure cleanup on error
 
         return cls(new_pack_path)
 
-- 
2.43.0


From 24b9c0b41ceb0e953995366f220faf72443c3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 23/33] fix: LooseObjectDB.store must not store incomplete
 objects

If the input stream contained less data than announced, an object was created
whose header doesn't match its contents.
---
 gitdb/db/loose.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..8294b99 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -44,6 +44,7 @@ from gitdb.util import (
 
 from gitdb.fun import (
     chunk_size,
+    loose_object_header,
     loose_object_header_info,
     write_object,
     stream_copy
@@ -197,8 +198,11 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
                     stream_copy(istream.read, writer.write, sys.maxsize, self.stream_chunk_size)
                 else:
                     # write object with header, we have to make a new one
-                    write_object(istream.type, istream.size, istream.read, writer.write,
-                                 chunk_size=self.stream_chunk_size)
+                    written = write_object(istream.type, istream.size, istream.read, writer.write,
+                                           chunk_size=self.stream_chunk_size)
+                    if written != len(loose_object_header(istream.type, istream.size)) + istream.size:
+                        raise OSError("Input stream ended before %i bytes could be read" % istream.size)
+                    # END assure the object is complete
                 # END handle direct stream copies
             finally:
                 if tmp_path:
-- 
2.43.0


From 3ec91ae5d539d4bd0b302901d55534ecdffbd5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 24/33] fix: LooseObjectDB.store must remove its temporary file
 on error

It was left behind if the object's directory could not be created, or if the
file could not be moved there.
---
 gitdb/db/loose.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 8294b99..f032540 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -224,14 +224,20 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
-                remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except BaseException:
+                with suppress(OSError):
+                    remove(tmp_path)
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
-- 
2.43.0


From 9f9c0941db2bea1310495e43150449a16a09cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 25/33] fix: FlexibleSha1Writer.write must return the amount of
 written bytes

As demanded by the Sha1Writer interface. It could not be used as output stream
of a database, as write_object failed to add up the written bytes.
---
 gitdb/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 401e278..624cb6c 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -612,8 +612,9 @@ class FlexibleSha1Writer(Sha1Writer):
         self.writer = writer
 
     def write(self, data):
-        Sha1Writer.write(self, data)
+        alen = Sha1Writer.write(self, data)
         self.writer(data)
+        return alen
 
 
 class ZippedStoreShaWriter(Sha1Writer):
-- 
2.43.0


From 0d74a9e99f1eb9a5963dbe72d36ef39c3bf6ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 26/33] fix: MemoryDB.store must not compress streams in object
 format again

Objects copied from one MemoryDB to another could not be read.
---
 gitdb/db/mem.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index d4772fd..cb8a253 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -47,16 +47,22 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
-        zstream = ZippedStoreShaWriter()
-        self._db.set_ostream(zstream)
-
-        istream = self._db.store(istream)
-        zstream.close()     # close to flush
-        zstream.seek(0)
+        if istream.binsha is not None:
+            # the data is in object format, and compressed, already
+            data = istream.read()
+        else:
+            zstream = ZippedStoreShaWriter()
+            self._db.set_ostream(zstream)
+
+            istream = self._db.store(istream)
+            zstream.close()     # close to flush
+            zstream.seek(0)
+            data = zstream.getvalue()
+        # END handle direct stream copies
 
         # don't provide a size, the stream is written in object format, hence the
         # header needs decompression
-        decomp_stream = DecompressMemMapReader(zstream.getvalue(), close_on_deletion=False)
+        decomp_stream = DecompressMemMapReader(data, close_on_deletion=False)
         self._cache[istream.binsha] = OStream(istream.binsha, istream.type, istream.size, decomp_stream)
 
         return istream
-- 
2.43.0


From c6d39ff5396df00afc77159c02090a540c9ecd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:18 +0000
Subject: [PATCH 27/33] fix: connect_deltas, DeltaChunkList and is_loose_object
 need to work with bytes

Indexing bytes yields integers, hence all of them raised TypeError right away.
---
 gitdb/fun.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..2e42590 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -23,7 +23,7 @@ from gitdb.typ import (
     str_tag_type,
 )
 
-from io import StringIO
+from io import BytesIO
 
 # INVARIANTS
 OFS_DELTA = 6
@@ -154,7 +154,7 @@ def _closest_index(dcl, absofs):
     lo = 0
     hi = len(dcl)
     while lo < hi:
-        mid = (lo + hi) / 2
+        mid = (lo + hi) // 2
         dc = dcl[mid]
         if dc.to > absofs:
             hi = mid
@@ -261,7 +261,7 @@ class DeltaChunkList(list):
             if dc.data is None:
                 if first_data_index is not None and i - 2 - first_data_index > 1:
                     # if first_data_index is not None:
-                    nd = StringIO()                     # new data
+                    nd = BytesIO()                      # new data
                     so = self[first_data_index].to      # start offset in target buffer
                     for x in range(first_data_index, i - 1):
                         xdc = self[x]
@@ -310,7 +310,7 @@ class DeltaChunkList(list):
 
         left = islice(self, 0, len(self) - 1)
         right = iter(self)
-        right.next()
+        next(right)
         # this is very pythonic - we might have just use index based access here,
         # but this could actually be faster
         for lft, rgt in zip(left, right):
@@ -395,7 +395,7 @@ def is_loose_object(m):
     """
     :return: True the file contained in memory map m appears to be a loose object.
         Only the first two bytes are needed"""
-    b0, b1 = map(ord, m[:2])
+    b0, b1 = m[:2]
     word = (b0 << 8) + b1
     return b0 == 0x78 and (word % 31) == 0
 
@@ -556,30 +556,30 @@ def connect_deltas(dstreams):
         # interpret opcodes
         tbw = 0                     # amount of target bytes written
         while i < delta_buf_size:
-            c = ord(db[i])
+            c = db[i]
             i += 1
             if c & 0x80:
                 cp_off, cp_size = 0, 0
                 if (c & 0x01):
-                    cp_off = ord(db[i])
+                    cp_off = db[i]
                     i += 1
                 if (c & 0x02):
-                    cp_off |= (ord(db[i]) << 8)
+                    cp_off |= (db[i] << 8)
                     i += 1
                 if (c & 0x04):
-                    cp_off |= (ord(db[i]) << 16)
+                    cp_off |= (db[i] << 16)
                     i += 1
                 if (c & 0x08):
-                    cp_off |= (ord(db[i]) << 24)
+                    cp_off |= (db[i] << 24)
                     i += 1
                 if (c & 0x10):
-                    cp_size = ord(db[i])
+                    cp_size = db[i]
                     i += 1
                 if (c & 0x20):
-                    cp_size |= (ord(db[i]) << 8)
+                    cp_size |= (db[i] << 8)
                     i += 1
                 if (c & 0x40):
-                    cp_size |= (ord(db[i]) << 16)
+                    cp_size |= (db[i] << 16)
                     i += 1
 
                 if not cp_size:
-- 
2.43.0


From f134a1bc0f5428bbfa9000e7d0bab9e2e8a4f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 28/33] fix: LockedFD must release its lock if closing or
 renaming the lock file fails

---
 gitdb/util.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..b09eefa 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -373,19 +373,28 @@ class LockedFD:
         if self._fd is None:
             return
 
-        os.close(self._fd)
+        fd = self._fd
         self._fd = None
 
         lockfile = self._lockfilepath()
-        if self._write and successful:
-            # on windows, rename does not silently overwrite the existing one
-            if sys.platform == "win32":
-                if isfile(self._filepath):
-                    remove(self._filepath)
-                # END remove if exists
-            # END win32 special handling
-            os.rename(lockfile, self._filepath)
+        try:
+            os.close(fd)
+            if self._write and successful:
+                # on windows, rename does not silently overwrite the existing one
+                if sys.platform == "win32":
+                    if isfile(self._filepath):
+                        remove(self._filepath)
+                    # END remove if exists
+                # END win32 special handling
+                os.rename(lockfile, self._filepath)
+            # END publish changes
+        except:
+            # assure we release our lockfile
+            remove(lockfile)
+            raise
+        # END handle lockfile
 
+        if self._write and successful:
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
             # protection as well
-- 
2.43.0


From eb8bb382addc6bf4eee61d8465b6c755cfe6a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 29/33] fix: InvalidOInfo and InvalidOStream could not be
 instantiated

---
 gitdb/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/base.py b/gitdb/base.py
index 9a23a4f..aa95e24 100644
--- a/gitdb/base.py
+++ b/gitdb/base.py
@@ -291,7 +291,7 @@ class InvalidOInfo(tuple):
         return tuple.__new__(cls, (sha, exc))
 
     def __init__(self, sha, exc):
-        tuple.__init__(self, (sha, exc))
+        tuple.__init__(self)
 
     @property
     def binsha(self):
-- 
2.43.0


From 4c987d08ebf3e5bf9b614c4233e7f7025ead944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 30/33] fix: BadObject could not be printed if made from an
 abbreviated id given as str

LooseObjectDB.partial_to_complete_sha_hex raises BadObject with the hex string
it was given.
---
 gitdb/exc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/exc.py b/gitdb/exc.py
index 752dafd..ed7e0b2 100644
--- a/gitdb/exc.py
+++ b/gitdb/exc.py
@@ -30,7 +30,10 @@ class BadObject(ODBError):
     failed sha"""
 
     def __str__(self):
-        return "BadObject: %s" % to_hex_sha(self.args[0])
+        sha = self.args[0]
+        if not isinstance(sha, str):
+            sha = to_hex_sha(sha)
+        return "BadObject: %s" % sha
 
 
 class BadName(ODBError):
-- 
2.43.0


From 021700b462856dd07b27076161cec4bcf7637e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:21 +0000
Subject: [PATCH 31/33] fix: find packs below directories whose names contain
 glob characters

---
 gitdb/db/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 9c8b032..7694774 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -152,7 +152,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # packs without index are incomplete, they are just being written or removed
-        pack_files = {path for path in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+        pack_files = {path for path in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
                       if os.path.isfile(os.path.splitext(path)[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
-- 
2.43.0


From e1f99451d2c1d31955c887a366ac391d73169ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:21 +0000
Subject: [PATCH 32/33] fix: NullStream.read returns bytes

---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 624cb6c..461b522 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -736,7 +736,7 @@ class NullStream:
     __slots__ = tuple()
 
     def read(self, size=0):
-        return ''
+        return b''
 
     def close(self):
         pass
-- 
2.43.0


From 886bc8e51a9e5f616eb143dd5afeb7d1efdfb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:21 +0000
Subject: [PATCH 33/33] fix: _RandomAccessBytesIO can be created without
 contents

---
 gitdb/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index b09eefa..310c7b2 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -100,7 +100,7 @@ class _RandomAccessBytesIO:
     not be used. This is only really required in python 2.4"""
     __slots__ = '_sio'
 
-    def __init__(self, buf=''):
+    def __init__(self, buf=b''):
         self._sio = BytesIO(buf)
 
     def __getattr__(self, attr):
-- 
2.43.0

