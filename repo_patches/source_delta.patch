From b0251640f0d0b9a5f41a841caacdc51fbbd27011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 01/72] fix: event grains with a deferred data source can be
 decoded, awaited and converted to bytes

---
 mediagrains/grains/EventGrain.py | 17 +++++++++++++++--
 mediagrains/grains/Grain.py      | 20 ++++++++++++--------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index d90ce74..a0f57ff 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -179,13 +179,20 @@ append(path, pre=None, post=None)
     # (bytes is in the GrainDataType union) and it doesn't accept @overload
     # of Grain.data @property
     @property  # type: ignore
-    def data(self) -> bytes:
+    def data(self) -> Optional[bytes]:
+        if self._data_fetcher_coroutine is not None:
+            # The payload hasn't been fetched yet
+            return None
         return json.dumps({'type': self.event_type,
                            'topic': self.topic,
                            'data': [dict(datum) for datum in self.event_data]}).encode('utf-8')
 
     @data.setter
-    def data(self, value: Union[str, bytes]):
+    def data(self, value: Union[str, bytes, Awaitable[Optional[GrainDataType]]]):
+        if isawaitable(value):
+            self._data_fetcher_coroutine = value
+            return
+
         if not isinstance(value, str):
             payload = json.loads(value.decode('utf-8'))
         else:
@@ -203,6 +210,12 @@ append(path, pre=None, post=None)
             if 'post' in datum:
                 d['post'] = datum['post']
             self.meta['grain']['event_payload']['data'].append(d)
+        self._data_fetcher_coroutine = None
+
+    def _set_fetched_data(self, data: Optional[GrainDataType]) -> None:
+        self._data_fetcher_coroutine = None
+        if data is not None:
+            self.data = bytes(cast(SupportsBytes, data))
 
     def __repr__(self) -> str:
         return "EventGrain({!r})".format(self.meta)
diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index b438d44..32c002d 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -372,22 +372,26 @@ media_rate
         return GrainFactory(deepcopy(self.meta), deepcopy(self.data))
 
     def __bytes__(self) -> Optional[bytes]:
-        if isinstance(self._data, bytes):
-            return self._data
-        elif self._data is None:
+        data = self.data
+        if isinstance(data, bytes):
+            return data
+        elif data is None:
             return None
-        return bytes(self._data)
+        return bytes(data)
 
     def has_data(self) -> bool:
-        return self._data is not None
+        return self.data is not None
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self._data = await self._data_fetcher_coroutine
-            return self._data
+            if self.data is None and self._data_fetcher_coroutine is not None:
+                self._set_fetched_data(await self._data_fetcher_coroutine)
+            return self.data
         return __inner().__await__()
 
+    def _set_fetched_data(self, data: Optional[GrainDataType]) -> None:
+        self._data = data
+
     async def __aenter__(self):
         await self
         return self
-- 
2.43.0


From 54be602c7d169c3b8da87609370e79681406f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 02/72] fix: strings in GSF files end at their first null
 character

---
 mediagrains/gsf.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7aff1fc..4d5a2fb 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -430,10 +430,8 @@ class AsyncGSFBlock():
             raise EOFError("Unable to read enough bytes from source")
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            # The string ends at the first null character, if there is one
+            return bytes(string_data).split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
@@ -693,10 +691,8 @@ class SyncGSFBlock():
             raise EOFError("Unable to read enough bytes from source")
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            # The string ends at the first null character, if there is one
+            return bytes(string_data).split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
-- 
2.43.0


From 6a920e3ec5aede573662096345b879a2e1291899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 03/72] fix: null and invalid creation times in GSF files are
 handled

---
 mediagrains/gsf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 4d5a2fb..169364a 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -723,11 +723,12 @@ class SyncGSFBlock():
 
         return UUID(bytes=uuid_data)
 
-    def read_datetime(self) -> datetime:
+    def read_datetime(self) -> Optional[datetime]:
         """Read a date-time (with seconds resolution) stored in 7 bytes
 
-        :returns: Datetime
+        :returns: Datetime, or None for a null date-time (all members are 0)
         :raises EOFError: If there are fewer than 7 bytes left in the source
+        :raises GSFDecodeError: If the members don't form a valid date-time
         """
         year = self.read_sint(2)
         month = self.read_uint(1)
@@ -735,7 +736,15 @@ class SyncGSFBlock():
         hour = self.read_uint(1)
         minute = self.read_uint(1)
         second = self.read_uint(1)
-        return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
+        if not any((year, month, day, hour, minute, second)):
+            return None
+        try:
+            return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
+        except ValueError:
+            raise GSFDecodeError(
+                f"Invalid date-time in block starting at {self.block_start}",
+                self.block_start
+            )
 
     def read_timestamp_v7(self) -> Timestamp:
         """Read a version 7 mediatimestamp.Timestamp with no sign
-- 
2.43.0


From f495cdb76aa75bf5c470e9dc5ce3d52e2161cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 04/72] fix: GSF blocks which are too small for their contents
 are refused

---
 mediagrains/gsf.py | 67 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 169364a..893d040 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -312,7 +312,13 @@ class AsyncGSFBlock():
                 self.tag = ""
 
     async def __aexit__(self, *args):
-        """When used as a context manager, exiting context should seek to the block end"""
+        """When used as a context manager, exiting context should seek to the block end
+
+        :raises GSFDecodeError: If the contents which have been read extend beyond the end of the block
+        """
+        if not any(args):
+            self._check_large_enough(self.file_data.tell())
+
         try:
             if self.size is not None:
                 # If size is < 8 bytes then it is a special value, e.g. a terminator grai.
@@ -324,6 +330,16 @@ class AsyncGSFBlock():
         except Exception:
             pass
 
+    def _check_large_enough(self, position: int) -> None:
+        """Check that a position reached by reading the contents of this block is not beyond the end of the block
+
+        :param position: The position in the file
+        :raises GSFDecodeError: If the block is too small
+        """
+        if self.size is not None and position > self.block_start + max(8, self.size):
+            raise GSFDecodeError("Block '{}' at {} is too small for its contents".format(self.tag, self.block_start),
+                                 self.block_start)
+
     def has_child_block(self, strict_blocks=True):
         """Checks if there is space for another child block in this block
 
@@ -381,6 +397,8 @@ class AsyncGSFBlock():
         bytes_remaining = self.get_remaining()
         if bytes_remaining > 0:
             buffer = await self.file_data.read(bytes_remaining)
+            if len(buffer) != bytes_remaining:
+                raise EOFError("Unable to read enough bytes from source")
         else:
             buffer = bytes()
 
@@ -527,7 +545,13 @@ class SyncGSFBlock():
                 self.tag = ""
 
     def __exit__(self, *args):
-        """When used as a context manager, exiting context should seek to the block end"""
+        """When used as a context manager, exiting context should seek to the block end
+
+        :raises GSFDecodeError: If the contents which have been read extend beyond the end of the block
+        """
+        if not any(args):
+            self._check_large_enough(self._base_file_tell())
+
         try:
             if self.size is not None:
                 # If size is < 8 bytes then it is a special value, e.g. a terminator grai.
@@ -539,6 +563,16 @@ class SyncGSFBlock():
         except Exception:
             pass
 
+    def _check_large_enough(self, position: int) -> None:
+        """Check that a position reached by reading the contents of this block is not beyond the end of the block
+
+        :param position: The position in the file
+        :raises GSFDecodeError: If the block is too small
+        """
+        if self.size is not None and position > self.block_start + max(8, self.size):
+            raise GSFDecodeError("Block '{}' at {} is too small for its contents".format(self.tag, self.block_start),
+                                 self.block_start)
+
     def has_child_block(self, strict_blocks=True):
         """Checks if there is space for another child block in this block
 
@@ -596,6 +630,8 @@ class SyncGSFBlock():
         bytes_remaining = self.get_remaining()
         if bytes_remaining > 0:
             buffer = self.file_data.read(bytes_remaining)
+            if len(buffer) != bytes_remaining:
+                raise EOFError("Unable to read enough bytes from source")
         else:
             buffer = bytes()
 
@@ -794,7 +830,10 @@ class SyncGSFBlock():
         :raises EOFError: If there are too few bytes left in the source
         """
         length = self.read_uint(4)
-        return self.file_data.read(length)
+        data = self.file_data.read(length)
+        if len(data) != length:
+            raise EOFError("Unable to read enough bytes from source")
+        return data
 
     def skip(self, length: int) -> None:
         """Skip length bytes
@@ -861,17 +900,23 @@ class BaseGSFDecoderSession(object):
 
                 # Segment blocks can have child tags as well
                 while head_child.has_child_block():
-                    with SyncGSFBlock(head_block) as segm_child:
+                    with SyncGSFBlock(head_child) as segm_child:
                         if segm_child.tag == "flow":
                             src_id = segm_child.read_uuid()
                             flow_id = segm_child.read_uuid()
                             format = segm_child.read_string(64)
-                            data = segm_child.read_varbytes()
+                            try:
+                                data = segm_child.read_varbytes().decode('utf-8')
+                            except UnicodeDecodeError:
+                                raise GSFDecodeError(
+                                    f"Failed to decode flow data in block starting at {segm_child.block_start}",
+                                    segm_child.block_start
+                                )
                             segm['flow'] = {
                                 'source_id': src_id,
                                 'flow_id': flow_id,
                                 'format': format,
-                                'data': data.decode('utf-8')
+                                'data': data
                             }
                         elif segm_child.tag == "tag ":
                             key = segm_child.read_varstring()
@@ -916,8 +961,16 @@ class BaseGSFDecoderSession(object):
 
         :param gbhd_block: Instance of GSFBlock() representing a "gbhd" block
         :returns: Grain data dict
-        :raises GSFDecodeError: If "gbhd" block contains an unkown child block
+        :raises GSFDecodeError: If "gbhd" block, or one of its children, is too small for its contents
         """
+        try:
+            return self._sync_decode_gbhd_contents(gbhd_block)
+        except EOFError:
+            # The whole of the block has already been read, so the file has not been truncated here
+            raise GSFDecodeError("Block 'gbhd' at {} is too small for its contents".format(gbhd_block.block_start),
+                                 gbhd_block.block_start)
+
+    def _sync_decode_gbhd_contents(self, gbhd_block: SyncGSFBlock) -> GrainMetadataDict:
         meta: dict = {
             "grain": {
             }
-- 
2.43.0


From 3f91c34e1e189494b391604db80346d4b63f5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 05/72] fix: the search for the data of a GSF grain does not
 leave the grain's block

---
 mediagrains/gsf.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 893d040..2f8e303 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1230,8 +1230,13 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                     data: Optional[Union[bytes, Awaitable[Optional[bytes]]]] = None
 
                     data_length = 0
-                    if grai_block.has_child_block():
-                        async with AsyncGSFBlock(grai_block, want_tag="grdt") as grdt_block:
+                    found_grdt = False
+                    while not found_grdt and grai_block.has_child_block():
+                        async with AsyncGSFBlock(grai_block) as grdt_block:
+                            if grdt_block.tag != "grdt":
+                                continue
+
+                            found_grdt = True
                             if grdt_block.get_remaining() > 0:
                                 if self.file_data.seekable_backwards() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
@@ -1375,8 +1380,13 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
 
                     data: Optional[Union[bytes, Awaitable[Optional[bytes]]]] = None
 
-                    if grai_block.has_child_block():
-                        with SyncGSFBlock(grai_block, want_tag="grdt") as grdt_block:
+                    found_grdt = False
+                    while not found_grdt and grai_block.has_child_block():
+                        with SyncGSFBlock(grai_block) as grdt_block:
+                            if grdt_block.tag != "grdt":
+                                continue
+
+                            found_grdt = True
                             if grdt_block.get_remaining() > 0:
                                 if self.file_data.seekable() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
-- 
2.43.0


From 412f48fdf203a41a6f92d23a8f93a7c6ecf3186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 06/72] fix: decoding a truncated GSF file stops before the
 grain whose data is incomplete

---
 mediagrains/gsf.py | 73 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 2f8e303..3e52fb4 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -387,6 +387,27 @@ class AsyncGSFBlock():
         assert self.size is not None, "get_remaining() only works in a context manager"
         return (self.block_start + self.size) - self.file_data.tell()
 
+    async def read_remaining(self) -> bytes:
+        """Read all the bytes left in this block
+
+        :returns: The bytes
+        :raises EOFError: If the source ends before this block does
+        """
+        length = self.get_remaining()
+        data = await self.file_data.read(length)
+        if len(data) != length:
+            raise EOFError("Unable to read enough bytes from source")
+        return data
+
+    async def skip_remaining(self) -> None:
+        """Skip all the bytes left in this block
+
+        :raises EOFError: If the source ends before this block does
+        """
+        if self.get_remaining() > 0:
+            self.file_data.seek(self.get_remaining() - 1, SEEK_CUR)
+            await self.read_uint(1)
+
     async def read_remaining_block(self) -> "SyncGSFBlock":
         """Reads the remaining data into a SyncGSFBlock
         """
@@ -620,6 +641,27 @@ class SyncGSFBlock():
         assert self.size is not None, "get_remaining() only works in a context manager"
         return (self.block_start + self.size) - (self.file_data_start + self.file_data.tell())
 
+    def read_remaining(self) -> bytes:
+        """Read all the bytes left in this block
+
+        :returns: The bytes
+        :raises EOFError: If the source ends before this block does
+        """
+        length = self.get_remaining()
+        data = self.file_data.read(length)
+        if len(data) != length:
+            raise EOFError("Unable to read enough bytes from source")
+        return data
+
+    def skip_remaining(self) -> None:
+        """Skip all the bytes left in this block
+
+        :raises EOFError: If the source ends before this block does
+        """
+        if self.get_remaining() > 0:
+            self.file_data.seek(self.get_remaining() - 1, SEEK_CUR)
+            self.read_uint(1)
+
     def read_remaining_block(self) -> "SyncGSFBlock":
         """Reads the remaining data into a SyncGSFBlock
         """
@@ -1241,6 +1283,9 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                 if self.file_data.seekable_backwards() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
                                  GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]:
+                                    data_pos = self.file_data.tell()
+                                    data_length = grdt_block.get_remaining()
+                                    await grdt_block.skip_remaining()
                                     if not self._sync_compatibility_mode:
                                         # It is correct that this is not awaited here
                                         # It will be awaited when the data is actually needed.
@@ -1249,22 +1294,21 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                         data = _read_out_of_order(self,
                                                                   self._next_lazy_grain_number,
                                                                   self.file_data,
-                                                                  self.file_data.tell(),
-                                                                  grdt_block.get_remaining(),
+                                                                  data_pos,
+                                                                  data_length,
                                                                   load_on_exit=load_on_exit)
-                                        data_length = grdt_block.get_remaining()
                                     else:
                                         # This is compatibility mode with the old code
                                         data = IOBytes(cast(OpenAsyncFileWrapper, self.file_data).getsync(),
-                                                       self.file_data.tell(),
-                                                       grdt_block.get_remaining())
+                                                       data_pos,
+                                                       data_length)
                                 elif loading_mode == GrainDataLoadingMode.LOAD_NEVER:
                                     if self.file_data.seekable_forwards():
-                                        self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
+                                        await grdt_block.skip_remaining()
                                     else:
-                                        await self.file_data.read(grdt_block.get_remaining())
+                                        await grdt_block.read_remaining()
                                 else:
-                                    data = await self.file_data.read(grdt_block.get_remaining())
+                                    data = await grdt_block.read_remaining()
 
                 grain = self.Grain(meta, data)
 
@@ -1391,16 +1435,17 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                 if self.file_data.seekable() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
                                  GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]:
-                                    data = IOBytes(self.file_data,
-                                                   self.file_data.tell(),
-                                                   grdt_block.get_remaining())
+                                    data_pos = self.file_data.tell()
+                                    data_length = grdt_block.get_remaining()
+                                    grdt_block.skip_remaining()
+                                    data = IOBytes(self.file_data, data_pos, data_length)
                                 elif loading_mode == GrainDataLoadingMode.LOAD_NEVER:
                                     if self.file_data.seekable():
-                                        self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
+                                        grdt_block.skip_remaining()
                                     else:
-                                        self.file_data.read(grdt_block.get_remaining())
+                                        grdt_block.read_remaining()
                                 else:
-                                    data = self.file_data.read(grdt_block.get_remaining())
+                                    data = grdt_block.read_remaining()
 
                 grain = self.Grain(meta, data)
 
-- 
2.43.0


From df16837462732371e52a5ac77e04c65d5f1e13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 07/72] fix: loads passes its keyword arguments to the decoder

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 3e52fb4..220f56d 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -101,7 +101,7 @@ def loads(s: bytes,
     if parse_grain is None:
         parse_grain = GrainFactory
 
-    return load(BytesIO(s), cls=cls, parse_grain=parse_grain)
+    return load(BytesIO(s), cls=cls, parse_grain=parse_grain, **kwargs)
 
 
 @overload
-- 
2.43.0


From 41ec8ebde705c3698e2231e46e914e97f018cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 08/72] fix: leaving a GSF decoder session with grains still to
 be loaded does not raise

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 220f56d..1ae8fd9 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1196,7 +1196,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
     async def _kill_unused_lazy_loaders(self):
         self._exiting = True
-        for (key, grain) in self._unloaded_lazy_grains.items():
+        for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
 
     async def _load_unused_lazy_loaders(self):
-- 
2.43.0


From c492ec8852e7a049c2ebd1baedcfdbcd15c602e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 09/72] fix: a grain whose deferred data turned out to be
 absent can be awaited again

---
 mediagrains/grains/Grain.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 32c002d..18c4f6f 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -384,12 +384,17 @@ media_rate
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
-            if self.data is None and self._data_fetcher_coroutine is not None:
-                self._set_fetched_data(await self._data_fetcher_coroutine)
+            fetcher = self._data_fetcher_coroutine
+            if self.data is None and fetcher is not None:
+                data = await fetcher
+                # The data may have been replaced in the meantime
+                if self._data_fetcher_coroutine is fetcher:
+                    self._set_fetched_data(data)
             return self.data
         return __inner().__await__()
 
     def _set_fetched_data(self, data: Optional[GrainDataType]) -> None:
+        self._data_fetcher_coroutine = None
         self._data = data
 
     async def __aenter__(self):
-- 
2.43.0


From aa9a744d3b874ecaa5d20abbe935ed3e40aeab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 10/72] fix: GSF grain blocks which are too small for their
 local id are refused

---
 mediagrains/gsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 1ae8fd9..79ee851 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1262,6 +1262,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                         break
 
                     local_id = await grai_block.read_uint(2)
+                    grai_block._check_large_enough(self.file_data.tell())
 
                     if local_ids is not None and local_id not in local_ids:
                         continue
@@ -1415,6 +1416,7 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                         break
 
                     local_id = grai_block.read_uint(2)
+                    grai_block._check_large_enough(self.file_data.tell())
 
                     if local_ids is not None and local_id not in local_ids:
                         continue
-- 
2.43.0


From 50f0537221d58415ea3e13c8e3a4dbd92ffcfe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 11/72] fix: each dump of a GSF encoder counts its own grains

---
 mediagrains/gsf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 79ee851..56fba9f 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1777,6 +1777,11 @@ class OpenGSFEncoderBase(object):
         for (seg, offset) in segment_offsets:
             seg.set_size_position(pos + offset)
 
+    def _set_inactive(self) -> None:
+        self._active_dump = False
+        for seg in self._segments.values():
+            seg._active_dump = False
+
     def _encode_file_header(self):
         return (b"SSBB" +
                 b"grsg" +
@@ -1892,7 +1897,7 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         if self._active_dump:
             self.file.write(b"grai" +
                             _encode_uint(0, 4))
-            self._active_dump = False
+            self._set_inactive()
 
 
 class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
@@ -1988,7 +1993,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
             await self._open_file.write(b"grai" +
                                         _encode_uint(0, 4))
 
-            self._active_dump = False
+            self._set_inactive()
 
 
 class SegmentDict(TypedDict, total=False):
@@ -2334,6 +2339,9 @@ class GSFEncoderSegment(object):
 
     def _encode_header(self, all_at_once: bool = False) -> Tuple[bytes, int]:
         self._active_dump = True
+        # Each dump counts its own grains
+        self._write_count = 0
+        self._count_pos = -1
         data = (
             b"segm" +
             _encode_uint(self.segm_block_size, 4) +
-- 
2.43.0


From a42fdbc795776ecb14b93e9726397c2a8f1b6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 12/72] fix: headers cannot be changed through a GSF encoder
 which is being dumped asynchronously

---
 mediagrains/gsf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 56fba9f..b3b0835 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2139,6 +2139,9 @@ class GSFEncoder(object):
         """Add a tag to the file"""
         if self._open_encoder is not None:
             raise GSFEncodeAddToActiveDump("Cannot add a new tag to an encoder that is currently dumping")
+        if self._open_async_encoder is not None:
+            self._open_async_encoder.add_tag(key, value)
+            return
 
         self._tags.append(GSFEncoderTag(key, value))
 
@@ -2152,6 +2155,8 @@ class GSFEncoder(object):
         if self._open_encoder is not None:
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
+        if self._open_async_encoder is not None:
+            return self._open_async_encoder.add_segment(id=id, local_id=local_id, tags=tags)
 
         if local_id is None:
             local_id = self._next_local
-- 
2.43.0


From 08eb3f7b4c8dade438418183a3ec379c4ff27acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 13/72] fix: grains added to a segment during an asynchronous
 or repeated GSF dump are written

---
 mediagrains/gsf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index b3b0835..a44cf0c 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1718,6 +1718,10 @@ class OpenGSFEncoderBase(object):
         self._next_local = next_local
         self._active_dump = False
 
+        # The segments may have been attached to an earlier session
+        for seg in self._segments.values():
+            seg._parent = self
+
     @property
     def tags(self) -> Tuple["GSFEncoderTag", ...]:
         return tuple(self._tags)
@@ -1947,6 +1951,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._open_file is not None and self._active_dump:
+            # Grains which were added to the segment directly come first
+            await self._open_file.write(segment.encode_all_grains())
             for grain in grains:
                 await self._open_file.write(segment.encode_grain(grain))
         else:
@@ -1980,6 +1986,10 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                                     self._encode_all_grains())
 
     async def _end_dump(self):
+        # Grains which were added to segments directly during the dump
+        if self._active_dump:
+            await self._open_file.write(self._encode_all_grains())
+
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
                 curpos = self._open_file.tell()
-- 
2.43.0


From dc88c56640a7cccb12716ff0561b618d4b616f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 14/72] fix: grains with deferred data are loaded before they
 are encoded as GSF

---
 mediagrains/gsf.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index a44cf0c..48844b0 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1952,12 +1952,18 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
         if self._open_file is not None and self._active_dump:
             # Grains which were added to the segment directly come first
+            await segment._load_grains()
             await self._open_file.write(segment.encode_all_grains())
             for grain in grains:
+                await grain
                 await self._open_file.write(segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
+    async def _load_grains(self) -> None:
+        for seg in self._segments.values():
+            await seg._load_grains()
+
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
             self._open_file.seek(0)
@@ -1976,6 +1982,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
         file_header = self._encode_file_header()
 
+        await self._load_grains()
         (head_block, segment_offsets) = self._encode_head_block(all_at_once=all_at_once)
 
         if not all_at_once and self._open_file.seekable():
@@ -1988,6 +1995,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
     async def _end_dump(self):
         # Grains which were added to segments directly during the dump
         if self._active_dump:
+            await self._load_grains()
             await self._open_file.write(self._encode_all_grains())
 
         for seg in self._segments.values():
@@ -2389,6 +2397,11 @@ class GSFEncoderSegment(object):
     def set_size_position(self, pos: int):
         self._count_pos = pos
 
+    async def _load_grains(self) -> None:
+        """Make sure that the data of the grains waiting to be written has been loaded"""
+        for grain in self._grains:
+            await grain
+
     def encode_all_grains(self) -> bytes:
         data = b''
         for grain in self._grains:
@@ -2398,6 +2411,9 @@ class GSFEncoderSegment(object):
         return data
 
     def encode_grain(self, grain: Grain) -> bytes:
+        if grain.data is None and grain.length > 0:
+            raise GSFEncodeError("The data of a grain has not been loaded")
+
         gbhd_size = self._gbhd_size_for_grain(grain)
 
         encode_ts_f = _encode_ts
-- 
2.43.0


From a674e502b07e2ca3971bb1b5d5980c46f8ca222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 15/72] fix: numpy grains accept absent data

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 16 ++++++++--------
 mediagrains/numpy/numpy_grains/VideoGrain.py | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 05f9082..d2e9471 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -1,4 +1,4 @@
-from typing import Optional, Awaitable, cast, Generator, Any, List
+from typing import Optional, Awaitable, cast, List
 from ...typing import AudioGrainMetadataDict, GrainDataType, GrainDataParameterType
 from inspect import isawaitable
 
@@ -154,7 +154,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         if self._data is not None:
             return self._data.nbytes
         else:
-            return 0
+            return super().length
 
     @length.setter
     def length(self, L: int) -> None:
@@ -174,6 +174,10 @@ class AudioGrain (bytesgrain.AudioGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.channel_data = []
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
@@ -202,12 +206,8 @@ class AudioGrain (bytesgrain.AudioGrain):
         else:
             return "{}({!r},< numpy data of length {} >)".format(self._factory, self.meta, len(self.data))
 
-    def __await__(self) -> Generator[Any, None, np.ndarray]:
-        async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
-            return self.data
-        return __inner().__await__()
+    def _set_fetched_data(self, data: Optional[GrainDataType]) -> None:
+        self.data = data  # type: ignore
 
     async def __aenter__(self) -> "AudioGrain":
         await self
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 99be2a0..5da0092 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -11,7 +11,7 @@ import uuid
 import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
-from typing import Callable, Dict, Tuple, Optional, Awaitable, cast, Generator, Any
+from typing import Callable, Dict, Tuple, Optional, Awaitable, cast
 from ...typing import VideoGrainMetadataDict, GrainDataType, GrainDataParameterType
 
 from inspect import isawaitable
@@ -265,7 +265,7 @@ class VideoGrain (bytesgrain.VideoGrain):
     @property
     def length(self) -> int:
         if self._data is None:
-            return 0
+            return super().length
         return self._data.nbytes
 
     @length.setter
@@ -286,6 +286,10 @@ class VideoGrain (bytesgrain.VideoGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.component_data = ComponentDataList([])
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
@@ -314,12 +318,8 @@ class VideoGrain (bytesgrain.VideoGrain):
         else:
             return "{}({!r},< numpy data of length {} >)".format(self._factory, self.meta, len(self.data))
 
-    def __await__(self) -> Generator[Any, None, np.ndarray]:
-        async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
-            return self.data
-        return __inner().__await__()
+    def _set_fetched_data(self, data: Optional[GrainDataType]) -> None:
+        self.data = data  # type: ignore
 
     async def __aenter__(self) -> "VideoGrain":
         await self
-- 
2.43.0


From d95f11fdb03e10503c03ba80228608aa887cded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 16/72] fix: several tasks can await one grain

---
 mediagrains/grains/Grain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 18c4f6f..0c7757a 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -12,6 +12,7 @@ from collections.abc import Sequence, MutableSequence, Mapping
 from fractions import Fraction
 from copy import copy, deepcopy
 from inspect import isawaitable
+from asyncio import ensure_future, isfuture, shield
 
 from typing import (
     List,
@@ -386,7 +387,11 @@ media_rate
         async def __inner():
             fetcher = self._data_fetcher_coroutine
             if self.data is None and fetcher is not None:
-                data = await fetcher
+                if not isfuture(fetcher):
+                    # The source can only be awaited once, but several tasks may be waiting for this grain
+                    fetcher = ensure_future(fetcher)
+                    self._data_fetcher_coroutine = fetcher
+                data = await shield(fetcher)
                 # The data may have been replaced in the meantime
                 if self._data_fetcher_coroutine is fetcher:
                     self._set_fetched_data(data)
-- 
2.43.0


From 3d3e4148483610c8b319e3a0b3a305d325039820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 17/72] fix: grain data can be loaded by several tasks while a
 GSF file is read

---
 mediagrains/gsf.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 48844b0..0a7ed47 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -46,6 +46,7 @@ from typing import (
     Type,
     IO,
     Sequence,
+    AsyncGenerator,
     AsyncIterable,
     Awaitable,
     overload,
@@ -57,6 +58,7 @@ from .grains import VideoGrain, EventGrain, AudioGrain, CodedAudioGrain, CodedVi
 
 from .utils.asyncbinaryio import AsyncBinaryIO, OpenAsyncBinaryIO, AsyncFileWrapper, OpenAsyncFileWrapper
 
+import asyncio
 from contextlib import contextmanager
 
 from deprecated import deprecated
@@ -1146,6 +1148,8 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         self.file_headers: Optional[GSFFileHeaderDict] = None
 
         self._exiting = False
+        # Held while the position of the file matters, since grain data may be loaded by other tasks
+        self._file_lock = asyncio.Lock()
         self._unloaded_lazy_grains: Dict[int, Grain] = {}
         self._next_lazy_grain_number = 0
 
@@ -1221,6 +1225,20 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :yields: (Grain, local_id) tuple for each grain
         :raises GSFDecodeError: If grain is invalid (e.g. no "gbhd" child)
         """
+        grains = self._read_grains(local_ids, loading_mode)
+        while True:
+            try:
+                async with self._file_lock:
+                    item = await grains.__anext__()
+            except StopAsyncIteration:
+                return
+            yield item
+
+    async def _read_grains(self,
+                           local_ids: Optional[Sequence[int]],
+                           loading_mode: GrainDataLoadingMode
+                           ) -> AsyncGenerator[Tuple[Grain, int], None]:
+        """Reads the next grain each time it is resumed, which must be with the file lock held"""
         async def _read_out_of_order(parent: GSFAsyncDecoderSession,
                                      key: int,
                                      file_data: OpenAsyncBinaryIO,
@@ -1228,13 +1246,15 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                      length: int,
                                      load_on_exit=False) -> Optional[bytes]:
             if load_on_exit or not parent._exiting:
-                parent._remove_lazy_grain(key)
-
-                oldpos = file_data.tell()
-                file_data.seek(pos)
-                data = await file_data.read(length)
-                file_data.seek(oldpos)
-                return data
+                try:
+                    async with parent._file_lock:
+                        oldpos = file_data.tell()
+                        file_data.seek(pos)
+                        data = await file_data.read(length)
+                        file_data.seek(oldpos)
+                        return data
+                finally:
+                    parent._remove_lazy_grain(key)
             else:
                 return None
 
-- 
2.43.0


From e1ee2cd42480b0fbe1e10da5e16c0a5a096f480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 18/72] fix: numpy grains accept data which supports conversion
 to bytes

---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  5 +++--
 mediagrains/numpy/numpy_grains/VideoGrain.py | 13 +++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index d2e9471..466c89e 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -24,6 +24,7 @@ from ...cogenums import (
     COG_AUDIO_FORMAT_DEPTH,
     COG_AUDIO_FORMAT_DEPTH_S24
 )
+from .VideoGrain import _bytes_like
 
 
 def _dtype_from_cogaudioformat(format: CogAudioFormat) -> np.dtype:
@@ -141,7 +142,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         self.channel_data: List[np.ndarray]
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = np.frombuffer(_bytes_like(self._data), dtype=_dtype_from_cogaudioformat(self.format))
         if self._data is not None:
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
@@ -180,7 +181,7 @@ class AudioGrain (bytesgrain.AudioGrain):
             self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = np.frombuffer(_bytes_like(cast(bytes, value)), dtype=_dtype_from_cogaudioformat(self.format))
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
             )
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 5da0092..2318ec5 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -22,6 +22,15 @@ from fractions import Fraction
 from mediatimestamp.immutable import SupportsMediaTimestamp
 
 
+def _bytes_like(data: GrainDataType) -> GrainDataType:
+    """Data that is not bytes-like itself supports conversion to bytes"""
+    try:
+        memoryview(data)  # type: ignore
+        return data
+    except TypeError:
+        return bytes(data)
+
+
 def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
     """This method returns the numpy "data type" for a particular video format.
 
@@ -255,7 +264,7 @@ class VideoGrain (bytesgrain.VideoGrain):
         self.component_data: ComponentDataList
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = np.frombuffer(_bytes_like(self._data), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
@@ -292,7 +301,7 @@ class VideoGrain (bytesgrain.VideoGrain):
             self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = np.frombuffer(_bytes_like(cast(bytes, value)), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
-- 
2.43.0


From 727577a9a7c058bb6c53b8880362b3539d8adeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 19/72] fix: readall of the asynchronous file and stream
 wrappers

---
 mediagrains/utils/asyncbinaryio.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 15fdfc6..8b4cb3a 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -223,7 +223,7 @@ class OpenAsyncFileWrapper(OpenAsyncBinaryIO):
         return await wrap_in_executor(self.fp.readinto)(b)
 
     async def readall(self) -> bytes:
-        return await wrap_in_executor(self.fp.readall)()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return await wrap_in_executor(self.fp.write)(b)
@@ -277,7 +277,7 @@ class OpenAsyncBytesIOWrapper(OpenAsyncBinaryIO):
         return self.fp.readinto(b)
 
     async def readall(self) -> bytes:
-        return self.fp.readall()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return self.fp.write(b)
@@ -367,9 +367,7 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
             return len(d)
 
     async def readall(self) -> bytes:
-        d = await self.read()
-        self._pos += len(d)
-        return d
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         if self.writer is None:
-- 
2.43.0


From b0d2bcbee2ae7804ce29a4b8e1ae5dd5330e68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 20/72] fix: asynchronous in-memory files keep their position
 and contents like ordinary files

---
 mediagrains/utils/asyncbinaryio.py | 43 +++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 8b4cb3a..abfb6d4 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -131,32 +131,45 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     @wrap_in_executor
     def readall(self) -> bytes:
-        if self._pos >= 0 and self._pos < self._len:
-            return bytes(self._buffer[self._pos:self._len])
+        if self._pos < self._len:
+            data = bytes(self._buffer[self._pos:self._len])
+            self._pos = self._len
+            return data
         else:
             return bytes()
 
     @wrap_in_executor
     def write(self, b: bytes) -> int:
-        if self._pos < 0:
+        length = len(b)
+        if length == 0:
             return 0
 
-        if self._pos + len(b) > len(self._buffer):
-            newbuf = bytearray(max(self._pos + len(b), 2*len(self._buffer)))
+        self._extend_zeroed(self._pos)
+        if self._pos + length > len(self._buffer):
+            newbuf = bytearray(max(self._pos + length, 2*len(self._buffer)))
             newbuf[:self._len] = self._buffer[:self._len]
             self._buffer = newbuf
 
-        length = len(b)
         self._buffer[self._pos:self._pos + length] = b[:length]
         self._pos += length
         self._len = max(self._pos, self._len)
         return length
 
-    async def truncate(self, size: Optional[int] = None) -> int:
-        if size is not None:
+    def _extend_zeroed(self, size: int) -> None:
+        """Make the file at least this long, and zero what lies beyond its old end"""
+        if size > self._len:
+            if size > len(self._buffer):
+                self._buffer.extend(bytes(size - len(self._buffer)))
+            self._buffer[self._len:size] = bytes(size - self._len)
             self._len = size
-        else:
-            self._len = max(self._pos, 0)
+
+    async def truncate(self, size: Optional[int] = None) -> int:
+        if size is None:
+            size = self._pos
+        if size < 0:
+            raise ValueError("negative size value {}".format(size))
+        self._extend_zeroed(size)
+        self._len = size
 
         return self._len
 
@@ -165,11 +178,15 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     def seek(self, offset: int, whence: int = SEEK_SET):
         if whence == SEEK_SET:
-            self._pos = offset
+            pos = offset
         elif whence == SEEK_CUR:
-            self._pos += offset
+            pos = self._pos + offset
         else:
-            self._pos = self._len + offset
+            pos = self._len + offset
+        if pos < 0:
+            raise ValueError("negative seek value {}".format(pos))
+        self._pos = pos
+        return self._pos
 
     def seekable(self) -> bool:
         return True
-- 
2.43.0


From b99a7e89c6bb3c33ec7d5937af71bfc087ba566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 21/72] fix: compare lazily loaded objects with each other and
 with bytearrays

---
 mediagrains/utils/iobytes.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index 8ae825b..9746895 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -25,6 +25,15 @@ from typing import List
 __all__ = ["IOBytes"]
 
 
+def _loaded(obj):
+    """The object a LazyLoader stands for, loaded if necessary. Anything else stands for itself."""
+    if not isinstance(obj, LazyLoader):
+        return obj
+    if object.__getattribute__(obj, '_object') is None:
+        obj._object = object.__getattribute__(obj, '_loader')()
+    return object.__getattribute__(obj, '_object')
+
+
 class LazyLoader (object):
     """An object that will be loaded lazily as needed.
 
@@ -71,23 +80,24 @@ class LazyLoader (object):
             return setattr(object.__getattribute__(self, '_object'), attr, value)
 
     # In python2.7 some special methods may bypass __getattribute__, so need to be specifically redefined
-    def __lt__(self, *args, **kwargs):
-        return self.__getattribute__('__lt__')(*args, **kwargs)
+    # Comparisons are made between the loaded objects, so that it doesn't matter which side is lazily loaded
+    def __lt__(self, other):
+        return _loaded(self) < _loaded(other)
 
-    def __le__(self, *args, **kwargs):
-        return self.__getattribute__('__le__')(*args, **kwargs)
+    def __le__(self, other):
+        return _loaded(self) <= _loaded(other)
 
-    def __gt__(self, *args, **kwargs):
-        return self.__getattribute__('__gt__')(*args, **kwargs)
+    def __gt__(self, other):
+        return _loaded(self) > _loaded(other)
 
-    def __ge__(self, *args, **kwargs):
-        return self.__getattribute__('__ge__')(*args, **kwargs)
+    def __ge__(self, other):
+        return _loaded(self) >= _loaded(other)
 
-    def __eq__(self, *args, **kwargs):
-        return self.__getattribute__('__eq__')(*args, **kwargs)
+    def __eq__(self, other):
+        return _loaded(self) == _loaded(other)
 
-    def __ne__(self, *args, **kwargs):
-        return self.__getattribute__('__ne__')(*args, **kwargs)
+    def __ne__(self, other):
+        return _loaded(self) != _loaded(other)
 
     def __cmp__(self, *args, **kwargs):
         return self.__getattribute__('__cmp__')(*args, **kwargs)
-- 
2.43.0


From 225c489d75f8d148a3e1667b94055db6a01a76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 22/72] fix: event datum's absent pre value can be set to None

---
 mediagrains/grains/EventGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index a0f57ff..12b4ed1 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -302,7 +302,7 @@ post
         def pre(self, value: Optional[MediaJSONSerialisable]) -> None:
             if value is not None:
                 self.meta['pre'] = value
-            else:
+            elif 'pre' in self.meta:
                 del self.meta['pre']
 
         @property
-- 
2.43.0


From e02e84f26f2c447a7381448a953de6289ac631ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 23/72] fix: slices, extension and assignment of time labels
 and unit offsets behave like those of lists

---
 mediagrains/grains/CodedVideoGrain.py | 12 +++++++++++-
 mediagrains/grains/Grain.py           | 25 +++++++++++++++----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index b45e5a7..c2ecba6 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -346,6 +346,8 @@ unit_offsets
         def __getitem__(self, key):  # noqa: F811
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 return self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key]
+            elif isinstance(key, slice):
+                return []
             else:
                 raise IndexError("list index out of range")
 
@@ -358,6 +360,10 @@ unit_offsets
         def __setitem__(self, key, value):  # noqa: F811
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key] = value
+            elif isinstance(key, slice):
+                d: List[int] = []
+                d[key] = value
+                self.parent.meta['grain']['cog_coded_frame']['unit_offsets'] = d
             else:
                 raise IndexError("list assignment index out of range")
 
@@ -366,9 +372,13 @@ unit_offsets
                 del cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])[key]
                 if len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets']) == 0:
                     del self.parent.meta['grain']['cog_coded_frame']['unit_offsets']
-            else:
+            elif not isinstance(key, slice):
                 raise IndexError("list assignment index out of range")
 
+        def extend(self, values: Iterable[int]) -> None:
+            # The values may be a view of this same list
+            super().extend(list(values))
+
         def insert(self, key: int, value: int) -> None:
             if 'unit_offsets' not in self.parent.meta['grain']['cog_coded_frame']:
                 d: List[int] = []
diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 0c7757a..20b9356 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -547,9 +547,9 @@ media_rate
 
     @timelabels.setter
     def timelabels(self, value: "Union[List[Grain.TIMELABEL], Grain.TIMELABELS]") -> None:
-        cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = []
-        for x in value:
-            self.timelabels.append(x)
+        # The value may be a view of this same list
+        cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = [
+            cast(TimeLabel, dict(Grain.TIMELABEL(x))) for x in value]
 
     def add_timelabel(self, tag: str, count: int, rate: Fraction, drop_frame: bool = False) -> None:
         tl = Grain.TIMELABEL()
@@ -645,9 +645,9 @@ media_rate
         def __getitem__(self, key: slice) -> "List[Grain.TIMELABEL]": ...
 
         def __getitem__(self, key):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list index out of range")
             if isinstance(key, int):
+                if 'timelabels' not in self.parent.meta['grain']:
+                    raise IndexError("list index out of range")
                 return Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][key])
             else:
                 return [Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][n]) for n in range(len(self))[key]]
@@ -659,23 +659,28 @@ media_rate
         def __setitem__(self, key: slice, value: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list assignment index out of range")
             if isinstance(key, int):
+                if 'timelabels' not in self.parent.meta['grain']:
+                    raise IndexError("list assignment index out of range")
                 self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
             else:
-                values = iter(value)
-                for n in key:
-                    self.parent.meta['grain']['timelabels'][n] = dict(Grain.TIMELABEL(next(values)))
+                values = [dict(Grain.TIMELABEL(x)) for x in value]
+                self.parent.meta['grain'].setdefault('timelabels', [])[key] = values
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             if 'timelabels' not in self.parent.meta['grain']:
+                if isinstance(key, slice):
+                    return
                 raise IndexError("list assignment index out of range")
 
             del self.parent.meta['grain']['timelabels'][key]
             if len(self.parent.meta['grain']['timelabels']) == 0:
                 del self.parent.meta['grain']['timelabels']
 
+        def extend(self, values: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None:
+            # The values may be a view of this same list
+            super().extend(list(values))
+
         def insert(self, key: int, value: "Grain.TIMELABEL.GrainMetadataDict") -> None:
             if 'timelabels' not in self.parent.meta['grain']:
                 cast(EmptyGrainMetadataDict, self.parent.meta)['grain']['timelabels'] = []
-- 
2.43.0


From d2d88a74bd05708fe93135ef35ac64263ff30091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 24/72] fix: the metadata of a video grain holds its components
 as dictionaries, and assigning or slicing them works as for lists

---
 mediagrains/grains/VideoGrain.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 340b3d3..eb364e9 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -223,18 +223,17 @@ length
 
         def __setitem__(self, key, value):  # noqa: F811
             if isinstance(key, int):
-                self.parent.meta['grain']['cog_frame']['components'][key] = type(self.parent).COMPONENT(value)
+                self.parent.meta['grain']['cog_frame']['components'][key] = cast(VideoGrainComponentDict, dict(value))
             else:
-                values = iter(value)
-                for n in range(len(self))[key]:
-                    self.parent.meta['grain']['cog_frame']['components'][n] = type(self.parent).COMPONENT(next(values))
+                self.parent.meta['grain']['cog_frame']['components'][key] = [
+                    cast(VideoGrainComponentDict, dict(x)) for x in value]
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             del self.parent.meta['grain']['cog_frame']['components'][key]
 
         def insert(self, key: int, value: VideoGrainComponentDict) -> None:
             self.parent.meta['grain']['cog_frame']['components'].insert(
-                key, type(self.parent).COMPONENT(value))  # type: ignore
+                key, cast(VideoGrainComponentDict, dict(value)))
 
         def __len__(self) -> int:
             return len(self.parent.meta['grain']['cog_frame']['components'])
@@ -444,7 +443,15 @@ length
             }
         self.meta['grain']['cog_frame']['format'] = int(self.meta['grain']['cog_frame']['format'])
         self.meta['grain']['cog_frame']['layout'] = int(self.meta['grain']['cog_frame']['layout'])
-        self.components = VideoGrain.COMPONENT_LIST(self)
+        self._components = VideoGrain.COMPONENT_LIST(self)
+
+    @property
+    def components(self) -> "VideoGrain.COMPONENT_LIST":
+        return self._components
+
+    @components.setter
+    def components(self, value: Iterable[VideoGrainComponentDict]) -> None:
+        self._components[:] = value
 
     @property
     @deprecated(version="4.0.0", reason="Referencing `format` directly is deprecated in favour of `cog_frame_format`")
-- 
2.43.0


From 12cd50f5ad4b05d267ed59976921775b547aac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 25/72] fix: copies of grains without data keep having none,
 deep copies of memoryviews and file data, equality of numpy grains

---
 mediagrains/grains/Grain.py                  | 16 +++++++++--
 mediagrains/numpy/numpy_grains/AudioGrain.py | 20 +++++++++++---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 28 +++++++++++++++++---
 3 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 20b9356..1c04f61 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -367,10 +367,22 @@ media_rate
         return not (self == other)
 
     def __copy__(self) -> "Grain":
-        return GrainFactory(copy(self.meta), self.data)
+        return self._copy_with(copy(self.meta), self.data)
 
     def __deepcopy__(self, memo) -> "Grain":
-        return GrainFactory(deepcopy(self.meta), deepcopy(self.data))
+        try:
+            data = deepcopy(self.data)
+        except TypeError:
+            # memoryviews and data which is still in a file can't be copied as what they are
+            data = bytes(cast(SupportsBytes, self.data))
+        return self._copy_with(deepcopy(self.meta), data)
+
+    def _copy_with(self, meta: GrainMetadataDict, data: Optional[GrainDataType]) -> "Grain":
+        grain = GrainFactory(meta, data)
+        if data is None:
+            # The copy of a grain without data shouldn't be given a new empty buffer
+            grain._data = None
+        return grain
 
     def __bytes__(self) -> Optional[bytes]:
         data = self.data
diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 466c89e..2edfb21 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -24,7 +24,7 @@ from ...cogenums import (
     COG_AUDIO_FORMAT_DEPTH,
     COG_AUDIO_FORMAT_DEPTH_S24
 )
-from .VideoGrain import _bytes_like
+from .VideoGrain import _bytes_like, _same_data
 
 
 def _dtype_from_cogaudioformat(format: CogAudioFormat) -> np.dtype:
@@ -194,12 +194,24 @@ class AudioGrain (bytesgrain.AudioGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        # Comparing arrays would compare them element by element
+        if not isinstance(other, (tuple, bytesgrain.Grain)) or len(other) != 2:
+            return False
+        return bool(self.meta == other[0]) and _same_data(self.data, other[1])
+
     def __copy__(self) -> "AudioGrain":
-        return AudioGrain(meta=copy(self.meta), data=self.data)
+        return self._copy_with(copy(self.meta), self.data)
 
     def __deepcopy__(self, memo) -> "AudioGrain":
-        return AudioGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        return self._copy_with(deepcopy(self.meta), self._data.copy() if self._data is not None else None)
+
+    def _copy_with(self, meta, data) -> "AudioGrain":
+        grain = AudioGrain(meta=meta, data=data)
+        if data is None:
+            # The copy of a grain without data shouldn't be given a new empty buffer
+            grain.data = None
+        return grain
 
     def __repr__(self) -> str:
         if self.data is None:
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 2318ec5..0566809 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -31,6 +31,16 @@ def _bytes_like(data: GrainDataType) -> GrainDataType:
         return bytes(data)
 
 
+def _same_data(a: Optional[np.ndarray], b: object) -> bool:
+    """Whether b is data with the same contents as the array a"""
+    if a is None or b is None:
+        return a is b
+    try:
+        return bytes(a) == bytes(memoryview(b))  # type: ignore
+    except TypeError:
+        return hasattr(b, "__bytes__") and bytes(a) == bytes(b)  # type: ignore
+
+
 def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
     """This method returns the numpy "data type" for a particular video format.
 
@@ -314,12 +324,24 @@ class VideoGrain (bytesgrain.VideoGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        # Comparing arrays would compare them element by element
+        if not isinstance(other, (tuple, bytesgrain.Grain)) or len(other) != 2:
+            return False
+        return bool(self.meta == other[0]) and _same_data(self.data, other[1])
+
     def __copy__(self) -> "VideoGrain":
-        return VideoGrain(meta=copy(self.meta), data=self.data)
+        return self._copy_with(copy(self.meta), self.data)
 
     def __deepcopy__(self, memo) -> "VideoGrain":
-        return VideoGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        return self._copy_with(deepcopy(self.meta), self._data.copy() if self._data is not None else None)
+
+    def _copy_with(self, meta, data) -> "VideoGrain":
+        grain = VideoGrain(meta=meta, data=data)
+        if data is None:
+            # The copy of a grain without data shouldn't be given a new empty buffer
+            grain.data = None
+        return grain
 
     def __repr__(self) -> str:
         if self.data is None:
-- 
2.43.0


From 587a6279d5ed1499c9e43ca456510b880dc0b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 26/72] fix: presentation times of coded video grains without a
 rate

---
 mediagrains/grains/CodedVideoGrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index c2ecba6..acdf376 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -425,20 +425,20 @@ unit_offsets
 
     @property
     def presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.media_rate is not None and self.temporal_offset is not None:
             return self.origin_timestamp + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.origin_timestamp
 
     def final_presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.media_rate is not None and self.temporal_offset is not None:
             return self.final_origin_timestamp() + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.final_origin_timestamp()
 
     def presentation_origin_timerange(self) -> TimeRange:
         origin_tr = self.origin_timerange()
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.media_rate is not None and self.temporal_offset is not None:
             if origin_tr.start is not None:
                 start = origin_tr.start + Timestamp.from_count(self.temporal_offset, self.rate)
             else:
-- 
2.43.0


From 71a3bc0dae1dd2ed6e0ef8c71962aa1c41aa6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 27/72] fix: AYUV pictures have four bytes per pixel

---
 mediagrains/grains/VideoGrain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index eb364e9..fdc9a5e 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -312,9 +312,10 @@ length
                     bpv = 4
                 return (w*h + 2*((w*h) >> (h_shift + v_shift)))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     return w*h*2
-                elif fmt in (CogFrameFormat.RGBx,
+                elif fmt in (CogFrameFormat.AYUV,
+                             CogFrameFormat.RGBx,
                              CogFrameFormat.RGBA,
                              CogFrameFormat.xRGB,
                              CogFrameFormat.ARGB,
@@ -373,7 +374,7 @@ length
                 })
                 offset += ((w*h) >> (h_shift + v_shift))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     components.append({
                         'stride': w*2,
                         'offset': 0,
@@ -381,7 +382,8 @@ length
                         'height': h,
                         'length': h*w*2
                     })
-                elif fmt in (CogFrameFormat.RGBx,
+                elif fmt in (CogFrameFormat.AYUV,
+                             CogFrameFormat.RGBx,
                              CogFrameFormat.RGBA,
                              CogFrameFormat.xRGB,
                              CogFrameFormat.ARGB,
-- 
2.43.0


From 359e1e97592fa9b91a80061a62a9ae0719ad129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 28/72] fix: BGRA numpy video grains

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 0566809..dc87b6c 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -63,7 +63,7 @@ def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
                  CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx,
+                 CogFrameFormat.BGRA,
                  CogFrameFormat.ARGB,
                  CogFrameFormat.xRGB,
                  CogFrameFormat.ABGR,
@@ -202,7 +202,7 @@ def _component_arrays_for_data_and_type(
     elif fmt in [CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx]:
+                 CogFrameFormat.BGRA]:
         # 8 bit 4:4:4:4 four components interleave dropping the fourth component
         return _component_arrays_for_interleaved_444_take_three(data,
                                                                 data[1:],
-- 
2.43.0


From 3b4322adde377ff10e5ee78e79616d6f8e17dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 29/72] fix: reading planar 24-bit audio samples leaves the
 grain's data unchanged

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 2edfb21..df7d3d9 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -67,8 +67,7 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
             # significant bits end to produce int32 samples
-            data = data.view(np.int32)
-            data <<= 8
+            data = data.view(np.int32) << 8
         sample_bytes = 4
     else:
         sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
-- 
2.43.0


From b18cad142beed9a237cbe12f174a937b19717dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 30/72] fix: component views of packed pictures start at the
 component's offset

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index dc87b6c..095278b 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -182,7 +182,11 @@ def _component_arrays_for_data_and_type(
                        shape=(component.height, component.width),
                        strides=(component.stride, data.itemsize)).transpose()
             for component in components]
-    elif fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
+
+    # The packed formats have a single component, which need not start at the beginning of the data
+    if len(components) > 0:
+        data = data[components[0].offset//data.itemsize:]
+    if fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
         # Either 8 or 16 bits 4:2:2 interleavedd in UYVY order
         return _component_arrays_for_interleaved_422(
             data[1:], data, data[2:], components[0].width, components[0].height, components[0].stride, data.itemsize)
-- 
2.43.0


From b40c5d48ea6733410cee0d6f6762905e3cb4f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 31/72] fix: conversions of bit depth and colour space clip at
 the largest value instead of wrapping

---
 mediagrains/numpy/convert.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index 2a0c925..3b4beea 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -100,8 +100,9 @@ def _simple_duplicate_convert_yuv420__yuv422(grain_in: VideoGrain, grain_out: Vi
 
 
 # Bit depth conversions
-def _unbiased_right_shift(a: np.ndarray, n: int) -> np.ndarray:
-    return (a >> n) + ((a >> (n - 1)) & 0x1)
+def _unbiased_right_shift(a: np.ndarray, n: int, bits: int) -> np.ndarray:
+    # Rounding up the largest values would otherwise exceed the range of the result
+    return np.minimum((a >> n) + ((a >> (n - 1)) & 0x1), (1 << bits) - 1)
 
 
 def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -109,10 +110,11 @@ def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    bits = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
 
-    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift)
-    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift)
-    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift)
+    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift, bits)
+    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift, bits)
+    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift, bits)
 
 
 def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -120,10 +122,11 @@ def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    bits = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
 
-    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift)
-    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift)
-    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift)
+    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift, bits)
+    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift, bits)
+    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift, bits)
 
 
 def _noisy_left_shift(a: np.ndarray, n: int) -> np.ndarray:
@@ -166,11 +169,11 @@ def _convert_rgb_to_yuv444(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((R*0.2126 + G*0.7152 + B*0.0722),
-            0, 1 << bd, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
     np.clip((R*-0.114572 - G*0.385428 + B*0.5 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.U, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.U, casting="unsafe")
     np.clip((R*0.5 - G*0.454153 - B*0.045847 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.V, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.V, casting="unsafe")
 
 
 def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -181,11 +184,11 @@ def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((Y + V*1.5748),
-            0, 1 << bd, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
     np.clip((Y - U*0.187324 - V*0.468124),
-            0, 1 << bd, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
     np.clip((Y + U*1.8556),
-            0, 1 << bd, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
 
 
 def _convert_v210_to_yuv422_10bit(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-- 
2.43.0


From e14ad911c574a0dae4aa1405d7463782b749959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 32/72] fix: converted video grains keep time labels and aspect
 ratios

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 27 ++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 095278b..101043b 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -396,16 +396,23 @@ class VideoGrain (bytesgrain.VideoGrain):
 
     def _similar_grain(self, fmt: CogFrameFormat) -> "VideoGrain":
         """Returns a new empty grain that has the specified format, but other parameters identical to this grain."""
-        return VideoGrain(src_id=self.source_id,
-                          flow_id=self.flow_id_for_converted_flow(fmt),
-                          origin_timestamp=self.origin_timestamp,
-                          sync_timestamp=self.sync_timestamp,
-                          cog_frame_format=fmt,
-                          width=self.width,
-                          height=self.height,
-                          rate=self.rate,
-                          duration=self.duration,
-                          cog_frame_layout=self.cog_frame_layout)
+        grain = VideoGrain(src_id=self.source_id,
+                           flow_id=self.flow_id_for_converted_flow(fmt),
+                           origin_timestamp=self.origin_timestamp,
+                           sync_timestamp=self.sync_timestamp,
+                           cog_frame_format=fmt,
+                           width=self.width,
+                           height=self.height,
+                           rate=self.rate,
+                           duration=self.duration,
+                           cog_frame_layout=self.cog_frame_layout)
+        if len(self.timelabels) > 0:
+            grain.timelabels = deepcopy(list(self.timelabels))
+        if self.source_aspect_ratio is not None:
+            grain.source_aspect_ratio = self.source_aspect_ratio
+        if self.pixel_aspect_ratio is not None:
+            grain.pixel_aspect_ratio = self.pixel_aspect_ratio
+        return grain
 
     def convert(self, fmt: CogFrameFormat) -> "VideoGrain":
         """Used to convert this grain to a different cog format. Always produces a new grain.
-- 
2.43.0


From b60cbb2c023e63f75cd0388d3d22b1de8ecf1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 33/72] fix: data is compared in full whatever its length and
 values

---
 mediagrains/comparison/_internal.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index e8a7516..964499e 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -259,6 +259,15 @@ class DataEqualityComparisonResult(ComparisonResult):
         if b is not None:
             b = bytes(b)
 
+        # Data which does not divide into whole words is compared byte by byte, so that all of it counts
+        word_size = struct.calcsize(word_code)*words_per_sample
+        if any(x is not None and len(x) % word_size != 0 for x in (a, b)):
+            self.word_code = word_code = 'B'
+            self.words_per_sample = words_per_sample = 1
+
+        # Identical bytes are equal whatever values they represent (a floating point NaN is not equal to itself)
+        self._identical = a == b
+
         def _signer(n):
             OFL = 1 << (words_per_sample*8)
             MAX = OFL >> 1
@@ -314,10 +323,10 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (False, "For speed reasons not comparing {} and {} when this would be excluded".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
-        self.d = SequenceMatcher(None, a, b)
-        if self.d.ratio() == 1.0:
+        if self._identical or a == b:
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
+            self.d = SequenceMatcher(None, a, b)
             first_op = [x for x in self.d.get_opcodes() if x[0] != 'equal'][0]
             i = first_op[1]
             if i < len(a) and i < len(b):
@@ -659,13 +668,13 @@ class GrainComparisonResult(ComparisonResult):
                                           CogAudioFormat.S16_PAIRS,
                                           CogAudioFormat.S16_INTERLEAVED]:
                     word_code = 'h'
-                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,
-                                            CogAudioFormat.S24_PAIRS,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PAIRS,
                                             CogAudioFormat.S24_INTERLEAVED]:
                     word_code = 'B'
                     words_per_sample = 3
                     force_signed = True
-                elif a.cog_audio_format in [CogAudioFormat.S32_PLANES,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,
+                                            CogAudioFormat.S32_PLANES,
                                             CogAudioFormat.S32_PAIRS,
                                             CogAudioFormat.S32_INTERLEAVED]:
                     word_code = 'i'
-- 
2.43.0


From b79efa58d4c45dd1c4347d1403d69a2a8fbdefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 34/72] fix: comparisons report the first position at which
 data differs

---
 mediagrains/comparison/_internal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 964499e..77a1863 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -327,8 +327,7 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
             self.d = SequenceMatcher(None, a, b)
-            first_op = [x for x in self.d.get_opcodes() if x[0] != 'equal'][0]
-            i = first_op[1]
+            i = next((n for n in range(0, min(len(a), len(b))) if a[n] != b[n]), min(len(a), len(b)))
             if i < len(a) and i < len(b):
                 msg = ("Binary data {} has similarity {} to {}, " +
                        "first different values are {}[{}] == {} and {}[{}] == {}").format(self._identifier.format('a'),
@@ -378,7 +377,7 @@ class DataEqualityComparisonResult(ComparisonResult):
             prefix += "  "
             opstrings = [prefix + "{:7}   a[{}:{}] --> b[{}:{}] {:>8} --> {}".format(
                             tag, i1, i2, j1, j2, '(' + ', '.join(str(x) for x in self.a[i1:i2]) + ')',  # type: ignore
-                            '(' + ', '.join(str(x) for x in self.b[i1:i2]) + ')')  # type: ignore
+                            '(' + ', '.join(str(x) for x in self.b[j1:j2]) + ')')  # type: ignore
                          for (tag, i1, i2, j1, j2) in self.d.get_opcodes()[:5]]
             r += '\n' + opstrings[0]
             if len(opstrings) > 1:
-- 
2.43.0


From e5134821c330ce5c46929e556b780decd4941875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 35/72] fix: PSNR comparisons are found as data and never raise

---
 mediagrains/comparison/_internal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 77a1863..6720e4b 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -452,6 +452,9 @@ class PSNRComparisonResult(ComparisonResult):
         except NotImplementedError:
             return (False, "Grain is not supported for PSNR comparison of {} and {}".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
+        except AttributeError as e:
+            return (False, "Cannot compute PSNR of {} and {} because: {}".format(
+                self._identifier.format('a'), self._identifier.format('b'), e), [])
 
         if all(opt.matcher(psnr) for opt in opts):
             return (True, "PSNR({}, {}) == {!r}, meets requirements set in options".format(
@@ -659,7 +662,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 words_per_sample = 1
                 force_signed = False
@@ -750,7 +754,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 if COG_FRAME_IS_COMPRESSED(a.cog_frame_format):
                     word_code = 'B'
-- 
2.43.0


From a18c50efda50388c6e148a8a0b16e6bdbafa4fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 36/72] fix: expected differences apply to integer attributes

---
 mediagrains/comparison/_internal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 6720e4b..a6b8709 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -224,6 +224,14 @@ class ComparisonResult(Generic[CR]):
 
 class EqualityComparisonResult(ComparisonResult):
     def compare(self, a, b) -> tuple[bool, str, list[ComparisonResult]]:
+        opts = [option for option in self.ownoptions() if isinstance(option, ComparisonExpectDifferenceMatches)]
+        if len(opts) != 0 and isinstance(a, int) and isinstance(b, int):
+            diff = int(a) - int(b)
+            matches = all(opt.matcher(diff) for opt in opts)
+            return (matches, "{} - {} == {!r}, {} requirements set in options".format(
+                self._identifier.format('a'), self._identifier.format('b'), diff,
+                "meets" if matches else "does not meet"), [])
+
         if a == b:
             return (True, "{} == {!r}".format(self._identifier.format('<a/b>'), a), [])
         else:
-- 
2.43.0


From 1855b0f90e14e09c0e8e7494a44b6cf38e58b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 37/72] fix: streams without a pair of grains can be compared
 keeping the last only

---
 mediagrains/comparison/_internal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index a6b8709..afdcc65 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -550,6 +550,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         all_success = True
 
         children: list[ComparisonResult] = []
+        last_comparison: Optional[ComparisonResult] = None
 
         while True:
             A = next(a, None)
-- 
2.43.0


From f2bf252efca72ec2cbe1eb22dc163805a1988254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 38/72] fix: expected differences can be combined with & and |

---
 mediagrains/comparison/options.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/mediagrains/comparison/options.py b/mediagrains/comparison/options.py
index c55637a..96fa228 100644
--- a/mediagrains/comparison/options.py
+++ b/mediagrains/comparison/options.py
@@ -84,30 +84,6 @@ class _ExpectedDifference(object):
         return ComparisonExpectDifferenceMatches(
             self.path, lambda x: x >= other, "{} >= {!r}".format('ExpectedDifference', other))
 
-    def __and__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} & {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with & they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
-
-    def __or__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} | {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with | they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
-
     def __getattr__(self, attr):
         if attr.startswith('__') and attr.endswith('__'):
             raise AttributeError
@@ -196,6 +172,30 @@ class ComparisonExpectDifferenceMatches(ComparisonOption):
     def __repr__(self):
         return self._repr
 
+    def __and__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} & {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with & they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
+
+    def __or__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} | {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with | they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
+
 
 class ComparisonPSNR(ComparisonOption):
     def __init__(self, path, matcher, _repr):
-- 
2.43.0


From 87c0d48a6cc4a5dbe73bc4961767b0bf49803926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 39/72] fix: the entry at which streams differ is that of the
 mismatched pair

---
 mediagrains/comparison/_internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index afdcc65..20fee3d 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -553,6 +553,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         last_comparison: Optional[ComparisonResult] = None
 
         while True:
+            entry = self.compared_item_count
             A = next(a, None)
             B = next(b, None)
 
@@ -592,7 +593,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         else:
             return (
                 False,
-                "Iterators differ first at entry {}".format(self.compared_item_count),
+                "Iterators differ first at entry {}".format(entry),
                 children
             )
 
-- 
2.43.0


From 3fa62df6b3fed9872b8ccaf98e61436490824f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 40/72] fix: a tone gives the default asked for where it has no
 grain

---
 mediagrains/patterngenerators/audio/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index f0c38fe..8d2dfcc 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -162,7 +162,7 @@ class Tone(AudioPatternGenerator):
         sample_count = tv.as_count()
 
         if sample_count % self.samples != 0:
-            return None
+            return default
 
         offs = sample_count % self.looplen
 
-- 
2.43.0


From dc4fb2e2d5a0ef474065b05085d856255f901d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 41/72] fix: a moving bar over a source without some grain is
 without it too

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 1df7f13..c6413e4 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -69,7 +69,7 @@ class MovingBarOverlay (VideoPatternGenerator):
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
         tv = TimeValue(key, rate=self.rate)
 
-        grain = self._source[tv]
+        grain = self._source.get(tv)
 
         if grain is not None:
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
@@ -95,4 +95,6 @@ class MovingBarOverlay (VideoPatternGenerator):
                     grain.components[2].offset+line_no*grain.components[2].stride+grain.components[2].width*_bpp] = (
                         self._bar[2][y*grain.components[2].width * _bpp: (y+1)*grain.components[2].width * _bpp])
 
-        return grain
+            return grain
+        else:
+            return default
-- 
2.43.0


From d99e981b688f1c2ac93e3d42f7d19473d9e27939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 42/72] fix: still patterns can be indexed by a count of frames

---
 mediagrains/patterngenerators/video/still.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/still.py b/mediagrains/patterngenerators/video/still.py
index fc3f7bc..750030a 100644
--- a/mediagrains/patterngenerators/video/still.py
+++ b/mediagrains/patterngenerators/video/still.py
@@ -17,7 +17,7 @@
 from typing import Optional
 from copy import deepcopy
 
-from mediatimestamp import TimeValue
+from mediatimestamp import TimeValue, Timestamp
 
 from ...grains import VideoGrain
 from .abc import VideoPatternGenerator
@@ -42,7 +42,8 @@ class StillPatternGenerator (VideoPatternGenerator):
 
         if tv == key:
             grain = deepcopy(self._template_grain)
-            grain.origin_timestamp = key.as_timestamp()
+            # A count without a rate of its own is a count of this pattern's frames
+            grain.origin_timestamp = (key if isinstance(key.value, Timestamp) or key.rate else tv).as_timestamp()
             grain.sync_timestamp = grain.origin_timestamp
             return grain
         else:
-- 
2.43.0


From ea36b7906241c3ae3f972cb5fc973917f6e79623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 43/72] fix: luma steps and colour bars of widths that are no
 multiple of eight

---
 mediagrains/patterngenerators/video/colourbars.py | 2 +-
 mediagrains/patterngenerators/video/lumasteps.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index 78ec154..eda0b5e 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -59,7 +59,7 @@ class ColourBars(StillPatternGenerator):
             bytearray(vg.components[2].width*_bpp)]
         for c in range(0, 3):
             for x in range(0, vg.components[c].width):
-                pos = x//(vg.components[c].width//_steps)
+                pos = (x*_steps)//vg.components[c].width
                 if _bpp == 1:
                     lines[c][x] = values[pos][c]
                 elif _bpp == 2:
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 5c39ed1..c740f4f 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -47,7 +47,7 @@ class LumaSteps(StillPatternGenerator):
 
         line = bytearray(width*_bpp)
         for x in range(0, width):
-            pos = x//(width//_steps)
+            pos = (x*_steps)//width
             if _bpp == 1:
                 line[x] = (_offset + ((pos * _range)//_steps)) & 0xFF
             elif _bpp == 2:
-- 
2.43.0


From eaf7e0b1e5603fa74e5b79cb3f1e974e4c686b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 44/72] fix: a moving bar can be laid over pictures whose data
 cannot be written to

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index c6413e4..8bb80a5 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -72,6 +72,9 @@ class MovingBarOverlay (VideoPatternGenerator):
         grain = self._source.get(tv)
 
         if grain is not None:
+            if not isinstance(grain.data, bytearray):
+                grain.data = bytearray(grain.data)
+
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
-- 
2.43.0


From c1dd6e8f4c614b3ebd868794259bf25213a02ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 45/72] fix: the chroma of a moving bar wraps with its luma in
 pictures of odd height

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 8bb80a5..d656f24 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -76,6 +76,7 @@ class MovingBarOverlay (VideoPatternGenerator):
                 grain.data = bytearray(grain.data)
 
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
+            fnum %= grain.components[0].height
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
 
-- 
2.43.0


From 27ae5f6ec2869463273ee4e0f212c8dc2773b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 46/72] fix: tones in pairs of channels of an odd number of
 channels

---
 mediagrains/patterngenerators/audio/tone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 8d2dfcc..6087355 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -140,20 +140,20 @@ class Tone(AudioPatternGenerator):
             if planes:
                 line = line * self.channels
             elif pairs:
-                line = [x for x in line for _ in range(0, 2)] * (self.channels//2)
+                line = [x for x in line for _ in range(0, 2)] * ((self.channels + 1)//2)
             elif interleaved:
                 line = [x for x in line for _ in range(0, self.channels)]
 
             if depth == 16:
-                self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-                self.data_samples[offs] = struct.pack('@' + ('f'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('f'*len(line)), *line)
             elif depth == 'd':
-                self.data_samples[offs] = struct.pack('@' + ('d'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('d'*len(line)), *line)
 
         return self.data_samples[offs]
 
-- 
2.43.0


From 61eecc5ffbd8806487a895320cf034cc68591d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 47/72] fix: planar 24 bit tones have four bytes to a sample

---
 mediagrains/patterngenerators/audio/tone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 6087355..27ede37 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -146,6 +146,9 @@ class Tone(AudioPatternGenerator):
 
             if depth == 16:
                 self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
+            elif depth == 24 and planes:
+                # Planar 24 bit samples lie in 32 bit words
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-- 
2.43.0


From cf007f8b7043da635e3105d9bf42cde1c3fcef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 48/72] fix: a tone of full volume stays within the range of
 its samples

---
 mediagrains/patterngenerators/audio/tone.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 27ede37..afa41b0 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -90,17 +90,17 @@ class Tone(AudioPatternGenerator):
             if self.cog_audio_format in [CogAudioFormat.S16_PLANES,
                                          CogAudioFormat.S16_PAIRS,
                                          CogAudioFormat.S16_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 15)) for x in self._sample_values]
+                formatted_sample_data = [min(round(x*self.volume*(1 << 15)), (1 << 15) - 1) for x in self._sample_values]
                 depth = 16
             elif self.cog_audio_format in [CogAudioFormat.S24_PLANES,
                                            CogAudioFormat.S24_PAIRS,
                                            CogAudioFormat.S24_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 23)) for x in self._sample_values]
+                formatted_sample_data = [min(round(x*self.volume*(1 << 23)), (1 << 23) - 1) for x in self._sample_values]
                 depth = 24
             elif self.cog_audio_format in [CogAudioFormat.S32_PLANES,
                                            CogAudioFormat.S32_PAIRS,
                                            CogAudioFormat.S32_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 31)) for x in self._sample_values]
+                formatted_sample_data = [min(round(x*self.volume*(1 << 31)), (1 << 31) - 1) for x in self._sample_values]
                 depth = 32
             elif self.cog_audio_format in [CogAudioFormat.FLOAT_PLANES,
                                            CogAudioFormat.FLOAT_PAIRS,
-- 
2.43.0


From f6e3bc03727c2388a15fa7cbb11a434024d93469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 49/72] fix: wrapped grains keep the template's sync timestamp
 however far into the stream they are

---
 mediagrains/utils/grain_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 7b941fc..1214548 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -54,6 +54,7 @@ class GrainWrapper():
         for timestamp in grain_timerange.at_rate(self.template_grain.rate):
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = timestamp
+            new_grain.sync_timestamp = timestamp
 
             try:
                 grain_data = self.input_data.read(self.frame_size)
-- 
2.43.0


From d415ecd1bd77e0b0b3419e9967a5c269d88f0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 50/72] fix: wrapping raw essence takes a short read for a
 whole frame

---
 mediagrains/utils/grain_wrapper.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 1214548..f66b9dd 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -44,6 +44,20 @@ class GrainWrapper():
 
         self.frame_size = template_grain.expected_length
 
+    def _read_frame(self) -> bytes:
+        """Read a whole frame, or what there is of it at the end of the input, even if the input supplies it in pieces"""
+        frame_data = b""
+        while len(frame_data) < self.frame_size:
+            try:
+                piece = self.input_data.read(self.frame_size - len(frame_data))
+            except EOFError:
+                break
+            if not piece:
+                break
+            frame_data += piece
+
+        return frame_data
+
     def grains(self) -> typing.Iterator[Grain]:
         """Generator that yields Grains read from the input given
 
@@ -56,10 +70,7 @@ class GrainWrapper():
             new_grain.origin_timestamp = timestamp
             new_grain.sync_timestamp = timestamp
 
-            try:
-                grain_data = self.input_data.read(self.frame_size)
-            except EOFError:
-                break
+            grain_data = self._read_frame()
 
             if grain_data:
                 new_grain.data = grain_data
-- 
2.43.0


From e5ad90134bc1af3ca4f82b1f6a9c210419777cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 51/72] fix: reading a pipe raises at its end and loses the
 data left before it

---
 mediagrains/tools/_file_or_pipe.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 40f08b0..21340cd 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -29,16 +29,12 @@ class InputStreamWrapper(BufferedIOBase):
 
     def read(self, size=-1) -> bytes:
         out = b""
-        if size == -1:
-            out = self._file.read(-1)
-        else:
-            s = size
-            while len(out) < size:
-                b = self._file.read(s)
-                if len(b) == 0:
-                    raise EOFError
-                s -= len(b)
-                out += b
+        while size is None or size < 0 or len(out) < size:
+            b = self._file.read(-1 if size is None or size < 0 else size - len(out))
+            if len(b) == 0:
+                # At the end of the stream, which there may be some data left before
+                break
+            out += b
 
         self._pos += len(out)
         return out
-- 
2.43.0


From a523495e859edcc007596ecbe2403c899b76aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 52/72] fix: seeking forward in a pipe ignores short reads

---
 mediagrains/tools/_file_or_pipe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 21340cd..c99aafa 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -47,9 +47,9 @@ class InputStreamWrapper(BufferedIOBase):
 
         if offset < 0:
             raise NotImplementedError("Cannot seek backwards in a stream")
-        if offset > 0:
-            self._file.read(offset)
-        self._pos += offset
+        target = self._pos + offset
+        self.read(offset)
+        self._pos = target
         return self._pos
 
 
-- 
2.43.0


From 27f4b91d1520c4b69f636ca55fa0cddf747d3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 53/72] fix: ADTS frames said to be shorter than their header
 take in the rest of the input

---
 mediagrains/utils/adts_aac_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/adts_aac_parser.py b/mediagrains/utils/adts_aac_parser.py
index eb96a71..93144b9 100644
--- a/mediagrains/utils/adts_aac_parser.py
+++ b/mediagrains/utils/adts_aac_parser.py
@@ -59,6 +59,8 @@ class ADTSAACParser(object):
                 (frame_data[4] << 3) |
                 ((frame_data[5] >> 5) & 0x07)
             )
+            if frame_size < MIN_ADTS_HEADER_SIZE:
+                raise ValueError("Invalid ADTS frame size {}".format(frame_size))
 
             frame_info = FrameInfo(frame_size, object_type, sample_rate, channels)
 
-- 
2.43.0


From 700202c74475edb519aa004163bfb1de6daf5b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 54/72] fix: wrapping AAC with a template of no samples divides
 by zero

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index b137da5..5bb2788 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -76,7 +76,7 @@ class ADTSAACGrainWrapper(object):
         else:
             self.template_grain.channels = frame_info.channels
             self.template_grain.sample_rate = frame_info.sample_rate
-            if self.template_grain.samples is None:
+            if not self.template_grain.samples:
                 # Assuming 1024 samples per coded frame.
                 # Use the --samples-per-grain option to override it to be 2048
                 self.template_grain.samples = 1024
-- 
2.43.0


From 5f41a2ece8d11868cb83b6a6e56e0b488a6a0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 55/72] fix: wrapping AAC takes a short read for a whole frame

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index 5bb2788..d187af6 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -43,6 +43,17 @@ class ADTSAACGrainWrapper(object):
         self.template_grain = copy.deepcopy(template_grain)  # make a copy as the template defaults will be updated
         self.input_data = input_data
 
+    def _read(self, size: int) -> bytes:
+        """Read the given number of bytes, or what there is at the end of the input, even if it is supplied in pieces"""
+        data = b""
+        while len(data) < size:
+            piece = self.input_data.read(size - len(data))
+            if not piece:
+                break
+            data += piece
+
+        return data
+
     def _frames(self) -> typing.Iterator[typing.Tuple[bytes, FrameInfo]]:
         """Generator that yields ADTS AAC frame bytes read from the input given
 
@@ -51,12 +62,12 @@ class ADTSAACGrainWrapper(object):
         adts_aac_parser = ADTSAACParser()
 
         while True:
-            frame_data = self.input_data.read(MIN_ADTS_HEADER_SIZE)
+            frame_data = self._read(MIN_ADTS_HEADER_SIZE)
             if not frame_data:
                 break
 
             frame_info = adts_aac_parser.parse_header(frame_data)
-            frame_data += self.input_data.read(frame_info.frame_size - len(frame_data))
+            frame_data += self._read(frame_info.frame_size - len(frame_data))
 
             yield (frame_data, frame_info)
 
-- 
2.43.0


From 7b36cb968482b1da5e6de95dc57f3b01d32b4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 56/72] fix: slices of one H.264 picture with differing
 non-zero nal_ref_idc are taken for different pictures

---
 mediagrains/utils/h264_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 4b53589..79e185a 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -201,7 +201,7 @@ class H264Parser(object):
                                     (slice_header.field_pic_flag and
                                         slice_header.bottom_field_flag != first_slice_header.bottom_field_flag) or
                                     (slice_header.nal_ref_idc != first_slice_header.nal_ref_idc and
-                                        (slice_header.nal_ref_idc != 0 or first_slice_header.nal_ref_idc != 0)) or
+                                        (slice_header.nal_ref_idc == 0 or first_slice_header.nal_ref_idc == 0)) or
                                     slice_header.idr_pic_flag != first_slice_header.idr_pic_flag or
                                     (slice_header.idr_pic_flag == 1 and
                                         slice_header.idr_pic_id != first_slice_header.idr_pic_id) or
-- 
2.43.0


From 279a679c87a1d7eabb21e928c313f792a32d8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 57/72] fix: H.264 slice group ids are read with the wrong
 number of bits

---
 mediagrains/utils/h264_parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 79e185a..5408b1c 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -593,10 +593,8 @@ class H264Parser(object):
             elif slice_group_map_type == 6:
                 pic_size_in_map_units_minus1 = rbsp_bits.read('ue')
                 for _ in range(0, pic_size_in_map_units_minus1 + 1):
-                    value = pic_size_in_map_units_minus1 + 1
-                    bits_required = 63
-                    while bits_required and not (value & (1 << bits_required)):
-                        bits_required -= 1
+                    # Ceil(Log2(num_slice_groups_minus1 + 1)) bits
+                    bits_required = num_slice_groups_minus1.bit_length()
                     rbsp_bits.read('uint:{}'.format(bits_required))  # slice_group_id[]
         rbsp_bits.read('ue')  # num_ref_idx_l0_default_active_minus1
         rbsp_bits.read('ue')  # num_ref_idx_l1_default_active_minus1
-- 
2.43.0


From 81ac01d13197f583561d23d154f75e22c2e1537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 58/72] fix: an H.264 sample aspect ratio of zero height
 divides by zero

---
 mediagrains/utils/h264_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 5408b1c..26a3450 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -429,6 +429,8 @@ class H264Parser(object):
         ]
 
         if sps.aspect_ratio_idc == 255:  # extended SAR
+            if sps.sar_height == 0:
+                return Fraction(0, 1)  # unspecified
             return Fraction(sps.sar_width, sps.sar_height)
         elif sps.aspect_ratio_idc < len(aspect_ratios):
             return Fraction(aspect_ratios[sps.aspect_ratio_idc][0], aspect_ratios[sps.aspect_ratio_idc][1])
-- 
2.43.0


From 27449de4e8512e8ac90044aefa4aaa57c029c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 59/72] fix: the last H.264 frame's key frame flag ignores the
 slices after a data partition or redundant slice

---
 mediagrains/utils/h264_parser.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 26a3450..5ddaacf 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -303,15 +303,9 @@ class H264Parser(object):
                 rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
                 slice_header = self._parse_slice_header(rbsp_bits)
 
-                # Stop if not a primary slice header
-                if slice_header.redundant_pic_cnt != 0:
-                    break
-
-                primary_slice_headers.append(slice_header)
-
-            elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT:
-                # No primary slices
-                break
+                # Ignore if not a primary slice header
+                if slice_header.redundant_pic_cnt == 0:
+                    primary_slice_headers.append(slice_header)
 
             elif nal_unit_type == NALUnitTypes.SEQUENCE_PARAMETER_SET:
                 rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
-- 
2.43.0


From 17310339f25f927303c90b82eb1d90d7e2794fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 60/72] fix: wrapping H.264 takes the rate from the stream but
 leaves the template's duration

---
 mediagrains/utils/h264_grain_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index 86cde04..1b83093 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -136,6 +136,7 @@ class H264GrainWrapper(object):
                         self.template_grain.coded_height = 0
                 if frame_info.frame_rate is not None:
                     self.template_grain.rate = frame_info.frame_rate
+                    self.template_grain.duration = 1/frame_info.frame_rate
 
         rate = self.template_grain.rate
         norm_origin_ts = self.template_grain.origin_timestamp.normalise(rate.numerator, rate.denominator)
-- 
2.43.0


From ebb46cb0ac84fbb371479769aa3b1aa5b7b732b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 61/72] fix: wrapped H.264 grains keep the template's sync
 timestamp however far into the stream they are

---
 mediagrains/utils/h264_grain_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index 1b83093..69af943 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -147,6 +147,7 @@ class H264GrainWrapper(object):
 
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = norm_origin_ts
+            new_grain.sync_timestamp = norm_origin_ts
             if frame_info is not None:
                 new_grain.is_key_frame = frame_info.key_frame
             else:
-- 
2.43.0


From de4ae03f13555f51f9e5788ec6996074baac72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 62/72] fix: parsing the frame info of a truncated H.264 frame
 raises ReadError, not ValueError

---
 mediagrains/utils/h264_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 5ddaacf..dee79e6 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -279,6 +279,14 @@ class H264Parser(object):
         :returns: FrameInfo if the frame contains primary slices and the active SPS is available, else None
         :raises ValueError: if a parse failure occurs
         """
+        try:
+            return self._parse_frame_info(frame_data, nalu_byte_offsets)
+        except ReadError as e:
+            raise ValueError("Insufficient data in H.264 frame") from e
+
+    def _parse_frame_info(self,
+                          frame_data: bytes,
+                          nalu_byte_offsets: Optional[Iterable[int]]) -> Optional[FrameInfo]:
         frame_bits = BitStream(bytes=frame_data)
 
         if nalu_byte_offsets is None:
-- 
2.43.0


From 47ee98fe3f925fc7688694170107e112b208ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 63/72] fix: wrap raw audio at the rate of its grains

The template had a rate of 0, at which no timestamp can be given to a grain, so
wrap_audio_in_gsf failed for every raw audio input.
---
 mediagrains/tools/wrap_in_gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index dd508d3..0b6e62a 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -175,7 +175,7 @@ def wrap_audio_in_gsf():
         template_grain = AudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
             duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            rate=1/duration
         )
         Wrapper = GrainWrapper
 
-- 
2.43.0


From 0636ae258aaddb67859f567f6bdf946d36cc6b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 64/72] fix: wrap AAC without being told its sample rate and
 samples per grain

Both are optional, and taken from the stream or a default by the wrapper; a
duration was computed from them all the same, failing when either is absent.
---
 mediagrains/tools/wrap_in_gsf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index 0b6e62a..ee8e9d1 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -148,12 +148,11 @@ def wrap_audio_in_gsf():
     source_id = args.source_id if args.source_id else uuid.uuid4()
 
     if args.format == CogAudioFormat.AAC:
-        duration = fractions.Fraction(args.samples_per_grain, args.sample_rate)
-
+        # The wrapper sets the rate and duration from the stream and the samples per grain
         template_grain = CodedAudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=args.sample_rate,
-            duration=duration, channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            duration=fractions.Fraction(0, 1), channels=args.channels, samples=args.samples_per_grain,
+            cog_audio_format=args.format, rate=fractions.Fraction(0, 1)
         )
         Wrapper = ADTSAACGrainWrapper
 
-- 
2.43.0


From 80108d23938bf8dec1970f0ecc561dcc256441da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 65/72] fix: extract from files holding grains without essence

Such a grain's data is None, which cannot be written.
---
 mediagrains/tools/extract_from_gsf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index d54b2eb..49f8c76 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -45,7 +45,8 @@ def extract_gsf_essence():
         for grain, local_id in decoder.grains(local_ids=args.only_id):
             print("Got grain with local_id {} at {}".format(local_id, grain.origin_timestamp.to_sec_nsec()),
                   file=sys.stderr)
-            output_data.write(grain.data)
+            if grain.data is not None:  # A grain may be without essence
+                output_data.write(grain.data)
 
 
 def gsf_probe():
-- 
2.43.0


From 5474910ad60c1b9e10adc2caaf2bba726bd1de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 66/72] fix: draw grains of the format asked for

The strategies' format parameter was passed on by a name that is no attribute
of the grains any more, and so ignored.
---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 55f7648..31e6f01 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -252,7 +252,7 @@ def audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate)
@@ -317,7 +317,7 @@ def coded_audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate,
@@ -377,7 +377,7 @@ def video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            width=width,
                            height=height,
                            cog_frame_layout=cog_frame_layout)
@@ -449,7 +449,7 @@ def coded_video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            origin_width=origin_width,
                            origin_height=origin_height,
                            coded_width=coded_width,
-- 
2.43.0


From 9192fb40d5077cb27b6f4068b05f3b61c606bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 67/72] fix: draw coded audio grains with the creation
 timestamp asked for

---
 mediagrains/hypothesis/strategies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 31e6f01..f6c26f2 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -313,6 +313,7 @@ def coded_audio_grains(src_id=None,
     return _grain_strategy(CodedAudioGrain, "coded_audio",
                            src_id=src_id,
                            flow_id=flow_id,
+                           creation_timestamp=creation_timestamp,
                            origin_timestamp=origin_timestamp,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
-- 
2.43.0


From 06e627a75afb7c7896b7cb814e039eaae25a918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 68/72] fix: draw event grains with timestamps left unset

DONOTSET, documented for each timestamp, left the function building the grain
without an argument it required.
---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index f6c26f2..24bdb5d 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -590,14 +590,14 @@ def event_grains(src_id=None,
     def event_grain(
      src_id,
      flow_id,
-     origin_timestamp,
-     sync_timestamp,
      rate,
      duration,
-     creation_timestamp,
      event_type,
      topic,
-     event_data):
+     event_data,
+     origin_timestamp=None,
+     sync_timestamp=None,
+     creation_timestamp=None):
         grain = EventGrain(
             src_id=src_id,
             flow_id=flow_id,
-- 
2.43.0


From c21cbb8275f255bfc94f1520a9a7599d22a5094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 69/72] fix: draw no grains of unknown or invalid formats by
 default

---
 mediagrains/hypothesis/strategies.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 24bdb5d..16a314c 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -91,13 +91,15 @@ def strategy_for_grain_attribute(attr, grain_type=None):
     def _format_strategy(grain_type):
         if grain_type == "audio":
             # Uncompressed audio formats
-            return sampled_from(CogAudioFormat).filter(lambda x: x < 0x200)
+            return sampled_from(CogAudioFormat).filter(lambda x: x < 0x200 and x != CogAudioFormat.S64_INVALID)
         elif grain_type == "coded_audio":
-            return sampled_from(CogAudioFormat).filter(lambda x: (x & 0x200) != 0 and x != CogAudioFormat.INVALID)
+            return sampled_from(CogAudioFormat).filter(
+                lambda x: (x & 0x200) != 0 and x not in (CogAudioFormat.UNKNOWN, CogAudioFormat.INVALID))
         elif grain_type == "video":
             return sampled_from(CogFrameFormat).filter(lambda x: ((x >> 9) & 0x1) == 0)
         elif grain_type == "coded_video":
-            return sampled_from(CogFrameFormat).filter(lambda x: (x & 0x200) != 0 and x != CogFrameFormat.INVALID)
+            return sampled_from(CogFrameFormat).filter(
+                lambda x: (x & 0x200) != 0 and x not in (CogFrameFormat.UNKNOWN, CogFrameFormat.INVALID))
         else:
             return ValueError("Cannot generate formats for grain type: {!r}".format(grain_type))
 
-- 
2.43.0


From 92edd8b0099b31fed7f39e4ad494c5414ad4e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 70/72] fix: draw unit offsets that increase

filter(sorted) only drops empty lists.
---
 mediagrains/hypothesis/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 16a314c..3654850 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -133,7 +133,7 @@ def strategy_for_grain_attribute(attr, grain_type=None):
               'is_key_frame': booleans(),
               'temporal_offset': integers(min_value=0, max_value=16),
               'unit_offsets': just(None) | lists(
-                integers(min_value=0, max_value=256), min_size=0, max_size=16).filter(sorted)}
+                integers(min_value=0, max_value=256), min_size=0, max_size=16, unique=True).map(sorted)}
     if attr not in strats:
         raise ValueError("No strategy known for grain attribute: {!r}".format(attr))
     if isinstance(strats[attr], Exception):
-- 
2.43.0


From 7ead76cc74b707532479b5708689a66ad6f599a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 71/72] fix: keep a plain list of the unit offsets a coded
 video grain is made with

A view of another grain's unit offsets was stored as it was: the metadata could
not be written as JSON and the two grains shared one list.
---
 mediagrains/grains/CodedVideoGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index acdf376..b565e54 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -183,7 +183,7 @@ unit_offsets
             data = bytearray(length)
 
         if "grain" in meta and "cog_coded_frame" in meta['grain'] and unit_offsets is not None:
-            meta['grain']['cog_coded_frame']['unit_offsets'] = unit_offsets
+            meta['grain']['cog_coded_frame']['unit_offsets'] = list(unit_offsets)
 
         super().__init__(meta, data)
         self.meta: CodedVideoGrainMetadataDict
-- 
2.43.0


From 590821aef2a619faefcc8b74a7c3367f0f4b87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:01 +0000
Subject: [PATCH 72/72] fix: grains no longer share parts of time labels given
 to them

The count, rate and flag of a time label were kept in the dictionary of whatever
was given, so changing one grain's label changed those of every grain its list
had been assigned to (its tag alone was the grain's own).
---
 mediagrains/grains/Grain.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 1c04f61..3d164ce 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -561,7 +561,7 @@ media_rate
     def timelabels(self, value: "Union[List[Grain.TIMELABEL], Grain.TIMELABELS]") -> None:
         # The value may be a view of this same list
         cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = [
-            cast(TimeLabel, dict(Grain.TIMELABEL(x))) for x in value]
+            cast(TimeLabel, deepcopy(dict(Grain.TIMELABEL(x)))) for x in value]
 
     def add_timelabel(self, tag: str, count: int, rate: Fraction, drop_frame: bool = False) -> None:
         tl = Grain.TIMELABEL()
@@ -674,9 +674,9 @@ media_rate
             if isinstance(key, int):
                 if 'timelabels' not in self.parent.meta['grain']:
                     raise IndexError("list assignment index out of range")
-                self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
+                self.parent.meta['grain']['timelabels'][key] = deepcopy(dict(Grain.TIMELABEL(value)))
             else:
-                values = [dict(Grain.TIMELABEL(x)) for x in value]
+                values = [deepcopy(dict(Grain.TIMELABEL(x))) for x in value]
                 self.parent.meta['grain'].setdefault('timelabels', [])[key] = values
 
         def __delitem__(self, key: Union[int, slice]) -> None:
@@ -696,7 +696,7 @@ media_rate
         def insert(self, key: int, value: "Grain.TIMELABEL.GrainMetadataDict") -> None:
             if 'timelabels' not in self.parent.meta['grain']:
                 cast(EmptyGrainMetadataDict, self.parent.meta)['grain']['timelabels'] = []
-            self.parent.meta['grain']['timelabels'].insert(key, cast(TimeLabel, dict(Grain.TIMELABEL(value))))
+            self.parent.meta['grain']['timelabels'].insert(key, cast(TimeLabel, deepcopy(dict(Grain.TIMELABEL(value)))))
 
         def __len__(self) -> int:
             if 'timelabels' not in self.parent.meta['grain']:
-- 
2.43.0

