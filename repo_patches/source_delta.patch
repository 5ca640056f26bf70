From e04e9753d512e823efce49962966be26a9a2934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:34 +0000
Subject: [PATCH 01/22] fix: give up a guard's turn when its wait or exit is
 cancelled

A task cancelled while waiting for its turn, or while leaving the
context, left its entries in the shared deques. Every later guard then
waited forever.
---
 aiootp/asynchs/guards/concurrency_guard.py | 36 +++++++++++++++++++---
 aiootp/asynchs/guards/manager.py           |  4 +--
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/aiootp/asynchs/guards/concurrency_guard.py b/aiootp/asynchs/guards/concurrency_guard.py
index 8ae45b8..f868386 100644
--- a/aiootp/asynchs/guards/concurrency_guard.py
+++ b/aiootp/asynchs/guards/concurrency_guard.py
@@ -316,6 +316,21 @@ class ConcurrencyGuard(FrozenTypedSlots):
         """
         return self._use_tracker.has_faulted()
 
+    def _abandon_turn(self, /) -> None:
+        """
+        Withdraws a guard whose wait was cancelled or interrupted, so it
+        doesn't block the guards that are queued behind it.
+        """
+        try:
+            self.queue.remove(self)
+        except ValueError:
+            pass
+
+        if self.policy.is_exclusive():
+            self.observers.pop()
+
+        self._use_tracker.enter_fault_state()
+
     async def __aenter__(self, /) -> t.Self:
         """
         Prevents entering the context by asynchronously sleeping until
@@ -331,7 +346,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            await asleep(self.probe_delay)
+            try:
+                await asleep(self.probe_delay)
+            except BaseException:
+                self._abandon_turn()
+                raise
 
         return self
 
@@ -349,7 +368,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            sleep(self.probe_delay)
+            try:
+                sleep(self.probe_delay)
+            except BaseException:
+                self._abandon_turn()
+                raise
 
         return self
 
@@ -370,9 +393,12 @@ class ConcurrencyGuard(FrozenTypedSlots):
 
         Otherwise, closes the context silently.
         """
-        await asleep()
-        self.policy.notify_off(self)
-        self.policy.get_off_queue(self)
+        try:
+            await asleep()
+        finally:
+            self.policy.notify_off(self)
+            self.policy.get_off_queue(self)
+
         return exc_type is None
 
     def __exit__(
diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..b7820dd 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -270,7 +270,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await manager._ainitialize_guard(target, self)
         try:
             return await super().__aenter__()
-        except Exception as error:
+        except BaseException as error:
             await manager._acleanup_references(target)
             raise error
 
@@ -288,7 +288,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         manager._initialize_guard(target, self)
         try:
             return super().__enter__()
-        except Exception as error:
+        except BaseException as error:
             manager._cleanup_references(target)
             raise error
 
-- 
2.43.0


From 131ea00478aed14581846e82a53ed03e48cb1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:34 +0000
Subject: [PATCH 02/22] fix: don't count a refused reuse as a user of a guard
 target

Entering a managed guard a second time is refused, but it had already
been added to the target's users, so the target was never released.
---
 aiootp/asynchs/guards/manager.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index b7820dd..57d91f4 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -452,8 +452,13 @@ class MultiConcurrencyGaurd(FrozenTypedSlots):
         consistent with the other running instances of the same target.
         """
         with self._resource_lock:
-            (state := self.targets[target]).users.append(guard)
-            guard._set_deques(state.deques)
+            state = self.targets[target]
+            try:
+                guard._set_deques(state.deques)
+                state.users.append(guard)
+            finally:
+                if not state.users:
+                    self.targets.pop(target)
 
     def _initialize_guard(
         self,
@@ -466,8 +471,13 @@ class MultiConcurrencyGaurd(FrozenTypedSlots):
         consistent with the other running instances of the same target.
         """
         with self._resource_lock:
-            (state := self.targets[target]).users.append(guard)
-            guard._set_deques(state.deques)
+            state = self.targets[target]
+            try:
+                guard._set_deques(state.deques)
+                state.users.append(guard)
+            finally:
+                if not state.users:
+                    self.targets.pop(target)
 
     def _pass_self_references(
         self,
-- 
2.43.0


From 18a6ec3a5e26f12fd81e4f3dd7ee1fcc126e3952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 03/22] fix: await the guard when deleting a salt file
 asynchronously

The blocking guard stopped the whole event loop, which then could never
run the task it was waiting for.
---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..2fe48ee 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From 795e22a5e0f51fc6046158a7800730caaf1f1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 04/22] fix: read salt files under an exclusive guard

A reader changes the file's permissions for the time it reads. With
several readers at once, the first to finish locked out the others.
---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2fe48ee..b26bce6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -191,7 +191,7 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
-    async with guards.monitor(target):
+    async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
             async with aiofiles.open(path, "rb") as salt_file:
@@ -210,7 +210,7 @@ def read_salt_file(path: Path) -> bytes:
     `path`.
     """
     target = filename_to_index_key(str(path.absolute()))
-    with guards.monitor(target):
+    with guards.guard(target):
         try:
             path = Path(path)
             path.chmod(0o600)
-- 
2.43.0


From 9edfb32b8460179806e3582ff117882e0c0f9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 05/22] fix: create a requested salt file only once

Simultaneous requests for a salt that doesn't exist yet could each see
it missing. The later one then failed, or replaced the salt the other
had already returned.
---
 aiootp/_paths.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index b26bce6..6c56f61 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -301,16 +301,19 @@ async def AsyncSecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or await aos.mkdir(secure_path)
+    await wrap_in_executor(secure_path.mkdir)(exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or await aos.mkdir(admin_path)
+        await wrap_in_executor(admin_path.mkdir)(exist_ok=True)
         salt_path = await afind_salt_file(admin_path, key=key)
     else:
         salt_path = await afind_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or await amake_salt_file(salt_path)
+    target = await afilename_to_index_key(str(salt_path), b"create")
+    async with guards.guard(target):
+        salt_path.is_file() or await amake_salt_file(salt_path)
+
     return salt_path
 
 
@@ -330,16 +333,19 @@ def SecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or secure_path.mkdir()
+    secure_path.mkdir(exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or admin_path.mkdir()
+        admin_path.mkdir(exist_ok=True)
         salt_path = find_salt_file(admin_path, key=key)
     else:
         salt_path = find_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or make_salt_file(salt_path)
+    target = filename_to_index_key(str(salt_path), b"create")
+    with guards.guard(target):
+        salt_path.is_file() or make_salt_file(salt_path)
+
     return salt_path
 
 
-- 
2.43.0


From 533cef93ef8c9202d6268626435ce7ed5d4e3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:28 +0000
Subject: [PATCH 06/22] fix: keep the whole padding sentinel inside the padding

---
 .../dual_output_shake_cipher_config.py        |  6 ++++--
 aiootp/ciphers/padding.py                     | 20 +++++++++++++++----
 aiootp/ciphers/shake_permute_cipher_config.py |  6 ++++--
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/aiootp/ciphers/dual_output_shake_cipher_config.py b/aiootp/ciphers/dual_output_shake_cipher_config.py
index 4a04707..77e414c 100644
--- a/aiootp/ciphers/dual_output_shake_cipher_config.py
+++ b/aiootp/ciphers/dual_output_shake_cipher_config.py
@@ -312,10 +312,12 @@ class DualOutputShakeCipherConfig(Config):
         """
         self.PACKETSIZE = self.BLOCK_ID_BYTES + self.BLOCKSIZE
         self.CIPHERTEXT_SLICE = slice(self.HEADER_BYTES, None, 1)
-        self.MIN_STREAM_QUEUE = self.MIN_PADDING_BLOCKS + 1
-        self.PADDING_FRAME = self.BLOCKSIZE * self.MIN_STREAM_QUEUE
+        self.PADDING_FRAME = self.BLOCKSIZE * (self.MIN_PADDING_BLOCKS + 1)
         self.SENTINEL_BYTES = ceil(self.PADDING_FRAME / 256)
         self.SENTINEL_SLICE = slice(-self.SENTINEL_BYTES, None, 1)
+        # padding exceeds a frame by less than the size of the sentinel
+        max_padding = self.PADDING_FRAME + self.SENTINEL_BYTES - 1
+        self.MIN_STREAM_QUEUE = ceil(max_padding / self.BLOCKSIZE)
 
     def _compute_first_block_measurements(self) -> None:
         """
diff --git a/aiootp/ciphers/padding.py b/aiootp/ciphers/padding.py
index d57683d..33c3084 100644
--- a/aiootp/ciphers/padding.py
+++ b/aiootp/ciphers/padding.py
@@ -211,6 +211,9 @@ class Padding(FrozenInstance):
         c = self.config
         remainder = (c.INNER_HEADER_BYTES + size) % c.PADDING_FRAME
         padding_size = c.PADDING_FRAME - remainder
+        if padding_size < c.SENTINEL_BYTES:
+            # the whole sentinel must fit within the padding
+            padding_size += c.PADDING_FRAME
         sentinel = padding_size % c.PADDING_FRAME
         return PlaintextMeasurements(
             padding_size=padding_size,
@@ -225,6 +228,9 @@ class Padding(FrozenInstance):
         c = self.config
         remainder = (c.INNER_HEADER_BYTES + size) % c.PADDING_FRAME
         padding_size = c.PADDING_FRAME - remainder
+        if padding_size < c.SENTINEL_BYTES:
+            # the whole sentinel must fit within the padding
+            padding_size += c.PADDING_FRAME
         sentinel = padding_size % c.PADDING_FRAME
         return PlaintextMeasurements(
             padding_size=padding_size,
@@ -360,8 +366,11 @@ class Padding(FrozenInstance):
         - The appended random padding.
         - The appended padding sentinel.
         """
-        sentinel = int.from_bytes(data[self.config.SENTINEL_SLICE], BIG)
-        return -(sentinel or self.config.PADDING_FRAME)
+        c = self.config
+        sentinel = int.from_bytes(data[c.SENTINEL_SLICE], BIG)
+        if sentinel < c.SENTINEL_BYTES:
+            sentinel += c.PADDING_FRAME
+        return -sentinel
 
     def depadding_end_index(self, /, data: bytes) -> int:
         """
@@ -370,8 +379,11 @@ class Padding(FrozenInstance):
         - The appended random padding.
         - The appended padding sentinel.
         """
-        sentinel = int.from_bytes(data[self.config.SENTINEL_SLICE], BIG)
-        return -(sentinel or self.config.PADDING_FRAME)
+        c = self.config
+        sentinel = int.from_bytes(data[c.SENTINEL_SLICE], BIG)
+        if sentinel < c.SENTINEL_BYTES:
+            sentinel += c.PADDING_FRAME
+        return -sentinel
 
     async def adepad_plaintext(
         self,
diff --git a/aiootp/ciphers/shake_permute_cipher_config.py b/aiootp/ciphers/shake_permute_cipher_config.py
index ba3b9a7..14a11cf 100644
--- a/aiootp/ciphers/shake_permute_cipher_config.py
+++ b/aiootp/ciphers/shake_permute_cipher_config.py
@@ -280,10 +280,12 @@ class ShakePermuteCipherConfig(Config):
         """
         self.PACKETSIZE = self.BLOCK_ID_BYTES + self.BLOCKSIZE
         self.CIPHERTEXT_SLICE = slice(self.HEADER_BYTES, None, 1)
-        self.MIN_STREAM_QUEUE = self.MIN_PADDING_BLOCKS + 1
-        self.PADDING_FRAME = self.BLOCKSIZE * self.MIN_STREAM_QUEUE
+        self.PADDING_FRAME = self.BLOCKSIZE * (self.MIN_PADDING_BLOCKS + 1)
         self.SENTINEL_BYTES = ceil(self.PADDING_FRAME / 256)
         self.SENTINEL_SLICE = slice(-self.SENTINEL_BYTES, None, 1)
+        # padding exceeds a frame by less than the size of the sentinel
+        max_padding = self.PADDING_FRAME + self.SENTINEL_BYTES - 1
+        self.MIN_STREAM_QUEUE = ceil(max_padding / self.BLOCKSIZE)
 
     def _construct_metadata_constant(self) -> None:
         """
-- 
2.43.0


From e49daf00f7e3374d6c3ee4362bb714668506dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:22 +0000
Subject: [PATCH 07/22] fix: only skip a stream's timestamp test once it has
 passed

---
 aiootp/ciphers/decipher_streams.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..bb48ad8 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -183,13 +183,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            await self._config.clock.atest_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        await self._config.clock.atest_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     async def _aremove_inner_header(self, queue: deque[bytes]) -> None:
         """
@@ -471,13 +467,9 @@ class DecipherStream(CipherStreamProperties):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            self._config.clock.test_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        self._config.clock.test_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     def _remove_inner_header(self, queue: deque[bytes]) -> None:
         """
-- 
2.43.0


From 0f22852c415899a04fbaf68bb386c3c941b0829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:22 +0000
Subject: [PATCH 08/22] fix: never yield a stream's inner header when fed
 concurrently

---
 aiootp/ciphers/decipher_streams.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index bb48ad8..f4d0bef 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -214,6 +214,8 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         while self._bytes_to_trim and result_queue:
             await self._aremove_inner_header(result_queue)
         while len(result_queue) > MIN_STREAM_QUEUE:
+            if self._bytes_to_trim:
+                break  # the header's still arriving
             yield pop_result()
             await asleep()
 
@@ -497,6 +499,8 @@ class DecipherStream(CipherStreamProperties):
         while self._bytes_to_trim and result_queue:
             self._remove_inner_header(result_queue)
         while len(result_queue) > MIN_STREAM_QUEUE:
+            if self._bytes_to_trim:
+                break  # the header's still arriving
             yield pop_result()
 
     def finalize(self) -> t.Generator[bytes, None, None]:
-- 
2.43.0


From 5bf27e813efd8cafbde34fb8e3de688c4473021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:04 +0000
Subject: [PATCH 09/22] fix: compute clock ticks without floating point
 rounding

---
 aiootp/asynchs/clocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index f6fd9a9..90520fe 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -66,7 +66,7 @@ class TimeUnit:
         supplied `epoch`. The `epoch` is always measured in nanoseconds
         since the UNIX epoch of 0.
         """
-        return int((time_ns() - epoch) / unit.as_ns)
+        return int((time_ns() - epoch) // unit.as_ns)
 
 
 class Nanoseconds(TimeUnit):
-- 
2.43.0


From 04a7b3b152190a08c90b22a4d9fcbe43b468d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:41 +0000
Subject: [PATCH 10/22] fix: keep a database's root salt when reloading an
 unsaved manifest

---
 aiootp/databases/async_database.py | 3 ++-
 aiootp/databases/sync_database.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..0e95bbf 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -274,7 +274,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             self._root_salt = await self._aload_root_salt()
         else:
             self._manifest = Namespace()
-            self._root_salt = await self._agenerate_root_salt()
+            if not hasattr(self, "_root_salt"):
+                self._root_salt = await self._agenerate_root_salt()
             await self._ainstall_root_salt(self._root_salt)
         await self._ainitialize_metatags()
 
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..7697075 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -259,7 +259,8 @@ class Database(DatabaseProperties):
             self._root_salt = self._load_root_salt()
         else:
             self._manifest = Namespace()
-            self._root_salt = self._generate_root_salt()
+            if not hasattr(self, "_root_salt"):
+                self._root_salt = self._generate_root_salt()
             self._install_root_salt(self._root_salt)
         self._initialize_metatags()
 
-- 
2.43.0


From 071864451f9bf6c91b06d2d26b68a2490444a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:56 +0000
Subject: [PATCH 11/22] fix: refuse emptied database files instead of reading
 them as nothing

---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 0e95bbf..1b9fe6f 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -550,7 +550,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = await self.abytes_decrypt(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 7697075..72c3615 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -516,7 +516,7 @@ class Database(DatabaseProperties):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = self._query_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
-- 
2.43.0


From 91f5589afa1bbab84de6599047f16a417be21084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:56 +0000
Subject: [PATCH 12/22] fix: keep an entry in memory when writing it to disk
 failed

---
 aiootp/databases/async_database.py | 5 ++---
 aiootp/databases/sync_database.py  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 1b9fe6f..2a1a74d 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -832,9 +832,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             await self._asave_file(filename, admin=admin)
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        finally:
-            if drop_cache and hasattr(self._cache, filename):
-                delattr(self._cache, filename)
+        if drop_cache and hasattr(self._cache, filename):
+            delattr(self._cache, filename)
         return self
 
     async def asave_database(self) -> t.Self:
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 72c3615..5ef0d6a 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -771,9 +771,8 @@ class Database(DatabaseProperties):
             self._save_file(filename, admin=admin)
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        finally:
-            if drop_cache and hasattr(self._cache, filename):
-                delattr(self._cache, filename)
+        if drop_cache and hasattr(self._cache, filename):
+            delattr(self._cache, filename)
         return self
 
     def save_database(self) -> t.Self:
-- 
2.43.0


From 72fc2d23a634be6883abeac61fd5e29d7e106478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:42 +0000
Subject: [PATCH 13/22] fix: wait for all writers of a failed asynchronous
 database save

---
 aiootp/databases/async_database.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 2a1a74d..1b432fa 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -797,6 +797,16 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         ciphertext = await self.abytes_encrypt(value, filename=filename)
         await self._asave_ciphertext(filename, ciphertext)
 
+    @staticmethod
+    async def _agather_all(*saves: t.Awaitable) -> None:
+        """
+        Waits for all `saves` to finish, so that none is left writing to
+        disk when one of them fails.
+        """
+        for result in await gather(*saves, return_exceptions=True):
+            if isinstance(result, BaseException):
+                raise result
+
     async def _asave_tags(self) -> None:
         """
         Writes the database's user-defined tags to disk.
@@ -804,7 +814,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         save = self._asave_file
         filenames = self._cache
         saves = (save(filename) for filename in filenames)
-        await gather(*saves)
+        await self._agather_all(*saves)
 
     async def _asave_metatags(self) -> None:
         """
@@ -814,7 +824,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             getattr(self, metatag).asave_database()
             for metatag in self.metatags
         )
-        await gather(*saves)
+        await self._agather_all(*saves)
 
     async def asave_tag(
         self,
@@ -841,7 +851,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         Writes the database's values to disk with transparent encryption.
         """
         await self._aclose_manifest()
-        await gather(self._asave_metatags(), self._asave_tags())
+        await self._agather_all(self._asave_metatags(), self._asave_tags())
         return self
 
     async def __aenter__(self) -> t.Self:
-- 
2.43.0


From 4441ae086f89bed01958df8affb6f4fc0f78c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:40 +0000
Subject: [PATCH 14/22] fix: give every caller its own tick of a shared id
 generator

Threads could read the same value of the counter, & so be given equal
identifiers within the same instant.
---
 aiootp/randoms/ids/raw_guid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiootp/randoms/ids/raw_guid.py b/aiootp/randoms/ids/raw_guid.py
index 6c261f7..294d7ee 100644
--- a/aiootp/randoms/ids/raw_guid.py
+++ b/aiootp/randoms/ids/raw_guid.py
@@ -18,6 +18,8 @@ A type for creating unblinded unique bytes values.
 __all__ = ["RawGUID"]
 
 
+from itertools import count
+
 from aiootp._typing import Typing as t
 from aiootp._constants import BIG
 from aiootp._exceptions import Issue
@@ -47,7 +49,7 @@ class RawGUID(FrozenInstance):
     |__________________________________________________________________|
     """
 
-    __slots__ = ("tick", "node_id", "config")
+    __slots__ = ("_ticks", "node_id", "config")
 
     _configs = ConfigMap(
         mapping={
@@ -85,15 +87,15 @@ class RawGUID(FrozenInstance):
         """
         self.config = self._configs[config_id]
         self.node_id = self._process_node_id(node_id)
-        self.tick = 0
+        self._ticks = count(1)
 
     def _incremented_tick(self) -> bytes:
         """
         Returns the incremented counter value.
         """
         c = self.config
-        object.__setattr__(self, "tick", (self.tick + 1) & c.TICK_DOMAIN)
-        return self.tick.to_bytes(c.TICKER_BYTES, BIG)
+        tick = next(self._ticks) & c.TICK_DOMAIN
+        return tick.to_bytes(c.TICKER_BYTES, BIG)
 
     async def anew(self) -> bytes:
         """
-- 
2.43.0


From 14e36821687611a59eee6255b3dba9927699a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:08 +0000
Subject: [PATCH 15/22] fix: keep the contents of a frozen container which
 refuses to be cleared

---
 aiootp/commons/slots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index 4ff4b12..f128639 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -327,10 +327,10 @@ class Slots:
         """
         Deletes the instance's attribute references from its slots & dict.
         """
-        getattr(self, DICT, []).clear()
         for name in self.__slots__:
             if hasattr(self, name):
                 del self[name]
+        getattr(self, DICT, []).clear()
 
 
 class OpenSlots(Slots):
-- 
2.43.0


From 007d860b8fb258c8e284005aeccbd0234ac162e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:20 +0000
Subject: [PATCH 16/22] fix: allow concurrent threads to use
 random_number_generator

The function shared one event loop between all callers. Calling it from
two threads at once raised a RuntimeError.
---
 aiootp/randoms/rng.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiootp/randoms/rng.py b/aiootp/randoms/rng.py
index f38a600..068c2a3 100644
--- a/aiootp/randoms/rng.py
+++ b/aiootp/randoms/rng.py
@@ -63,8 +63,16 @@ _entropy_daemon = EntropyDaemon(
 _entropy_daemon.set_temporary_max_delay(max_delay=0.001, duration=2)
 
 
-# avert event loop clashes
-_run = new_event_loop().run_until_complete
+def _run(coroutine: t.Coroutine) -> bytes:
+    """
+    Averts event loop clashes, also between concurrent threads, by using
+    a new event loop.
+    """
+    loop = new_event_loop()
+    try:
+        return loop.run_until_complete(coroutine)
+    finally:
+        loop.close()
 
 
 async def acsprng(
-- 
2.43.0


From 5a93d2bea3622060dbf4d0d1687df0e43def7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:43 +0000
Subject: [PATCH 17/22] fix: return large results of a new process

The result was only read after the process had exited. A process can't
exit before a result larger than the pipe's buffer is read, so both
waited forever.
---
 aiootp/asynchs/concurrency_interface.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 31c5159..c87c598 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -132,10 +132,15 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             await asleep(delay)
-        task.join()
-        return queue.get_nowait()
+        try:
+            # large results block a process' exit until they're taken
+            return queue.get_nowait()
+        finally:
+            while task.is_alive():
+                await asleep(delay)
+            task.join()
 
     @classmethod
     def new(
@@ -163,10 +168,15 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             sleep(delay)
-        task.join()
-        return queue.get_nowait()
+        try:
+            # large results block a process' exit until they're taken
+            return queue.get_nowait()
+        finally:
+            while task.is_alive():
+                sleep(delay)
+            task.join()
 
     @staticmethod
     def _get_result(
-- 
2.43.0


From 419708a00349fd96c2e1a50b833be2f66a98cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:54 +0000
Subject: [PATCH 18/22] fix: let several processes use salt files at the same
 time

Starting the package in several processes at once failed now and then.
A process could read a salt which another one had only begun to write,
or find the file locked between unlocking and opening it. Two processes
could also create different salts for the same path.

Salts are now written to a temporary file and moved into place, new ones
only if there is none yet. Reading is repeated if the file was locked.
---
 aiootp/_paths.py | 85 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 19 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 6c56f61..8cab7c7 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -18,7 +18,8 @@ A collection of `pathlib.Path`'s & file IO utilities.
 __all__ = []
 
 
-import aiofiles
+import os
+from contextlib import suppress
 from pathlib import Path
 from hashlib import sha3_256, shake_128
 from secrets import token_bytes
@@ -26,7 +27,7 @@ from secrets import token_bytes
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
 from ._exceptions import Issue
-from .asynchs import aos, wrap_in_executor, MultiConcurrencyGaurd
+from .asynchs import aos, sleep, wrap_in_executor, MultiConcurrencyGaurd
 from .generics import Domains, ahash_bytes, hash_bytes
 from .generics.transform import axi_mix, xi_mix
 
@@ -151,6 +152,53 @@ def find_salt_file(path: Path, *, key: bytes, size: int = 8) -> Path:
     return path.absolute() / deniable_filename(key, size=size)
 
 
+def _move_if_new(source: Path, path: Path) -> None:
+    """
+    Moves `source` to `path`, unless there's already a file.
+    """
+    try:
+        os.link(source, path)
+    except FileExistsError:
+        raise
+    except (AttributeError, OSError):  # not all systems support links
+        if path.exists():
+            raise FileExistsError(str(path)) from None
+        source.replace(path)
+
+
+def _install_salt(
+    path: Path,
+    salt: bytes,
+    move: t.Callable[[Path, Path], None],
+) -> None:
+    """
+    Moves a complete file into place, so that other processes never find
+    a partially written `salt`.
+    """
+    temporary = path.with_name(token_bytes(16).hex())
+    try:
+        temporary.touch(mode=0o600)
+        temporary.write_bytes(salt)
+        move(temporary, path)
+    finally:
+        temporary.unlink(missing_ok=True)
+
+
+def _unlock_and_read(path: Path, *, attempts: int = 200) -> bytes:
+    """
+    Returns the contents of a locked file, even if other processes lock
+    it again in the meantime.
+    """
+    for attempts_left in reversed(range(attempts)):
+        path.chmod(0o600)
+        try:
+            return path.read_bytes()
+        except PermissionError:
+            if not attempts_left:
+                raise
+            sleep(0.001)
+
+
 async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     """
     Saves a cryptographic `salt` contained within the file located at
@@ -163,8 +211,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        async with aiofiles.open(path, "wb") as salt_file:
-            await salt_file.write(salt)
+        await wrap_in_executor(_install_salt)(path, salt, _move_if_new)
         await aos.chmod(path, 0o000)
 
 
@@ -180,7 +227,7 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        path.write_bytes(salt)
+        _install_salt(path, salt, _move_if_new)
         path.chmod(0o000)
 
 
@@ -193,13 +240,11 @@ async def aread_salt_file(path: Path) -> bytes:
     target = filename_to_index_key(str(path))
     async with guards.guard(target):
         try:
-            await aos.chmod(path, 0o600)
-            async with aiofiles.open(path, "rb") as salt_file:
-                salt = await salt_file.read()
-                if len(salt) >= 32:
-                    return salt
-                else:
-                    raise Issue.value_must("salt", "be >= 32-bytes")
+            salt = await wrap_in_executor(_unlock_and_read)(path)
+            if len(salt) >= 32:
+                return salt
+            else:
+                raise Issue.value_must("salt", "be >= 32-bytes")
         finally:
             await aos.chmod(path, 0o000)
 
@@ -213,8 +258,7 @@ def read_salt_file(path: Path) -> bytes:
     with guards.guard(target):
         try:
             path = Path(path)
-            path.chmod(0o600)
-            salt = path.read_bytes()
+            salt = _unlock_and_read(path)
 
             if len(salt) >= 32:
                 return salt
@@ -237,8 +281,7 @@ async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
     async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
-            async with aiofiles.open(path, "wb") as salt_file:
-                await salt_file.write(salt)
+            await wrap_in_executor(_install_salt)(path, salt, os.replace)
         finally:
             await aos.chmod(path, 0o000)
 
@@ -256,7 +299,7 @@ def update_salt_file(path: Path, *, salt: bytes) -> None:
         try:
             path = Path(path)
             path.chmod(0o600)
-            path.write_bytes(salt)
+            _install_salt(path, salt, os.replace)
         finally:
             path.chmod(0o000)
 
@@ -312,7 +355,9 @@ async def AsyncSecureSaltPath(
 
     target = await afilename_to_index_key(str(salt_path), b"create")
     async with guards.guard(target):
-        salt_path.is_file() or await amake_salt_file(salt_path)
+        # another process may make it first
+        with suppress(FileExistsError):
+            salt_path.is_file() or await amake_salt_file(salt_path)
 
     return salt_path
 
@@ -344,7 +389,9 @@ def SecureSaltPath(
 
     target = filename_to_index_key(str(salt_path), b"create")
     with guards.guard(target):
-        salt_path.is_file() or make_salt_file(salt_path)
+        # another process may make it first
+        with suppress(FileExistsError):
+            salt_path.is_file() or make_salt_file(salt_path)
 
     return salt_path
 
-- 
2.43.0


From fee63dee593e3620ef58e4def6993c30094aa472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:44 +0000
Subject: [PATCH 19/22] fix: keep concurrent tasks of one asynchronous database
 apart

Tasks which used the same entry, index or sub-database at once could lose
completed changes, leave damaged files, or fail. Each file is now used by
one task at a time, values set in the meantime are kept, and tasks which
open the same sub-database obtain the same one.
---
 aiootp/databases/async_database.py | 93 ++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 1b432fa..4a93cc7 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -27,6 +27,7 @@ from aiootp._constants import FILENAME_HASH_BYTES, SHAKE_128_BLOCKSIZE
 from aiootp._exceptions import DatabaseIssue, Issue, Ignore
 from aiootp._paths import adelete_salt_file
 from aiootp.asynchs import AsyncInit, asleep, gather, aos
+from aiootp.asynchs import MultiConcurrencyGaurd
 from aiootp.commons import Namespace
 from aiootp.randoms import atoken_bytes
 from aiootp.keygens.passcrypt.config import passcrypt_spec
@@ -35,6 +36,10 @@ from .profile_tokens import AsyncProfileTokens
 from .database_properties import DatabaseProperties
 
 
+# Each file is used by one task at a time, in arrival order.
+file_guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
+
+
 class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
     """
     Creates databases which enable the disk persistence of any bytes or
@@ -222,7 +227,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         """
         Loads an existing manifest file ledger from the filesystem.
         """
-        ciphertext = await self.IO.aread(path=self._root_path)
+        async with file_guards.guard(str(self._root_path)):
+            ciphertext = await self.IO.aread(path=self._root_path)
         key = await self._root_kdf.ashake_128(
             aad=self._DBDomains.MANIFEST,
             size=SHAKE_128_BLOCKSIZE,
@@ -511,10 +517,14 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         into the database.
         """
         filename = await self.afilename(tag)
-        setattr(self._cache, filename, data)
-        setattr(self._manifest, filename, tag)
-        if not cache:
-            await self.asave_tag(tag, drop_cache=True)
+        if cache:
+            setattr(self._cache, filename, data)
+            setattr(self._manifest, filename, tag)
+        else:
+            async with file_guards.guard(str(self.path / filename)):
+                setattr(self._cache, filename, data)
+                setattr(self._manifest, filename, tag)
+                await self._asave_file(filename, drop_cache=True)
         return self
 
     async def _aquery_ciphertext(
@@ -549,6 +559,23 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         filename = await self.afilename(tag)
         if filename in self._cache:
             return getattr(self._cache, filename)
+        async with file_guards.guard(str(self.path / filename)):
+            return await self._aquery_file(
+                filename, ttl=ttl, silent=silent, cache=cache
+            )
+
+    async def _aquery_file(
+        self,
+        filename: str,
+        *,
+        ttl: int | None = DEFAULT_TTL,
+        silent: bool = False,
+        cache: bool = False,
+    ) -> t.JSONSerializable | bytes:
+        """
+        Retrieves the saved value which has the given `filename`. Values
+        which were set in the meantime aren't overwritten in the cache.
+        """
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
         if ciphertext is None:
             return
@@ -562,7 +589,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             result = result[BYTES_FLAG_SIZE:]  # Remove bytes value flag
         else:
             result = json.loads(result)
-        if cache:
+        if cache and filename not in self._cache:
             setattr(self._cache, filename, result)
         return result
 
@@ -597,13 +624,17 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
 
         failures = []
         filename = await self.afilename(tag)
-        value = await self.aquery_tag(tag, cache=False, silent=True)
-        with Ignore(KeyError, AttributeError, if_except=track_failure):
-            del self._manifest[filename]
-        with Ignore(KeyError, AttributeError, if_except=track_failure):
-            del self._cache[filename]
-        with Ignore(FileNotFoundError, if_except=track_failure):
-            await self._adelete_file(filename)
+        async with file_guards.guard(str(self.path / filename)):
+            value = None
+            if filename not in self._cache:
+                value = await self._aquery_file(filename, silent=True)
+            value = getattr(self._cache, filename, value)
+            with Ignore(KeyError, AttributeError, if_except=track_failure):
+                del self._manifest[filename]
+            with Ignore(KeyError, AttributeError, if_except=track_failure):
+                del self._cache[filename]
+            with Ignore(FileNotFoundError, if_except=track_failure):
+                await self._adelete_file(filename)
         if (not silent) and (len(failures) == 3):
             raise DatabaseIssue.tag_file_doesnt_exist(tag)
         return value
@@ -621,11 +652,12 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         saved in the database.
         """
         filename = await self.afilename(tag)
-        if not (self.path / filename).is_file():
+        async with file_guards.guard(str(self.path / filename)):
+            if not (self.path / filename).is_file():
+                with Ignore(AttributeError):
+                    delattr(self._manifest, filename)
             with Ignore(AttributeError):
-                delattr(self._manifest, filename)
-        with Ignore(AttributeError):
-            delattr(self._cache, filename)
+                delattr(self._cache, filename)
         with Ignore(LookupError):
             cache and await self.aquery_tag(tag, cache=True)
         return self
@@ -695,7 +727,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
                 metatag=True,
                 silent=silent,
             )
-            setattr(self, tag, sub_database)
+            if not hasattr(self, tag):  # by another task in the meantime
+                setattr(self, tag, sub_database)
         if tag not in self.metatags:
             self._manifest[self._METATAGS_LEDGERNAME].append(tag)
         return getattr(self, tag)
@@ -776,26 +809,30 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         contains all database filenames & other metadata used to
         organize databases.
         """
-        manifest = await self._aencrypt_manifest()
-        await self._asave_manifest(manifest)
+        async with file_guards.guard(str(self._root_path)):
+            manifest = await self._aencrypt_manifest()
+            await self._asave_manifest(manifest)
 
     async def _asave_file(
         self,
         filename: str,
         *,
         admin: bool = False,
+        drop_cache: bool = False,
     ) -> None:
         """
         Writes the cached value for a user-specified `filename` to the
         user filesystem.
         """
-        value = getattr(self._cache, filename)
+        cached = value = getattr(self._cache, filename)
         if value.__class__ is bytes:
             value = BYTES_FLAG + value  # Assure not reloaded as JSON
         else:
             value = json.dumps(value).encode()
         ciphertext = await self.abytes_encrypt(value, filename=filename)
         await self._asave_ciphertext(filename, ciphertext)
+        if drop_cache and self._cache.__dict__.get(filename) is cached:
+            delattr(self._cache, filename)
 
     @staticmethod
     async def _agather_all(*saves: t.Awaitable) -> None:
@@ -811,7 +848,12 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         """
         Writes the database's user-defined tags to disk.
         """
-        save = self._asave_file
+
+        async def save(filename: str) -> None:
+            async with file_guards.guard(str(self.path / filename)):
+                if filename in self._cache:
+                    await self._asave_file(filename)
+
         filenames = self._cache
         saves = (save(filename) for filename in filenames)
         await self._agather_all(*saves)
@@ -839,11 +881,12 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         """
         filename = await self.afilename(tag)
         try:
-            await self._asave_file(filename, admin=admin)
+            async with file_guards.guard(str(self.path / filename)):
+                await self._asave_file(
+                    filename, admin=admin, drop_cache=drop_cache
+                )
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        if drop_cache and hasattr(self._cache, filename):
-            delattr(self._cache, filename)
         return self
 
     async def asave_database(self) -> t.Self:
-- 
2.43.0


From aa19716e21e6fd650466975e0b31a1443d3006dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:46 +0000
Subject: [PATCH 20/22] fix: keep salt files locked after cancelled or failed
 operations

The asynchronous forms unlocked a salt file, used it and locked it again in
separate executor calls, so a cancelled task left the file readable.
A failing removal also left it unlocked.
---
 aiootp/_paths.py | 105 +++++++++++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 40 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 8cab7c7..2e01903 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -27,7 +27,7 @@ from secrets import token_bytes
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
 from ._exceptions import Issue
-from .asynchs import aos, sleep, wrap_in_executor, MultiConcurrencyGaurd
+from .asynchs import sleep, wrap_in_executor, MultiConcurrencyGaurd
 from .generics import Domains, ahash_bytes, hash_bytes
 from .generics.transform import axi_mix, xi_mix
 
@@ -199,6 +199,54 @@ def _unlock_and_read(path: Path, *, attempts: int = 200) -> bytes:
             sleep(0.001)
 
 
+# the following each run to their end in one thread, so that cancelled
+# tasks don't leave an unlocked file behind
+
+
+def _create_locked(path: Path, salt: bytes) -> None:
+    """
+    Creates the file with its access denied to all.
+    """
+    try:
+        _install_salt(path, salt, _move_if_new)
+    finally:
+        if path.exists():
+            path.chmod(0o000)
+
+
+def _read_locked(path: Path) -> bytes:
+    """
+    Returns the contents of the file & denies access to it again.
+    """
+    try:
+        return _unlock_and_read(path)
+    finally:
+        path.chmod(0o000)
+
+
+def _replace_locked(path: Path, salt: bytes) -> None:
+    """
+    Replaces the contents of the file & denies access to it again.
+    """
+    try:
+        path.chmod(0o600)
+        _install_salt(path, salt, os.replace)
+    finally:
+        path.chmod(0o000)
+
+
+def _delete_locked(path: Path) -> None:
+    """
+    Deletes the file, which some systems refuse if it's locked.
+    """
+    path.chmod(0o600)
+    try:
+        path.unlink(missing_ok=True)
+    except OSError:
+        path.chmod(0o000)
+        raise
+
+
 async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     """
     Saves a cryptographic `salt` contained within the file located at
@@ -211,8 +259,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        await wrap_in_executor(_install_salt)(path, salt, _move_if_new)
-        await aos.chmod(path, 0o000)
+        await wrap_in_executor(_create_locked)(path, salt)
 
 
 def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
@@ -226,9 +273,7 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
 
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
-        path = Path(path)
-        _install_salt(path, salt, _move_if_new)
-        path.chmod(0o000)
+        _create_locked(Path(path), salt)
 
 
 async def aread_salt_file(path: Path) -> bytes:
@@ -239,14 +284,11 @@ async def aread_salt_file(path: Path) -> bytes:
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
     async with guards.guard(target):
-        try:
-            salt = await wrap_in_executor(_unlock_and_read)(path)
-            if len(salt) >= 32:
-                return salt
-            else:
-                raise Issue.value_must("salt", "be >= 32-bytes")
-        finally:
-            await aos.chmod(path, 0o000)
+        salt = await wrap_in_executor(_read_locked)(path)
+        if len(salt) >= 32:
+            return salt
+        else:
+            raise Issue.value_must("salt", "be >= 32-bytes")
 
 
 def read_salt_file(path: Path) -> bytes:
@@ -256,16 +298,11 @@ def read_salt_file(path: Path) -> bytes:
     """
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
-        try:
-            path = Path(path)
-            salt = _unlock_and_read(path)
-
-            if len(salt) >= 32:
-                return salt
-            else:
-                raise Issue.value_must("salt", "be >= 32-bytes")
-        finally:
-            path.chmod(0o000)
+        salt = _read_locked(Path(path))
+        if len(salt) >= 32:
+            return salt
+        else:
+            raise Issue.value_must("salt", "be >= 32-bytes")
 
 
 async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
@@ -279,11 +316,7 @@ async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        try:
-            await aos.chmod(path, 0o600)
-            await wrap_in_executor(_install_salt)(path, salt, os.replace)
-        finally:
-            await aos.chmod(path, 0o000)
+        await wrap_in_executor(_replace_locked)(path, salt)
 
 
 def update_salt_file(path: Path, *, salt: bytes) -> None:
@@ -296,12 +329,7 @@ def update_salt_file(path: Path, *, salt: bytes) -> None:
 
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
-        try:
-            path = Path(path)
-            path.chmod(0o600)
-            _install_salt(path, salt, os.replace)
-        finally:
-            path.chmod(0o000)
+        _replace_locked(Path(path), salt)
 
 
 async def adelete_salt_file(path: Path) -> None:
@@ -312,8 +340,7 @@ async def adelete_salt_file(path: Path) -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        await aos.chmod(path, 0o600)
-        await aos.remove(path)
+        await wrap_in_executor(_delete_locked)(path)
 
 
 def delete_salt_file(path: Path) -> None:
@@ -323,9 +350,7 @@ def delete_salt_file(path: Path) -> None:
     """
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
-        path = Path(path)
-        path.chmod(0o600)
-        path.unlink(path)
+        _delete_locked(Path(path))
 
 
 async def AsyncSecureSaltPath(
-- 
2.43.0


From d7b4660b5efb05385d816633220aa32a3a65a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:32 +0000
Subject: [PATCH 21/22] fix: split long inner headers into blocks, so that
 streams with small blocks give output before they end

---
 aiootp/ciphers/cipher_streams.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aiootp/ciphers/cipher_streams.py b/aiootp/ciphers/cipher_streams.py
index 74223a2..521ab79 100644
--- a/aiootp/ciphers/cipher_streams.py
+++ b/aiootp/ciphers/cipher_streams.py
@@ -118,7 +118,12 @@ class AsyncCipherStream(CipherStreamProperties, metaclass=AsyncInit):
         self._byte_count = 0
         self._digesting_now = self._DequePair()
         self._finalizing_now = deque()  # don't let maxlen remove entries
-        self._buffer = buffer = deque([self._padding.start_padding()])
+        self._buffer = buffer = deque(
+            batch(
+                self._padding.start_padding(),
+                size=self._config.BLOCKSIZE,
+            )
+        )
         self._key_bundle = key_bundle = await cipher._KeyAADBundle(
             kdfs=cipher._kdfs,
             salt=salt,
@@ -353,7 +358,12 @@ class CipherStream(CipherStreamProperties):
         self._byte_count = 0
         self._digesting_now = self._DequePair()
         self._finalizing_now = deque()  # don't let maxlen remove entries
-        self._buffer = buffer = deque([self._padding.start_padding()])
+        self._buffer = buffer = deque(
+            batch(
+                self._padding.start_padding(),
+                size=self._config.BLOCKSIZE,
+            )
+        )
         self._key_bundle = key_bundle = cipher._KeyAADBundle(
             kdfs=cipher._kdfs,
             salt=salt,
-- 
2.43.0


From 33cb71d2bcd0f3d659b35286d86456beae8b2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:28:40 +0000
Subject: [PATCH 22/22] fix: verify passphrase hashes with salts of other than
 the default size limits

---
 aiootp/keygens/passcrypt/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiootp/keygens/passcrypt/interface.py b/aiootp/keygens/passcrypt/interface.py
index aa3aef3..120f3d3 100644
--- a/aiootp/keygens/passcrypt/interface.py
+++ b/aiootp/keygens/passcrypt/interface.py
@@ -478,6 +478,7 @@ class Passcrypt(FrozenInstance):
             cpu=parts.cpu,
             cores=parts.cores,
             tag_size=parts.tag_size,
+            salt_size=parts.salt_size,
             config=config,
         )
         untrusted_hash = await self.anew(
@@ -541,6 +542,7 @@ class Passcrypt(FrozenInstance):
             cpu=parts.cpu,
             cores=parts.cores,
             tag_size=parts.tag_size,
+            salt_size=parts.salt_size,
             config=config,
         )
         untrusted_hash = self.new(
-- 
2.43.0

