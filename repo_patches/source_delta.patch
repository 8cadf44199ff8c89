From fed71a7f5f7eda34b6e32c037a15969be3284a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 01/51] fix: read and write past the end of a truncated chunked
 file

After truncating, the position may lie past the end of the file. Reading then
returned stale data (or failed with an under-run), writing exposed the data
that was cut off before, and growing by truncate left unreadable gaps.
---
 src/backy/rbd/chunked/file.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/chunked/file.py b/src/backy/rbd/chunked/file.py
index ced489e..481fd6e 100644
--- a/src/backy/rbd/chunked/file.py
+++ b/src/backy/rbd/chunked/file.py
@@ -192,6 +192,11 @@ class File(object):
         assert "w" in self.mode and not self.closed
         if size is None:
             size = self._position
+        if size > self.size:
+            # Fill up the missing parts with zeroes, but keep the position.
+            position = self._position
+            self.seek(size)
+            self._position = position
         # Update content hash
         self.size = size
         # Remove chunks past the size
@@ -205,7 +210,8 @@ class File(object):
     def read(self, size: int = -1) -> bytes:
         assert "r" in self.mode and not self.closed
         result = io.BytesIO()
-        max_size = self.size - self._position
+        # The position may be past the end after truncating.
+        max_size = max(0, self.size - self._position)
         if size == -1:
             size = max_size
         else:
@@ -228,6 +234,9 @@ class File(object):
         assert "w" in self.mode and not self.closed
         self.stats.setdefault("bytes_written", 0)
         self.stats["bytes_written"] += len(data)
+        if data and self._position > self.size:
+            # The file was truncated: fill up the gap with zeroes.
+            self.seek(self._position)
         while data:
             chunk, _, offset = self._current_chunk()
             written, data = chunk.write(offset, data)
-- 
2.43.0


From 28f5540b6bf7c06b850c9884ef506b58f5608d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 02/51] fix: refuse to distrust remote revisions before
 changing any revision

A selection mixing local and remote revisions distrusted some of the local
revisions and then failed with an assertion.
---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..4a80ebb 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -347,6 +347,8 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
+        revs = list(revs)
+        self.prevent_remote_rev(revs)
         for r in revs:
             assert not r.server
             r.distrust()
-- 
2.43.0


From 97111ca43fc24b04ebb45c77fd6f40fa671b0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 03/51] fix: collect garbage based on the current revisions

The history may have been loaded before other processes made backups or
removed revisions. Garbage collection then deleted the data of newer revisions
or kept unreferenced data.
---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..bc47393 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -255,6 +255,8 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".purge", mode="exclusive")
     def gc(self) -> None:
         self.log.debug("purge")
+        # Other processes may have added or removed revisions meanwhile.
+        self.repository.scan()
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
-- 
2.43.0


From 4e1f9b6bce85da5b1bdd76d6a757172967b50ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 04/51] fix: detect distrusted revisions so that backups
 rewrite all data

contains_distrusted compared the revision itself with the trust state and was
never true. Backups of repositories with distrusted revisions therefore reused
the stored data instead of writing it anew.
---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 4a80ebb..70e14dc 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From 6075ceffed69b5f55fc6ac045996d2d271864c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 05/51] fix: collect garbage in spite of an interrupted backup

A backup that was killed before it wrote its mapping made every garbage
collection fail, for ever if the job has been removed since.
---
 src/backy/rbd/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index bc47393..1afda70 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -261,7 +261,17 @@ class RBDSource(Source[RBDRestoreArgs]):
         # TODO: also remove mapping file
         # TODO: purge quarantine store
         for revision in self.repository.local_history:
-            used_chunks.update(self.open(revision)._mapping.values())
+            try:
+                file = self.open(revision)
+            except (FileNotFoundError, ValueError):
+                if "duration" in revision.stats:
+                    raise
+                # An interrupted backup may not have written its mapping.
+                self.log.info(
+                    "purge-ignoring-incomplete", revision_uuid=revision.uuid
+                )
+                continue
+            used_chunks.update(file._mapping.values())
         self.store.purge(used_chunks)
         # TODO: move this to cli/daemon?
         self.repository.clear_purge_pending()
-- 
2.43.0


From 03937451c7d15cc9f0e54578a3ebd252a76ae561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 06/51] fix: reject backups that are shorter than their source

The exit status of 'rbd export' is not looked at and the comparison with the
source samples few blocks only, so a full backup that ended early was mostly
accepted as complete.
---
 src/backy/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index d4c8fa2..9810472 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -393,6 +393,16 @@ def files_are_roughly_equal(
 ) -> bool:
     a.seek(0, os.SEEK_END)
     size = a.tell()
+    b.seek(0, os.SEEK_END)
+    if b.tell() < size:
+        # Sampling is likely to miss that `b` ends early, so always compare
+        # the block in which it does.
+        position = b.tell() // blocksize * blocksize
+        a.seek(position)
+        b.seek(position)
+        log.error("files-not-roughly-equal-truncated", pos=position)
+        report(a.read(blocksize), b.read(blocksize), position)
+        return False
     blocks = size // blocksize
     blocklist = range(0, max(blocks, 1))
     sample = random.sample(blocklist, max(int(samplesize * blocks), 1))
-- 
2.43.0


From 7dbf01ead648087beb8638c31bc8367e4ee7a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 07/51] fix: sync the data before a revision counts as complete

The chunks were synced after the metadata: a power loss in between left a
revision on record as complete without its data.
---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 1afda70..a3b44f5 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -166,6 +166,8 @@ class RBDSource(Source[RBDRestoreArgs]):
             revision.remove()
         else:
             self.log.info("verification-ok", revision_uuid=revision.uuid)
+            # The data must be on disk before the revision counts as complete.
+            os.sync()
             revision.stats["duration"] = time.time() - start
             revision.write_info()
             revision.readonly()
-- 
2.43.0


From 120e7f155c157c9f087c684d94d918475cfb5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 08/51] fix: sync file backups before they count as complete

---
 src/backy/file/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..a9d45fb 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -1,3 +1,4 @@
+import os
 import shutil
 import sys
 import time
@@ -63,6 +64,8 @@ class FileSource(Source[FileRestoreArgs]):
         assert not backup.exists()
         start = time.time()
         shutil.copy(self.filename, backup)
+        # The data must be on disk before the revision counts as complete.
+        os.sync()
         revision.stats["duration"] = time.time() - start
         revision.write_info()
         revision.readonly()
-- 
2.43.0


From e59b72d9cb8f611dd90a20d61bfe37fe7d193f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 09/51] fix: sync chunks before they replace existing ones

While distrusted revisions exist all chunks are written anew. A power loss
could destroy chunks that existing revisions depend on.
---
 src/backy/rbd/chunked/chunk.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/chunked/chunk.py b/src/backy/rbd/chunked/chunk.py
index 04b9aa8..b6bfed6 100644
--- a/src/backy/rbd/chunked/chunk.py
+++ b/src/backy/rbd/chunked/chunk.py
@@ -119,7 +119,8 @@ class Chunk(object):
         self.hash = hash(self.data.getvalue())
         target = self.store.chunk_path(self.hash)
         if self.hash not in self.store.seen:
-            if self.store.force_writes or not target.exists():
+            replace = target.exists()
+            if self.store.force_writes or not replace:
                 # Create the tempfile in the right directory to increase
                 # locality of our change - avoid renaming between multiple
                 # directories to reduce traffic on the directory nodes.
@@ -128,6 +129,10 @@ class Chunk(object):
                 with os.fdopen(fd, mode="wb") as f:
                     data = lzo.compress(self.data.getvalue())
                     f.write(data)
+                    if replace:
+                        # Existing revisions depend on this chunk already.
+                        f.flush()
+                        os.fsync(f)
                 # Micro-optimization: chmod before rename to help against
                 # metadata flushes and then changing metadata again.
                 os.chmod(tmpfile_name, 0o440)
-- 
2.43.0


From 4e0db0af7709ec9f92521cbc203327d35a39acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 10/51] fix: ranges starting exactly at the first revision's
 date

---
 src/backy/repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 70e14dc..cfc6ad6 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -456,9 +456,10 @@ class Repository(object):
             spec, list
         ), "can only index a single revision specifier"
         if isinstance(spec, str):
-            return self.index_by_date(spec) or self.history.index(
-                self.find(spec)
-            )
+            index = self.index_by_date(spec)
+            if index is None:
+                index = self.history.index(self.find(spec))
+            return index
         else:
             return self.history.index(spec)
 
@@ -480,7 +481,6 @@ class Repository(object):
                 0,
                 len(self.history),
             )
-            print(spec, L, r)
             assert 0 <= r - L <= 1, (
                 "can not index with date if multiple revision have the same "
                 "timestamp"
-- 
2.43.0


From ff8711f8092bf68c36fe3ee4f39ed94db4141955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 11/51] fix: status reports the current number of problem
 reports

---
 src/backy/daemon/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 34ba879..3681a74 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -340,6 +340,7 @@ class BackyDaemon(object):
             if filter_re and not filter_re.search(job.name):
                 continue
             job.repository.scan()
+            job.repository.scan_reports()
             manual_tags = set()
             unsynced_revs = 0
             history = job.repository.clean_history
-- 
2.43.0


From cbe7a116bb6d17bd655685b8a3dcc3d8656c7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 12/51] fix: remove the temporary file if replacing a file
 fails

---
 src/backy/utils.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index 9810472..231c27b 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -120,23 +120,25 @@ class SafeFile(object):
         #   synced by now and will restore write-protection
         if self.f is None:
             return
-        if self.sync:
-            self.f.flush()
-            os.fsync(self.f)
-        self.f.close()
-
-        if self.write_protected:
-            os.chmod(self.f.name, self.protected_mode)
-            if os.path.exists(self.filename):
-                os.chmod(self.filename, self.protected_mode)
-
-        if self.rename:
-            if exc_type is None:
+        committed = False
+        try:
+            if self.sync:
+                self.f.flush()
+                os.fsync(self.f)
+            self.f.close()
+
+            if self.write_protected:
+                os.chmod(self.f.name, self.protected_mode)
+                if os.path.exists(self.filename):
+                    os.chmod(self.filename, self.protected_mode)
+
+            if self.rename and exc_type is None:
                 os.rename(self.f.name, self.filename)
-            else:
+                committed = True
+        finally:
+            if self.rename and not committed:
                 os.unlink(self.f.name)
-
-        self.f = None
+            self.f = None
 
     # Activate the different safety features
 
-- 
2.43.0


From a88a9bf07f036ad7013205138446d02396fe4c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 13/51] fix: delete problem reports

---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From 31415d67e3326b6f6ee3683f308750266aa2ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 14/51] fix: clean up based on the current revisions

---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index cfc6ad6..c7b2f54 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -295,6 +295,8 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # Other processes may have added or completed revisions meanwhile.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From 6309c73273fd733cd065f805b489cb0662ccfdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 15/51] fix: garbage collection of file backups keeps existing
 revisions

---
 src/backy/file/__init__.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index a9d45fb..e748fe1 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -1,4 +1,5 @@
 import os
+import re
 import shutil
 import sys
 import time
@@ -7,6 +8,7 @@ from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, Iterable
 
+import shortuuid
 from structlog.stdlib import BoundLogger
 
 from backy.revision import Revision
@@ -14,6 +16,8 @@ from backy.source import RestoreArgs, Source
 
 from ..repository import Repository
 
+UUID_PATTERN = re.compile(f"[{shortuuid.get_alphabet()}]{{22}}")
+
 
 @dataclass(frozen=True)
 class FileRestoreArgs(RestoreArgs):
@@ -75,13 +79,16 @@ class FileSource(Source[FileRestoreArgs]):
         shutil.copy(self._path_for_revision(revision), args.target)
 
     def gc(self):
-        files = set(self.repository.path.glob("*.rev"))
+        files = list(self.repository.path.iterdir())
+        # Other processes may have added or removed revisions meanwhile.
+        self.repository.scan()
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            self._path_for_revision(r) for r in self.repository.get_history()
         )
-        for file in files - expected_files:
-            file.unlink()
+        for file in files:
+            # Data files are named like the UUID of their revision.
+            if UUID_PATTERN.fullmatch(file.name) and file not in expected_files:
+                file.unlink()
 
     def verify(self, revision: Revision):
         assert self._path_for_revision(revision).exists()
-- 
2.43.0


From 127af566f671f7b75d2ede1df2399a81d6094eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 16/51] fix: migrate old chunk stores that contain other files

---
 src/backy/rbd/chunked/store.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/chunked/store.py b/src/backy/rbd/chunked/store.py
index 18d310b..440da4b 100644
--- a/src/backy/rbd/chunked/store.py
+++ b/src/backy/rbd/chunked/store.py
@@ -1,3 +1,4 @@
+import errno
 from pathlib import Path
 from typing import Iterable, Set
 
@@ -46,7 +47,13 @@ class Store(object):
             path.rename(new)
         for path in self.path.glob("*/??"):
             if path.is_dir():
-                path.rmdir()
+                try:
+                    path.rmdir()
+                except OSError as e:
+                    if e.errno != errno.ENOTEMPTY:
+                        raise
+                    # e.g. temporary files of interrupted backups
+                    self.log.warning("to-v2-not-empty", path=str(path))
         with self.path.joinpath("store").open("wb") as f:
             f.write(b"v2")
         self.log.info("to-v2-finished")
-- 
2.43.0


From f2fa34a4c3308b7a145efe164cb135515c945d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 17/51] fix: process pending purges of dead backups

---
 src/backy/daemon/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 3681a74..88897fa 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -21,6 +21,7 @@ from backy import logging
 from backy.repository import Repository, StatusDict
 from backy.revision import filter_manual_tags
 from backy.schedule import Schedule
+from backy.source import AsyncCmdLineSource
 from backy.utils import has_recent_changes, is_dir_no_symlink
 
 from .api import BackyAPI
@@ -322,7 +323,9 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    await Job(self, candidate.name, self.log).run_gc()
+                    job = Job(self, candidate.name, self.log)
+                    job.source = AsyncCmdLineSource.load(job.path, job.log)
+                    await job.run_gc()
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0


From 52e10906a215752112003e57c53c4ef22beefd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 18/51] fix: undo the mapping if its device cannot be found or
 opened

---
 src/backy/rbd/rbd.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index f53cee1..04a4294 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -83,20 +83,17 @@ class RBDClient(object):
                     return mapping
             raise RuntimeError("Map not found in mapping list.")
 
-        versionstring = self._rbd(["--version"])
-
-        self._rbd(["map", image, "--read-only" if readonly else ""])
-
-        mappings_raw = self._rbd(["showmapped"], format="json")
-
-        if "nautilus" in versionstring:
-            mapping = parse_mappings_since_nautilus(mappings_raw)
-        elif "luminous" in versionstring:
-            mapping = parse_mappings_pre_nautilus(mappings_raw)
-        else:
-            # our jewel build provides no version info
-            # this will break with releases newer than nautilus
-            mapping = parse_mappings_pre_nautilus(mappings_raw)
+        def find_mapping():
+            mappings_raw = self._rbd(["showmapped"], format="json")
+
+            if "nautilus" in versionstring:
+                return parse_mappings_since_nautilus(mappings_raw)
+            elif "luminous" in versionstring:
+                return parse_mappings_pre_nautilus(mappings_raw)
+            else:
+                # our jewel build provides no version info
+                # this will break with releases newer than nautilus
+                return parse_mappings_pre_nautilus(mappings_raw)
 
         def scrub_mapping(mapping):
             SPEC = {"pool", "name", "snap", "device"}
@@ -112,7 +109,18 @@ class RBDClient(object):
                     del mapping[key]
             return mapping
 
-        return scrub_mapping(mapping)
+        versionstring = self._rbd(["--version"])
+
+        try:
+            self._rbd(["map", image, "--read-only" if readonly else ""])
+            return scrub_mapping(find_mapping())
+        except BaseException:
+            # The device is unknown, but the image may be mapped already.
+            try:
+                self.unmap(image)
+            except Exception:
+                self.log.debug("map-failed-unmap-failed", exc_info=True)
+            raise
 
     def unmap(self, device):
         self._rbd(["unmap", device])
@@ -153,11 +161,10 @@ class RBDClient(object):
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
         mapped = self.map(image, readonly=True)
-        source = open(mapped["device"], "rb", buffering=CHUNK_SIZE)
         try:
-            yield source
+            with open(mapped["device"], "rb", buffering=CHUNK_SIZE) as source:
+                yield source
         finally:
-            source.close()
             self.unmap(mapped["device"])
 
     @contextlib.contextmanager
-- 
2.43.0


From 855de2ce022bea55b20efdacd97a944a0df72b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 19/51] fix: cope with garbage among the snapshot requests

---
 src/backy/rbd/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index a3b44f5..bccc960 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -477,18 +477,19 @@ class CephRBD:
                     continue
                 try:
                     s = json.loads(s)
-                except json.decoder.JSONDecodeError:
+                except (TypeError, ValueError):
                     # Clean up garbage.
                     self.log.warning(
                         "create-snapshot-removing-garbage-request",
                         snapshot_key=key,
                     )
                     del consul.kv[key]
-                if s["vm"] != self.vm:
+                    continue
+                if not isinstance(s, dict) or s.get("vm") != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
                 # encapsulated here.
-                if s["snapshot"].startswith("backy-"):
+                if str(s.get("snapshot")).startswith("backy-"):
                     self.log.info(
                         "create-snapshot-removing-request",
                         vm=s["vm"],
-- 
2.43.0


From 1bffe3428a1464804427e552da7e72bf880a11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 20/51] fix: never purge chunks while backups or restores run

---
 src/backy/rbd/__init__.py | 51 ++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index bccc960..19c9d45 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -128,8 +128,26 @@ class RBDSource(Source[RBDRestoreArgs]):
     # Making backups
 
     @locked(target=".backup", mode="exclusive")
-    @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision) -> bool:
+        verified = self._backup(revision)
+
+        # If there are distrusted revisions, then perform at least one
+        # verification after a backup - for good measure and to keep things
+        # moving along automatically. This could also be moved into the
+        # scheduler.
+        self.repository.scan()
+        # TODO: move this to cli/daemon?
+        for revision in reversed(
+            self.repository.get_history(clean=True, local=True)
+        ):
+            if revision.trust == Trust.DISTRUSTED:
+                self.log.warning("inconsistent")
+                self.verify(revision)
+                break
+        return verified
+
+    @locked(target=".purge", mode="shared")
+    def _backup(self, revision: Revision) -> bool:
         self.repository.path.joinpath("last").unlink(missing_ok=True)
         self.repository.path.joinpath("last.rev").unlink(missing_ok=True)
 
@@ -174,25 +192,22 @@ class RBDSource(Source[RBDRestoreArgs]):
         # Switched from a fine-grained syncing mechanism to "everything
         # once" when we're done. This is as safe but much faster.
         os.sync()
-
-        # If there are distrusted revisions, then perform at least one
-        # verification after a backup - for good measure and to keep things
-        # moving along automatically. This could also be moved into the
-        # scheduler.
-        self.repository.scan()
-        # TODO: move this to cli/daemon?
-        for revision in reversed(
-            self.repository.get_history(clean=True, local=True)
-        ):
-            if revision.trust == Trust.DISTRUSTED:
-                self.log.warning("inconsistent")
-                self.verify(revision, skip_lock=True)
-                break
         return verified
 
+    def verify(self, revision: Revision) -> None:
+        self._verify(revision)
+
+        # Purge to ensure that we don't leave unused, potentially untrusted
+        # stuff around, especially if this was the last revision.
+        try:
+            self.gc()
+        except BlockingIOError:
+            # Never purge while others are working on the chunks.
+            self.log.info("verify-purge-skipped")
+
     @locked(target=".purge", mode="shared")
     @report_status
-    def verify(self, revision: Revision):
+    def _verify(self, revision: Revision):
         log = self.log.bind(revision_uuid=revision.uuid)
         log.info("verify-start")
         verified_chunks: Set[Hash] = set()
@@ -247,10 +262,6 @@ class RBDSource(Source[RBDRestoreArgs]):
 
         yield
 
-        # Purge to ensure that we don't leave unused, potentially untrusted
-        # stuff around, especially if this was the last revision.
-        self.gc(skip_lock=True)
-
         yield END
         yield None
 
-- 
2.43.0


From 55183a474fecd5ac603243aee28756b5bf00e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 21/51] fix: keep edits made while a revision is verified

---
 src/backy/rbd/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 19c9d45..8e98112 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -251,6 +251,16 @@ class RBDSource(Source[RBDRestoreArgs]):
 
         yield
 
+        # The revision may have been removed or edited meanwhile.
+        self.repository.scan()
+        try:
+            revision = self.repository.find_by_uuid(revision.uuid)
+        except IndexError:
+            log.info("verify-revision-removed")
+            yield END
+            yield None
+            return
+
         # TODO: move this to cli/daemon?
         if errors:
             # Found any issues? Delete this revision as we can't trust it.
-- 
2.43.0


From a8797cba557fe57bc09405bd8bc7f996f15aac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 22/51] fix: remove and distrust revisions as they are under
 the lock

---
 src/backy/repository.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index c7b2f54..9abb6ba 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -304,9 +304,18 @@ class Repository(object):
                 )
                 revision.remove()
 
+    def _current(self, revs: Iterable[Revision]) -> List[Revision]:
+        """The given revisions as they are now, without vanished ones.
+
+        Other processes may have edited or removed them meanwhile.
+        """
+        uuids = [r.uuid for r in revs]
+        self.scan()
+        return [self._by_uuid[u] for u in uuids if u in self._by_uuid]
+
     @locked(target=".backup", mode="exclusive")
     def rm(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._current(revs):
             r.remove()
 
     @locked(target=".backup", mode="exclusive")
@@ -349,7 +358,7 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
-        revs = list(revs)
+        revs = self._current(revs)
         self.prevent_remote_rev(revs)
         for r in revs:
             assert not r.server
-- 
2.43.0


From 8d49daae846eb8996d21c5cef48b94ba431a5221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 23/51] fix: hold the lock while metadata is synchronised

---
 src/backy/repository.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 9abb6ba..4e48a49 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -154,6 +155,17 @@ class Repository(object):
                 with repo.lock(target, mode, f.__name__):
                     return f(self, *args, **kw)
 
+            async def locked_coroutine(self, *args, skip_lock=False, **kw):
+                # Keep the lock until the coroutine has finished.
+                if skip_lock:
+                    return await f(self, *args, **kw)
+                repo = getattr(self, repo_attr) if repo_attr else self
+                with repo.lock(target, mode, f.__name__):
+                    return await f(self, *args, **kw)
+
+            if inspect.iscoroutinefunction(f):
+                return locked_coroutine
+
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
             )
-- 
2.43.0


From e3a8d7e6c6c7af4db21c248fc8253de98b5982d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 24/51] fix: lock the repository in file backups

---
 src/backy/file/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index e748fe1..97ddd88 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -6,7 +6,7 @@ import time
 from argparse import _ActionsContainer
 from dataclasses import dataclass
 from pathlib import Path
-from typing import Any, Iterable
+from typing import Any, Iterable, Literal
 
 import shortuuid
 from structlog.stdlib import BoundLogger
@@ -16,6 +16,11 @@ from backy.source import RestoreArgs, Source
 
 from ..repository import Repository
 
+
+def locked(target: str, mode: Literal["shared", "exclusive"]):
+    return Repository.locked(target, mode, repo_attr="repository")
+
+
 UUID_PATTERN = re.compile(f"[{shortuuid.get_alphabet()}]{{22}}")
 
 
@@ -63,6 +68,8 @@ class FileSource(Source[FileRestoreArgs]):
     def _path_for_revision(self, revision: Revision) -> Path:
         return self.repository.path / revision.uuid
 
+    @locked(target=".backup", mode="exclusive")
+    @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision):
         backup = self._path_for_revision(revision)
         assert not backup.exists()
@@ -75,9 +82,11 @@ class FileSource(Source[FileRestoreArgs]):
         revision.readonly()
         return True
 
+    @locked(target=".purge", mode="shared")
     def restore(self, revision: Revision, args: FileRestoreArgs):
         shutil.copy(self._path_for_revision(revision), args.target)
 
+    @locked(target=".purge", mode="exclusive")
     def gc(self):
         files = list(self.repository.path.iterdir())
         # Other processes may have added or removed revisions meanwhile.
@@ -90,6 +99,7 @@ class FileSource(Source[FileRestoreArgs]):
             if UUID_PATTERN.fullmatch(file.name) and file not in expected_files:
                 file.unlink()
 
+    @locked(target=".purge", mode="shared")
     def verify(self, revision: Revision):
         assert self._path_for_revision(revision).exists()
 
-- 
2.43.0


From d3dfef689ca38f22e6a3cc0453d03c445f04aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 25/51] fix: failing peers do not break the synchronisation
 with others

---
 src/backy/daemon/scheduler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..896e176 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -403,7 +403,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, TimeoutError):
                 log.warning("push-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -418,7 +418,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-purge-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, TimeoutError):
                 log.warning("push-purge-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -467,13 +467,13 @@ class Job(object):
                 log.warning("pull-client-error", exc_style="short")
                 error = True
             remote_revs = []
-        except ClientConnectionError:
+        except (ClientConnectionError, TimeoutError):
             log.warning("pull-connection-error", exc_style="short")
             return True
-        except ClientError:
+        except Exception:
+            # Nothing is known about the revisions of this peer.
             log.exception("pull-error")
-            error = True
-            remote_revs = []
+            return True
 
         local_uuids = {
             r.uuid
-- 
2.43.0


From 238c1d0c0f875f34596881a630af9f73d9c2f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 26/51] fix: tolerate revisions vanishing while scanning

---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 4e48a49..5042b6d 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -226,7 +226,11 @@ class Repository(object):
             if f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
-            r = Revision.load(f, self, self.log)
+            try:
+                r = Revision.load(f, self, self.log)
+            except FileNotFoundError:
+                # Removed by another process meanwhile.
+                continue
             if r.uuid not in self._by_uuid:
                 self._by_uuid[r.uuid] = r
                 self.history.append(r)
-- 
2.43.0


From 0677f8217ec8016751726bff18f650fb5574696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 27/51] fix: keep the job loop alive if the repository is
 unusable

---
 src/backy/daemon/scheduler.py | 49 +++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 896e176..d33207b 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -193,6 +193,7 @@ class Job(object):
         """
         self.errors = 0
         self.backoff = 0
+        retry_time = backy.utils.now()
         self.log.debug("loop-started")
         while True:
             self.taskid = generate_taskid()
@@ -205,11 +206,20 @@ class Job(object):
             self.repository.log = self.repository.log.bind(
                 job_name=self.name, sub_taskid=self.taskid
             )
-            self.repository.connect()
-
-            next_time, next_tags = self.schedule.next(
-                backy.utils.now(), self.spread, self.repository
-            )
+            try:
+                self.repository.connect()
+                next_time, next_tags = self.schedule.next(
+                    backy.utils.now(), self.spread, self.repository
+                )
+            except Exception:
+                # The repository is unusable (e.g. unreadable metadata). Keep
+                # trying as we do for failed backups.
+                self.log.exception("repository-unusable")
+                if retry_time <= backy.utils.now():
+                    retry_time = self._backup_failed()
+                self.run_immediately.clear()
+                await time_or_event(retry_time, self.run_immediately)
+                continue
 
             if self.errors:
                 # We're retrying - do not pay attention to the schedule but
@@ -219,7 +229,7 @@ class Job(object):
                 # not able to make backups for a longer period.
                 # This way we also use the queuing mechanism correctly so that
                 # one can still manually trigger a run if one wishes to.
-                next_time = backy.utils.now() + timedelta(seconds=self.backoff)
+                next_time = retry_time
 
             self.next_time = next_time
             self.next_tags = next_tags
@@ -269,22 +279,27 @@ class Job(object):
             except Exception:
                 self.log.exception("exception")
 
-                self.update_status("failed")
-                # Something went wrong. Use bounded expontial backoff to avoid
-                # hogging the workers. We sometimes can't make backups because
-                # of external reasons (i.e. the VM is shut down and properly
-                # making a snapshot fails
-                self.errors += 1
-                # Our retry series (in minutes). We converge on waiting
-                # 6 hours maximum for retries.
-                # 2, 4, 8, 16, 32, 65, ..., 6*60, 6*60, ...
-                self.backoff = min([2**self.errors, 6 * 60]) * 60
-                self.log.warning("backoff", backoff=self.backoff)
+                retry_time = self._backup_failed()
             else:
                 self.errors = 0
                 self.backoff = 0
                 self.update_status("finished")
 
+    def _backup_failed(self) -> datetime.datetime:
+        """Determine when to try again."""
+        self.update_status("failed")
+        # Something went wrong. Use bounded expontial backoff to avoid
+        # hogging the workers. We sometimes can't make backups because
+        # of external reasons (i.e. the VM is shut down and properly
+        # making a snapshot fails
+        self.errors += 1
+        # Our retry series (in minutes). We converge on waiting
+        # 6 hours maximum for retries.
+        # 2, 4, 8, 16, 32, 65, ..., 6*60, 6*60, ...
+        self.backoff = min([2**self.errors, 6 * 60]) * 60
+        self.log.warning("backoff", backoff=self.backoff)
+        return backy.utils.now() + timedelta(seconds=self.backoff)
+
     async def run_backup(self, tags: Set[str]) -> None:
         self.log.info("backup-started", tags=", ".join(tags))
 
-- 
2.43.0


From 88f8b42503cb83454f6d1be451aa4a96aad88a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 28/51] fix: reconfigure jobs whose schedule changed

---
 src/backy/daemon/__init__.py  | 6 +++++-
 src/backy/daemon/scheduler.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 88897fa..12e8cdf 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -126,7 +126,11 @@ class BackyDaemon(object):
                 self.jobs[name] = Job(self, name, self.log)
                 self.log.debug("added-job", job_name=name)
             job = self.jobs[name]
-            if config != job.last_config:
+            schedule = self.schedules[config["schedule"]]
+            if (
+                config != job.last_config
+                or schedule.config != job.last_schedule
+            ):
                 self.log.info("changed-job", job_name=name)
                 job.stop()
                 job.configure(config)
diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index d33207b..68e538e 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -40,6 +40,7 @@ class Job(object):
     path: Path
     logfile: Path
     last_config: Optional[dict] = None
+    last_schedule: Optional[dict] = None
     daemon: "BackyDaemon"
     run_immediately: asyncio.Event
     errors: int = 0
@@ -65,6 +66,7 @@ class Job(object):
         self.source = AsyncCmdLineSource(repository, config["source"], self.log)
         self.source.store()
         self.last_config = config
+        self.last_schedule = repository.schedule.config
 
     @property
     def spread(self) -> int:
-- 
2.43.0


From 7030528027a7cbd7280801738f28cb01016b4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 29/51] fix: do not miss reloads while the API is reconfigured

---
 src/backy/daemon/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 12e8cdf..b4e2c49 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -252,10 +252,11 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
+                # Do not miss reloads that happen while we reconfigure.
+                self.reload_api.clear()
                 await api.reconfigure(
                     self.api_tokens, self.api_addrs, self.api_port
                 )
-                self.reload_api.clear()
                 await self.reload_api.wait()
         except Exception:
             self.log.exception("api_server_loop")
-- 
2.43.0


From d85005b2d6253412b07ed0b1d5af8869e909b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 30/51] fix: one unusable API address does not affect the
 others

---
 src/backy/daemon/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index f20afcd..68388d8 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -83,10 +83,14 @@ class BackyAPI:
         for bind_addr in bind_addrs:
             if bind_addr in self.sites:
                 continue
-            self.sites[bind_addr] = site = TCPSite(
-                self.runner, bind_addr[0], bind_addr[1]
-            )
-            await site.start()
+            site = TCPSite(self.runner, bind_addr[0], bind_addr[1])
+            try:
+                await site.start()
+            except OSError:
+                # Other addresses and later configurations still apply.
+                self.log.exception("site-failed", site=site.name)
+                continue
+            self.sites[bind_addr] = site
             self.log.info("added-site", site=site.name)
         for bind_addr, site in list(self.sites.items()):
             if bind_addr in bind_addrs:
-- 
2.43.0


From 4ad5806c09986c7c7cbbaacbb6d414361608ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 31/51] fix: ask peers for the status of exactly this job

---
 src/backy/daemon/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 68e538e..d706895 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -2,6 +2,7 @@ import asyncio
 import datetime
 import hashlib
 import random
+import re
 import subprocess
 from collections import defaultdict
 from datetime import timedelta
@@ -108,10 +109,11 @@ class Job(object):
 
     async def _wait_for_leader(self, next_time: datetime.datetime) -> bool:
         api = None
+        name_filter = f"^{re.escape(self.name)}$"
         try:
             api = ClientManager(self.daemon.peers, self.taskid, self.log)
             statuses = await asyncio.gather(
-                *[api[server].fetch_status(f"^{self.name}$") for server in api],
+                *[api[server].fetch_status(name_filter) for server in api],
                 return_exceptions=True,
             )
             leader = None
@@ -166,7 +168,7 @@ class Job(object):
                     log.info("run-immediately-triggered")
                     return False
                 try:
-                    res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
+                    res = (await api[leader].fetch_status(name_filter))[0]
                 except ClientError:
                     log.warning("leader-failed", exc_style="short")
                     return False
-- 
2.43.0


From 414146188c593c889963df4031cb91889040d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 32/51] fix: choose a leader although a peer does not know the
 job

---
 src/backy/daemon/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index d706895..dfdb499 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -131,6 +131,9 @@ class Job(object):
                         exc_style="short",
                     )
                     continue
+                if not status:
+                    log.info("job-unknown")
+                    continue
                 num_remote_revs = status[0]["local_revs"]
                 log.info("duplicate-job", remote_revs=num_remote_revs)
                 if num_remote_revs > leader_revs:
-- 
2.43.0


From 0810ba3ea517ac290a84aa184213e036599a44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 33/51] fix: rest after leaving a backup to the leader

---
 src/backy/daemon/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index dfdb499..00fb576 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -259,6 +259,9 @@ class Job(object):
                 ):
                     await self.pull_metadata()
                     await self.run_callback()
+                    # We may still be due (e.g. if the leader uses other tags).
+                    # Do not ask again while its backup counts as recent.
+                    await backy.utils.delay_or_event(300, self.run_immediately)
                 else:
                     speed = "slow"
                     if (
-- 
2.43.0


From 2918ff0f80c3f620967ab63c82ab6360307cd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 34/51] fix: refuse malformed tags instead of storing them

---
 src/backy/daemon/api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index 68388d8..a897dba 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -216,11 +216,16 @@ class BackyAPI:
         )
 
     async def put_tags(self, request: web.Request):
-        json = await request.json()
         try:
+            json = await request.json()
+            for tags in (json["old_tags"], json["new_tags"]):
+                if not isinstance(tags, list) or not all(
+                    isinstance(t, str) for t in tags
+                ):
+                    raise ValueError("tags must be lists of strings")
             old_tags = set(json["old_tags"])
             new_tags = set(json["new_tags"])
-        except KeyError:
+        except (KeyError, TypeError, ValueError):
             request["log"].info("put-tags-bad-request")
             raise HTTPBadRequest()
         autoremove = request.query.get("autoremove", "") == "1"
-- 
2.43.0


From 9a9832143ef5f86e0d7c4d2bca95edeb6bb0aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 35/51] fix: refuse invalid status filters as bad request

---
 src/backy/daemon/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index a897dba..51125cb 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -143,7 +143,11 @@ class BackyAPI:
     ) -> aiohttp.web.StreamResponse:
         filter = request.query.get("filter", None)
         request["log"].info("get-status", filter=filter)
-        filter_re = re.compile(filter) if filter else None
+        try:
+            filter_re = re.compile(filter) if filter else None
+        except re.error:
+            request["log"].info("get-status-bad-filter")
+            raise HTTPBadRequest()
         return to_json(self.daemon.status(filter_re))
 
     async def reload_daemon(self, request: web.Request):
-- 
2.43.0


From b2fc603bc59f87af22987c461225ceaae1ce7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 36/51] fix: accept an empty list of API tokens

---
 src/backy/daemon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index b4e2c49..ad432de 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -90,7 +90,7 @@ class BackyDaemon(object):
         ]
 
         self.api_port = int(api.get("port", type(self).api_port))
-        self.api_tokens = api.get("tokens", {})
+        self.api_tokens = api.get("tokens") or {}
         self.api_cli_default = api.get("cli-default", {})
         if (
             self.api_addrs
-- 
2.43.0


From c462253d01277df1a4db14a73842a8f1ba996fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 37/51] fix: requests do not resurrect deleted backups as files

---
 src/backy/daemon/api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index 51125cb..ac27846 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -188,7 +188,12 @@ class BackyAPI:
         name = request.match_info.get("backup_name")
         request["log"].info("get-backups", name=name)
         if name in self.daemon.dead_repositories:
-            return self.daemon.dead_repositories[name]
+            backup = self.daemon.dead_repositories[name]
+            if not backup.path.is_dir():
+                # deleted since the last reload
+                request["log"].info("get-backups-deleted", name=name)
+                raise HTTPNotFound()
+            return backup
         if name in self.daemon.jobs:
             if allow_active:
                 return self.daemon.jobs[name].repository
-- 
2.43.0


From efccfbd1c62fb45db56365cf27a3a8bc2bbc7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 38/51] fix: address backups with special characters in their
 names at peers

---
 src/backy/daemon/api.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index ac27846..5391b7b 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -2,6 +2,7 @@ import datetime
 import re
 from asyncio import get_running_loop
 from typing import TYPE_CHECKING, Any, Dict, Iterator, List, Tuple
+from urllib.parse import quote
 
 import aiohttp
 from aiohttp import ClientTimeout, TCPConnector, hdrs, web
@@ -365,7 +366,7 @@ class Client:
             return await response.json()
 
     async def run_job(self, name: str):
-        async with self.session.post(f"/v1/jobs/{name}/run"):
+        async with self.session.post(f"/v1/jobs/{quote(name, safe='')}/run"):
             return
 
     async def list_backups(self) -> List[str]:
@@ -373,18 +374,18 @@ class Client:
             return await response.json()
 
     async def run_purge(self, name: str):
-        async with self.session.post(f"/v1/backups/{name}/purge"):
+        async with self.session.post(f"/v1/backups/{quote(name, safe='')}/purge"):
             return
 
     async def touch_backup(self, name: str):
-        async with self.session.post(f"/v1/backups/{name}/touch"):
+        async with self.session.post(f"/v1/backups/{quote(name, safe='')}/touch"):
             return
 
     async def get_revs(
         self, repository: "backy.repository.Repository", only_clean: bool = True
     ) -> List[Revision]:
         async with self.session.get(
-            f"/v1/backups/{repository.name}/revs",
+            f"/v1/backups/{quote(repository.name, safe='')}/revs",
             params={"only_clean": int(only_clean)},
         ) as response:
             json = await response.json()
@@ -395,8 +396,9 @@ class Client:
             return revs
 
     async def put_tags(self, rev: Revision, autoremove: bool = False):
+        name = quote(rev.repository.name, safe="")
         async with self.session.put(
-            f"/v1/backups/{rev.repository.name}/revs/{rev.uuid}/tags",
+            f"/v1/backups/{name}/revs/{rev.uuid}/tags",
             json={"old_tags": list(rev.orig_tags), "new_tags": list(rev.tags)},
             params={"autoremove": int(autoremove)},
         ):
-- 
2.43.0


From b4b4f3bea435f7549363b33b4a576bf09eeb3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 39/51] fix: do not replace own revisions by copies of a peer

---
 src/backy/daemon/scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 00fb576..f3f034d 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -510,7 +510,12 @@ class Job(object):
             log.warning("pull-removing-unknown-rev", rev_uuid=uuid)
             self.repository.find_by_uuid(uuid).remove(force=True)
 
+        own_uuids = {r.uuid for r in self.repository.get_history(local=True)}
         for r in remote_revs:
+            if r.uuid in own_uuids:
+                # Copied between the servers. Do not give up our own revision.
+                log.warning("pull-ignoring-own-rev", rev_uuid=r.uuid)
+                continue
             if r.uuid in local_uuids:
                 if (
                     r.to_dict()
-- 
2.43.0


From 07d448b5dbb9dd9e9e28cd564451e1e1119c79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 40/51] fix: print names literally instead of as markup

---
 src/backy/cli/__init__.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index f2f3408..6123548 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -14,6 +14,7 @@ from aiohttp import ClientResponseError
 from aiohttp.web_exceptions import HTTPNotFound
 from rich import print as rprint
 from rich.table import Column, Table
+from rich.text import Text
 from structlog.stdlib import BoundLogger
 
 import backy.daemon
@@ -198,13 +199,20 @@ class Command(object):
             else:
                 duration = "-"
 
+            # Text: the names of tags and servers are not markup
             if r.pending_changes:
-                added = [f"+[on green]{t}[/]" for t in r.tags - r.orig_tags]
-                removed = [f"-[on red]{t}[/]" for t in r.orig_tags - r.tags]
-                same = list(r.orig_tags & r.tags)
-                tags = ",".join(added + removed + same)
+                added = [
+                    Text.assemble("+", (t, "on green"))
+                    for t in r.tags - r.orig_tags
+                ]
+                removed = [
+                    Text.assemble("-", (t, "on red"))
+                    for t in r.orig_tags - r.tags
+                ]
+                same = [Text(t) for t in r.orig_tags & r.tags]
+                tags = Text(",").join(added + removed + same)
             else:
-                tags = ",".join(r.tags)
+                tags = Text(",".join(r.tags))
 
             t.add_row(
                 format_datetime_local(r.timestamp)[0],
@@ -215,9 +223,10 @@ class Command(object):
                 duration,
                 tags,
                 r.trust.value,
-                f"[underline italic]{r.server}[/]"
-                if r.pending_changes
-                else r.server,
+                Text(
+                    r.server,
+                    style="underline italic" if r.pending_changes else "",
+                ),
             )
 
         rprint(t)
@@ -415,22 +424,23 @@ class Command(object):
             last_time = format_datetime_local(job["last_time"])[0]
             next_time = format_datetime_local(job["next_time"])[0]
 
+            # Text: the names of jobs and tags are not markup
             t.add_row(
-                job["job"],
+                Text(job["job"]),
                 job["sla"],
                 overdue,
-                job["status"],
+                Text(job["status"]),
                 last_time,
-                job["last_tags"],
+                Text(job["last_tags"] or ""),
                 last_duration,
                 next_time,
-                job["next_tags"],
+                Text(job["next_tags"] or ""),
             )
         backups = await self.api.list_backups()
         if self.jobs:
             backups = list(filter(re.compile(self.jobs).search, backups))
         for b in backups:
-            t.add_row(b, "-", "-", "Dead", "-", "", "-", "-", "")
+            t.add_row(Text(b), "-", "-", "Dead", "-", "", "-", "-", "")
 
         rprint(t)
         print("{} jobs shown".format(len(jobs) + len(backups)))
@@ -446,7 +456,7 @@ class Command(object):
             state_summary[job["status"]] += 1
 
         for state in sorted(state_summary):
-            t.add_row(state, str(state_summary[state]))
+            t.add_row(Text(state), str(state_summary[state]))
         rprint(t)
 
     async def reload_daemon(self):
-- 
2.43.0


From 169ef87f206aa051874b749089a5185f1997f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 41/51] fix: report failures of garbage collections

---
 src/backy/cli/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 6123548..71ddba3 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -320,7 +320,7 @@ class Command(object):
         )
         return int(not success)
 
-    def gc(self, repo: Repository, expire: bool, local: bool) -> None:
+    def gc(self, repo: Repository, expire: bool, local: bool) -> int:
         if expire and not local:
             assert False  # request pull from daemon
             # XXX needs to update from remote API peers first (pull)
@@ -329,7 +329,7 @@ class Command(object):
             repo.expire()
         if expire and not local:
             assert False  # request push from daemon
-        self.source.gc()
+        return self.source.gc()
 
     def reports_list(self, repo: Repository):
         for id in repo.report_ids:
-- 
2.43.0


From f737beb4a4315f41527189ad79c1bbaf77be60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:51 +0000
Subject: [PATCH 42/51] fix: a killed verification or garbage collection is a
 failure

---
 src/backy/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 71ddba3..350c70e 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -100,7 +100,8 @@ class Command(object):
                         r = await r
                     if not isinstance(r, int):
                         r = 0
-                    ret = max(ret, r)
+                    # (processes killed by a signal have a negative status)
+                    ret = max(ret, r, key=abs)
             elif (
                 "repos" in params
                 and params["repos"].annotation == List[Repository]
@@ -289,7 +290,8 @@ class Command(object):
         # TODO support multiple repos
         ret = 0
         for r in self.source.repository.find_revisions(revision):
-            ret = max(ret, self.source.verify(r))
+            # (processes killed by a signal have a negative status)
+            ret = max(ret, self.source.verify(r), key=abs)
         return ret
 
     def rm(self, repo: Repository, revision: str) -> None:
-- 
2.43.0


From 8e1db4312e65e45e96f31a4eff239aeb0366f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 43/51] fix: show the job of the current directory

---
 src/backy/cli/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 350c70e..1a6c147 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -408,11 +408,10 @@ class Command(object):
             "Next Tags",
         )
 
-        jobs = await self.api.fetch_status(self.jobs)
+        jobs = await self.api.fetch_status(self.jobs or "")
+        jobs = [j for j in jobs if j["job"] in repo_names]
         jobs.sort(key=lambda j: j["job"])
         for job in jobs:
-            if job["job"] not in repo_names:
-                continue
             overdue = (
                 humanize.naturaldelta(job["sla_overdue"])
                 if job["sla_overdue"]
-- 
2.43.0


From e4dbd35825eb6187cf42e8cd1609386b1a191c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 44/51] fix: --dry-run never modifies anything

---
 src/backy/cli/__init__.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 1a6c147..bf77343 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -64,6 +64,18 @@ from backy.utils import BackyJSONEncoder, format_datetime_local, generate_taskid
 # maybe add a common --repo/--job <regex> flag?
 
 
+# Commands that do not modify anything.
+READ_ONLY = {
+    "rev_parse",
+    "log_",
+    "reports_list",
+    "reports_show",
+    "check",
+    "show_jobs",
+    "show_daemon",
+}
+
+
 class Command(object):
     """Proxy between CLI calls and actual backup code."""
 
@@ -89,6 +101,12 @@ class Command(object):
 
     async def __call__(self, cmdname: str, kwargs: dict[str, Any]):
         self.log.debug("call", func=cmdname, func_args=kwargs)
+        if self.dry_run and cmdname not in READ_ONLY:
+            self.log.error(
+                "dry-run-unsupported",
+                _fmt_msg="This subcommand does not support --dry-run.",
+            )
+            return 1
         try:
             func = getattr(self, cmdname)
             params = inspect.signature(func).parameters
-- 
2.43.0


From 97f6c1346e406afbbf9c01cd25e1153563782a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 45/51] fix: errors while logging do not affect operations

---
 src/backy/logging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/logging.py b/src/backy/logging.py
index ccf30de..ace5025 100644
--- a/src/backy/logging.py
+++ b/src/backy/logging.py
@@ -110,7 +110,11 @@ class MultiOptimisticLogger:
         for name, logger in self.loggers.items():
             line = messages.get(name)
             if line:
-                logger.msg(line)
+                try:
+                    logger.msg(line)
+                except Exception:
+                    # e.g. the disk is full or the terminal is gone
+                    pass
 
     def __getattr__(self, name):
         return self.msg
-- 
2.43.0


From a54a734ae177531b386d3651ee4e6f214c02c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 46/51] fix: log messages that cannot be encoded

---
 src/backy/logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backy/logging.py b/src/backy/logging.py
index ace5025..869749c 100644
--- a/src/backy/logging.py
+++ b/src/backy/logging.py
@@ -382,7 +382,9 @@ def init_logging(
     loggers = {}
 
     if logfile is not None:
-        loggers["file"] = structlog.PrintLoggerFactory(open(logfile, "a"))
+        loggers["file"] = structlog.PrintLoggerFactory(
+            open(logfile, "a", errors="backslashreplace")
+        )
 
     loggers["console"] = structlog.PrintLoggerFactory(sys.stderr)
 
-- 
2.43.0


From c5a724ac7a262e7012fbdbcafca7a177b75dc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 47/51] fix: accept any output of the callback

---
 src/backy/daemon/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index f3f034d..16ddd33 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -351,8 +351,8 @@ class Job(object):
                 "callback-finished",
                 return_code=callback_proc.returncode,
                 subprocess_pid=callback_proc.pid,
-                stdout=stdout.decode() if stdout else None,
-                stderr=stderr.decode() if stderr else None,
+                stdout=stdout.decode(errors="replace") if stdout else None,
+                stderr=stderr.decode(errors="replace") if stderr else None,
             )
         except asyncio.CancelledError:
             self.log.warning(
-- 
2.43.0


From c01f9d2a407742e318b8958a2f82aaa6453c2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:46 +0000
Subject: [PATCH 48/51] fix: let tasks clean up when the daemon ends

---
 src/backy/daemon/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index ad432de..8689258 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -50,6 +50,7 @@ class BackyDaemon(object):
     log: BoundLogger
     _lock: Optional[IO] = None
     reload_api: asyncio.Event
+    cancelled_tasks: List[asyncio.Task]
 
     loop: Optional[asyncio.AbstractEventLoop] = None
 
@@ -63,6 +64,7 @@ class BackyDaemon(object):
         self.dead_repositories = {}
         self._lock = None
         self.reload_api = asyncio.Event()
+        self.cancelled_tasks = []
         self.api_addrs = ["::1", "127.0.0.1"]
         self.api_tokens = {}
         self.api_cli_default = {}
@@ -263,6 +265,7 @@ class BackyDaemon(object):
 
     def terminate(self):
         self.log.info("terminating")
+        self.cancelled_tasks = []
         for task in asyncio.all_tasks():
             if task.get_coro().__name__ == "async_finalizer":  # type: ignore
                 # Support pytest-asyncio integration.
@@ -276,6 +279,7 @@ class BackyDaemon(object):
                 coro_name=task.get_coro().__name__,  # type: ignore
             )
             task.cancel()
+            self.cancelled_tasks.append(task)
 
     async def shutdown_loop(self):
         assert self.loop
@@ -285,6 +289,14 @@ class BackyDaemon(object):
                 await asyncio.sleep(0.25)
             except asyncio.CancelledError:
                 break
+        # Let the other tasks react, e.g. by terminating their processes.
+        current = asyncio.current_task()
+        tasks = [t for t in self.cancelled_tasks if t is not current]
+        if tasks:
+            try:
+                await asyncio.wait(tasks, timeout=10)
+            except asyncio.CancelledError:
+                pass
         self.log.info("stopping-loop")
         self.loop.stop()
 
-- 
2.43.0


From 8a9645237ceb4cf66cb21e54f132c228fb1a39e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:59 +0000
Subject: [PATCH 49/51] fix: do not reuse data of unfinished backups

---
 src/backy/rbd/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 8e98112..c96ab4e 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -158,9 +158,17 @@ class RBDSource(Source[RBDRestoreArgs]):
                 "Source is not ready (does it exist? can you access it?)"
             )
 
+        # Chunks of backups that did not finish may never have reached the disk
+        # (e.g. due to a power loss). Do not reuse them.
+        unfinished = self.repository.path / ".unfinished"
+        if unfinished.exists():
+            self.log.warning("unfinished-backup-forcing-writes")
+            self.store.force_writes = True
+
         try:
             with self.ceph_rbd(revision) as source:
                 parent_rev = source.get_parent()
+                unfinished.touch()
                 with self.open(revision, "wb", parent_rev) as file:
                     if parent_rev:
                         source.diff(file, parent_rev)
@@ -192,6 +200,8 @@ class RBDSource(Source[RBDRestoreArgs]):
         # Switched from a fine-grained syncing mechanism to "everything
         # once" when we're done. This is as safe but much faster.
         os.sync()
+        if verified:
+            unfinished.unlink()
         return verified
 
     def verify(self, revision: Revision) -> None:
-- 
2.43.0


From 137c46e95ef992a829129fd92dab22fba9358a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:33 +0000
Subject: [PATCH 50/51] fix: tell the callback about the current revisions

Metadata pulled from the leader is only on disk, so the callback was told
about the revisions as they were before.
---
 src/backy/daemon/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 16ddd33..83ae3b9 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -334,6 +334,8 @@ class Job(object):
             return
 
         self.log.info("callback-started")
+        # Others may have changed the revisions, e.g. by pulling metadata.
+        self.repository.scan()
         status = yaml.safe_dump(
             [r.to_dict() for r in self.repository.history]
         ).encode("utf-8")
-- 
2.43.0


From f001ed4966d0a79464e4f5aea9b3a1a15350713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:13 +0000
Subject: [PATCH 51/51] fix: clean up other directories even if one fails

A directory which can not be deleted or purged kept those after it from
being cleaned up for ever.
---
 src/backy/daemon/__init__.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 8689258..894d822 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -314,11 +314,15 @@ class BackyDaemon(object):
                         continue
                     self.log.debug("purge-candidate", candidate=candidate.path)
                     reference_time = time.time() - 3 * 31 * 24 * 60 * 60
-                    if not await has_recent_changes(
-                        candidate.path, reference_time
-                    ):
-                        self.log.info("purging", candidate=candidate.path)
-                        await aioshutil.rmtree(candidate)
+                    try:
+                        if not await has_recent_changes(
+                            candidate.path, reference_time
+                        ):
+                            self.log.info("purging", candidate=candidate.path)
+                            await aioshutil.rmtree(candidate)
+                    except Exception:
+                        # Go on with the others.
+                        self.log.exception("purge", candidate=candidate.path)
                 self.log.info("purge-finished")
             except Exception:
                 self.log.exception("purge")
@@ -340,9 +344,13 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    job = Job(self, candidate.name, self.log)
-                    job.source = AsyncCmdLineSource.load(job.path, job.log)
-                    await job.run_gc()
+                    try:
+                        job = Job(self, candidate.name, self.log)
+                        job.source = AsyncCmdLineSource.load(job.path, job.log)
+                        await job.run_gc()
+                    except Exception:
+                        # Go on with the others.
+                        self.log.exception("purge-pending", job=candidate.name)
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0

