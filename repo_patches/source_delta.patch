From 25ee1f239ba4ad597d1e08d6f53ded07de8263be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 01/33] fix: support language lists when filtering patcher
 files

`download --lang fr_FR` passes a list of languages, as documented by
PatchElement, but the patcher storage only supported a single string.
---
 cdtb/patcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..947a5ac 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -69,8 +69,9 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            # single language or list of languages, compare lowercased
+            langs = {lang.lower() for lang in ([langs] if isinstance(langs, str) else langs)}
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
-- 
2.43.0


From f4d82ad37bce20e2acff705f64f89f6c026e650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 02/33] fix: never leave partially written files under their
 final name

write_file_or_remove() wrote to the final path directly. A process killed
while writing left a truncated file there, which later runs took as complete
(downloads and extractions skip existing files).
Write to a temporary file, moved to its final path once complete.
---
 cdtb/tools.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index c45fdad..6c7573a 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -1,4 +1,5 @@
 import glob
+import itertools
 import os
 import re
 import shutil
@@ -19,18 +20,44 @@ except ImportError:
     json_dumps = json.dumps
 
 
+_tmp_counter = itertools.count()
+
 @contextmanager
-def write_file_or_remove(path, binary=True):
+def write_file_atomic(path, binary=True, newline=None):
     """Open a file for writing, create its parent directory if needed
 
-    If the writing fails, the file is removed.
+    Data is written to a temporary file in the same directory, which is moved
+    to `path` once complete. As a result, `path` never contains a partially
+    written file, even if the process is killed.
+    If the writing fails, `path` is left unchanged.
     """
+    dirname = os.path.dirname(path)
+    if dirname:
+        os.makedirs(dirname, exist_ok=True)
+    tmp_path = os.path.join(dirname, f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
     try:
-        os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, 'wb' if binary else 'w') as f:
+        with open(tmp_path, 'wb' if binary else 'w', newline=newline) as f:
             yield f
+        os.replace(tmp_path, path)
     except:
         # remove partially written file
+        try:
+            os.remove(tmp_path)
+        except OSError:
+            pass
+        raise
+
+@contextmanager
+def write_file_or_remove(path, binary=True):
+    """Open a file for writing, create its parent directory if needed
+
+    If the writing fails, the file is removed. The file is written atomically.
+    """
+    try:
+        with write_file_atomic(path, binary=binary) as f:
+            yield f
+    except:
+        # don't keep a previous version of the file
         try:
             os.remove(path)
         except OSError:
-- 
2.43.0


From ece1ecfd2224afd7e0d518aff918afe7ca404cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 03/33] fix: don't remove a stored file when a new write of it
 fails

A file of the storage may be shared with, or concurrently written by another
process: a failed write must not remove a complete file.
---
 cdtb/patcher.py | 8 ++++----
 cdtb/rads.py    | 4 ++--
 cdtb/storage.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 947a5ac..3338a4a 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -17,7 +17,7 @@ from .storage import (
 )
 from .tools import (
     BinaryParser,
-    write_file_or_remove,
+    write_file_atomic,
     zstd_decompress,
 )
 
@@ -375,9 +375,9 @@ class PatcherStorage(Storage):
         # Create the release information file and update `latest.timestamp`
         timestamp = int(time.time())
         base = self.base_release_path()
-        with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
+        with write_file_atomic(f"{base}/{timestamp}/release.json", binary=False) as f:
             json.dump(release_info, f)
-        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
+        with write_file_atomic(f"{base}/latest.timestamp", binary=False) as f:
             print(f"{timestamp}", file=f)
 
     def get_latest_client_manifest(self):
@@ -454,7 +454,7 @@ class PatcherStorage(Storage):
 
         if not os.path.isfile(real_output):
             logger.debug(f"extract {file.name} to {real_output}")
-            with write_file_or_remove(real_output) as f:
+            with write_file_atomic(real_output) as f:
                 for chunk in file.chunks:
                     f.write(self.load_chunk(chunk))
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..0c71a2e 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -7,7 +7,7 @@ import logging
 import requests
 
 from .data import Language
-from .tools import write_file_or_remove
+from .tools import write_file_atomic
 from .storage import (
     BaseVersion,
     Storage,
@@ -516,7 +516,7 @@ class RadsProjectVersion:
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-                    with write_file_or_remove(fspath) as fout:
+                    with write_file_atomic(fspath) as fout:
                         if pkgfile.compressed:
                             zobj = zlib.decompressobj(zlib.MAX_WBITS | 32)
                             def writer(data):
diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..f105ee1 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -9,7 +9,7 @@ import requests
 import hachoir.parser
 import hachoir.metadata
 
-from .tools import write_file_or_remove
+from .tools import write_file_atomic
 
 logger = logging.getLogger(__name__)
 
@@ -251,7 +251,7 @@ class Storage(metaclass=StorageRegister):
         logger.debug(f"download file: {path}")
         r = self.request_get(urlpath)
         r.raise_for_status()
-        with write_file_or_remove(fspath) as f:
+        with write_file_atomic(fspath) as f:
             f.write(r.content)
 
     @contextmanager
-- 
2.43.0


From a1cb566a936694ac9dd452c2ad2664cba4960fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 04/33] fix: write the patch version cache atomically

A process killed while writing the cache left an empty file, from which the
element was then seen as having no version, forever.
---
 cdtb/patcher.py | 2 +-
 cdtb/rads.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 3338a4a..96170ef 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -604,7 +604,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_atomic(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index 0c71a2e..4214809 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_atomic(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
-- 
2.43.0


From 4d2e009e630da9527176568c097ba565f3ff69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 05/33] fix: recover when the first download to a storage is
 interrupted

If it was interrupted before `channels/` is created, next commands could not
guess the type of the storage directory.
---
 cdtb/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index f105ee1..b5bab69 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -165,7 +165,8 @@ def storage_conf_from_path(path):
 def guess_storage_conf(path):
     """Try to guess storage configuration from path"""
 
-    if os.path.isdir(os.path.join(path, 'channels')):
+    # directories may be missing if the first download did not complete
+    if any(os.path.isdir(os.path.join(path, name)) for name in ('channels', 'cdtb')) or not os.listdir(path):
         return {'type': 'patcher', 'path': path}
     return None
 
-- 
2.43.0


From f602dc9a759305722ab048336d5058f37e7ff32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 06/33] fix: keep releases ordered when the clock goes backward

Release timestamps used the current time, without looking at existing releases.
After a clock adjustment, the latest release was listed as an old one; with two
updates in the same second a release was overwritten, along with a patch version
cache that did not match it anymore.
---
 cdtb/patcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 96170ef..3e688de 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -373,8 +373,11 @@ class PatcherStorage(Storage):
             return  # already up to date
 
         # Create the release information file and update `latest.timestamp`
-        timestamp = int(time.time())
+        # Releases are ordered by timestamp: make sure it is greater than previous
+        # ones, even if the clock went backward
         base = self.base_release_path()
+        timestamps = [int(v) for v in os.listdir(base) if v.isdecimal()] if os.path.isdir(base) else []
+        timestamp = max([int(time.time()), *(v + 1 for v in timestamps)])
         with write_file_atomic(f"{base}/{timestamp}/release.json", binary=False) as f:
             json.dump(release_info, f)
         with write_file_atomic(f"{base}/latest.timestamp", binary=False) as f:
-- 
2.43.0


From 409f4f892f391ea2322e0415d3e222961d4b32c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 07/33] fix: accept language names when selecting RADS projects

---
 cdtb/rads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 4214809..8e19c13 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -289,10 +289,10 @@ class RadsSolutionVersion:
             return dependencies[None]
         elif langs is True:
             return list({pv for pvs in dependencies.values() for pv in pvs})
-        elif isinstance(langs, Language):
-            return dependencies[langs]
+        elif isinstance(langs, (str, Language)):
+            return dependencies[Language(langs)]
         else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+            return list({pv for lang in langs for pv in dependencies[Language(lang)]})
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From 206f43aa891572fe193217b8e360c7bf6f8a1d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 08/33] fix: extract empty files of RADS packages whatever
 their order in the manifest

---
 cdtb/rads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 8e19c13..eae051f 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -511,8 +511,8 @@ class RadsProjectVersion:
 
         for package, files in files_by_package.items():
             with self.project.storage.stream(f"{package_files_path}/{package}") as reader:
-                # sort files by offset to extract while streaming the bin file
-                for pkgfile in sorted(files, key=lambda f: f.offset):
+                # sort files by offset to extract while streaming the bin file (empty files first)
+                for pkgfile in sorted(files, key=lambda f: (f.offset, f.size)):
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-- 
2.43.0


From e077fd73a998d81be9d37ae101bf26cb2658053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 09/33] fix: don't extract truncated WAD entries

---
 cdtb/wad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 4c49e78..b193100 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -92,6 +92,10 @@ class WadFileHeader:
         f.seek(self.offset)
         # assume files are small enough to fit in memory
         data = f.read(self.compressed_size)
+        if len(data) != self.compressed_size:
+            if self.type == 4:
+                raise MalformedSubchunkError(data)
+            raise ValueError(f"truncated data for WAD entry {self.path_hash:016x}")
         if self.type == 0:
             return data
         elif self.type == 1:
-- 
2.43.0


From dc727d24485e520a754d5301f396a37bd8965572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 10/33] fix: don't report write errors of converted images as
 conversion errors

Convert images in memory, with an explicit format: it must not depend on the
name of the (temporary) file.
---
 cdtb/export.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..a89e8a9 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -615,12 +615,15 @@ class ImageConverter(FileConverter):
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
         with write_file_or_remove(output_path) as fout:
+            # convert in memory, to not confuse write errors with conversion errors
+            fpng = BytesIO()
             try:
                 im = Image.open(fin)
-                im.save(fout)
+                im.save(fpng, format='PNG')
             except (OSError, NotImplementedError):
                 # "OSError: cannot identify image file" happen for some files with a wrong extension
                 raise FileConversionError("cannot convert image to PNG")
+            fout.write(fpng.getvalue())
 
 class TexConverter(FileConverter):
     def __init__(self):
@@ -636,11 +639,13 @@ class TexConverter(FileConverter):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
         fdds = BytesIO(self.tex_to_dds(fin.read()))
         with write_file_or_remove(output_path) as fout:
+            fpng = BytesIO()
             try:
                 im = Image.open(fdds)
-                im.save(fout)
+                im.save(fpng, format='PNG')
             except (OSError, NotImplementedError):
                 raise FileConversionError("cannot convert image to PNG")
+            fout.write(fpng.getvalue())
 
     @staticmethod
     def tex_to_dds(data):
-- 
2.43.0


From 5666e275c08a08e8b118cd939907527396efae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 11/33] fix: export changed files of WADs without checksums

Entries of v1 WADs don't have a checksum: changed files, and new ones, were
considered identical to the ones of the previous patch.
---
 cdtb/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index a89e8a9..b5789f7 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -201,7 +201,8 @@ class Exporter:
                 logger.debug(f"filter modified WAD file: {path}")
                 other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
+                # (old WADs don't provide it, their files cannot be compared)
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From 1ef1b2b122cb3f89886ccfd8880d37480851f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 12/33] fix: don't list "cdragon" in the exported files

---
 cdtb/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index b5789f7..8ada742 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -357,8 +357,7 @@ class CdragonRawPatchExporter:
                 symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)
 
         # exclude generated "cdragon" files
-        changed_paths.add("cdragon")
-        exporter.clean_output_dir(changed_paths, set(symlinked_paths or []))
+        exporter.clean_output_dir(changed_paths | {"cdragon"}, set(symlinked_paths or []))
 
         # extract files, create symlinks if needed
         exporter.export(overwrite=overwrite)
-- 
2.43.0


From 21fc6d86e600086fb30b214389061f8aa6c49392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 13/33] fix: accept --from when exporting without a patch
 version

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b35c851..8ec5f64 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -270,7 +270,7 @@ def command_export(parser, args):
         # multiple patches (update only)
         if args.previous:
             parser.error("patch version required with --previous or --full")
-        if args.first:
+        if not args.first:
             parser.error("--from is required when no patch is provided")
         exporters = CdragonRawPatchExporter.from_directory(storage, args.output, PatchVersion(args.first), symlinks=symlinks)
         for exporter in exporters:
-- 
2.43.0


From 39d79d563ea5724fac004d63c215b85bc130b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 14/33] fix: don't report read errors of converted images as
 conversion errors

---
 cdtb/export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 8ada742..b48c0c7 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -615,10 +615,11 @@ class ImageConverter(FileConverter):
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
         with write_file_or_remove(output_path) as fout:
-            # convert in memory, to not confuse write errors with conversion errors
+            # convert in memory, to not confuse read and write errors with conversion errors
+            fsrc = BytesIO(fin.read())
             fpng = BytesIO()
             try:
-                im = Image.open(fin)
+                im = Image.open(fsrc)
                 im.save(fpng, format='PNG')
             except (OSError, NotImplementedError):
                 # "OSError: cannot identify image file" happen for some files with a wrong extension
-- 
2.43.0


From ea10917d8fd21598e046a5ff6eb822829af4e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 15/33] fix: never leave partially written directories under
 their final name

Objects of a .skn file whose conversion has been interrupted were never
converted by a lazy export.
---
 cdtb/export.py |  5 ++---
 cdtb/tools.py  | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index b48c0c7..36c035c 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -751,11 +751,10 @@ class SknConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             shutil.copyfileobj(fin, fout)
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
-        shutil.rmtree(obj_output_path, ignore_errors=True)
-        with write_dir_or_remove(obj_output_path):
+        with write_dir_or_remove(obj_output_path) as obj_dir:
             sknfile = SknFile(output_path)
             for entry in sknfile.entries:
-                name = os.path.join(obj_output_path, entry["name"] + ".obj")
+                name = os.path.join(obj_dir, entry["name"] + ".obj")
                 with open(name, "w") as f:
                     f.write(sknfile.to_obj(entry))
 
diff --git a/cdtb/tools.py b/cdtb/tools.py
index 6c7573a..9e365f2 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -68,13 +68,25 @@ def write_file_or_remove(path, binary=True):
 def write_dir_or_remove(path):
     """Create a directory for writing, and its parent directory if needed
 
+    Yield the path of a temporary directory, which is moved to `path` once
+    complete, replacing it if needed. As a result, `path` never is a partially
+    written directory, even if the process is killed.
     If the writing fails, the directory and its content is removed.
     """
+    dirname = os.path.dirname(path)
+    tmp_path = os.path.join(dirname, f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
     try:
-        os.makedirs(path, exist_ok=True)
-        yield
+        os.makedirs(tmp_path)
+        yield tmp_path
+        if os.path.lexists(path):
+            if os.path.isdir(path) and not os.path.islink(path):
+                shutil.rmtree(path)
+            else:
+                os.remove(path)
+        os.rename(tmp_path, path)
     except:
-        # remove directory
+        # remove directories
+        shutil.rmtree(tmp_path, ignore_errors=True)
         shutil.rmtree(path, ignore_errors=True)
         raise
 
-- 
2.43.0


From 0d37ef13dc706ac929f4a81b6c137729472f6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 16/33] fix: remove empty directories left by interrupted
 exports

A directory emptied by an interrupted clean-up was never removed, and made all
later exports fail to create the symlink at its location.
---
 cdtb/export.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 36c035c..d3ad0a3 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -223,12 +223,11 @@ class Exporter:
         """Remove regular files (or directories) and symlinks from output, except given ones
 
         This method is intended to be used to clean-up files that should not be
-        extracted/symlinked. Parent directories are removed (if empty).
+        extracted/symlinked. Empty directories are removed.
         Note: symlinks are assumed to point to the right location.
         """
 
         # collect files to remove
-        # note: empty directories are not removed
         trees_to_remove = []
         files_to_remove = []
         for path in self.walk_output_dir(kept_files):
@@ -243,21 +242,32 @@ class Exporter:
                     else:
                         files_to_remove.append(full_path)
 
-        dirs_to_remove = set()
         for path in files_to_remove:
             logger.info(f"remove extra file or symlink: {path}")
             os.remove(path)
-            dirs_to_remove.add(os.path.dirname(path))
         for path in trees_to_remove:
             logger.info(f"remove extra directory: {path}")
             shutil.rmtree(path)
-            dirs_to_remove.add(os.path.dirname(path))
 
-        for path in dirs_to_remove:
-            try:
-                os.removedirs(path)
-            except OSError:
-                pass
+        if os.path.isdir(self.output):
+            self._remove_empty_dirs('', kept_files)
+
+    def _remove_empty_dirs(self, base, kept_dirs):
+        """Remove empty directories from output, return True if `base` is now empty
+
+        Directories can be empty because their files have just been removed, or
+        because a previous export has been interrupted.
+        """
+        empty = True
+        with os.scandir(f"{self.output}/{base}") as scan_it:
+            entries = list(scan_it)
+        for entry in entries:
+            path = f"{base}{entry.name}"
+            if entry.is_dir(follow_symlinks=False) and path not in kept_dirs and self._remove_empty_dirs(f"{path}/", kept_dirs):
+                os.rmdir(f"{self.output}/{path}")
+            else:
+                empty = False
+        return empty
 
 
     def _get_converter(self, path):
-- 
2.43.0


From bcee9ab313ef83351ebc626c0a75c847bdc41dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 17/33] fix: update symlinks to previous patches that have been
 exported again

---
 cdtb/export.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index d3ad0a3..609caef 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -224,7 +224,7 @@ class Exporter:
 
         This method is intended to be used to clean-up files that should not be
         extracted/symlinked. Empty directories are removed.
-        Note: symlinks are assumed to point to the right location.
+        Note: location symlinks point to is not checked.
         """
 
         # collect files to remove
@@ -492,13 +492,16 @@ class CdragonRawPatchExporter:
         logger.info(f"creating symlinks for patch {self.patch.version}")
         for link in symlinks:
             dst = os.path.join(dst_output, link)
+            dst_dir = os.path.dirname(dst)
+            src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
             if os.path.lexists(dst):
                 if not os.path.islink(dst):
                     raise RuntimeError(f"symlink target already exists: {dst}")
-                continue  # already set
-            dst_dir = os.path.dirname(dst)
+                if os.readlink(dst) == src:
+                    continue  # already set
+                # previous patch has been exported again since
+                os.remove(dst)
             os.makedirs(dst_dir, exist_ok=True)
-            src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
             logger.info(f"create symlink {dst}")
             try:
                 os.symlink(src, dst)
-- 
2.43.0


From 39c3f3efb862b097c6ddba9a8d2d867968245adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 18/33] fix: don't keep an outdated list of symlinks

---
 cdtb/export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 609caef..31df3e2 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -377,10 +377,14 @@ class CdragonRawPatchExporter:
         # write additional txt files
         os.makedirs(os.path.join(self.output, "cdragon"), exist_ok=True)
 
+        links_path = os.path.join(self.output, "cdragon/files.links.txt")
         if symlinked_paths:
-            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n') as f:
+            with open(links_path, 'w', newline='\n') as f:
                 for link in sorted(symlinked_paths):
                     print(link, file=f)
+        elif os.path.exists(links_path):
+            # from a previous export
+            os.remove(links_path)
 
         with open(os.path.join(self.output, "cdragon/files.unknown.txt"), 'w', newline='\n') as f:
             for h in unknown_hashes:
-- 
2.43.0


From 0adddc3a7031522822c959e2bdad3d658e52659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 19/33] fix: don't fail to export changed files only when TFT
 or Arena ones did not change

---
 cdtb/export.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 31df3e2..59934e0 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -394,10 +394,15 @@ class CdragonRawPatchExporter:
             for path in sorted(new_paths):
                 print(path, file=f)
 
-        logger.info("export TFT data files")
-        self.export_tft_data()
-        logger.info("export Arena data files")
-        self.export_arena_data()
+        for name, export_data in (("TFT", self.export_tft_data), ("Arena", self.export_arena_data)):
+            logger.info(f"export {name} data files")
+            try:
+                export_data()
+            except (FileNotFoundError, RuntimeError) as e:
+                if not self.prev_patch or self.create_symlinks:
+                    raise
+                # only changed files are exported: some of the needed files may be missing
+                logger.warning(f"cannot export {name} data files: {e}")
 
     def export_tft_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):
-- 
2.43.0


From 352c20d56d09a55c7b19b661e6b1596c5422cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 20/33] fix: don't keep an outdated image when a .tex file
 cannot be converted

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 59934e0..457ffb7 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -660,8 +660,8 @@ class TexConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
-        fdds = BytesIO(self.tex_to_dds(fin.read()))
         with write_file_or_remove(output_path) as fout:
+            fdds = BytesIO(self.tex_to_dds(fin.read()))
             fpng = BytesIO()
             try:
                 im = Image.open(fdds)
-- 
2.43.0


From 8967513646cc11a1e6d71ef7419b80c0d6db5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 21/33] fix: export files whose path is not the one of the
 previous patch

Language-specific files have been moved in 14.4: when unchanged, they were
expected at the same location in the 14.3 export.
---
 cdtb/export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 457ffb7..f8259e9 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -191,7 +191,7 @@ class Exporter:
             self_wad = self.wads.get(path)
             if self_wad is None:
                 continue  # not exported
-            if self_wad.path == other_wad.path:
+            if self_wad.path == other_wad.path and {wf.path for wf in self_wad.files} == {wf.path for wf in other_wad.files}:
                 # same path: WADs are identical
                 logger.debug(f"filter identical WAD file: {path}")
                 del self.wads[path]
@@ -199,10 +199,11 @@ class Exporter:
                 # compare the sha256 hashes to find the common files
                 # don't resolve hashes: we just need the sha256
                 logger.debug(f"filter modified WAD file: {path}")
-                other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
+                # (files may not be exported to the same path)
+                other_sha256 = {(wf.path_hash, wf.path): wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
                 # (old WADs don't provide it, their files cannot be compared)
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get((wf.path_hash, wf.path))]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From d2f47bec1504adc72052623d7b8bb6f9f1434ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 22/33] fix: replace extracted symlinks atomically

Another process listing the same patches, and retrieving their versions, could
make a download fail.
---
 cdtb/patcher.py |  7 ++-----
 cdtb/tools.py   | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 3e688de..6f8b8bc 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -18,6 +18,7 @@ from .storage import (
 from .tools import (
     BinaryParser,
     write_file_atomic,
+    symlink_atomic,
     zstd_decompress,
 )
 
@@ -463,13 +464,9 @@ class PatcherStorage(Storage):
 
         if self.use_extract_symlinks:
             logger.debug(f"symlink {real_output} to {output}")
-            try:
-                os.remove(output)
-            except OSError:
-                pass
             output_dir = os.path.dirname(output)
             os.makedirs(output_dir, exist_ok=True)
-            os.symlink(os.path.relpath(real_output, output_dir), output)
+            symlink_atomic(os.path.relpath(real_output, output_dir), output)
 
 
 class PatcherRelease:
diff --git a/cdtb/tools.py b/cdtb/tools.py
index 9e365f2..011893b 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -47,6 +47,22 @@ def write_file_atomic(path, binary=True, newline=None):
             pass
         raise
 
+def symlink_atomic(src, dst):
+    """Create a symlink, replace `dst` if it already exists
+
+    Another process may be creating the same symlink.
+    """
+    tmp_path = os.path.join(os.path.dirname(dst), f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
+    try:
+        os.symlink(src, tmp_path)
+        os.replace(tmp_path, dst)
+    except:
+        try:
+            os.remove(tmp_path)
+        except OSError:
+            pass
+        raise
+
 @contextmanager
 def write_file_or_remove(path, binary=True):
     """Open a file for writing, create its parent directory if needed
-- 
2.43.0


From 3aefbc086e3abeca51999238e4f66fbac9a45039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 23/33] fix: don't fail on temporary paths left by a process
 with the same PID

---
 cdtb/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 011893b..5a20173 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -54,6 +54,8 @@ def symlink_atomic(src, dst):
     """
     tmp_path = os.path.join(os.path.dirname(dst), f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
     try:
+        if os.path.lexists(tmp_path):
+            os.remove(tmp_path)  # from an interrupted process with the same PID
         os.symlink(src, tmp_path)
         os.replace(tmp_path, dst)
     except:
@@ -92,6 +94,8 @@ def write_dir_or_remove(path):
     dirname = os.path.dirname(path)
     tmp_path = os.path.join(dirname, f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
     try:
+        if os.path.lexists(tmp_path):
+            shutil.rmtree(tmp_path)  # from an interrupted process with the same PID
         os.makedirs(tmp_path)
         yield tmp_path
         if os.path.lexists(path):
-- 
2.43.0


From 857397f0814369da47b5b58bc3ee029939a2913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 24/33] fix: use temporary names that no other process uses

Process IDs are not unique between containers or machines sharing a storage.
---
 cdtb/tools.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 5a20173..304c2b8 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -1,9 +1,9 @@
 import glob
-import itertools
 import os
 import re
 import shutil
 import struct
+import uuid
 from contextlib import contextmanager
 
 import pyzstd
@@ -20,7 +20,9 @@ except ImportError:
     json_dumps = json.dumps
 
 
-_tmp_counter = itertools.count()
+def _tmp_path(path):
+    """Return an unused temporary path in the same directory than `path`"""
+    return os.path.join(os.path.dirname(path), f".cdtb-{uuid.uuid4().hex}.tmp")
 
 @contextmanager
 def write_file_atomic(path, binary=True, newline=None):
@@ -34,7 +36,7 @@ def write_file_atomic(path, binary=True, newline=None):
     dirname = os.path.dirname(path)
     if dirname:
         os.makedirs(dirname, exist_ok=True)
-    tmp_path = os.path.join(dirname, f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
+    tmp_path = _tmp_path(path)
     try:
         with open(tmp_path, 'wb' if binary else 'w', newline=newline) as f:
             yield f
@@ -52,10 +54,8 @@ def symlink_atomic(src, dst):
 
     Another process may be creating the same symlink.
     """
-    tmp_path = os.path.join(os.path.dirname(dst), f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
+    tmp_path = _tmp_path(dst)
     try:
-        if os.path.lexists(tmp_path):
-            os.remove(tmp_path)  # from an interrupted process with the same PID
         os.symlink(src, tmp_path)
         os.replace(tmp_path, dst)
     except:
@@ -91,11 +91,8 @@ def write_dir_or_remove(path):
     written directory, even if the process is killed.
     If the writing fails, the directory and its content is removed.
     """
-    dirname = os.path.dirname(path)
-    tmp_path = os.path.join(dirname, f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
+    tmp_path = _tmp_path(path)
     try:
-        if os.path.lexists(tmp_path):
-            shutil.rmtree(tmp_path)  # from an interrupted process with the same PID
         os.makedirs(tmp_path)
         yield tmp_path
         if os.path.lexists(path):
-- 
2.43.0


From 54808ff1363120b14a49210cbb0b7f64f68e17e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 25/33] fix: keep the current hash list when updating it fails

The list was removed if its new version could not be written.
---
 cdtb/hashes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7619e1f..f6411f4 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -15,7 +15,7 @@ from typing import Dict
 import requests
 from xxhash import xxh64_intdigest
 from .data import REGIONS, Language
-from .tools import write_file_or_remove
+from .tools import write_file_atomic
 
 logger = logging.getLogger(__name__)
 
@@ -106,7 +106,7 @@ def update_default_hashfile(basename):
     logger.debug(f"update hash file from {url}")
     r = requests.get(url)
     r.raise_for_status()
-    with write_file_or_remove(path) as f:
+    with write_file_atomic(path) as f:
         f.write(r.content)
 
 
-- 
2.43.0


From 9cdb9d8052d408ff3b1580a277170b9452603af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 26/33] fix: save hash lists atomically

A list was truncated if the process was stopped, or the disk full, while saving it.
---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index f6411f4..d6c0d52 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -69,7 +69,7 @@ class HashFile:
         return self.hashes
 
     def save(self):
-        with open(self.filename, 'w', newline='') as f:
+        with write_file_atomic(self.filename, binary=False, newline='') as f:
             for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
                 print(self.line_format.format(h, s), file=f)
 
-- 
2.43.0


From 225bc07ff765da02fa81cc8b492e98325e7b625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 27/33] fix: don't compare hash lists with the local clock

When the local clock was ahead of the clock of the server, a list downloaded
before a new version was published looked up to date and was never updated.
---
 cdtb/hashes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index d6c0d52..677d7fc 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -85,6 +85,11 @@ def default_hashfile(path):
     else:
         raise ValueError(f"no default hashes for WAD file '{path}'")
 
+def _last_modified_time(response):
+    """Return the timestamp of the Last-Modified header of a response"""
+    last_modified = datetime.datetime.strptime(response.headers['last-modified'], '%a, %d %b %Y %H:%M:%S GMT')
+    return last_modified.replace(tzinfo=datetime.timezone.utc).timestamp()
+
 def update_default_hashfile(basename):
     """Update a hashfile if a new version is available for download"""
 
@@ -97,8 +102,7 @@ def update_default_hashfile(basename):
         # We have to send a separate HEAD
         r = requests.head(url)
         r.raise_for_status()
-        last_modified = datetime.datetime.strptime(r.headers['last-modified'], '%a, %d %b %Y %H:%M:%S GMT').replace(tzinfo=datetime.timezone.utc)
-        if last_time >= last_modified.timestamp():
+        if last_time >= _last_modified_time(r):
             return  # up to date
     except FileNotFoundError:
         pass  # Never downloaded
@@ -108,6 +112,11 @@ def update_default_hashfile(basename):
     r.raise_for_status()
     with write_file_atomic(path) as f:
         f.write(r.content)
+        if 'last-modified' in r.headers:
+            # the local clock may differ from the one of the server
+            f.flush()
+            last_time = _last_modified_time(r)
+            os.utime(f.name, (last_time, last_time))
 
 
 def build_wordlist(paths):
-- 
2.43.0


From 0a97c79251b7fb1d48ebbdd8beee4ce400c71270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 28/33] fix: don't use the system clock to detect repeated
 interrupts

When the clock was set back, interrupts that should only display progress
stopped the operation.
---
 cdtb/hashes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 677d7fc..2a37ae4 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -4,6 +4,7 @@ import re
 import datetime
 import glob
 import itertools
+import math
 import signal
 import time
 import json
@@ -138,11 +139,11 @@ def build_wordlist(paths):
 def sigint_callback(callback):
     """Context to display progress of long operations on SIGINT"""
 
-    tlast = 0
+    tlast = -math.inf
     def signal_handler(signal, frame):
         nonlocal tlast
         callback()
-        tnow = time.time()
+        tnow = time.monotonic()
         if tnow - tlast < 0.5:
             raise KeyboardInterrupt()
         tlast = tnow
-- 
2.43.0


From 40764a4d8e68af28e4e95a83c70d184b8f22129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 29/33] fix: don't leave a partially removed directory when
 replacing an exported directory

---
 cdtb/tools.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 304c2b8..da0f19b 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -95,12 +95,16 @@ def write_dir_or_remove(path):
     try:
         os.makedirs(tmp_path)
         yield tmp_path
-        if os.path.lexists(path):
-            if os.path.isdir(path) and not os.path.islink(path):
-                shutil.rmtree(path)
-            else:
-                os.remove(path)
+        # move previous content aside, removing it may be interrupted
+        old_path = _tmp_path(path) if os.path.lexists(path) else None
+        if old_path is not None:
+            os.rename(path, old_path)
         os.rename(tmp_path, path)
+        if old_path is not None:
+            if os.path.isdir(old_path) and not os.path.islink(old_path):
+                shutil.rmtree(old_path)
+            else:
+                os.remove(old_path)
     except:
         # remove directories
         shutil.rmtree(tmp_path, ignore_errors=True)
-- 
2.43.0


From ea6308ebfcf4d4c51c09b1d970c6b2fb48373318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 30/33] fix: don't record a release twice, or use the wrong
 one, after an interrupted update

---
 cdtb/patcher.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 6f8b8bc..51ac285 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -365,24 +365,24 @@ class PatcherStorage(Storage):
             'game_patch_url': self.get_latest_game_manifest(),
         }
 
-        latest_timestamp = self.latest_timestamp()
-        if latest_timestamp is None:
-            latest_release = None
-        else:
-            latest_release = PatcherRelease(self, latest_timestamp)
+        # Don't rely on `latest.timestamp`: it may be missing or outdated if a
+        # previous update has been interrupted
+        latest_release = next(self.iter_releases(), None)
         if latest_release and release_info == latest_release.data:
-            return  # already up to date
-
-        # Create the release information file and update `latest.timestamp`
-        # Releases are ordered by timestamp: make sure it is greater than previous
-        # ones, even if the clock went backward
-        base = self.base_release_path()
-        timestamps = [int(v) for v in os.listdir(base) if v.isdecimal()] if os.path.isdir(base) else []
-        timestamp = max([int(time.time()), *(v + 1 for v in timestamps)])
-        with write_file_atomic(f"{base}/{timestamp}/release.json", binary=False) as f:
-            json.dump(release_info, f)
-        with write_file_atomic(f"{base}/latest.timestamp", binary=False) as f:
-            print(f"{timestamp}", file=f)
+            timestamp = latest_release.version  # already up to date
+        else:
+            # Create the release information file
+            # Releases are ordered by timestamp: make sure it is greater than previous
+            # ones, even if the clock went backward
+            base = self.base_release_path()
+            timestamps = [int(v) for v in os.listdir(base) if v.isdecimal()] if os.path.isdir(base) else []
+            timestamp = max([int(time.time()), *(v + 1 for v in timestamps)])
+            with write_file_atomic(f"{base}/{timestamp}/release.json", binary=False) as f:
+                json.dump(release_info, f)
+
+        if self.latest_timestamp() != timestamp:
+            with write_file_atomic(f"{self.base_release_path()}/latest.timestamp", binary=False) as f:
+                print(f"{timestamp}", file=f)
 
     def get_latest_client_manifest(self):
         url_or_path = self.clientconfig_data
-- 
2.43.0


From ee314f1a32fdb4b6e30cffff975213467aa09118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 31/33] fix: use --patchline with the default storage

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 8ec5f64..30eddbf 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -62,11 +62,11 @@ def parse_storage_args(parser, args) -> Storage:
         conf = storage_conf_from_path(path)
         if conf is None:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
-        if args.patchline is not None:
-            if conf['type'] == 'patcher':
-                conf['patchline'] = args.patchline
-            else:
-                parser.error("--patchline is only supported for 'patcher' storage")
+    if args.patchline is not None:
+        if conf['type'] == 'patcher':
+            conf['patchline'] = args.patchline
+        else:
+            parser.error("--patchline is only supported for 'patcher' storage")
     return Storage.from_conf(conf)
 
 
-- 
2.43.0


From 24deac83391b1ac64eeffce214a51ac1a70111b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 32/33] fix: guess hashes of a single element of a patch

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 30eddbf..6fef90b 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -200,7 +200,7 @@ def command_hashes_guess(parser, args):
         if isinstance(component, Patch):
             elements = component.elements
         else:
-            elements = [component.elements]
+            elements = [component]
         for elem in elements:
             wads.extend(Wad(p) for p in elem.fspaths() if p.endswith('.wad') or p.endswith('.wad.client'))
 
-- 
2.43.0


From 22ce9dfd0cca08470d6ed97f7caf46dcd33ea1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 33/33] fix: report a previous file that cannot be removed when
 its replacement fails

A conversion error is only a warning: if the previous version of the
file cannot be removed, the export succeeded with an outdated file.
---
 cdtb/tools.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index da0f19b..d80fad2 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -24,6 +24,16 @@ def _tmp_path(path):
     """Return an unused temporary path in the same directory than `path`"""
     return os.path.join(os.path.dirname(path), f".cdtb-{uuid.uuid4().hex}.tmp")
 
+def _remove_path(path):
+    """Remove a file or a directory, if it exists"""
+    try:
+        if os.path.isdir(path) and not os.path.islink(path):
+            shutil.rmtree(path)
+        else:
+            os.remove(path)
+    except FileNotFoundError:
+        pass
+
 @contextmanager
 def write_file_atomic(path, binary=True, newline=None):
     """Open a file for writing, create its parent directory if needed
@@ -76,10 +86,7 @@ def write_file_or_remove(path, binary=True):
             yield f
     except:
         # don't keep a previous version of the file
-        try:
-            os.remove(path)
-        except OSError:
-            pass
+        _remove_path(path)
         raise
 
 @contextmanager
@@ -101,14 +108,11 @@ def write_dir_or_remove(path):
             os.rename(path, old_path)
         os.rename(tmp_path, path)
         if old_path is not None:
-            if os.path.isdir(old_path) and not os.path.islink(old_path):
-                shutil.rmtree(old_path)
-            else:
-                os.remove(old_path)
+            _remove_path(old_path)
     except:
         # remove directories
         shutil.rmtree(tmp_path, ignore_errors=True)
-        shutil.rmtree(path, ignore_errors=True)
+        _remove_path(path)
         raise
 
 
-- 
2.43.0

