From 928f874a2be15460a9209ee0788383992624e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 01/57] fix: keep the contents when truncating a file that is
 already in the write overlay

---
 ratarmount/WriteOverlay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..453b8f5 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -161,6 +161,9 @@ class WritableFolderMountSource(fuse.Operations):
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
     def _ensure_file_is_modifiable(self, path):
+        if os.path.lexists(self._realpath(path)):
+            return
+
         self._ensure_parent_exists(path)
         with (
             self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-- 
2.43.0


From c4ee7846840c0eccdeb019dd4e306938b37090e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 02/57] fix: keep mode and owner of archive members and folders
 when they are copied into the write overlay

---
 ratarmount/WriteOverlay.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 453b8f5..b82b306 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -158,6 +158,11 @@ class WritableFolderMountSource(fuse.Operations):
         """
         parentPath = self._split_path(path)[0]
         if not os.path.exists(self._realpath(parentPath)) and self.mountSource.is_dir(parentPath):
+            # Remember the metadata before the newly created folders take precedence over those in the mount source.
+            folder = parentPath
+            while folder and not os.path.exists(self._realpath(folder)):
+                self._preserve_file_metadata(folder)
+                folder = self._split_path(folder)[0]
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
     def _ensure_file_is_modifiable(self, path):
@@ -165,6 +170,7 @@ class WritableFolderMountSource(fuse.Operations):
             return
 
         self._ensure_parent_exists(path)
+        self._preserve_file_metadata(path)
         with (
             self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
             open(self._realpath(path), 'wb') as targetObject,
@@ -249,15 +255,17 @@ class WritableFolderMountSource(fuse.Operations):
             (folder, name, sfi.mtime, sfi.mode, sfi.uid, sfi.gid, False),
         )
 
-    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+    def _preserve_file_metadata(self, path: str):
+        """Must be called before copying something into the overlay folder to keep its metadata."""
         folder, name = self._split_path(path)
-
         existsInMetadata = self.sqlConnection.execute(
             'SELECT COUNT(*) > 0 FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name)
         ).fetchone()[0]
-
         if not existsInMetadata:
             self._init_file_metadata(path)
+
+    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+        self._preserve_file_metadata(path)
         self._set_metadata(path, metadata)
 
         # Apply the metadata change for the file in the overlay folder if it exists there.
-- 
2.43.0


From aa46b5bf9099109bf172bd8ab379d63eaec360fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 03/57] fix: update the modification time when writing to files
 with metadata stored in the write overlay

---
 ratarmount/WriteOverlay.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index b82b306..a491d41 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -264,6 +264,10 @@ class WritableFolderMountSource(fuse.Operations):
         if not existsInMetadata:
             self._init_file_metadata(path)
 
+    def _reset_modification_time(self, path: str):
+        """Must be called when modifying file contents so that the time of the file in the overlay folder is used."""
+        self._set_metadata(path, {'mtime': None})
+
     def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
         self._preserve_file_metadata(path)
         self._set_metadata(path, metadata)
@@ -417,6 +421,9 @@ class WritableFolderMountSource(fuse.Operations):
             if flags & (os.O_WRONLY | os.O_RDWR):
                 self._ensure_file_is_modifiable(path)
 
+        if flags & (os.O_WRONLY | os.O_RDWR):
+            self._reset_modification_time(path)
+
         return os.open(self._realpath(path), flags)
 
     @overrides(fuse.Operations)
@@ -457,6 +464,7 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('path')
     def truncate(self, path: str, length: int, fh=None):
         self._ensure_file_is_modifiable(path)
+        self._reset_modification_time(path)
         os.truncate(self._realpath(path), length)
 
     # Actual writing
-- 
2.43.0


From c41aa669983387a65511c5a97f11b9adcfbfe736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 04/57] fix: make links and nodes visible that are created in
 archive folders or replace deleted archive members

---
 ratarmount/WriteOverlay.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index a491d41..90d54e2 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -184,11 +184,17 @@ class WritableFolderMountSource(fuse.Operations):
         self.sqlConnection.execute(
             'INSERT OR IGNORE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
         )
+        # Do not inherit the metadata of a file that has been deleted.
         self.sqlConnection.execute(
-            'UPDATE "files" SET deleted=0 WHERE path == (?) AND name == (?)',
-            (folder, name),
+            'UPDATE "files" SET deleted=0, mode=(?), mtime=NULL, uid=NULL, gid=NULL '
+            'WHERE path == (?) AND name == (?) AND deleted == 1',
+            (mode, folder, name),
         )
 
+    def _forget_metadata(self, path: str):
+        """Removes all overlay metadata, including the information whether it has been deleted, for the given path."""
+        self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', self._split_path(path))
+
     def _mark_as_deleted(self, path: str):
         """Hides the given path if it exists in the underlying mount source."""
         folder, name = self._split_path(path)
@@ -198,7 +204,7 @@ class WritableFolderMountSource(fuse.Operations):
                 'INSERT OR REPLACE INTO "files" (path,name,deleted) VALUES (?,?,?)', (folder, name, True)
             )
         else:
-            self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', (folder, name))
+            self._forget_metadata(path)
 
     def list_deleted(self, path: str) -> list[str]:
         """Return list of files marked as deleted in the given path."""
@@ -364,7 +370,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._ensure_parent_exists(target)
         os.symlink(source, self._realpath(target))
+        self._forget_metadata(target)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -374,9 +382,9 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
-
-        os.link(overlaySource, target)
+        self._ensure_parent_exists(target)
+        os.link(overlaySource, self._realpath(target))
+        self._forget_metadata(target)
 
     # Folders
 
@@ -457,7 +465,7 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mknod(self, path: str, mode: int, dev: int):
-        self._ensure_parent_exists(path)
+        self._open(path, mode)
         os.mknod(self._realpath(path), mode, dev)
 
     @overrides(fuse.Operations)
-- 
2.43.0


From d57b71104ee7dce5f571cbc8a6a8caf92b3100d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 05/57] fix: do not hide files in the write overlay mount whose
 removal failed

---
 ratarmount/WriteOverlay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 90d54e2..438ad8c 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -412,8 +412,8 @@ class WritableFolderMountSource(fuse.Operations):
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+
+        self._mark_as_deleted(path)
 
     # Files
 
@@ -459,8 +459,8 @@ class WritableFolderMountSource(fuse.Operations):
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+
+        self._mark_as_deleted(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 4d4bc1ec1732c968ee8a7c3c1a24a61e056d395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 06/57] fix: do not follow symbolic links out of the write
 overlay when setting times

---
 ratarmount/WriteOverlay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 438ad8c..8623b16 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -339,7 +339,7 @@ class WritableFolderMountSource(fuse.Operations):
         mtime = time.time() if times is None else times[1] / 1e9
         ns = (int(mtime * 1e9), int(mtime * 1e9)) if times is None else times
 
-        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
+        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
     def rename(self, old: str, new: str):
-- 
2.43.0


From 6b54756f9fe300f98d73d09481493a4c20992c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 07/57] fix: rename files, links, and folders correctly in the
 write overlay

---
 ratarmount/WriteOverlay.py | 78 ++++++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 8623b16..30be3cc 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -341,29 +341,83 @@ class WritableFolderMountSource(fuse.Operations):
 
         self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
+    def _list_visible(self, path: str) -> set[str]:
+        contents = self.mountSource.list_mode(path)
+        if contents is None:
+            return set()
+        keys = contents.keys() if isinstance(contents, Mapping) else contents
+        return set(keys) - set(self.list_deleted(path))
+
+    def _is_folder_contained(self, path: str) -> bool:
+        """Returns true if everything that is visible in the given folder is stored in the overlay folder."""
+        realPath = self._realpath(path)
+        if not os.path.lexists(realPath):
+            return False
+        if os.path.islink(realPath) or not os.path.isdir(realPath):
+            return True
+        return all(self._is_folder_contained(path + '/' + name) for name in self._list_visible(path))
+
+    def _move_folder_metadata(self, old: str, new: str):
+        """Adjusts the metadata of everything inside a folder in the overlay that has been moved."""
+        # Moved files must not be hidden because of archive members that have been deleted.
+        for folder, folderNames, fileNames in os.walk(self._realpath(new)):
+            relativePath = os.path.relpath(folder, self._realpath(new))
+            parent = new if relativePath == '.' else new + '/' + relativePath
+            for name in folderNames + fileNames:
+                self._forget_metadata(parent + '/' + name)
+
+        # Do not use LIKE because the path may contain wildcards. Entries for deleted archive members have to stay.
+        rows = self.sqlConnection.execute(
+            'SELECT path,name FROM "files" WHERE deleted == 0 AND (path == (?) OR substr(path,1,(?)) == (?))',
+            (old, len(old) + 1, old + '/'),
+        ).fetchall()
+        for path, name in rows:
+            self.sqlConnection.execute(
+                'UPDATE "files" SET path = (?) WHERE path == (?) AND name == (?)', (new + path[len(old) :], path, name)
+            )
+
     @overrides(fuse.Operations)
+    @check_ignored_prefixes('old')
     def rename(self, old: str, new: str):
-        if not self.mountSource.exists(old) or self.is_deleted(old):
-            raise fuse.FuseOSError(errno.ENOENT)
+        if any(new.startswith(prefix) for prefix in self.ignoredPrefixes):
+            raise FileNotFoundError(f"Accessing forbidden folder: {new}")
 
-        folder, name = self._split_path(new)
+        fileInfo = self.mountSource.lookup(old)
+        if fileInfo is None or self.is_deleted(old):
+            raise fuse.FuseOSError(errno.ENOENT)
+        if old == new:
+            return
 
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
+        isFolder = stat.S_ISDIR(fileInfo.mode)
+        if isFolder and not self._is_folder_contained(old):
+            # Archive folders cannot be moved. EXDEV is the signal for callers to copy and delete instead.
+            raise fuse.FuseOSError(errno.EXDEV)
+        if isFolder and not self.is_deleted(new) and self._list_visible(new):
+            raise fuse.FuseOSError(errno.ENOTEMPTY)
 
+        self._preserve_file_metadata(old)
         self._ensure_parent_exists(new)
         if os.path.lexists(self._realpath(old)):
             os.rename(self._realpath(old), self._realpath(new))
         else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
+            # Write to a new file instead of into an existing target, which may even be a symbolic link.
+            if os.path.lexists(self._realpath(new)):
+                os.unlink(self._realpath(new))
+            if stat.S_ISLNK(fileInfo.mode):
+                os.symlink(fileInfo.linkname, self._realpath(new))
+            else:
+                with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
+                    shutil.copyfileobj(sourceObject, targetObject)
 
-            with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                shutil.copyfileobj(sourceObject, targetObject)
+        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
+        self._forget_metadata(new)
+        folder, name = self._split_path(new)
+        self._set_metadata(old, {'path': folder, 'name': name})
+        if isFolder:
+            self._move_folder_metadata(old, new)
 
-            self._mark_as_deleted(old)
+        # The archive may contain a file at the old path even if it was replaced with one in the overlay folder.
+        self._mark_as_deleted(old)
 
     # Links
 
-- 
2.43.0


From 69efe0ec0dcd7fe5262caa249d7a69a059407b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 08/57] fix: apply write overlay metadata to files inside
 recursively mounted archives

---
 ratarmount/FuseMount.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..27f006f 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -666,12 +666,10 @@ class FuseMount(fuse.Operations):
 
         # Request exact metadata from write overlay, e.g., if the actual file in the folder
         # does not support permission changes
-        result = self.mountSource.get_mount_source(fileInfo)
-        subMountPoint = result[0]
         # TODO Note that if the path contains special .version versioning, then it will most likely fail
         #      to find the path in the write overlay, which is problematic for things like foo.versions/0.
         #      Would be really helpful if the file info would contain the actual path and name, too :/
-        return self.writeOverlay.update_file_info(path[len(subMountPoint) :], fileInfo)
+        return self.writeOverlay.update_file_info(path, fileInfo)
 
     @staticmethod
     def _redirect_output(name: str, file: IO[str]):
-- 
2.43.0


From cab3ce47061122ed209932038a9b78fce21b21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 09/57] fix: return the file system statistics of the write
 overlay folder

---
 ratarmount/FuseMount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 27f006f..31b1ada 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -900,7 +900,8 @@ class FuseMount(fuse.Operations):
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
 
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
-- 
2.43.0


From 0e6926d326b202f61b7d59911bc38bc8668c7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 10/57] fix: forget released file handles

---
 ratarmount/FuseMount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 31b1ada..e090256 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -799,6 +799,7 @@ class FuseMount(fuse.Operations):
         else:
             openedFile.close()
             del openedFile
+        del self.openedFiles[fh]
 
         return fh
 
-- 
2.43.0


From d3c7f3900e6e962080e457f334a5480ce17260c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 11/57] fix: let listings of union mounts show the same file
 that lookups return

---
 core/ratarmountcore/mountsource/compositing/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..596eb9e 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -152,7 +152,8 @@ class UnionMountSource(MountSource):
     def _list(self, path: str, onlyMode: bool):
         files: Optional[Union[set[str], dict[str, FileInfo], dict[str, int]]] = None
 
-        for mountSource in reversed(self.mountSources):
+        # Iterate in ascending precedence so that entries of later mount sources replace those of earlier ones.
+        for mountSource in self.mountSources:
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
 
             if files is None:
-- 
2.43.0


From 2acf24bd7dc2f3c68868a0a6631a9dd2637df6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 12/57] fix: respect precedence of files over folders in cached
 union mounts

---
 core/ratarmountcore/mountsource/compositing/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 596eb9e..72de07b 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -106,11 +106,9 @@ class UnionMountSource(MountSource):
         if not path.strip('/'):
             return self.rootFileInfo.clone()
 
-        if path in self.folderCache:
-            # This case might be triggered when path is a folder
-            cachedMountSources = self.folderCache[path]
-        elif self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
-            # This should be the most common case, i.e., for regular files. Look up the parent folder in this case.
+        if self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
+            # Look up the parent folder. Even if the path itself is a cached folder, there may be a mount source with
+            # a higher precedence containing a file with the same path.
             parentFolder = '/'.join(path.split('/', self.folderCacheDepth + 1)[:-1])
             if not parentFolder:
                 parentFolder = '/'
-- 
2.43.0


From 474410d9c185c5ba605bdbf96000a2381081272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 13/57] fix: return the paths and link targets of the entries
 when listing folders

---
 core/ratarmountcore/mountsource/formats/folder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..78e5e88 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -82,13 +82,14 @@ class FolderMountSource(MountSource):
         # fmt: on
 
     @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
+    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str):
         try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
+            linkname = os.readlink(dirEntry.path) if dirEntry.is_symlink() else ""
         except OSError:
             linkname = ""
 
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+        filePath = os.path.join(path.strip('/'), os.fsdecode(dirEntry.name))
+        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), filePath, linkname)
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -134,7 +135,7 @@ class FolderMountSource(MountSource):
             return None
 
         return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
+            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path)
             for dirEntry in os.scandir(realpath)
         }
 
-- 
2.43.0


From 27c298a08088bbb836eebd26afb21001ed97efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 14/57] fix: do not let archive members reappear after moving
 the folder they were replaced in

---
 ratarmount/WriteOverlay.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 30be3cc..3d2e9af 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -359,12 +359,15 @@ class WritableFolderMountSource(fuse.Operations):
 
     def _move_folder_metadata(self, old: str, new: str):
         """Adjusts the metadata of everything inside a folder in the overlay that has been moved."""
+        movedPaths = [
+            os.path.relpath(os.path.join(folder, name), self._realpath(new))
+            for folder, folderNames, fileNames in os.walk(self._realpath(new))
+            for name in folderNames + fileNames
+        ]
+
         # Moved files must not be hidden because of archive members that have been deleted.
-        for folder, folderNames, fileNames in os.walk(self._realpath(new)):
-            relativePath = os.path.relpath(folder, self._realpath(new))
-            parent = new if relativePath == '.' else new + '/' + relativePath
-            for name in folderNames + fileNames:
-                self._forget_metadata(parent + '/' + name)
+        for path in movedPaths:
+            self._forget_metadata(new + '/' + path)
 
         # Do not use LIKE because the path may contain wildcards. Entries for deleted archive members have to stay.
         rows = self.sqlConnection.execute(
@@ -376,6 +379,10 @@ class WritableFolderMountSource(fuse.Operations):
                 'UPDATE "files" SET path = (?) WHERE path == (?) AND name == (?)', (new + path[len(old) :], path, name)
             )
 
+        # Hide archive members which had been replaced by the moved files.
+        for path in movedPaths:
+            self._mark_as_deleted(old + '/' + path)
+
     @overrides(fuse.Operations)
     @check_ignored_prefixes('old')
     def rename(self, old: str, new: str):
-- 
2.43.0


From a3554724099bce3075dc0e4ae6b0514924bee2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 15/57] fix: show block devices inside TARs as such

---
 core/ratarmountcore/SQLiteIndex.py             | 2 +-
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..3340d18 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -712,7 +712,7 @@ class SQLiteIndex:
                        '',0,0,0,0,0,0
                 FROM "parentfolders"
                 WHERE {searchByTuple if _get_libsqlite_version() >= (3, 22, 0) else searchByConcat}
-                    FROM "files" WHERE mode & (1 << 14) != 0
+                    FROM "files" WHERE (mode & 0xF000) == 0x4000
                 )
                 ORDER BY "path","name";
             DROP TABLE "parentfolders";
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..fff010b 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -145,6 +145,7 @@ class _TarFileMetadataReader:
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
+            | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
             | ( stat.S_IFIFO if tarInfo.isfifo() else 0 )
         )
         # fmt: on
-- 
2.43.0


From d3665bc8cbbc5571639ce37ea3581efaa014d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 16/57] fix: show the previous version for hard links referring
 to themselves

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..4d2d083 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -133,7 +133,8 @@ class FileVersionLayer(MountSource):
                 # If file is referencing itself, try to access earlier version of it.
                 # The check for fileVersion against the total number of available file versions is omitted because
                 # that check is done implicitly inside the mount sources lookup method!
-                fileVersion = fileVersion + 1 if fileVersion >= 0 else fileVersion - 1
+                # Negative versions count backwards from the most recent one, i.e., this goes one version back.
+                fileVersion -= 1
 
             path = resolvedPath
             fileInfo = mountSource.lookup(path, fileVersion)
-- 
2.43.0


From 2f8c35c41885e2ea23ca9dfa169fa2ef4a84c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 17/57] fix: resolve hard link targets spelled with leading ./
 in union mounts

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 4d2d083..76541bc 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -115,7 +115,8 @@ class FileVersionLayer(MountSource):
             # get that using the full path instead of calling lookup on the deepest mount source.
             mountPoint, _, _ = mountSource.get_mount_source(fileInfo)
 
-            resolvedPath = os.path.join(mountPoint, resolvedPath.lstrip('/'))
+            # Not all mount sources normalize paths such as ./target, which is how tar stores members of ".".
+            resolvedPath = os.path.normpath(os.path.join('/', mountPoint, resolvedPath.lstrip('/')))
 
             if resolvedPath != path:  # noqa: SIM108
                 # The file version is only of importance to resolve self-references.
-- 
2.43.0


From 46cb87a9a15f1fd66efe8dc1a0646d7fb1935d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 18/57] fix: resolve hard links also for older versions of
 files

---
 .../mountsource/compositing/versioning.py              | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 76541bc..01e476f 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -98,15 +98,14 @@ class FileVersionLayer(MountSource):
         return bool(not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode) and fileInfo.linkname)
 
     @staticmethod
-    def _resolve_hard_links(mountSource: MountSource, path: str) -> Optional[FileInfo]:
+    def _resolve_hard_links(mountSource: MountSource, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         """path : Simple path. Should contain no special versioning folders!"""
 
-        fileInfo = mountSource.lookup(path)
+        fileInfo = mountSource.lookup(path, fileVersion)
         if not fileInfo:
             return None
 
         resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
-        fileVersion = 0
         hardLinkCount = 0
 
         while resolvedPath and hardLinkCount < 128:  # For comparison, the maximum symbolic link chain in Linux is 40.
@@ -135,6 +134,9 @@ class FileVersionLayer(MountSource):
                 # The check for fileVersion against the total number of available file versions is omitted because
                 # that check is done implicitly inside the mount sources lookup method!
                 # Negative versions count backwards from the most recent one, i.e., this goes one version back.
+                # Version 1 is the oldest one.
+                if fileVersion == 1:
+                    return None
                 fileVersion -= 1
 
             path = resolvedPath
@@ -225,7 +227,7 @@ class FileVersionLayer(MountSource):
             # fmt: on
 
         # 3.) At this point the request is for an actually older version of a file or folder
-        fileInfo = self.mountSource.lookup(path, fileVersion=fileVersion)
+        fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append(FileType.FILE)
         return fileInfo
-- 
2.43.0


From 18c5f9abed403620508fa66308da900f11c26dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 19/57] fix: do not show nonexisting file versions in recursive
 mounts

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..22bbd3b 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -293,6 +293,8 @@ class AutoMountLayer(MountSource):
         # fileVersion=0 is the most recent. Version 1..fileVersions number from the first occurrence / oldest
         # version to the most recent, i.e., fileVersion = 0 is equivalent to fileVersion = fileVersions.
         fileVersions = self.versions(path)
+        if fileVersions > 1 and not -fileVersions < fileVersion <= fileVersions:
+            return None
         fileVersion = normalize_file_version(fileVersion, fileVersions)
         if fileVersion == 0 and pathInMountPoint == '/':
             return mountInfo.rootFileInfo.clone()
-- 
2.43.0


From fa25b45ebdfca437217b92437fbe2a554f6429e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 20/57] fix: do not list folders behind symbolic links in union
 mounts with folders

---
 .../mountsource/formats/folder.py             | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 78e5e88..29ba4b5 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -95,9 +95,22 @@ class FolderMountSource(MountSource):
     def is_immutable(self) -> bool:
         return False
 
+    def _parents_are_folders(self, path: str) -> bool:
+        """
+        Return False if any parent is shown as a symbolic link. The operating system would follow those although
+        they do not have any contents, which becomes visible when another mount source has a folder with that path.
+        """
+        parent = os.path.dirname(path.strip('/'))
+        while parent:
+            if os.path.islink(self._realpath(parent)):
+                fileInfo = self.lookup(parent)
+                return fileInfo is not None and stat.S_ISDIR(fileInfo.mode)
+            parent = os.path.dirname(parent)
+        return True
+
     @overrides(MountSource)
     def exists(self, path: str) -> bool:
-        return os.path.lexists(self._realpath(path))
+        return os.path.lexists(self._realpath(path)) and self._parents_are_folders(path)
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
@@ -131,7 +144,7 @@ class FolderMountSource(MountSource):
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not os.path.isdir(realpath) or not self._parents_are_folders(os.path.join(path, '.')):
             return None
 
         return {
@@ -142,7 +155,7 @@ class FolderMountSource(MountSource):
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
         realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not os.path.isdir(realpath) or not self._parents_are_folders(os.path.join(path, '.')):
             return None
 
         # https://docs.python.org/3/library/os.html#os.scandir
-- 
2.43.0


From 85eaafcc8ec99f1466e3bac612b2dc8827c274fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:26 +0000
Subject: [PATCH 21/57] fix: AutoMountLayer: close archives before the archives
 they are inside of

---
 core/ratarmountcore/mountsource/compositing/automount.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 22bbd3b..9b751be 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -416,7 +416,9 @@ class AutoMountLayer(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountInfo in self.mounted.values():
+        # Archives have to be closed before the archives they are inside of because some backends abort the process
+        # when they cannot access the file object they have been opened with anymore.
+        for mountInfo in reversed(list(self.mounted.values())):
             mountInfo.mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-- 
2.43.0


From 33e156c7dc32bb28b5c84957f33a0ac1a048c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 22/57] fix: nested TARs: names and hard links inside of them
 are relative to them and cannot leave them

---
 core/ratarmountcore/mountsource/formats/tar.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fff010b..46d7679 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -231,11 +231,17 @@ class _TarFileMetadataReader:
         )
         xattrRows = [(offsetHeader, key, value) for key, value in xattrs.items()]
 
-        fullPath = pathPrefix + "/" + tarInfo.name
+        # Names inside of a nested TAR must not be able to leave its mount point with "..".
+        fullPath = pathPrefix + (SQLiteIndex.normpath(tarInfo.name) if pathPrefix else "/" + tarInfo.name)
         if tarInfo.isdir():
             fullPath += "/"
         path, name = SQLiteIndex.normpath(transform(fullPath)).rsplit("/", 1)
 
+        # Hard links inside of a nested TAR refer to members of that same TAR.
+        linkname = tarInfo.linkname
+        if pathPrefix and tarInfo.islnk():
+            linkname = pathPrefix + SQLiteIndex.normpath(linkname)
+
         # TODO: As for the tarfile type SQLite expects int but it is generally bytes.
         #       Most of them would be convertible to int like tarfile.SYMTYPE which is b'2',
         #       but others should throw errors, like GNUTYPE_SPARSE which is b'S'.
@@ -250,7 +256,7 @@ class _TarFileMetadataReader:
             tarInfo.mtime                                   ,  # 5  : modification time
             _TarFileMetadataReader._tar_info_full_mode(tarInfo),  # 6  : file mode / permissions
             tarInfo.type                                    ,  # 7  : TAR file type. Currently unused.
-            tarInfo.linkname                                ,  # 8  : linkname
+            linkname                                        ,  # 8  : linkname
             tarInfo.uid                                     ,  # 9  : user ID
             tarInfo.gid                                     ,  # 10 : group ID
             False                                           ,  # 11 : is TAR (unused?)
@@ -1395,6 +1401,9 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                     # recursive TARs and this is hard to ignore any other way.
                     storedFileInfo[0] = realFileInfo[0]  # path
                     storedFileInfo[11] = realFileInfo[11]  # isTar
+                    # The same holds true for the targets of hard links.
+                    if tarInfo.islnk() and str(storedFileInfo[8]).endswith(SQLiteIndex.normpath(tarInfo.linkname)):
+                        storedFileInfo[8] = realFileInfo[8]
 
                     commonSize = min(len(storedFileInfo), len(realFileInfo))
                     # Do not check newly added columns such as isgenerated and recursiondepth.
-- 
2.43.0


From 78b78f1aaf69f0c10298b7bc7eebbbb1950b397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 23/57] fix: ZIP: seeking in several opened uncompressed
 members at once

---
 .../ratarmountcore/mountsource/formats/zip.py | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 894316a..0ed1299 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import logging
+import os
 import stat
 import sys
 import zipfile
@@ -23,6 +24,27 @@ except (ImportError, Exception):
 logger = logging.getLogger(__name__)
 
 
+# Some versions of zipfile seek relative to the current position of the file object, which is shared by all opened
+# members, instead of relative to the position of the opened member. This happens when seeking forward in uncompressed
+# members and returns the wrong data as soon as more than one member is opened.
+def _patch_shared_file():
+    sharedFile = getattr(zipfile, '_SharedFile', None)
+    oldSeek = getattr(sharedFile, 'seek', None)
+    if not callable(oldSeek) or not callable(getattr(sharedFile, 'tell', None)):
+        return
+
+    def seek(self, offset, whence=os.SEEK_SET):
+        if whence == os.SEEK_CUR:
+            return oldSeek(self, self.tell() + offset, os.SEEK_SET)
+        return oldSeek(self, offset, whence)
+
+    sharedFile.seek = seek
+
+
+with contextlib.suppress(Exception):
+    _patch_shared_file()
+
+
 class ZipMountSource(SQLiteIndexMountSource):
     def __init__(self, fileOrPath: Union[str, IO[bytes], Path], **options) -> None:
         if 'zipfile' not in sys.modules:
-- 
2.43.0


From 1d091750ea25ef0203f00efb8326f9fcfd744034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 24/57] fix: nested TARs: files which are no TARs stay files

---
 core/ratarmountcore/mountsource/formats/tar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 46d7679..147dd7d 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -901,6 +901,10 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             # This would also save some indirections to speed up accesses.
             tarFileObject = StenciledFile([(self.tarFileObject, globalOffset, size)])
 
+            # Keep showing files, which only look like TARs because of their name, as files.
+            if not might_be_format(tarFileObject, FileFormatID.TAR):
+                continue
+
             isTar = False
             try:
                 # Do not use os.path.join here because the leading / might be missing.
-- 
2.43.0


From 7188d704eeb9e713d4bf2c3434f071c0b20a5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 25/57] fix: a negative recursion depth means infinite
 recursion as documented

---
 ratarmount/CLIHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/CLIHelpers.py b/ratarmount/CLIHelpers.py
index 5b99471..a1529fa 100644
--- a/ratarmount/CLIHelpers.py
+++ b/ratarmount/CLIHelpers.py
@@ -184,7 +184,7 @@ def process_trivial_parsed_arguments(args):
     args.gzipSeekPointSpacing = int(args.gzip_seek_point_spacing * 1024 * 1024)
 
     if (args.strip_recursive_tar_extension or args.transform_recursive_mount_point) and determine_recursion_depth(
-        recursive=args.recursive, recursion_depth=args.recursion_depth
+        recursive=args.recursive, recursionDepth=args.recursion_depth
     ) <= 0:
         logger.warning(
             "The options --strip-recursive-tar-extension and --transform-recursive-mount-point only have an "
-- 
2.43.0


From bbffdb581b5b17eea43e1b6b678eed8bb3126a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:11 +0000
Subject: [PATCH 26/57] fix: determine_recursion_depth: negative depth means
 infinite recursion

---
 core/ratarmountcore/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/utils.py b/core/ratarmountcore/utils.py
index ca00933..63f1beb 100644
--- a/core/ratarmountcore/utils.py
+++ b/core/ratarmountcore/utils.py
@@ -332,10 +332,11 @@ def determine_recursion_depth(recursive: bool = False, recursionDepth: Optional[
     """
     'recursionDepth' has higher precedence than 'recursive' if specified.
     Can be called directly i.e. f(a,b) or with kwargs f(**options) for which unknown keys will be ignored.
-    Returns a real recursion depth. -1 or any negative has no special meaning, but it should effectively
-    result in no recursion.
+    Returns a real, non-negative recursion depth. Specifying a negative 'recursionDepth' means infinite recursion.
     """
-    return (sys.maxsize if recursive else 0) if recursionDepth is None else recursionDepth
+    if recursionDepth is None:
+        return sys.maxsize if recursive else 0
+    return sys.maxsize if recursionDepth < 0 else recursionDepth
 
 
 def compute_entropy(data: bytes) -> float:
-- 
2.43.0


From 68cc82a679c9a2fa15fb03de3c6ad2aef1e52a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 27/57] fix: recursively mounted archives in archives used the
 index file of the outermost one

---
 core/ratarmountcore/mountsource/compositing/automount.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 9b751be..c7c4663 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -203,15 +203,15 @@ class AutoMountLayer(MountSource):
         try:
             options = self.options.copy()
             options['recursionDepth'] = max(0, self.maxRecursionDepth - recursionDepth)
+            # Remove indexFilePath argument from options because all recursive archives would try to open
+            # the index intended for the parent archive / folder.
+            if 'indexFilePath' in options and options['indexFilePath'] != ':memory:':
+                del options['indexFilePath']
 
             _, deepestMountSource, deepestFileInfo = parentMountSource.get_mount_source(archiveFileInfo)
             if joinedFile:
                 mountSource: MountSource = SingleFileMountSource(os.path.split(mountPoint)[1], joinedFile)
             elif (get_file_path := getattr(deepestMountSource, 'get_file_path', None)) and callable(get_file_path):
-                # Remove indexFilePath argument from options because all recursive archives would try to open
-                # the index intended for the parent archive / folder.
-                if 'indexFilePath' in options and options['indexFilePath'] != ':memory:':
-                    del options['indexFilePath']
                 # Open from file path on host file system in order to write out TAR index files.
                 # Care has to be taken if a folder is bind mounted onto itself because then it can happen that
                 # the file open triggers a recursive FUSE call, which then hangs up everything.
-- 
2.43.0


From 2c2e18d57934d99609f2420337112ef7f585dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 28/57] fix: archives other than TARs which grew were shown as
 their old index describes them

---
 core/ratarmountcore/SQLiteIndex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 3340d18..94cc7c7 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -538,10 +538,10 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
-- 
2.43.0


From f6e822c617ccb2c79e456815afc358a36ee8fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 29/57] fix: an explicit index file path is used for only one
 of several archives

All archives given on the command line loaded or overwrote the same index.
---
 ratarmount/FuseMount.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index e090256..d638c4a 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -182,6 +182,9 @@ class FuseMount(fuse.Operations):
             if os.path.realpath(path) != self.mountPoint:
                 # This also will create or load the block offsets for compressed formats.
                 mountSources.append((os.path.basename(path), open_mount_source(path, **options)))
+                # An index file belongs to exactly one archive. Others must not load or overwrite it.
+                if not os.path.isdir(path) and options.get('indexFilePath', None) != ':memory:':
+                    options.pop('indexFilePath', None)
                 continue
 
             if self.mountPointFd is not None:
-- 
2.43.0


From 4fa2ebd4a7ae0a0e865bae564fda03d2227c213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 30/57] fix: loading an index does not overwrite the stats of
 the archive it was created for

A changed archive was therefore not recognized anymore on the next mount.
---
 core/ratarmountcore/SQLiteIndex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 94cc7c7..827bccd 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -466,7 +466,10 @@ class SQLiteIndex:
             serializedTarStats = json.dumps(
                 {attr: getattr(tarStats, attr) for attr in dir(tarStats) if attr.startswith('st_')}
             )
-            self.store_metadata_key_value("tarstats", serializedTarStats)
+            # Do not overwrite the stats the archive had when the index was created.
+            self.get_connection().execute(
+                'INSERT OR IGNORE INTO "metadata" VALUES (?,?)', ("tarstats", serializedTarStats)
+            )
         except Exception as exception:
             logger.error("There was an error when adding file metadata.")
             logger.error("Automatic detection of changed TAR files during index loading might not work.")
-- 
2.43.0


From ad74a2608107681dbdf53cd0af4befb530bbda90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:03 +0000
Subject: [PATCH 31/57] fix: find the end of TARs with nested TARs, hard links,
 or sparse files when looking for appended members

Appended members were missing or taken from the wrong offset.
---
 core/ratarmountcore/mountsource/formats/tar.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 147dd7d..4b59eb4 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1148,8 +1148,17 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         # files right after the the last non-zero block, which might be at offset 512 for empty files.
         # > The user can specify a blocking factor, which is the number of blocks per record.
         # > The default is 20, producing 10 KiB records.
+        #
+        # The entry with the largest offset is not necessarily the one ending last because recursively indexed TARs
+        # are larger than what is stored in them. Only regular files, i.e., also no hard links, are followed by data.
+        # The sizes of sparse files are not what they take up in the archive.
         result = sqlConnection.execute(
-            "SELECT offset + size, issparse FROM files ORDER BY offset DESC LIMIT 1"
+            """
+            SELECT offset + CASE
+                WHEN (mode & 0xF000) == 0x8000 AND NOT issparse AND IFNULL(linkname, '') == '' THEN size ELSE 0
+            END AS pastEndOffset, issparse
+            FROM files ORDER BY pastEndOffset DESC LIMIT 1
+            """
         ).fetchone()
         if not result:
             raise InvalidIndexError("The index contains no files!")
-- 
2.43.0


From 114cdd73fad82cb01760fcf446d6a14a758a1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:28 +0000
Subject: [PATCH 32/57] fix: remove an outdated TAR index before recreating it

It was in the way of the new one, so the archive was opened with another backend or not at all.
---
 core/ratarmountcore/mountsource/formats/tar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 4b59eb4..8619f3d 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -725,8 +725,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 self.index.reload_index_read_only()
                 return
 
-            self.index.close()
             logger.warning("The loaded index does not match the archive. Will recreate it.")
+            outdatedIndexFilePath = self.index.indexFilePath
+            self.index.close()
+            if outdatedIndexFilePath and not self.index.readOnly and os.path.isfile(outdatedIndexFilePath):
+                os.remove(outdatedIndexFilePath)
 
         # At this point, self.index.index_is_loaded() should return false because either it was false already
         # or the preemptive return was triggered above or the index was closed at the end of the above branch!
-- 
2.43.0


From 134793b11d29bb9fa8995ed8d54d627310085b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:28 +0000
Subject: [PATCH 33/57] fix: incomplete indexes of interrupted mounts are
 recognized as such

The entry marking an index as complete is now stored last and removed first. Before, mounts killed
while creating or extending an index left one that was loaded successfully with members missing.
---
 core/ratarmountcore/SQLiteIndex.py            | 23 +++++++++++++--
 core/ratarmountcore/create-index-tables.sql   | 29 ++++++++++---------
 .../mountsource/SQLiteIndexMountSource.py     |  3 +-
 .../ratarmountcore/mountsource/formats/tar.py |  6 ++--
 4 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 827bccd..92cce47 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -487,16 +487,25 @@ class SQLiteIndex:
         connection.commit()
 
     def store_metadata(self, metadata: AnyStr, filePath: Optional[AnyStr] = None) -> None:
-        self._store_versions_metadata()
         if filePath is not None:
             self._store_file_metadata(filePath)
         elif self.archiveFilePath:
             self._store_file_metadata(self.archiveFilePath)
         self.store_metadata_key_value('arguments', metadata)
         self.store_metadata_key_value('backendName', self.backendName)
+        # Store this last because indexes without it are recognized as incomplete.
+        self._store_versions_metadata()
+        self.get_connection().commit()
+        self._enable_journal()
+
+    def _enable_journal(self) -> None:
+        # Incomplete indexes are simply recreated and therefore need no journal, but being killed while modifying
+        # a complete one, e.g., to add hashes, must not corrupt it.
+        self.get_connection().execute("PRAGMA JOURNAL_MODE = DELETE;")
 
     def drop_metadata(self):
-        self.get_connection().executescript("DELETE FROM metadata; DELETE FROM versions;")
+        # The versions have to be removed first, see store_metadata.
+        self.get_connection().executescript("DELETE FROM versions; DELETE FROM metadata;")
 
     def try_to_open_first_file(self, openByPath: Callable[[str], IO[bytes]]):
         # Get first row that has the regular file bit set in mode (stat.S_IFREG == 32768 == 1<<15).
@@ -604,7 +613,8 @@ class SQLiteIndex:
 
         try:
             connection = SQLiteIndex._open_sql_db(path)
-            connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
+            # Do not name it "files" or else being killed right here would leave something looking like an index.
+            connection.executescript('CREATE TABLE "probe" ( "path" VARCHAR(65535) NOT NULL );')
             connection.commit()
             connection.close()
             return True
@@ -1289,6 +1299,10 @@ class SQLiteIndex:
             if 'filestmp' in tables or 'parentfolders' in tables:
                 raise InvalidIndexError("SQLite index is incomplete")
 
+            # The version is stored last when creating an index. Very old indexes do not even have the table.
+            if versions is not None and 'index' not in versions:
+                raise InvalidIndexError("SQLite index is incomplete because its version is missing")
+
             # Check for pre-sparse support indexes
             if (
                 'versions' not in tables
@@ -1330,6 +1344,9 @@ class SQLiteIndex:
             except Exception:
                 pass
 
+        if self.index_is_loaded() and not self.readOnly:
+            self._enable_journal()
+
         if logger.isEnabledFor(logging.WARNING):
             message = "Successfully loaded offset dictionary from " + str(indexFilePath)
             if temporaryIndexFilePath != indexFilePath:
diff --git a/core/ratarmountcore/create-index-tables.sql b/core/ratarmountcore/create-index-tables.sql
index e7e3091..a75c2b2 100644
--- a/core/ratarmountcore/create-index-tables.sql
+++ b/core/ratarmountcore/create-index-tables.sql
@@ -1,5 +1,20 @@
 /* This whole file should be idempotent, i.e., executing it twice in a row should work (use IF NOT EXISTS). */
 
+/* Created first and filled last: an index with this table but without an "index" version is incomplete.
+ * Similar to metadata but explicitly for versions. Common keys: ratarmount, index */
+CREATE TABLE IF NOT EXISTS "versions" (
+    "name"     VARCHAR(65535) NOT NULL, /* which component the version belongs to */
+    "version"  VARCHAR(65535) NOT NULL, /* free form version string */
+    /* Semantic Versioning 2.0.0 (semver.org) parts if they can be specified:
+     *   MAJOR version when you make incompatible API changes,
+     *   MINOR version when you add functionality in a backwards compatible manner, and
+     *   PATCH version when you make backwards compatible bug fixes. */
+    "major"    INTEGER,
+    "minor"    INTEGER,
+    "patch"    INTEGER,
+    PRIMARY KEY ("name")
+);
+
 CREATE TABLE IF NOT EXISTS "files" (
     "path"           VARCHAR(65535) NOT NULL,  /* path with leading and without trailing slash */
     "name"           VARCHAR(65535) NOT NULL,
@@ -83,17 +98,3 @@ CREATE TABLE IF NOT EXISTS "metadata" (
     "value"    VARCHAR(65535) NOT NULL, /* e.g. size in bytes as integer */
     PRIMARY KEY ("key")
 );
-
-/* Similar to metadata but explicitly for versions. Common keys: ratarmount, index */
-CREATE TABLE IF NOT EXISTS "versions" (
-    "name"     VARCHAR(65535) NOT NULL, /* which component the version belongs to */
-    "version"  VARCHAR(65535) NOT NULL, /* free form version string */
-    /* Semantic Versioning 2.0.0 (semver.org) parts if they can be specified:
-     *   MAJOR version when you make incompatible API changes,
-     *   MINOR version when you add functionality in a backwards compatible manner, and
-     *   PATCH version when you make backwards compatible bug fixes. */
-    "major"    INTEGER,
-    "minor"    INTEGER,
-    "patch"    INTEGER,
-    PRIMARY KEY ("name")
-);
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..804926c 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -230,11 +230,12 @@ class SQLiteIndexMountSource(MountSource):
             # Finalize the 'files' table from 'filestmp' and 'parentfolders' so that
             # the by magnitudes costlier checksumming can be interrupted and resumed.
             index.finalize()
+            # Indexes without metadata are treated as incomplete and would be recreated instead of resumed.
+            callable_store_metadata()
             self._compute_and_store_hashes()
 
         self.index.finalize_index(
             create_index=create_index_and_post_process,
-            store_metadata=callable_store_metadata,
             isFileObject=isFileObject,
             writeIndex=self.writeIndex,
         )
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 8619f3d..9b52138 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -716,11 +716,12 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 appendedPartAsFile = StenciledFile(
                     fileStencils=[(self.tarFileObject, pastEndOffset, archiveSize - pastEndOffset)]
                 )
+                # Without metadata, the index counts as incomplete until it has been updated.
+                self.index.drop_metadata()
                 self.index.create_index_timed(
                     create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
                 )
 
-                self.index.drop_metadata()
                 self._store_metadata()
                 self.index.reload_index_read_only()
                 return
@@ -806,9 +807,10 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
     def _store_metadata(self) -> None:
         argumentsToSave = [*list(self.INDEX_ARGUMENTS_TO_CHECK), 'gzipSeekPointSpacing']
         argumentsMetadata = json.dumps({argument: getattr(self, argument) for argument in argumentsToSave})
+        self.index.store_metadata_key_value('isGnuIncremental', '1' if self._isGnuIncremental else '0')
         # The second argument must be a path to a file to call os.stat with, not simply a file name.
+        # This stores the entry marking the index as complete and therefore has to be called last.
         self.index.store_metadata(argumentsMetadata, "" if self.isFileObject else self.tarFileName)
-        self.index.store_metadata_key_value('isGnuIncremental', '1' if self._isGnuIncremental else '0')
 
     def _update_progress_bar(self, progressBar, fileobj: Any) -> None:
         if not progressBar:
-- 
2.43.0


From 4ba184ead4aafc54a11530f5ba0e0824079b4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 34/57] fix: do not wait for other mounts of the same archive
 to release the index

Loading an index does not require writing the unchanged metadata to it again. As other mounts hold a
lock on it, each mount of anything but a TAR did wait for two lock timeouts, i.e., 10 s.
---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 804926c..98f94d4 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -220,8 +220,10 @@ class SQLiteIndexMountSource(MountSource):
             # index_is_loaded checks for completed 'files' (stats etc.) table.
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
-            self._compute_and_store_hashes()
-            callable_store_metadata()
+            # Do not write to the index needlessly because it might be in use by another mount.
+            if self.hashes:
+                self._compute_and_store_hashes()
+                callable_store_metadata()
             self.index.reload_index_read_only()
             return
 
-- 
2.43.0


From 918cb34e2a3e11cacf083e877a5719d97f9ac1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 35/57] fix: do not remove indexes that are locked because
 another mount is creating them

---
 core/ratarmountcore/SQLiteIndex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 92cce47..268b662 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1392,7 +1392,8 @@ class SQLiteIndex:
             logger.warning("e.g., by opening an issue on the public github page.")
 
             try:
-                if not self.readOnly and '://' not in indexFilePath:
+                isInUse = isinstance(exception, sqlite3.OperationalError) and 'locked' in str(exception)
+                if not self.readOnly and '://' not in indexFilePath and not isInUse:
                     os.remove(indexFilePath)
             except OSError:
                 logger.warning(
-- 
2.43.0


From c0b862b64f9d3c2feb2f0afb83d6c472bb7fc751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 36/57] fix: do not show the incomplete index of another mount
 that replaced the own index file

---
 core/ratarmountcore/SQLiteIndex.py | 32 +++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 268b662..9e2ab4e 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -261,6 +261,8 @@ class SQLiteIndex:
         # This is true if the index file found was compressed or an URL and had to be downloaded
         # and/or extracted into a temporary folder.
         self.indexFilePathDeleteOnClose = False
+        # Identifies the file that was opened, which might get replaced by other mounts of the same archive.
+        self._indexFileStats: Optional[os.stat_result] = None
         self.readOnly = readOnlyIndex
         self.encoding = encoding
         # stores which parent folders were last tried to add to database and therefore do exist
@@ -376,12 +378,12 @@ class SQLiteIndex:
         if self.possibleIndexFilePaths and not self.preferMemory:
             for indexPath in self.possibleIndexFilePaths:
                 if SQLiteIndex._path_can_be_used_for_sqlite(indexPath):
-                    self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(indexPath)
+                    self.indexFilePath, self.sqlConnection = self._create_sql_db(indexPath)
                     break
         else:
             if self.preferMemory:
                 logger.debug("Create new index in memory because memory is to be preferred, e.g., for small archives.")
-            self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
+            self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
 
         if not self.index_is_loaded():
             raise InvalidIndexError(
@@ -652,14 +654,14 @@ class SQLiteIndex:
             sqlConnection.setconfig(sqlite3.SQLITE_DBCONFIG_DQS_DML, enable_double_quotes)
         return sqlConnection
 
-    @staticmethod
-    def _create_sql_db(indexFilePath: Optional[str]) -> tuple[str, sqlite3.Connection]:
+    def _create_sql_db(self, indexFilePath: Optional[str]) -> tuple[str, sqlite3.Connection]:
         indexFilePath = indexFilePath or ':memory:'
 
         if logger.isEnabledFor(logging.WARNING):
             print("Creating new SQLite index database at", indexFilePath)
 
         sqlConnection = SQLiteIndex._open_sql_db(indexFilePath)
+        self._remember_index_file(indexFilePath)
         tables = get_sqlite_tables(sqlConnection)
         conflicting_tables = sorted({"files", "filestmp", "parentfolders", "xattrs"}.intersection(tables))
         if conflicting_tables:
@@ -672,11 +674,30 @@ class SQLiteIndex:
 
         return indexFilePath, sqlConnection
 
+    def _remember_index_file(self, path: str) -> None:
+        self._indexFileStats = os.stat(path) if os.path.isfile(path) else None
+
+    def _index_file_is_unchanged(self) -> bool:
+        return (
+            self._indexFileStats is not None
+            and self.indexFilePath is not None
+            and os.path.isfile(self.indexFilePath)
+            and os.path.samestat(self._indexFileStats, os.stat(self.indexFilePath))
+        )
+
     def reload_index_read_only(self):
         if not self.indexFilePath or self.indexFilePath == ':memory:' or not self.sqlConnection:
             return
 
         self.sqlConnection.commit()
+        if not self._index_file_is_unchanged():
+            logger.warning("The index %s was replaced by something else. Will not write it out.", self.indexFilePath)
+            connection = SQLiteIndex._open_sql_db(':memory:', check_same_thread=False)
+            self.sqlConnection.backup(connection)
+            self.sqlConnection.close()
+            self.indexFilePath, self.sqlConnection = ':memory:', connection
+            self.readOnly = True
+            return
         self.sqlConnection.close()
 
         uriPath = urllib.parse.quote(self.indexFilePath)
@@ -778,7 +799,7 @@ class SQLiteIndex:
         if writeIndex and (self._requestedIndexFilePath or not isFileObject):
             self.open_writable()
         else:
-            self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
+            self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
 
         self.create_index_timed(create_index)
 
@@ -1272,6 +1293,7 @@ class SQLiteIndex:
             self.sqlConnection = SQLiteIndex._open_sql_db(f"file:{uriPath}?mode=ro", uri=True, check_same_thread=False)
         else:
             self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath)
+        self._remember_index_file(temporaryIndexFilePath)
         tables = get_sqlite_tables(self.sqlConnection)
         versions = None
         try:
-- 
2.43.0


From d4ff3c71657004872830a2a14e8dcd54ad32ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 37/57] fix: mount without writing out an index while another
 mount is still creating it

---
 core/ratarmountcore/SQLiteIndex.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 9e2ab4e..d811aa4 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -263,6 +263,7 @@ class SQLiteIndex:
         self.indexFilePathDeleteOnClose = False
         # Identifies the file that was opened, which might get replaced by other mounts of the same archive.
         self._indexFileStats: Optional[os.stat_result] = None
+        self._indexFilePathsInUse: set[str] = set()
         self.readOnly = readOnlyIndex
         self.encoding = encoding
         # stores which parent folders were last tried to add to database and therefore do exist
@@ -377,9 +378,12 @@ class SQLiteIndex:
 
         if self.possibleIndexFilePaths and not self.preferMemory:
             for indexPath in self.possibleIndexFilePaths:
-                if SQLiteIndex._path_can_be_used_for_sqlite(indexPath):
+                if indexPath not in self._indexFilePathsInUse and SQLiteIndex._path_can_be_used_for_sqlite(indexPath):
                     self.indexFilePath, self.sqlConnection = self._create_sql_db(indexPath)
                     break
+            else:
+                if self._indexFilePathsInUse:
+                    self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
         else:
             if self.preferMemory:
                 logger.debug("Create new index in memory because memory is to be preferred, e.g., for small archives.")
@@ -1414,8 +1418,9 @@ class SQLiteIndex:
             logger.warning("e.g., by opening an issue on the public github page.")
 
             try:
-                isInUse = isinstance(exception, sqlite3.OperationalError) and 'locked' in str(exception)
-                if not self.readOnly and '://' not in indexFilePath and not isInUse:
+                if isinstance(exception, sqlite3.OperationalError) and 'locked' in str(exception):
+                    self._indexFilePathsInUse.add(indexFilePath)
+                elif not self.readOnly and '://' not in indexFilePath:
                     os.remove(indexFilePath)
             except OSError:
                 logger.warning(
-- 
2.43.0


From c308cd06739bbb8c45399bab56e59d66b1562cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 38/57] fix: mount without writing out the index if that fails,
 e.g., because the disk is full

Before, the archive was opened with another backend that recognizes it, e.g., libarchive for TARs,
which does not show the same metadata, or it could not be mounted.
---
 core/ratarmountcore/SQLiteIndex.py            | 51 +++++++++++++++----
 .../ratarmountcore/mountsource/formats/tar.py | 39 ++++++++------
 2 files changed, 66 insertions(+), 24 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index d811aa4..b958f7a 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -377,12 +377,17 @@ class SQLiteIndex:
             return
 
         if self.possibleIndexFilePaths and not self.preferMemory:
+            failed = bool(self._indexFilePathsInUse)
             for indexPath in self.possibleIndexFilePaths:
                 if indexPath not in self._indexFilePathsInUse and SQLiteIndex._path_can_be_used_for_sqlite(indexPath):
-                    self.indexFilePath, self.sqlConnection = self._create_sql_db(indexPath)
-                    break
+                    try:
+                        self.indexFilePath, self.sqlConnection = self._create_sql_db(indexPath)
+                        break
+                    except sqlite3.Error as exception:
+                        logger.warning("Failed to create an index at: %s because of: %s", indexPath, exception)
+                        failed = True
             else:
-                if self._indexFilePathsInUse:
+                if failed:
                     self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
         else:
             if self.preferMemory:
@@ -413,8 +418,8 @@ class SQLiteIndex:
             try:
                 self.sqlConnection.commit()
                 self.sqlConnection.close()
-            except sqlite3.ProgrammingError:
-                # Ignore "Cannot operate on a closed database."
+            except sqlite3.Error:
+                # Ignore "Cannot operate on a closed database." and that nothing can be written, e.g., to a full disk.
                 pass
             self.sqlConnection = None
 
@@ -805,12 +810,40 @@ class SQLiteIndex:
         else:
             self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
 
-        self.create_index_timed(create_index)
-
-        if self.index_is_loaded():
+        def create():
+            self.create_index_timed(create_index)
             if callable(store_metadata):
                 store_metadata()
-            self.reload_index_read_only()
+            self.get_connection().commit()
+
+        try:
+            create()
+        except (sqlite3.Error, RatarmountError) as exception:
+            if self.indexFilePath == ':memory:':
+                raise
+
+            # E.g., because the disk is full.
+            logger.warning(
+                "Failed to write index to: %s because of: %s. Will try again without writing it out.",
+                self.indexFilePath,
+                exception,
+                exc_info=logger.isEnabledFor(logging.DEBUG),
+            )
+            self._close_incomplete_index()
+            self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
+            create()
+
+        self.reload_index_read_only()
+
+    def _close_incomplete_index(self) -> None:
+        with contextlib.suppress(sqlite3.Error):
+            self.get_connection().close()
+        self.sqlConnection = None
+        if self._index_file_is_unchanged() and self.indexFilePath:
+            with contextlib.suppress(OSError):
+                os.remove(self.indexFilePath)
+        self.parentFolderCache = []
+        self._insertedRowCount = 0
 
     def file_count(self) -> int:
         return self.get_connection().execute('SELECT COUNT(*) FROM "files";').fetchone()[0]
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 9b52138..4800e86 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -716,15 +716,19 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 appendedPartAsFile = StenciledFile(
                     fileStencils=[(self.tarFileObject, pastEndOffset, archiveSize - pastEndOffset)]
                 )
-                # Without metadata, the index counts as incomplete until it has been updated.
-                self.index.drop_metadata()
-                self.index.create_index_timed(
-                    create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
-                )
+                try:
+                    # Without metadata, the index counts as incomplete until it has been updated.
+                    self.index.drop_metadata()
+                    self.index.create_index_timed(
+                        create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
+                    )
 
-                self._store_metadata()
-                self.index.reload_index_read_only()
-                return
+                    self._store_metadata()
+                    self.index.reload_index_read_only()
+                    return
+                except sqlite3.Error as exception:
+                    # E.g., because the disk is full or because another mount uses the index.
+                    logger.warning("Failed to update the index because of: %s", exception)
 
             logger.warning("The loaded index does not match the archive. Will recreate it.")
             outdatedIndexFilePath = self.index.indexFilePath
@@ -845,14 +849,19 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             logger.warning("An exception occurred when trying to update the progress bar: %s", exception, exc_info=logger.isEnabledFor(logging.DEBUG))
 
     def _create_index(self, fileObject: IO[bytes], streamOffset: int = 0) -> None:
+        fileObject.seek(0)
+        tarFileName = self.tarFileName
         with ProgressBar(self._archiveFileSize) as progressBar:
-            self._create_index_recursively(
-                fileObject,
-                progressBar=progressBar,
-                pathPrefix="",
-                streamOffset=streamOffset,
-                recursionDepth=self._recursionDepth + 1,
-            )
+            try:
+                self._create_index_recursively(
+                    fileObject,
+                    progressBar=progressBar,
+                    pathPrefix="",
+                    streamOffset=streamOffset,
+                    recursionDepth=self._recursionDepth + 1,
+                )
+            finally:
+                self.tarFileName = tarFileName
             # Call one last time to ensure that it is updated with the most recent value.
             self._update_progress_bar(progressBar, fileObject)
 
-- 
2.43.0


From 35ffd88fed16a5296162e472d9f321a3ab59027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 39/57] fix: mount truncated TARs larger than 64 MiB more than
 once

---
 core/ratarmountcore/mountsource/formats/tar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 4800e86..62566b9 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -707,9 +707,9 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 self.index.clear_compression_offsets()
 
             pastEndOffset = self._get_past_end_offset(self.index.get_connection())
-            if not self.compression and pastEndOffset and self._check_index_validity():
-                archiveSize = self.tarFileObject.seek(0, io.SEEK_END)
-
+            archiveSize = 0 if self.compression else self.tarFileObject.seek(0, io.SEEK_END)
+            # The last member may be cut off, in which case it ends after the end of the archive.
+            if pastEndOffset and pastEndOffset <= archiveSize and self._check_index_validity():
                 newShare = (archiveSize - pastEndOffset) / archiveSize
                 print(f"Detected TAR being appended to. Will only analyze the newly added {newShare:.2f} % of data.")
 
-- 
2.43.0


From 30902804501629027149549cafbd5f875acec843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 40/57] fix: mount compressed TARs when none of the given index
 locations is writable

---
 core/ratarmountcore/SQLiteIndex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index b958f7a..04dfe37 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -725,7 +725,8 @@ class SQLiteIndex:
         self.open_writable()
         if oldIndexFilePath == self.indexFilePath:
             logger.info("Tried to write the database to disk but found no other path than: %s", self.indexFilePath)
-            self.sqlConnection.close()
+            if self.sqlConnection is not oldSqlConnection:
+                self.sqlConnection.close()
             self.indexFilePath, self.sqlConnection = oldIndexFilePath, oldSqlConnection
             return
 
-- 
2.43.0


From 2738eb410cbfc2ae37093ef3e18fb8d2ebad59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 41/57] fix: do not try to write out an index again after that
 failed

---
 core/ratarmountcore/SQLiteIndex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 04dfe37..e5e0db1 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -843,6 +843,7 @@ class SQLiteIndex:
         if self._index_file_is_unchanged() and self.indexFilePath:
             with contextlib.suppress(OSError):
                 os.remove(self.indexFilePath)
+        self.possibleIndexFilePaths = []
         self.parentFolderCache = []
         self._insertedRowCount = 0
 
-- 
2.43.0


From 8ff93eb462edade6c80351e2484cac51e33cc48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 42/57] fix: create the index in memory when none of the given
 locations is writable

Before, TARs were opened with libarchive instead, which shows different metadata.
---
 core/ratarmountcore/SQLiteIndex.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index e5e0db1..227a0bb 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -377,7 +377,6 @@ class SQLiteIndex:
             return
 
         if self.possibleIndexFilePaths and not self.preferMemory:
-            failed = bool(self._indexFilePathsInUse)
             for indexPath in self.possibleIndexFilePaths:
                 if indexPath not in self._indexFilePathsInUse and SQLiteIndex._path_can_be_used_for_sqlite(indexPath):
                     try:
@@ -385,10 +384,9 @@ class SQLiteIndex:
                         break
                     except sqlite3.Error as exception:
                         logger.warning("Failed to create an index at: %s because of: %s", indexPath, exception)
-                        failed = True
             else:
-                if failed:
-                    self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
+                logger.warning("Could not find any writable location for an index in %s", self.possibleIndexFilePaths)
+                self.indexFilePath, self.sqlConnection = self._create_sql_db(':memory:')
         else:
             if self.preferMemory:
                 logger.debug("Create new index in memory because memory is to be preferred, e.g., for small archives.")
-- 
2.43.0


From b236179f7b71af19a968dc3db6785d512199dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 43/57] fix: write all parent folders when recreating an index
 because updating it failed

---
 core/ratarmountcore/SQLiteIndex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 227a0bb..dc32d65 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -421,6 +421,10 @@ class SQLiteIndex:
                 pass
             self.sqlConnection = None
 
+        # These are about what has been written to the closed index.
+        self.parentFolderCache = []
+        self._insertedRowCount = 0
+
         self._set_index_file_path(None)
 
     def get_connection(self) -> sqlite3.Connection:
-- 
2.43.0


From 3b00f6025e6023ab40a78993ea8e56ea759e7a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 44/57] fix: keep the position of file objects when seeking
 before their start fails

---
 core/ratarmountcore/BlockParallelReaders.py | 11 +++++----
 core/ratarmountcore/StenciledFile.py        | 26 +++++++++++----------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..795e5df 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -133,16 +133,19 @@ class BlockParallelReader(io.BufferedIOBase):
 
     @overrides(io.BufferedIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        # Only change the position when it is valid. Else, the object would be unusable after a failed seek.
+        newOffset = self._offset
         if whence == io.SEEK_CUR:
-            self._offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self._offset = self.blockBoundaries[-1] + offset
+            newOffset = self.blockBoundaries[-1] + offset
         elif whence == io.SEEK_SET:
-            self._offset = offset
+            newOffset = offset
 
-        if self._offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
 
+        self._offset = newOffset
         return self._offset
 
     @overrides(io.BufferedIOBase)
diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..ed9e66d 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -157,18 +157,19 @@ class RawStenciledFile(FixedRawIOBase):
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        # Only change the position when it is valid. Else, the object would be unusable after a failed seek.
+        newOffset = self.offset
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
+            newOffset = self.cumsizes[-1] + offset
         elif whence == io.SEEK_SET:
-            self.offset = offset
+            newOffset = offset
 
-        if self.offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.cumsizes[-1]:
-            return self.offset
 
+        self.offset = newOffset
         return self.offset
 
     @overrides(io.RawIOBase)
@@ -392,18 +393,19 @@ class LambdaReaderFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        # Only change the position when it is valid. Else, the object would be unusable after a failed seek.
+        newOffset = self.offset
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
+            newOffset = self.size + offset
         elif whence == io.SEEK_SET:
-            self.offset = offset
+            newOffset = offset
 
-        if self.offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.size:
-            return self.offset
 
+        self.offset = newOffset
         return self.offset
 
     @overrides(io.RawIOBase)
-- 
2.43.0


From d7ef392c9d24383aea5e5caa43047cf6d2ccae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 45/57] fix: split data written at once into as many blobs as
 necessary

---
 core/ratarmountcore/SQLiteBlobFile.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/ratarmountcore/SQLiteBlobFile.py b/core/ratarmountcore/SQLiteBlobFile.py
index 301fb2b..c094e40 100644
--- a/core/ratarmountcore/SQLiteBlobFile.py
+++ b/core/ratarmountcore/SQLiteBlobFile.py
@@ -94,21 +94,15 @@ class WriteSQLiteBlobs(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def write(self, buffer) -> int:
-        freeBytesInBlob = self.blob_size - self.blob.tell()
         writtenCount = 0
 
-        if len(buffer) < freeBytesInBlob:
-            writtenCount += self.blob.write(buffer)
-        else:
-            writtenCount += self.blob.write(buffer[:freeBytesInBlob])
-            self._flush_blob()
-            writtenCount += self.blob.write(buffer[freeBytesInBlob:])
+        while writtenCount < len(buffer):
+            freeBytesInBlob = self.blob_size - self.blob.tell()
+            writtenCount += self.blob.write(buffer[writtenCount : writtenCount + freeBytesInBlob])
+            if self.blob.tell() >= self.blob_size:
+                self._flush_blob()
 
         self._size += writtenCount
-
-        if writtenCount != len(buffer):
-            raise RuntimeError("Failed to write all of the given data out!")
-
         return len(buffer)
 
     @overrides(io.RawIOBase)
-- 
2.43.0


From ffac630e4494ce2d76e0144bedef0ee639c66ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 46/57] fix: read until the end of all joined files with
 RawJoinedFileFromFactory.read(-1)

---
 core/ratarmountcore/StenciledFile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index ed9e66d..2451b8f 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -264,7 +264,11 @@ class RawJoinedFileFromFactory(io.RawIOBase):
     def read(self, size: int = -1) -> bytes:
         # See StenciledFile.read
         if size == -1:
-            size = self.cumsizes[-1] - self.offset
+            # Read until the end, i.e., also from all file objects after the current one.
+            chunks: list[bytes] = []
+            while chunk := self.read(max(0, self.cumsizes[-1] - self.offset)):
+                chunks.append(chunk)
+            return b''.join(chunks)
 
         # This loop works in a kind of leapfrog fashion. On each even loop iteration it seeks to the next stencil
         # and on each odd iteration it reads the data and increments the offset inside the stencil!
-- 
2.43.0


From ddfd7efad1e3473ac9b2698fb8de1cac9baf2bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 47/57] fix: read until the end with BlockParallelReader.read()
 and allow joining threads before they were started

---
 core/ratarmountcore/BlockParallelReaders.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index 795e5df..1a6d1cf 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -69,9 +69,10 @@ class BlockParallelReader(io.BufferedIOBase):
         assert self.fileobj.readable()
 
     def join_threads(self):
-        self._pool.close()
-        self._pool.join()
-        self._pool = None
+        if self._pool:
+            self._pool.close()
+            self._pool.join()
+            self._pool = None
 
     def _get_pool(self):
         if not self._pool:
@@ -152,7 +153,10 @@ class BlockParallelReader(io.BufferedIOBase):
     def tell(self) -> int:
         return self._offset
 
-    def _read(self, size: int, decodeBlock) -> bytes:
+    def _read(self, size: Optional[int], decodeBlock) -> bytes:
+        if size is None or size < 0:
+            size = max(0, self.blockBoundaries[-1] - self._offset)
+
         blocks = []
         blockNumber = self._find_block(self.blockBoundaries, self._offset)
         if blockNumber is None:
-- 
2.43.0


From 8e943e5b014ee67294e4a9b0c0a304412e6f1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 48/57] fix: return nothing instead of failing when reading an
 SQLite blob after its end

---
 core/ratarmountcore/StenciledFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 2451b8f..ef8c09a 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -391,6 +391,9 @@ class LambdaReaderFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
+        if self.offset >= self.size:
+            # Do not bother rawRead, which might refuse offsets after the end, e.g., sqlite3.Blob does.
+            return b''
         result = self.rawRead(self.offset, min(self.size if size < 0 else size, max(0, self.size - self.offset)))
         self.offset += len(result)
         return result
-- 
2.43.0


From 5bd2cc6baa68c2efdf90bdbb097a825f6990eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 49/57] fix: do not read further than the end of TAR members
 and lock the shared file object while reading

---
 core/ratarmountcore/mountsource/formats/tar.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 62566b9..2ee947e 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1117,7 +1117,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if lastEnd < realFileSize:
                 stencils.append((True, 0, realFileSize - lastEnd))
 
-            zeros = cast(IO[bytes], ZeroFile(max(x[2] for x in stencils if x[0])))
+            zeros = cast(IO[bytes], ZeroFile(max((x[2] for x in stencils if x[0]), default=0)))
             return self._open_stencil(
                 [(zeros if is_null else self.tarFileObject, offset, size) for is_null, offset, size in stencils],
                 buffering,
@@ -1131,9 +1131,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 file.seek(offset, os.SEEK_SET)
                 return file.read(size)
 
-        # For non-sparse files, we can simply seek to the offset and read from it.
-        self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
-        return self.tarFileObject.read(size)
+        # For non-sparse files, we can simply seek to the offset and read from it, but not further than the file's end.
+        availableSize = max(0, fileInfo.size - offset)
+        with self.fileObjectLock:
+            self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
+            return self.tarFileObject.read(availableSize if size < 0 else min(size, availableSize))
 
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
-- 
2.43.0


From d40586ac15d86b4518922e6ee70c139202816ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 50/57] fix: allow to read empty files in archives opened with
 libarchive

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..5717f02 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -399,6 +399,8 @@ class LibarchiveFile(io.RawIOBase):
     def _refill_buffer(self):
         bufferedSize = len(self._buffer) if self._buffer else 0
         if self._bufferOffset + bufferedSize >= self.fileSize:
+            if self._bufferIO is None:
+                self._bufferIO = io.BytesIO()  # Empty file. There is nothing to be read.
             return
 
         self._bufferOffset += bufferedSize
-- 
2.43.0


From 3f77b1dd626e2437babfc797f6a63b8278059bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 51/57] fix: advance the position of SquashFS file objects when
 reading from them

---
 .../ratarmountcore/mountsource/formats/squashfs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6e99e9b..23ef6bc 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -214,12 +214,13 @@ class SquashFSFile(io.RawIOBase):
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
         # An empty buffer signals the end of the file!
-        if result or not self._buffer:
-            return result
+        if not result and self._buffer:
+            self._blockIndex += 1
+            self._refill_buffer(self._blockIndex)
+            result = self._bufferIO.read(size)
 
-        self._blockIndex += 1
-        self._refill_buffer(self._blockIndex)
-        return self._bufferIO.read(size)
+        self._offset += len(result)
+        return result
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
@@ -259,7 +260,8 @@ class SquashFSFile(io.RawIOBase):
         elif whence == io.SEEK_END:
             offset += self._size
 
-        self._offset = max(0, min(offset, self._size))
+        offset = max(0, min(offset, self._size))
+        self._offset = offset
         bufferOffset = self._blockIndex * self._block_size
         if offset < bufferOffset or offset >= bufferOffset + len(self._buffer):
             self._refill_buffer(offset // self._block_size)  # Updates self._blockIndex!
-- 
2.43.0


From 647833bc110f7520a2f7878e9e40f4a027eb4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 52/57] fix: do not mix up the positions of archives opened
 with libarchive that share a file object

---
 .../mountsource/formats/libarchive.py             | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 5717f02..31c180a 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -206,6 +206,7 @@ class IterableArchive:
         self._seekCallback = None
         self._entry: Optional[ArchiveEntry] = None
         self._eof = False
+        self._position = 0  # The file object might be shared with other archives that also seek inside of it.
 
         self._archive = laffi.read_new()
         try:
@@ -272,7 +273,11 @@ class IterableArchive:
             return
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
 
+        seekable = hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell')
+
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
+            if seekable:
+                self._file.seek(self._position)
             try:
                 size = self._file.readinto(self._buffer)
             except (NotImplementedError, AttributeError):
@@ -281,15 +286,19 @@ class IterableArchive:
                 self._buffer = ctypes.c_char_p(result)
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
+            self._position += size
             return size
 
-        if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
+        if seekable:
 
             def seek_file_object(_archive, _context, offset, whence):
+                if whence == io.SEEK_CUR:
+                    self._file.seek(self._position)
                 self._file.seek(offset, whence)
-                return self._file.tell()
+                self._position = self._file.tell()
+                return self._position
 
-            self._file.seek(0)
+            self._position = 0
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
-- 
2.43.0


From 86e92a06625e1552c3b64fbe378244587df7114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 53/57] fix: read holes at the end of sparse files in archives
 opened with libarchive

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 31c180a..804b44a 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -99,6 +99,9 @@ class ArchiveEntry:
     def is_symbolic_link(self):
         return self.filetype() & 0o170000 == 0o120000
 
+    def is_sparse(self):
+        return laffi.libarchive.archive_entry_sparse_count(ctypes.c_void_p(self._entry)) > 0
+
     def linkname(self):
         path = ""
         if self.is_symbolic_link():
@@ -424,6 +427,10 @@ class LibarchiveFile(io.RawIOBase):
             self._buffer = ctypes.create_string_buffer(sizeToRead)
 
         readSize = self._archive.read_data(self._buffer, sizeToRead)
+        if 0 <= readSize < sizeToRead and self._entry.is_sparse():
+            # Libarchive does not return the hole at the end of sparse files.
+            ctypes.memset(ctypes.addressof(self._buffer) + readSize, 0, sizeToRead - readSize)
+            readSize = sizeToRead
         if readSize != sizeToRead:
             raise RuntimeError(f"Read {readSize} bytes but expected {self.fileSize} for entry {self.entry_index}!")
         self._bufferIO = io.BytesIO(self._buffer)
-- 
2.43.0


From fc4dbc8d6ac40c92e89c3d34b1874a4d0465cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 54/57] fix: show the contents of compressed files beginning
 with zeros instead of rejecting them as empty TARs

---
 .../mountsource/formats/libarchive.py         | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 804b44a..fa44e85 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -199,6 +199,7 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        allowArchives: bool = True,
     ):
         self.encoding = encoding
         self.bufferSize = bufferSize
@@ -214,7 +215,7 @@ class IterableArchive:
         self._archive = laffi.read_new()
         try:
             self._set_passwords(passwords or [])
-            self._try_to_open(allowArchives=True)
+            self._try_to_open(allowArchives=allowArchives)
         except ArchiveError as exception:
             logger.info("Was not able to open %s as given archive. Try to undo compressions next.", self._file)
             logger.info("Exception: %s", exception, exc_info=logger.isEnabledFor(logging.DEBUG))
@@ -374,6 +375,7 @@ class LibarchiveFile(io.RawIOBase):
         fileSize,
         passwords: Optional[Sequence[str]] = None,
         archiveCache: Optional[IterableArchiveCache] = None,
+        allowArchives: bool = True,
     ):
         io.RawIOBase.__init__(self)
         self.file = file
@@ -381,6 +383,7 @@ class LibarchiveFile(io.RawIOBase):
         self.entry_index = entry_index
         self.passwords = passwords
         self._archiveCache = archiveCache
+        self._allowArchives = allowArchives
         self._archive = None
         self._entry = None
         self._bufferSizeMax = 1024 * 1024
@@ -395,7 +398,9 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(
+                self.file, passwords=self.passwords, allowArchives=self._allowArchives
+            )
 
         while True:
             self._entry = self._archive.next_entry()
@@ -533,6 +538,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         self.passwords = options.get("passwords", [])
         self.tarFileName = tarFileName
         self._archiveCache = IterableArchiveCache()
+        self._allowArchives = True  # False to only undo compressions
 
         # Determine an archive file name to show for debug output and as file name inside the mount point for
         # simple non-TAR gzip/bzip2 stream-compressed files.
@@ -567,7 +573,9 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         triedToOpen = False
         fileInfos = []
         gotAnyEntry = False
-        with IterableArchive(self.fileOrPath, passwords=self.passwords) as archive:
+        with IterableArchive(
+            self.fileOrPath, passwords=self.passwords, allowArchives=self._allowArchives
+        ) as archive:
             while True:
                 entry = archive.next_entry()
                 if entry is None:
@@ -610,6 +618,11 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
             if fileInfos:
                 self.index.set_file_infos(fileInfos)
             elif not gotAnyEntry and archive.format_name() == b'tar':
+                if archive.filter_names():
+                    # Compressed files that begin with zeros are detected as empty TARs.
+                    self._allowArchives = False
+                    self._create_index()
+                    return
                 raise ArchiveError("Supposedly detected a TAR with no entries in it. Rejecting it as unknown format!")
 
     def __del__(self):
@@ -626,5 +639,6 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                 fileSize=fileInfo.size,
                 passwords=self.passwords,
                 archiveCache=self._archiveCache,
+                allowArchives=self._allowArchives,
             ),
         )
-- 
2.43.0


From 63c7914b423a6155bdec3bbb67eea4ebcc84612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 55/57] fix: do not fail to mount files for which checking for
 one of the formats raises an exception

---
 core/ratarmountcore/formats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 67f1ac9..7158af6 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -613,6 +613,9 @@ def might_be_format(fileobj: IO[bytes], fid: Union[FileFormatID, FileFormatInfo]
         if formatInfo.checkHeader:
             fileobj.seek(oldOffset)
             return formatInfo.checkHeader(fileobj)
+    except Exception:
+        # Checks might fail for arbitrary data, e.g., zipfile.is_zipfile for files that are smaller than any ZIP.
+        return False
     finally:
         fileobj.seek(oldOffset)
 
-- 
2.43.0


From 735bdef637b7f2ee8a3692a3bb5679b600ddd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 56/57] fix: find the password of ZIPs that contain only empty
 files

---
 core/ratarmountcore/mountsource/formats/zip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 0ed1299..b631869 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -135,8 +135,9 @@ class ZipMountSource(SQLiteIndexMountSource):
                     return password
 
         # If headers are not encrypted, then try out passwords by trying to open the first file.
-        files = [file for file in files if not file.is_dir() and file.file_size > 0]
-        if not files:
+        files = [file for file in files if not file.is_dir() and (file.file_size > 0 or file.flag_bits & 1)]
+        files.sort(key=lambda file: file.file_size == 0)  # Empty files might also be encrypted.
+        if not files or (files[0].file_size == 0 and not passwords):
             return None
 
         for password_or_none in [None, *passwords]:
-- 
2.43.0


From 12b677fe40aec27e49048bae4ef857ed1d431158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 57/57] fix: create the index elsewhere when another mount has
 just created it

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index dc32d65..89c0616 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -382,7 +382,7 @@ class SQLiteIndex:
                     try:
                         self.indexFilePath, self.sqlConnection = self._create_sql_db(indexPath)
                         break
-                    except sqlite3.Error as exception:
+                    except (sqlite3.Error, InvalidIndexError) as exception:
                         logger.warning("Failed to create an index at: %s because of: %s", indexPath, exception)
             else:
                 logger.warning("Could not find any writable location for an index in %s", self.possibleIndexFilePaths)
-- 
2.43.0

