From ad38190a78b743e176d54be44b6f30dc6aeb8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 01/88] fix: adding new files crashes when the profile database
 is empty

---
 zielen/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53d40f5..f7c0873 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -638,7 +638,7 @@ class ProfileDBFile(SyncDBFile):
             dirs: The paths of directories to add to the database.
         """
         self._cur.execute("""\
-            SELECT MAX(priority) FROM nodes
+            SELECT COALESCE(MAX(priority), 0) FROM nodes
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-- 
2.43.0


From 52ef6704606bef4ee0ea86734c4066cc263dec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 02/88] fix: files trashed together overwrite each other if
 they share a name

---
 zielen/filelogic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ea17f3a..9003fb6 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -842,6 +842,7 @@ class FilesManager:
                 new_filename = "{0}({1}){2}".format(
                     name, filename_counter, extension)
             new_filenames.append(new_filename)
+            trash_filenames.add(new_filename)
 
         for old_path, new_filename in zip(old_paths, new_filenames):
             abs_old_path = os.path.join(self.remote_dir.safe_path, old_path)
-- 
2.43.0


From 6ba2b0630a464055ec104f64e27a7091496d37fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 03/88] fix: cleaning up the trash follows symbolic links

---
 zielen/filelogic.py | 6 +++---
 zielen/fstools.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9003fb6..67512a5 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -862,10 +862,10 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat().st_mtime <= cutoff_time:
-                try:
+            if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:
+                if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
-                except NotADirectoryError:
+                else:
                     os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 65cee58..14bacc7 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -229,9 +229,9 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path):
+    if os.path.isdir(path) and not os.path.islink(path):
         tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.exists(path):
+    elif os.path.lexists(path):
         current = time.time()
         os.utime(path, times=(current, current), follow_symlinks=False)
 
-- 
2.43.0


From d8a6e9870e8b4188ffa94bb1b9cc83fde3aa04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 04/88] fix: files trashed by an interrupted sync can be
 deleted by the next sync

---
 zielen/filelogic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 67512a5..bcc3a05 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -862,7 +862,11 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:
+            # If a sync is interrupted after a file is moved to the trash but
+            # before its mtime is updated, then only its ctime reflects when it
+            # was moved.
+            stat = entry.stat(follow_symlinks=False)
+            if max(stat.st_mtime, stat.st_ctime) <= cutoff_time:
                 if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
                 else:
-- 
2.43.0


From d6ef8dc57a29022520ea005be38ceda528098723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 05/88] fix: symlinks to directories and empty directories are
 not transferred

---
 zielen/filelogic.py |  4 ++++
 zielen/fstools.py   | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index bcc3a05..dc8412b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -399,6 +399,10 @@ class FilesManager:
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
                 message="Updating local files...")
+
+            # Files which are missing from the remote directory are skipped,
+            # so make sure that they're not missing because it was unmounted.
+            os.stat(self.remote_dir.util_dir)
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 14bacc7..c9d0c54 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -67,11 +67,13 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
-            try:
-                for entry in scan_tree(os.path.join(source, path)):
+            full_path = os.path.join(source, path)
+            if not os.path.lexists(full_path):
+                continue
+            rel_paths.add(os.path.relpath(full_path, source))
+            if os.path.isdir(full_path) and not os.path.islink(full_path):
+                for entry in scan_tree(full_path):
                     rel_paths.add(os.path.relpath(entry.path, source))
-            except NotADirectoryError:
-                rel_paths.add(path)
 
     if exclude is not None:
         rel_paths -= set(exclude)
-- 
2.43.0


From 8580dce4fb1b3527be13029748839bb4208c9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 06/88] fix: transferring a broken symlink crashes when there
 is a progress bar

---
 zielen/fstools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index c9d0c54..90020a9 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -88,7 +88,7 @@ def transfer_tree(
     dest_paths = [os.path.join(dest, path) for path in rel_paths]
 
     if use_bar:
-        source_sizes = {path: os.stat(path).st_size for path in source_paths}
+        source_sizes = {path: os.lstat(path).st_size for path in source_paths}
         total_source_size = sum(source_sizes.values())
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
-- 
2.43.0


From a4708a257879f80405eb8cb0f98f12cadccb0d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 07/88] fix: interrupted transfers leave incomplete files
 behind

A file which was only partly transferred looked like it was modified since
the last sync, so the next sync replaced the good copy with it. Existing
symlinks in the destination were also written through.
---
 zielen/commands/reset.py |  2 +-
 zielen/commands/sync.py  |  6 ++++
 zielen/fstools.py        | 61 +++++++++++++++++++++++++++++++++++-----
 3 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0725e17..66ff9ae 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -84,7 +84,7 @@ class ResetCommand(Command):
                 self.remote_dir.close()
                 try:
                     for entry in os.scandir(self.remote_dir.path):
-                        if entry.is_dir:
+                        if entry.is_dir(follow_symlinks=False):
                             shutil.rmtree(entry.path)
                         else:
                             os.remove(entry.path)
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 61a0e55..e4c8eca 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -24,6 +24,7 @@ from typing import Iterable, Set, NamedTuple, Tuple, List
 
 from zielen.commandbase import Command, unlock
 from zielen.filelogic import FilesManager
+from zielen.fstools import rm_temp_files
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -63,6 +64,11 @@ class SyncCommand(Command):
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
+        # Remove anything that an interrupted sync has left behind. Other
+        # clients may be syncing with the remote directory at the moment.
+        rm_temp_files(self.local_dir.path)
+        rm_temp_files(self.remote_dir.path, min_age=24*60*60)
+
         # Scan the local and remote directories.
         file_paths = (
             self.local_dir.scan_paths(dirs=False).keys()
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 90020a9..b219451 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -24,11 +24,56 @@ import shutil
 import tempfile
 from typing import Iterable, Optional, Set
 
-from zielen.utils import shell_cmd, ProgressBar
+from zielen.utils import shell_cmd, secure_string, ProgressBar
 from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
 
+# Files that are still being created have names that start with this. They are
+# never synced.
+TEMP_PREFIX = ".zielen-tmp-"
+
+
+def copy_file(source: str, dest: str) -> None:
+    """Copy a file or symlink, preserving file metadata.
+
+    Symlinks are not followed. The destination is replaced all at once, so it
+    is never missing or incomplete, even if the transfer is interrupted.
+
+    Args:
+        source: The path of the file to copy.
+        dest: The path to copy the file to.
+    """
+    temp_path = os.path.join(
+        os.path.dirname(dest), TEMP_PREFIX + secure_string(8))
+    try:
+        shutil.copy2(source, temp_path, follow_symlinks=False)
+        os.replace(temp_path, dest)
+    except BaseException:
+        if os.path.lexists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
+def rm_temp_files(path: str, min_age=0) -> None:
+    """Remove incomplete files left behind by an interrupted operation.
+
+    Args:
+        path: The path of the directory to remove the files from.
+        min_age: Only remove files that have not changed in this many seconds.
+    """
+    cutoff_time = time.time() - min_age
+    for parent, dirs, files in os.walk(path):
+        for name in files + dirs:
+            temp_path = os.path.join(parent, name)
+            if not name.startswith(TEMP_PREFIX):
+                continue
+            try:
+                if os.lstat(temp_path).st_ctime <= cutoff_time:
+                    os.remove(temp_path)
+            except (FileNotFoundError, IsADirectoryError):
+                pass
+
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
@@ -96,12 +141,10 @@ def transfer_tree(
     for source_path, dest_path in zip(source_paths, dest_paths):
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
         try:
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except (shutil.SameFileError, FileExistsError):
-            os.remove(dest_path)
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except IsADirectoryError:
-            os.makedirs(dest_path, exist_ok=True)
+            if os.path.isdir(source_path) and not os.path.islink(source_path):
+                os.makedirs(dest_path, exist_ok=True)
+            else:
+                copy_file(source_path, dest_path)
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
@@ -184,6 +227,8 @@ def symlink_tree(
 def scan_tree(path: str):
     """Recursively scan a directory tree and yield an os.DirEntry object.
 
+    Files that are still being created are skipped.
+
     Args:
         path: The path of the directory to scan.
 
@@ -191,6 +236,8 @@ def scan_tree(path: str):
         An os.DirEntry object for each file in the tree.
     """
     for entry in os.scandir(path):
+        if entry.name.startswith(TEMP_PREFIX):
+            continue
         yield entry
         if entry.is_dir(follow_symlinks=False):
             yield from scan_tree(entry.path)
-- 
2.43.0


From aac17d08ef537226d4bee08daf918f5296f6db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 08/88] fix: interrupting a sync while it replaces local files
 with symlinks loses them

Symlinks that were no longer up to date were also never replaced.
---
 zielen/filelogic.py | 31 ++++++++++---------------------
 zielen/fstools.py   | 24 ++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index dc8412b..f37c96e 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -367,30 +367,19 @@ class FilesManager:
         """
         update_paths = set(update_paths)
 
-        # Sort the file paths so that a directory's contents always come
-        # before the directory itself.
-        stale_paths = list(self.compute_stale(update_paths))
-        stale_paths.sort(key=lambda x: x.count(os.sep), reverse=True)
-
-        # Remove old, unneeded files to make room for new ones.
-        for stale_path in stale_paths:
-            full_stale_path = os.path.join(self.local_dir.path, stale_path)
-            if os.path.islink(full_stale_path):
-                # The path will just be replaced with a symlink anyways.
-                continue
-            try:
-                os.remove(full_stale_path)
-            except IsADirectoryError:
-                try:
-                    os.rmdir(full_stale_path)
-                except OSError:
-                    # There are still files in the directory. This could
-                    # happen if there were symbolic links in the directory
-                    # that weren't deleted.
-                    pass
+        stale_paths = self.compute_stale(update_paths)
 
         try:
+            # Replace old, unneeded files to make room for new ones. They must
+            # never be missing from the local directory, because if this is
+            # interrupted, then the next sync would delete them from the remote
+            # directory.
             nonlocal_paths = symlink_tree(
+                self.remote_dir.safe_path, self.local_dir.path,
+                self.remote_dir.get_paths(directory=False).keys()
+                & stale_paths, [], overwrite=True)
+
+            nonlocal_paths |= symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False),
                 self.remote_dir.get_paths(directory=True))
diff --git a/zielen/fstools.py b/zielen/fstools.py
index b219451..e6a278f 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -55,6 +55,27 @@ def copy_file(source: str, dest: str) -> None:
         raise
 
 
+def replace_with_symlink(source: str, dest: str) -> None:
+    """Replace an existing file with a symlink.
+
+    The destination is replaced all at once, so it is never missing, even if
+    the operation is interrupted.
+
+    Args:
+        source: The path that the symlink points to.
+        dest: The path of the file to replace.
+    """
+    temp_path = os.path.join(
+        os.path.dirname(dest), TEMP_PREFIX + secure_string(8))
+    try:
+        os.symlink(source, temp_path)
+        os.replace(temp_path, dest)
+    except BaseException:
+        if os.path.lexists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 def rm_temp_files(path: str, min_age=0) -> None:
     """Remove incomplete files left behind by an interrupted operation.
 
@@ -215,8 +236,7 @@ def symlink_tree(
                 os.symlink(full_src_path, full_dest_path)
             except FileExistsError:
                 if overwrite:
-                    os.remove(full_dest_path)
-                    os.symlink(full_src_path, full_dest_path)
+                    replace_with_symlink(full_src_path, full_dest_path)
                     new_paths.add(src_path)
             else:
                 new_paths.add(src_path)
-- 
2.43.0


From b1c723cc84be64b0ebed1ead910a91169c5d531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 09/88] fix: files kept in the local directory are recorded as
 being symlinks

Files that had just been copied to the local directory were moved to the trash
instead of being deleted, and symlinks left behind by an interrupted sync were
deleted instead of being moved to the trash.
---
 zielen/filelogic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index f37c96e..3a1e844 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -374,12 +374,12 @@ class FilesManager:
             # never be missing from the local directory, because if this is
             # interrupted, then the next sync would delete them from the remote
             # directory.
-            nonlocal_paths = symlink_tree(
+            symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False).keys()
                 & stale_paths, [], overwrite=True)
 
-            nonlocal_paths |= symlink_tree(
+            symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False),
                 self.remote_dir.get_paths(directory=True))
@@ -400,10 +400,12 @@ class FilesManager:
 
         # Update the database with information about which paths are being
         # kept in the local directory.
+        kept_paths = set()
         for update_path in update_paths:
-            self.profile.update_paths(
-                self.profile.get_paths(root=update_path).keys(), local=True)
+            kept_paths |= self.profile.get_paths(root=update_path).keys()
+        nonlocal_paths = self.profile.get_paths().keys() - kept_paths
         self.profile.update_paths(nonlocal_paths, local=False)
+        self.profile.update_paths(kept_paths, local=True)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
-- 
2.43.0


From 20b83db85d4e7ecc340d2381fcf19681ed3c7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 10/88] fix: syncing a deletion crashes or loses data if the
 file was also changed elsewhere

Deleting a file or directory from one client while another one deleted it,
modified it or added files to it left both databases inconsistent, so that
every following sync failed, and deleted the new and modified files as well as
excluded files in the same directory.
---
 zielen/commands/sync.py | 17 +++++++------
 zielen/filelogic.py     | 56 +++++++++++++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index e4c8eca..62fae0e 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -69,6 +69,13 @@ class SyncCommand(Command):
         rm_temp_files(self.local_dir.path)
         rm_temp_files(self.remote_dir.path, min_age=24*60*60)
 
+        # Sync deletions between the local and remote directories.
+        del_paths = fm.compute_deleted()
+        fm.rm_local_files(del_paths.local)
+        fm.rm_remote_files(del_paths.remote)
+        fm.trash_files(del_paths.trash)
+        fm.forget_missing()
+
         # Scan the local and remote directories.
         file_paths = (
             self.local_dir.scan_paths(dirs=False).keys()
@@ -77,10 +84,9 @@ class SyncCommand(Command):
             self.local_dir.scan_paths(files=False, symlinks=False).keys()
             | self.remote_dir.scan_paths(files=False, symlinks=False).keys())
 
-        # Get the paths of files that have been added, deleted or modified
-        # since the last sync.
+        # Get the paths of files that have been added or modified since the last
+        # sync.
         new_paths = fm.compute_added()
-        del_paths = fm.compute_deleted()
         mod_paths = fm.compute_modified()
 
         # Add new files to both databases, and inflate the priority of new
@@ -94,11 +100,6 @@ class SyncCommand(Command):
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
 
-        # Sync deletions between the local and remote directories.
-        fm.rm_local_files(del_paths.local)
-        fm.rm_remote_files(del_paths.remote)
-        fm.trash_files(del_paths.trash)
-
         # Handle syncing conflicts.
         updated_paths = fm.handle_conflicts(
             mod_paths.local | new_paths.local,
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 3a1e844..bb4c1cb 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -26,7 +26,7 @@ from typing import Iterable, Tuple, Set, NamedTuple
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.utils import timestamp_path
+from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
     is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
 
@@ -642,8 +642,12 @@ class FilesManager:
             path for path, mtime in remote_mtimes
             if mtime > last_sync and self.profile.get_path_info(path)}
 
-        remote_mod_paths |= self.remote_dir.get_paths(
-            directory=False, min_lastsync=last_sync).keys()
+        # Files may be in the remote database but not in the remote directory if
+        # they were deleted directly or if a sync was interrupted.
+        remote_mod_paths |= (
+            self.remote_dir.get_paths(
+                directory=False, min_lastsync=last_sync).keys()
+            & self.remote_dir.scan_paths(dirs=False).keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
@@ -653,7 +657,9 @@ class FilesManager:
         A file needs to be deleted if it is found in the local database but
         not in either the local or remote directory. A file moved to the
         trash if it needs to be deleted from the remote directory but is not
-        found in any of the local trash directories.
+        found in any of the local trash directories. Excluded local files and
+        files that have been modified since the last sync are not deleted, and
+        neither are the directories that contain them.
 
         Returns:
             A named tuple containing three sets of relative file paths: local
@@ -663,18 +669,27 @@ class FilesManager:
         local_paths = self.local_dir.scan_paths().keys()
         remote_paths = self.remote_dir.scan_paths().keys()
         known_paths = self.profile.get_paths().keys()
+        mod_paths = self.compute_modified()
 
-        # Compute files that need to be deleted, not including the files
-        # under selected directories.
-        local_del_paths = known_paths - remote_paths
-        remote_del_paths = known_paths - local_paths
+        # Compute files that need to be deleted. A file that was deleted from
+        # one directory isn't deleted from the other if it was modified there.
+        local_del_paths = known_paths - remote_paths - mod_paths.local
+        local_del_paths -= self.profile.all_exclude_matches(
+            self.local_dir.path)
+        remote_del_paths = known_paths - local_paths - mod_paths.remote
+
+        # Directories can't be deleted if they still contain other files.
+        local_del_paths -= self._get_parents(local_paths - local_del_paths)
+        remote_del_paths -= self._get_parents(remote_paths - remote_del_paths)
+
+        # Don't include the files under selected directories.
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             local_del_paths -= sub_paths
         for path in remote_del_paths.copy():
             sub_paths = set(self.remote_dir.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             remote_del_paths -= sub_paths
 
         # Compute files to be moved to the trash.
@@ -687,6 +702,27 @@ class FilesManager:
 
         return DeletedPaths(local_del_paths, remote_del_paths, trash_paths)
 
+    @staticmethod
+    def _get_parents(paths: Iterable[str]) -> Set[str]:
+        """Get the paths of all directories that contain the given paths."""
+        return set(get_path_ancestry(
+            {os.path.dirname(path) for path in paths} - {""}))
+
+    def forget_missing(self) -> None:
+        """Remove paths from the databases that aren't in both directories.
+
+        Files that are still missing from one of the directories after
+        deletions have been synced are treated as if they were new. This scans
+        both directories again.
+        """
+        local_paths = self.local_dir.scan_paths(memoize=False).keys()
+        remote_paths = self.remote_dir.scan_paths(memoize=False).keys()
+
+        self.profile.rm_paths(
+            self.profile.get_paths().keys() - (local_paths & remote_paths))
+        self.remote_dir.rm_paths(
+            self.remote_dir.get_paths().keys() - remote_paths)
+
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
             parent_dir: str) -> None:
-- 
2.43.0


From 55025ad1a84debfb86096b1e30f9cbc9cfc40990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 11/88] fix: conflicting files with the same mtime are not
 detected

---
 zielen/filelogic.py |  7 ++++++-
 zielen/fstools.py   | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index bb4c1cb..53d5fda 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,7 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
-    is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    files_match, is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -537,6 +537,11 @@ class FilesManager:
                 local_diff.rename([(path, new_path)])
             elif remote_mtimes[path] < local_mtimes[path]:
                 remote_diff.rename([(path, new_path)])
+            elif not files_match(
+                    os.path.join(self.local_dir.path, path),
+                    os.path.join(self.remote_dir.path, path)):
+                # Neither file is more recent than the other, but keep both.
+                local_diff.rename([(path, new_path)])
 
         if local_diff.mod_paths:
             self.rename_local_files(local_diff.mod_paths)
diff --git a/zielen/fstools.py b/zielen/fstools.py
index e6a278f..5f9e934 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -21,6 +21,7 @@ import os
 import sys
 import time
 import shutil
+import filecmp
 import tempfile
 from typing import Iterable, Optional, Set
 
@@ -290,6 +291,22 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
     return True
 
 
+def files_match(path_a: str, path_b: str) -> bool:
+    """Check if two files have the same contents.
+
+    Symlinks are not followed. They match if they point to the same path.
+
+    Args:
+        path_a: The path of the first file or symlink.
+        path_b: The path of the second file or symlink.
+    """
+    if os.path.islink(path_a) or os.path.islink(path_b):
+        return (
+            os.path.islink(path_a) and os.path.islink(path_b)
+            and os.readlink(path_a) == os.readlink(path_b))
+    return filecmp.cmp(path_a, path_b, shallow=False)
+
+
 def update_mtime(path) -> None:
     """Update the mtime of a file or directory.
 
-- 
2.43.0


From 805e75ebdea89959f96b05df7490dd2adcf24b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 12/88] fix: a sync conflict resets the priority of the file

---
 zielen/filelogic.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 53d5fda..6928059 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -731,7 +731,7 @@ class FilesManager:
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
             parent_dir: str) -> None:
-        """Move files to a new path and update the databases.
+        """Move files to a new path and add it to the databases.
 
         Args:
             path_pairs: The relative paths of existing local files to be
@@ -743,8 +743,6 @@ class FilesManager:
                 os.path.join(parent_dir, old_path),
                 os.path.join(parent_dir, new_path))
 
-        old_paths = (old_path for old_path, new_path in path_pairs)
-
         # Separate paths of directories from paths of regular files based on
         # whether the old paths are entered as directories in the database.
         new_file_paths = set()
@@ -756,14 +754,14 @@ class FilesManager:
             else:
                 new_file_paths.add(new_path)
 
-        self.profile.rm_paths(old_paths)
-        self.remote_dir.rm_paths(old_paths)
+        # The old paths still exist in the other directory, so they stay in the
+        # databases.
         self.profile.add_paths(new_file_paths, new_dir_paths)
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
 
     def rename_local_files(
             self, path_pairs: Iterable[Tuple[str, str]]) -> None:
-        """Move local files to a new path and update the databases.
+        """Move local files to a new path and add it to the databases.
 
         Args:
             path_pairs: The relative paths of existing local files to be
@@ -773,7 +771,7 @@ class FilesManager:
 
     def rename_remote_files(
             self, path_pairs: Iterable[Tuple[str, str]]) -> None:
-        """Move remote files to a new path and update the databases.
+        """Move remote files to a new path and add it to the databases.
 
         Args:
             path_pairs: The relative paths of existing local files to be
-- 
2.43.0


From 23f1faba7c6baea3b17da3344ee28000a0733b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 13/88] fix: a sync conflict overwrites the file from an
 earlier conflict

---
 zielen/filelogic.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 6928059..6b1e3cf 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -528,8 +528,18 @@ class FilesManager:
         local_diff = PathsDiff(local_paths)
         remote_diff = PathsDiff(remote_paths)
 
+        existing_paths = local_mtimes.keys() | remote_mtimes.keys()
+
         for path in conflict_paths:
             new_path = timestamp_path(path, keyword="conflict")
+
+            # Come up with a new filename if there was already a conflict with
+            # this file in the same second.
+            name, extension = os.path.splitext(new_path)
+            counter = 0
+            while new_path in existing_paths:
+                counter += 1
+                new_path = "{0}({1}){2}".format(name, counter, extension)
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
-- 
2.43.0


From af1019d9cbdbd3b7ee29d85c8acec5ffc1f579a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 14/88] fix: replacing a file with a directory or vice versa
 makes every sync fail

---
 zielen/commands/sync.py |  7 +++--
 zielen/filelogic.py     | 62 ++++++++++++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 62fae0e..7e8102f 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -90,11 +90,12 @@ class SyncCommand(Command):
         mod_paths = fm.compute_modified()
 
         # Add new files to both databases, and inflate the priority of new
-        # local files.
+        # local files. A path which is a file in one directory and a directory in
+        # the other is a conflict, and the file is the one that is renamed.
         new_local_files = (new_paths.local - dir_paths)
-        new_local_dirs = (new_paths.local - file_paths)
+        new_local_dirs = (new_paths.local & dir_paths)
         new_file_paths = (new_paths.all - dir_paths)
-        new_dir_paths = (new_paths.all - file_paths)
+        new_dir_paths = (new_paths.all & dir_paths)
         if self.profile.inflate_priority:
             self.profile.add_inflated(new_local_files, new_local_dirs)
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 6b1e3cf..c840f78 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -25,7 +25,7 @@ from typing import Iterable, Tuple, Set, NamedTuple
 
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
-from zielen.userdata import LocalSyncDir, RemoteSyncDir
+from zielen.userdata import SyncDir, LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
     files_match, is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
@@ -528,6 +528,10 @@ class FilesManager:
         local_diff = PathsDiff(local_paths)
         remote_diff = PathsDiff(remote_paths)
 
+        local_dirs = self.local_dir.scan_paths(
+            files=False, symlinks=False).keys()
+        remote_dirs = self.remote_dir.scan_paths(
+            files=False, symlinks=False).keys()
         existing_paths = local_mtimes.keys() | remote_mtimes.keys()
 
         for path in conflict_paths:
@@ -540,9 +544,13 @@ class FilesManager:
             while new_path in existing_paths:
                 counter += 1
                 new_path = "{0}({1}){2}".format(name, counter, extension)
-            path_data = self.profile.get_path_info(path)
-            if path_data and path_data.directory:
+            if path in local_dirs and path in remote_dirs:
                 continue
+            elif path in remote_dirs:
+                # A file can't replace a directory.
+                local_diff.rename([(path, new_path)])
+            elif path in local_dirs:
+                remote_diff.rename([(path, new_path)])
             elif local_mtimes[path] < remote_mtimes[path]:
                 local_diff.rename([(path, new_path)])
             elif remote_mtimes[path] < local_mtimes[path]:
@@ -688,10 +696,14 @@ class FilesManager:
 
         # Compute files that need to be deleted. A file that was deleted from
         # one directory isn't deleted from the other if it was modified there.
-        local_del_paths = known_paths - remote_paths - mod_paths.local
+        local_del_paths = (
+            (known_paths - remote_paths | self._get_replaced(self.remote_dir))
+            - mod_paths.local)
         local_del_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
-        remote_del_paths = known_paths - local_paths - mod_paths.remote
+        remote_del_paths = (
+            (known_paths - local_paths | self._get_replaced(self.local_dir))
+            - mod_paths.remote)
 
         # Directories can't be deleted if they still contain other files.
         local_del_paths -= self._get_parents(local_paths - local_del_paths)
@@ -723,20 +735,38 @@ class FilesManager:
         return set(get_path_ancestry(
             {os.path.dirname(path) for path in paths} - {""}))
 
+    def _get_replaced(self, sync_dir: SyncDir) -> Set[str]:
+        """Get files replaced by directories since the last sync or vice versa.
+
+        Args:
+            sync_dir: The directory to look for replaced files in.
+        """
+        dir_paths = sync_dir.scan_paths(files=False, symlinks=False).keys()
+        return {
+            path for path in sync_dir.scan_paths().keys()
+            for path_info in [self.profile.get_path_info(path)]
+            if path_info and path_info.directory != (path in dir_paths)}
+
     def forget_missing(self) -> None:
         """Remove paths from the databases that aren't in both directories.
 
         Files that are still missing from one of the directories after
-        deletions have been synced are treated as if they were new. This scans
+        deletions have been synced are treated as if they were new, as are
+        files that have been replaced by directories and vice versa. This scans
         both directories again.
         """
         local_paths = self.local_dir.scan_paths(memoize=False).keys()
         remote_paths = self.remote_dir.scan_paths(memoize=False).keys()
 
+        replaced_paths = (
+            self._get_replaced(self.local_dir)
+            | self._get_replaced(self.remote_dir))
         self.profile.rm_paths(
-            self.profile.get_paths().keys() - (local_paths & remote_paths))
+            self.profile.get_paths().keys() - (local_paths & remote_paths)
+            | replaced_paths)
         self.remote_dir.rm_paths(
-            self.remote_dir.get_paths().keys() - remote_paths)
+            self.remote_dir.get_paths().keys() - remote_paths
+            | replaced_paths)
 
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
@@ -753,21 +783,13 @@ class FilesManager:
                 os.path.join(parent_dir, old_path),
                 os.path.join(parent_dir, new_path))
 
-        # Separate paths of directories from paths of regular files based on
-        # whether the old paths are entered as directories in the database.
-        new_file_paths = set()
-        new_dir_paths = set()
-        for old_path, new_path in path_pairs:
-            path_info = self.profile.get_path_info(old_path)
-            if path_info and path_info.directory:
-                new_dir_paths.add(new_path)
-            else:
-                new_file_paths.add(new_path)
+        # Only files are renamed, never directories.
+        new_file_paths = {new_path for old_path, new_path in path_pairs}
 
         # The old paths still exist in the other directory, so they stay in the
         # databases.
-        self.profile.add_paths(new_file_paths, new_dir_paths)
-        self.remote_dir.add_paths(new_file_paths, new_dir_paths)
+        self.profile.add_paths(new_file_paths, [])
+        self.remote_dir.add_paths(new_file_paths, [])
 
     def rename_local_files(
             self, path_pairs: Iterable[Tuple[str, str]]) -> None:
-- 
2.43.0


From 9a61516abe6f23ddd6dd68775687e3e61b77d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 15/88] fix: exclude patterns don't match if the sync directory
 contains metacharacters

---
 zielen/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index f7c0873..00f6a10 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -357,10 +357,11 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(start_path, line.lstrip("/"))
+                glob_str = os.path.join(
+                    glob.escape(start_path), line.lstrip("/"))
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(start_path, "**", line)
+                glob_str = os.path.join(glob.escape(start_path), "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
-- 
2.43.0


From 0800a43f4ada07d461a847b8f5f32be1896cebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 16/88] fix: exclude patterns that match a symlink follow it

---
 zielen/filelogic.py | 6 ++++--
 zielen/profile.py   | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index c840f78..ed0ee90 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -944,7 +944,9 @@ class FilesManager:
         Returns:
             The disk usage as a number of bytes.
         """
+        local_stats = self.local_dir.scan_paths()
+        exclude_matches = self.profile.all_exclude_matches(self.local_dir.path)
         total_excluded_size = sum(
-            self.local_dir.scan_paths()[path].st_blocks * 512
-            for path in self.profile.all_exclude_matches(self.local_dir.path))
+            local_stats[path].st_blocks * 512
+            for path in local_stats.keys() & exclude_matches)
         return total_excluded_size
diff --git a/zielen/profile.py b/zielen/profile.py
index 00f6a10..03bbfd5 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -367,6 +367,8 @@ class ProfileExcludeFile:
                 rel_match_path = os.path.relpath(match_path, start_path)
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
+                if os.path.islink(os.path.join(start_path, rel_match_path)):
+                    continue
                 try:
                     for entry in scan_tree(match_path):
                         self._all_matches[start_path].add(
-- 
2.43.0


From 5e2db9a86303a8dcfc3c5c5a0d8db524d16833a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 17/88] fix: excluded files and unsafe symlinks in new
 directories are synced

---
 zielen/filelogic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ed0ee90..101a38f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -416,11 +416,17 @@ class FilesManager:
         Raises:
             RemoteError: The remote directory is unmounted.
         """
-        # Copy modified local files to the remote directory.
+        # Copy modified local files to the remote directory. New directories may
+        # contain files that must not be synced.
+        update_paths = set(update_paths)
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...")
+                files=update_paths,
+                exclude=(
+                    self.local_dir.scan_paths(memoize=False).keys()
+                    - update_paths),
+                message="Updating remote files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
-- 
2.43.0


From caa6a9762935bce0d0b9dcea2062935e5e8eb7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 18/88] fix: excluded local files are overwritten by remote
 files with the same path

---
 zielen/filelogic.py | 26 +++++++++++++++++++++++---
 zielen/fstools.py   |  5 +++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 101a38f..0178e2e 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import SyncDir, LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
-    files_match, is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    files_match, is_symlink_to, is_unsafe_symlink, symlink_tree, transfer_tree,
+    update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -387,6 +388,7 @@ class FilesManager:
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
+                exclude=self._get_unsynced_excluded(),
                 message="Updating local files...")
 
             # Files which are missing from the remote directory are skipped,
@@ -611,6 +613,21 @@ class FilesManager:
 
         return stale_paths
 
+    def _get_unsynced_excluded(self) -> Set[str]:
+        """Get excluded local files that don't come from the remote directory.
+
+        These files are not in the local database. They have nothing to do with
+        files in the remote directory that have the same path.
+        """
+        exclude_matches = self.profile.all_exclude_matches(self.local_dir.path)
+        return {
+            path for path in self.local_dir.scan_paths(dirs=False).keys()
+            if path in exclude_matches
+            and not self.profile.get_path_info(path)
+            and not is_symlink_to(
+                os.path.join(self.local_dir.path, path),
+                os.path.join(self.remote_dir.safe_path, path))}
+
     def compute_added(self) -> UpdatedPaths:
         """Compute paths of files that have been added since the last sync.
 
@@ -633,6 +650,7 @@ class FilesManager:
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)}
+        new_remote_paths -= self._get_unsynced_excluded()
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
@@ -672,11 +690,13 @@ class FilesManager:
             if mtime > last_sync and self.profile.get_path_info(path)}
 
         # Files may be in the remote database but not in the remote directory if
-        # they were deleted directly or if a sync was interrupted.
+        # they were deleted directly or if a sync was interrupted. Files that
+        # aren't in the local database are new.
         remote_mod_paths |= (
             self.remote_dir.get_paths(
                 directory=False, min_lastsync=last_sync).keys()
-            & self.remote_dir.scan_paths(dirs=False).keys())
+            & self.remote_dir.scan_paths(dirs=False).keys()
+            & self.profile.get_paths().keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 5f9e934..6387842 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -291,6 +291,11 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
     return True
 
 
+def is_symlink_to(link_path: str, dest_path: str) -> bool:
+    """Check if a file is a symlink that points to the given path."""
+    return os.path.islink(link_path) and os.readlink(link_path) == dest_path
+
+
 def files_match(path_a: str, path_b: str) -> bool:
     """Check if two files have the same contents.
 
-- 
2.43.0


From f61babd5762f47bb64ba008be6fb28d623aad844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 19/88] fix: commands crash if the remote directory is missing

'reset' and 'empty-trash' failed with a traceback instead of an error message
if the remote directory was unmounted, as did 'sync' if only its database was
missing.
---
 zielen/commands/emptytrash.py | 7 ++++++-
 zielen/commands/reset.py      | 2 ++
 zielen/commands/sync.py       | 1 +
 zielen/containerbase.py       | 5 +++++
 zielen/userdata.py            | 9 +++++++++
 5 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/emptytrash.py b/zielen/commands/emptytrash.py
index 89cf782..2a74b54 100644
--- a/zielen/commands/emptytrash.py
+++ b/zielen/commands/emptytrash.py
@@ -35,8 +35,13 @@ class EmptyTrashCommand(Command):
 
     @unlock
     def main(self) -> None:
-        """Run the command."""
+        """Run the command.
+
+        Raises:
+            RemoteError: The remote directory could not be found.
+        """
         self.setup_profile()
+        self.remote_dir.check()
 
         files_deleted = 0
         for path in os.scandir(self.remote_dir.trash_dir):
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 66ff9ae..831382c 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -51,6 +51,8 @@ class ResetCommand(Command):
         self.setup_profile()
 
         if not self.no_retrieve:
+            self.remote_dir.check()
+
             # Check if there is enough space locally to accommodate remote
             # files.
             if self.remote_dir.disk_usage() > self.local_dir.space_avail():
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 7e8102f..7bcae64 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -61,6 +61,7 @@ class SyncCommand(Command):
     def main(self) -> None:
         """Run the command."""
         self.setup_profile()
+        self.remote_dir.check()
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2991cdd..d2cca2e 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -159,6 +159,11 @@ class SyncDBFile:
         sqlite3.register_adapter(bool, int)
         sqlite3.register_converter("BOOL", lambda x: bool(int(x)))
 
+    @property
+    def is_open(self) -> bool:
+        """The database file exists and has been opened."""
+        return self._conn is not None and os.path.isfile(self.path)
+
     @contextlib.contextmanager
     def _transact(self) -> Generator[None, None, None]:
         """Check if database file exists and commit the transaction on exit.
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 5d06371..a2579fe 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -175,6 +175,15 @@ class RemoteSyncDir(SyncDir):
         except FileExistsError:
             pass
 
+    def check(self) -> None:
+        """Check that the directory is available.
+
+        Raises:
+            RemoteError: The remote directory is missing or unmounted.
+        """
+        if not self._db_file.is_open:
+            raise RemoteError("the remote directory could not be found")
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._db_file.commit()
-- 
2.43.0


From 10f3e042bd731b9419920507b4b023a7fa6b5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 20/88] fix: an interrupted or failed reset makes the next sync
 delete local files

Files were removed from the remote directory as they were being retrieved, even
though the profile still existed, so if the reset didn't finish, the next sync
assumed that they had been deleted. This always happened if the remote directory
contained files which had not been synced yet, as they were not retrieved.
---
 zielen/commands/reset.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 831382c..435a9d4 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -59,13 +59,15 @@ class ResetCommand(Command):
                 raise AvailableSpaceError(
                     "not enough local space to accommodate remote files")
 
-            # Retrieve remote files.
+            # Retrieve remote files. They are not removed from the remote
+            # directory until they have all been retrieved.
+            remote_paths = self.remote_dir.scan_paths().keys()
             try:
                 transfer_tree(
                     self.remote_dir.safe_path, self.local_dir.path,
-                    files=self.remote_dir.get_paths(),
-                    message="Retrieving files...",
-                    rm_source=not self.keep_remote)
+                    files=remote_paths,
+                    message="Retrieving files...")
+                os.stat(self.remote_dir.util_dir)
             except FileNotFoundError:
                 if not os.path.isdir(self.remote_dir.util_dir):
                     raise RemoteError(
@@ -74,11 +76,18 @@ class ResetCommand(Command):
                     raise
 
             if not self.keep_remote:
-                # Check that the remote directory contains only empty
-                # directories and the util directory.
-                if self.remote_dir.scan_paths(dirs=False, memoize=False):
+                # Check that no files have been added to the remote directory
+                # in the meantime.
+                if (self.remote_dir.scan_paths(memoize=False).keys()
+                        - remote_paths):
                     raise FileTransferError("some files were not retrieved")
 
+                # From this point, files that are missing from the remote
+                # directory have not been deleted. Otherwise, if this is
+                # interrupted, the next sync would delete the local files.
+                self.profile.rm_paths(self.profile.get_paths())
+                self.profile.write()
+
                 # Close the database connection, and then remove the
                 # contents of the remote directory. If the database
                 # connection is not closed, the util directory will not be
@@ -86,10 +95,13 @@ class ResetCommand(Command):
                 self.remote_dir.close()
                 try:
                     for entry in os.scandir(self.remote_dir.path):
-                        if entry.is_dir(follow_symlinks=False):
+                        if entry.path == self.remote_dir.util_dir:
+                            continue
+                        elif entry.is_dir(follow_symlinks=False):
                             shutil.rmtree(entry.path)
                         else:
                             os.remove(entry.path)
+                    shutil.rmtree(self.remote_dir.util_dir)
                 except FileNotFoundError:
                     pass
 
-- 
2.43.0


From 5536775778f436a533aa46cad66f985d4497ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 21/88] fix: resetting a profile overwrites unsynced local
 files

Local files which had been modified since the last sync, or which hadn't been
synced at all, were replaced with outdated remote files with the same path.
Merge them the same way that a sync does.
---
 zielen/commands/reset.py | 45 +++++++++++++++++++++++++++++++++++++++-
 zielen/filelogic.py      |  6 +++---
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 435a9d4..2cc5f2a 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -19,10 +19,12 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 import os
 import shutil
+from typing import Set
 
 from zielen.exceptions import (
     RemoteError, AvailableSpaceError, FileTransferError)
 from zielen.fstools import transfer_tree
+from zielen.filelogic import FilesManager
 from zielen.commandbase import Command, unlock
 
 
@@ -59,6 +61,11 @@ class ResetCommand(Command):
                 raise AvailableSpaceError(
                     "not enough local space to accommodate remote files")
 
+            # Local files which have been modified since the last sync must not
+            # be overwritten with outdated remote files.
+            fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
+            exclude_paths = self._merge_local(fm)
+
             # Retrieve remote files. They are not removed from the remote
             # directory until they have all been retrieved.
             remote_paths = self.remote_dir.scan_paths().keys()
@@ -66,6 +73,7 @@ class ResetCommand(Command):
                 transfer_tree(
                     self.remote_dir.safe_path, self.local_dir.path,
                     files=remote_paths,
+                    exclude=exclude_paths,
                     message="Retrieving files...")
                 os.stat(self.remote_dir.util_dir)
             except FileNotFoundError:
@@ -108,7 +116,7 @@ class ResetCommand(Command):
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
         local_symlinks = self.local_dir.scan_paths(
-            files=False, dirs=False).keys()
+            files=False, dirs=False, memoize=False).keys()
         for rel_path in local_symlinks:
             full_path = os.path.join(self.local_dir.path, rel_path)
             link_dest = os.readlink(full_path)
@@ -121,3 +129,38 @@ class ResetCommand(Command):
 
         self.remote_dir.rm_exclude_file(self.profile.id)
         shutil.rmtree(self.profile.path)
+
+    def _merge_local(self, fm: FilesManager) -> Set[str]:
+        """Merge unsynced local files with remote files of the same path.
+
+        This handles sync conflicts, and then updates the remote directory with
+        the local files that would have been overwritten otherwise.
+
+        Args:
+            fm: A FilesManager object for the current profile.
+
+        Returns:
+            The relative paths of remote files that must not be retrieved.
+        """
+        fm.forget_missing()
+        mod_paths = fm.compute_modified()
+        new_paths = fm.compute_added()
+        local_paths = mod_paths.local | new_paths.local
+        remote_paths = mod_paths.remote | new_paths.remote
+
+        # The remote versions of these files would be lost if the remote
+        # directory is removed.
+        excluded_paths = fm.get_unsynced_excluded()
+        if not self.keep_remote:
+            local_paths |= excluded_paths
+            remote_paths |= excluded_paths
+            excluded_paths = set()
+
+        existing_paths = self.remote_dir.scan_paths().keys()
+        updated_paths = fm.handle_conflicts(
+            local_paths & existing_paths, remote_paths & existing_paths)
+        fm.update_remote(updated_paths.local)
+        self.remote_dir.write()
+        self.remote_dir.scan_paths(memoize=False)
+
+        return excluded_paths
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 0178e2e..a429f7b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -388,7 +388,7 @@ class FilesManager:
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
-                exclude=self._get_unsynced_excluded(),
+                exclude=self.get_unsynced_excluded(),
                 message="Updating local files...")
 
             # Files which are missing from the remote directory are skipped,
@@ -613,7 +613,7 @@ class FilesManager:
 
         return stale_paths
 
-    def _get_unsynced_excluded(self) -> Set[str]:
+    def get_unsynced_excluded(self) -> Set[str]:
         """Get excluded local files that don't come from the remote directory.
 
         These files are not in the local database. They have nothing to do with
@@ -650,7 +650,7 @@ class FilesManager:
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)}
-        new_remote_paths -= self._get_unsynced_excluded()
+        new_remote_paths -= self.get_unsynced_excluded()
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
-- 
2.43.0


From 350555286045a88e5e6b527428f03d705a6edaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 22/88] fix: an interrupted operation can truncate the profile
 info file

All subsequent operations on the profile would fail. The daemon would also crash
if it read the file while a sync was writing to it.
---
 zielen/containerbase.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index d2cca2e..b6ada74 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -105,9 +105,15 @@ class JSONFile:
             self.vals = json.load(file)
 
     def write(self) -> None:
-        """Write object to a file."""
-        with open(self.path, "w") as file:
+        """Write object to a file.
+
+        The file is replaced all at once, so it is never incomplete. It may be
+        written to by more than one process.
+        """
+        temp_path = "{0}.{1}".format(self.path, os.getpid())
+        with open(temp_path, "w") as file:
             json.dump(self.vals, file, indent=4)
+        os.replace(temp_path, self.path)
 
 
 class SyncDBFile:
-- 
2.43.0


From 4c3326e9dc13cdcc28b95d4ec3864a3dbe0594e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 23/88] fix: an init interrupted while generating the profile
 can't be run again

The profile had neither been initialized nor could the initialization be
resumed, and if its config file was missing then the other commands failed too.
---
 zielen/commandbase.py   |  2 +-
 zielen/commands/init.py |  7 ++++---
 zielen/containerbase.py | 18 +++++++++++++++++-
 zielen/profile.py       |  8 ++++----
 zielen/userdata.py      |  8 ++++----
 5 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 97c42a1..55f8a66 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -60,7 +60,7 @@ class Command(abc.ABC):
         self.profiles = {
             entry.name: Profile(entry.name)
             for entry in os.scandir(get_profiles_dir())
-            if entry.is_dir(follow_symlinks=False)}
+            if os.path.isfile(os.path.join(entry.path, "config"))}
         self.profile = None
         self.local_dir = None
         self.remote_dir = None
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3abb4ff..d4eabcc 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -93,10 +93,11 @@ class InitCommand(Command):
 
         atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
-        try:
+
+        # The config file is generated last. If it's missing, then an earlier
+        # initialization was interrupted before it could be resumed.
+        if os.path.isfile(self.profile.cfg_path):
             self.profile.read()
-        except FileNotFoundError:
-            pass
 
         # Check if the profile has already been initialized.
         if self.profile.status == "initialized":
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index b6ada74..2b29566 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -62,8 +62,10 @@ class ConfigFile:
     def write(self, template_path: str) -> None:
         """Generate a new config file based on the input file."""
         try:
+            # The file must never be incomplete.
+            temp_path = self.path + ".tmp"
             with open(template_path) as infile, open(
-                    self.path, "w") as outfile:
+                    temp_path, "w") as outfile:
                 for line in infile:
                     # Skip line if it is a comment.
                     new_line = line
@@ -80,6 +82,7 @@ class ConfigFile:
                                 + self.raw_vals.get(key, "")
                                 + "\n")
                     outfile.write(new_line)
+            os.replace(temp_path, self.path)
 
         except OSError:
             raise FileParseError("could not open the configuration file")
@@ -170,6 +173,19 @@ class SyncDBFile:
         """The database file exists and has been opened."""
         return self._conn is not None and os.path.isfile(self.path)
 
+    @property
+    def _is_complete(self) -> bool:
+        """The database contains all of its tables."""
+        if self._conn is None:
+            return False
+        self._cur.execute("""\
+            SELECT name
+            FROM sqlite_master
+            WHERE type = 'table'
+            AND name = 'collisions';
+            """)
+        return self._cur.fetchone() is not None
+
     @contextlib.contextmanager
     def _transact(self) -> Generator[None, None, None]:
         """Check if database file exists and commit the transaction on exit.
diff --git a/zielen/profile.py b/zielen/profile.py
index 03bbfd5..4408169 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -455,7 +455,7 @@ class ProfileDBFile(SyncDBFile):
         Raises:
             FileExistsError: The database file already exists.
         """
-        if os.path.isfile(self.path):
+        if self._is_complete:
             raise FileExistsError("the database file already exists")
 
         self._conn = sqlite3.connect(
@@ -472,7 +472,7 @@ class ProfileDBFile(SyncDBFile):
                 PRAGMA foreign_keys = ON;
                 PRAGMA journal_mode = WAL;
 
-                CREATE TABLE nodes (
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
@@ -481,7 +481,7 @@ class ProfileDBFile(SyncDBFile):
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
 
-                CREATE TABLE closure (
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -492,7 +492,7 @@ class ProfileDBFile(SyncDBFile):
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
 
-                CREATE TABLE collisions (
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
diff --git a/zielen/userdata.py b/zielen/userdata.py
index a2579fe..c1543fa 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -275,7 +275,7 @@ class RemoteDBFile(SyncDBFile):
         Raises:
             FileExistsError: The database file already exists.
         """
-        if os.path.isfile(self.path):
+        if self._is_complete:
             raise FileExistsError("the database file already exists")
 
         self._conn = sqlite3.connect(
@@ -291,7 +291,7 @@ class RemoteDBFile(SyncDBFile):
             self._cur.executescript("""\
                 PRAGMA foreign_keys = ON;
 
-                CREATE TABLE nodes (
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
@@ -299,7 +299,7 @@ class RemoteDBFile(SyncDBFile):
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
 
-                CREATE TABLE closure (
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -310,7 +310,7 @@ class RemoteDBFile(SyncDBFile):
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
 
-                CREATE TABLE collisions (
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
-- 
2.43.0


From b4c46f6f65f710787f9f3654540784a99374a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 24/88] fix: storage limits with lowercase units are accepted
 but crash

---
 zielen/profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 4408169..71e916c 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -223,13 +223,15 @@ class Profile:
         num, prefix, unit = re.findall(
             r"^([0-9]+)\s*([KMG])(B|iB)?$",
             self._cfg_file.vals["StorageLimit"], re.IGNORECASE)[0]
+        prefix = prefix.upper()
+        unit = unit.upper()
 
-        if unit == "iB" or not unit:
+        if unit == "IB" or not unit:
             base = 1024
         elif unit == "B":
             base = 1000
 
-        if prefix in ["k", "K"]:
+        if prefix == "K":
             exponent = 1
         elif prefix == "M":
             exponent = 2
-- 
2.43.0


From 67e17fc5c4fde74cef2688d4a5310127eafb1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 25/88] fix: boolean options that aren't in lowercase are
 always false

---
 zielen/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 71e916c..9cb09f2 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -261,9 +261,9 @@ class Profile:
 
     def _convert_bool(self, value: str) -> bool:
         """Convert a string to a bool."""
-        if value in self._cfg_file.TRUE_VALS:
+        if value.lower() in self._cfg_file.TRUE_VALS:
             return True
-        elif value in self._cfg_file.FALSE_VALS:
+        elif value.lower() in self._cfg_file.FALSE_VALS:
             return False
 
     @property
-- 
2.43.0


From 3e89de04bb23d731453d68ecdfbd661688f3a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 26/88] fix: the trash is never cleaned up if the cleanup
 period is zero

Only a negative number means that files are never deleted.
---
 zielen/commands/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 7bcae64..1e6f965 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -140,7 +140,7 @@ class SyncCommand(Command):
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-        if self.profile.cleanup_period:
+        if self.profile.cleanup_period is not None:
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-- 
2.43.0


From 00b2e368b0348539416232db2c8fd3967a7e9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 27/88] fix: boolean options with a blank value are false
 instead of the default

---
 zielen/profile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 9cb09f2..b1193a6 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -976,10 +976,10 @@ class ProfileConfigFile(ConfigFile):
     @DictProperty
     def vals(self, key: str) -> Any:
         """Get defaults if corresponding raw values are unset."""
-        if key in self.raw_vals:
-            return self.raw_vals[key]
-        elif key in self._defaults:
+        if key in self._defaults and not self.raw_vals.get(key):
             return self._defaults[key]
+        elif key in self.raw_vals:
+            return self.raw_vals[key]
 
     @vals.setter
     def vals(self, key: str, value: str) -> None:
-- 
2.43.0


From 0fd74e2ea5ba1598bfb6c642f43850028a8aa535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 28/88] fix: a priority half-life of zero is accepted but
 crashes the daemon

---
 zielen/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index b1193a6..59092f6 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -935,6 +935,8 @@ class ProfileConfigFile(ConfigFile):
         elif key == "PriorityHalfLife":
             if not re.search("^[0-9]+$", value):
                 return "must be an integer"
+            elif int(value) == 0:
+                return "must not be zero"
         elif key == "TrashCleanupPeriod":
             if not re.search(r"^-?[0-9]+$", value):
                 return "must be an integer"
-- 
2.43.0


From de9b7ba88664eaefe9d67c8c472e6c681b114acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 29/88] fix: the daemon doesn't notice options being removed
 from the config file

---
 zielen/containerbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2b29566..69844cc 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -48,6 +48,7 @@ class ConfigFile:
 
     def read(self) -> None:
         """Parse file for key-value pairs and save in a dictionary."""
+        raw_vals = {}
         try:
             with open(self.path) as file:
                 for line in file:
@@ -55,9 +56,10 @@ class ConfigFile:
                     if (not self.COMMENT_REGEX.search(line)
                             and self.SEPARATOR in line):
                         key, value = line.partition(self.SEPARATOR)[::2]
-                        self.raw_vals[key.strip()] = value.strip()
+                        raw_vals[key.strip()] = value.strip()
         except OSError:
             raise FileParseError("could not open the configuration file")
+        self.raw_vals = raw_vals
 
     def write(self, template_path: str) -> None:
         """Generate a new config file based on the input file."""
-- 
2.43.0


From eb2a2a6a24cda53963fdfdebdf1e31ade535bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 30/88] fix: profiles can't be selected by the path of their
 local directory

---
 zielen/commandbase.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 55f8a66..4e46cd1 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -28,7 +28,7 @@ import functools
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.profile import Profile
-from zielen.exceptions import InputError, StatusError
+from zielen.exceptions import InputError, StatusError, FileParseError
 
 
 def unlock(func):
@@ -86,10 +86,13 @@ class Command(abc.ABC):
         input_path = os.path.abspath(input_str)
         if os.path.exists(input_path):
             for name, profile in self.profiles.items():
-                if not profile.cfg.raw_vals:
-                    profile.cfg.read()
-                if os.path.samefile(
-                        input_path, profile.cfg.vals["LocalDir"]):
+                try:
+                    profile.read()
+                except FileParseError:
+                    # Only this profile can't be selected by its path.
+                    continue
+                if os.path.isdir(profile.local_path) and os.path.samefile(
+                        input_path, profile.local_path):
                     return profile
         raise InputError(
             "argument is not a profile name or local directory path")
-- 
2.43.0


From 8803f178924a164d4d68ba049c06aa5fb35d8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 31/88] fix: a local symlink or excluded file can be in the way
 of a remote directory

Files were written through unsafe local symlinks to outside of the local
directory, and every sync failed if an excluded local file had the same path as
a remote directory or vice versa.
---
 zielen/commands/reset.py | 11 ++++----
 zielen/filelogic.py      | 56 ++++++++++++++++++++++++++++------------
 zielen/fstools.py        | 15 ++++++++---
 3 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 2cc5f2a..97c6387 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -150,11 +150,12 @@ class ResetCommand(Command):
 
         # The remote versions of these files would be lost if the remote
         # directory is removed.
-        excluded_paths = fm.get_unsynced_excluded()
+        unsynced_paths = fm.get_unsynced()
         if not self.keep_remote:
-            local_paths |= excluded_paths
-            remote_paths |= excluded_paths
-            excluded_paths = set()
+            local_paths |= (
+                unsynced_paths & self.local_dir.scan_paths().keys())
+            remote_paths |= unsynced_paths
+            unsynced_paths = set()
 
         existing_paths = self.remote_dir.scan_paths().keys()
         updated_paths = fm.handle_conflicts(
@@ -163,4 +164,4 @@ class ResetCommand(Command):
         self.remote_dir.write()
         self.remote_dir.scan_paths(memoize=False)
 
-        return excluded_paths
+        return unsynced_paths
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index a429f7b..d108ee1 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,7 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import SyncDir, LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
-    files_match, is_symlink_to, is_unsafe_symlink, symlink_tree, transfer_tree,
+    files_match, is_symlink_into, is_unsafe_symlink, symlink_tree, transfer_tree,
     update_mtime)
 
 DeletedPaths = NamedTuple(
@@ -369,6 +369,7 @@ class FilesManager:
         update_paths = set(update_paths)
 
         stale_paths = self.compute_stale(update_paths)
+        unsynced_paths = self.get_unsynced()
 
         try:
             # Replace old, unneeded files to make room for new ones. They must
@@ -382,13 +383,15 @@ class FilesManager:
 
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-                self.remote_dir.get_paths(directory=False),
-                self.remote_dir.get_paths(directory=True))
+                self.remote_dir.get_paths(directory=False).keys()
+                - unsynced_paths,
+                self.remote_dir.get_paths(directory=True).keys()
+                - unsynced_paths)
 
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
-                exclude=self.get_unsynced_excluded(),
+                exclude=unsynced_paths,
                 message="Updating local files...")
 
             # Files which are missing from the remote directory are skipped,
@@ -613,20 +616,41 @@ class FilesManager:
 
         return stale_paths
 
-    def get_unsynced_excluded(self) -> Set[str]:
-        """Get excluded local files that don't come from the remote directory.
+    def get_unsynced(self) -> Set[str]:
+        """Get remote files with the same path as a local file not being synced.
+
+        Local files aren't synced if they are excluded or if they are unsafe
+        symlinks, unless they come from the remote directory. They have nothing
+        to do with a remote file that happens to have the same path.
 
-        These files are not in the local database. They have nothing to do with
-        files in the remote directory that have the same path.
+        Returns:
+            The relative paths of these remote files and all files under them.
         """
         exclude_matches = self.profile.all_exclude_matches(self.local_dir.path)
-        return {
-            path for path in self.local_dir.scan_paths(dirs=False).keys()
-            if path in exclude_matches
-            and not self.profile.get_path_info(path)
-            and not is_symlink_to(
-                os.path.join(self.local_dir.path, path),
-                os.path.join(self.remote_dir.safe_path, path))}
+        local_paths = self.local_dir.scan_paths().keys()
+        local_dirs = self.local_dir.scan_paths(
+            files=False, symlinks=False).keys()
+        remote_dirs = self.remote_dir.scan_paths(
+            files=False, symlinks=False).keys()
+
+        unsynced_paths = set()
+        for path in sorted(self.remote_dir.scan_paths().keys()):
+            if os.path.dirname(path) in unsynced_paths:
+                unsynced_paths.add(path)
+                continue
+            elif (path not in local_paths
+                    or path in local_dirs and path in remote_dirs
+                    or self.profile.get_path_info(path)):
+                continue
+
+            full_path = os.path.join(self.local_dir.path, path)
+            if is_symlink_into(full_path, self.remote_dir.safe_path):
+                continue
+            elif (path in exclude_matches
+                    or is_unsafe_symlink(full_path, self.local_dir.path)):
+                unsynced_paths.add(path)
+
+        return unsynced_paths
 
     def compute_added(self) -> UpdatedPaths:
         """Compute paths of files that have been added since the last sync.
@@ -650,7 +674,7 @@ class FilesManager:
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)}
-        new_remote_paths -= self.get_unsynced_excluded()
+        new_remote_paths -= self.get_unsynced()
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 6387842..2228355 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -291,9 +291,18 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
     return True
 
 
-def is_symlink_to(link_path: str, dest_path: str) -> bool:
-    """Check if a file is a symlink that points to the given path."""
-    return os.path.islink(link_path) and os.readlink(link_path) == dest_path
+def is_symlink_into(link_path: str, dir_path: str) -> bool:
+    """Check if a file is a symlink that points to a file in a directory.
+
+    Args:
+        link_path: The absolute path of the file to check.
+        dir_path: The absolute path of the directory.
+    """
+    if not os.path.islink(link_path):
+        return False
+    link_dest = os.path.join(
+        os.path.dirname(link_path), os.readlink(link_path))
+    return os.path.commonpath([link_dest, dir_path]) == dir_path
 
 
 def files_match(path_a: str, path_b: str) -> bool:
-- 
2.43.0


From 106de2e5f1ed2d791781bc475502ce7b4e56b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 32/88] fix: excluded files can be removed before a client has
 copied them

If a sync was interrupted, another client could remove newly excluded files from
the remote directory before they were copied to the local directory.
---
 zielen/commands/sync.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 1e6f965..9bd70c9 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -63,7 +63,6 @@ class SyncCommand(Command):
         self.setup_profile()
         self.remote_dir.check()
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
-        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
         # Remove anything that an interrupted sync has left behind. Other
         # clients may be syncing with the remote directory at the moment.
@@ -136,7 +135,11 @@ class SyncCommand(Command):
         # with symlinks.
         fm.update_local(selected_dirs | selected_files | remote_excluded_files)
 
-        # Remove excluded files that are still in the remote directory.
+        # Remove excluded files that are still in the remote directory. Other
+        # clients may do this as soon as they know that the files are excluded,
+        # so they must have been copied to the local directory first.
+        self.remote_dir.add_exclude_file(
+            self.profile.exclude_path, self.profile.id)
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-- 
2.43.0


From 4f9fb5595e3e36e422602943de4fcb1d51e90f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 33/88] fix: unsafe symlinks in the remote directory are synced

They were ignored when initializing a profile, but not when syncing it.
---
 zielen/filelogic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index d108ee1..d93bec8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -655,8 +655,8 @@ class FilesManager:
     def compute_added(self) -> UpdatedPaths:
         """Compute paths of files that have been added since the last sync.
 
-        This method excludes the paths of local symlinks that are absolute
-        or point to files outside the local directory. A file is considered
+        This method excludes the paths of symlinks that are absolute or point
+        to files outside the directory. A file is considered
         to be new if it is not in the local database.
 
         Returns:
@@ -673,7 +673,10 @@ class FilesManager:
             self.local_dir.path)
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
-            if not self.profile.get_path_info(path)}
+            if not self.profile.get_path_info(path)
+            and not is_unsafe_symlink(
+                os.path.join(self.remote_dir.path, path),
+                self.remote_dir.path)}
         new_remote_paths -= self.get_unsynced()
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
-- 
2.43.0


From 66dab507e3e02d675565a67fea2cd54f9e987cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 34/88] fix: special files in a sync directory make every sync
 fail

---
 zielen/fstools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 2228355..b7fc155 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -248,7 +248,8 @@ def symlink_tree(
 def scan_tree(path: str):
     """Recursively scan a directory tree and yield an os.DirEntry object.
 
-    Files that are still being created are skipped.
+    Files that are still being created are skipped, and so are special files
+    (e.g. sockets), which can't be copied.
 
     Args:
         path: The path of the directory to scan.
@@ -259,6 +260,9 @@ def scan_tree(path: str):
     for entry in os.scandir(path):
         if entry.name.startswith(TEMP_PREFIX):
             continue
+        elif not (entry.is_symlink() or entry.is_dir(follow_symlinks=False)
+                or entry.is_file(follow_symlinks=False)):
+            continue
         yield entry
         if entry.is_dir(follow_symlinks=False):
             yield from scan_tree(entry.path)
-- 
2.43.0


From de678b179104fc6c2fe8714934d1cc394af660fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 35/88] fix: files are lost if the remote directory is
 unmounted during a sync

They could be copied to the empty mountpoint and then be replaced with symlinks.
---
 zielen/filelogic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index d93bec8..f10212f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -432,6 +432,10 @@ class FilesManager:
                     self.local_dir.scan_paths(memoize=False).keys()
                     - update_paths),
                 message="Updating remote files...")
+
+            # The files must not be replaced in the local directory if the
+            # remote directory was unmounted.
+            os.stat(self.remote_dir.util_dir)
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
-- 
2.43.0


From 2b5c505e1570d95f5448f8a38bdae15c726bc438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 36/88] fix: all local files are deleted if the remote is
 unmounted during a sync

If the remote directory was unmounted just before it was scanned, all of its files
seemed to have been deleted. Once it was mounted again, the next sync removed
them from the remote directory as well.
---
 zielen/commands/sync.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 9bd70c9..f41eada 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -69,8 +69,11 @@ class SyncCommand(Command):
         rm_temp_files(self.local_dir.path)
         rm_temp_files(self.remote_dir.path, min_age=24*60*60)
 
-        # Sync deletions between the local and remote directories.
+        # Sync deletions between the local and remote directories. Make sure
+        # that the remote files aren't just missing because the remote directory
+        # was unmounted while it was being scanned.
         del_paths = fm.compute_deleted()
+        self.remote_dir.check()
         fm.rm_local_files(del_paths.local)
         fm.rm_remote_files(del_paths.remote)
         fm.trash_files(del_paths.trash)
-- 
2.43.0


From 6a7a743120314fab8c0ad747241cc680cd48e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 37/88] fix: a profile can be initialized with overlapping
 directories

The files were copied to the remote directory over and over again if it was
inside of the local directory, and were all lost if it was the other way around.
---
 zielen/commands/init.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index d4eabcc..f965eab 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -138,6 +138,11 @@ class InitCommand(Command):
             error_message = self._verify_local_dir(self.profile.local_path)
             if error_message:
                 raise InputError(error_message)
+            if os.path.commonpath([
+                    self.profile.local_path, self.profile.remote_path]) in [
+                        self.profile.local_path, self.profile.remote_path]:
+                raise InputError(
+                    "local directory overlaps with the remote directory")
             error_message = check_dir(
                 self.profile.remote_path, not self.add_remote)
             if error_message:
-- 
2.43.0


From 73d6d2fd5df51e959afa7f988b7faf3cd2d9942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 38/88] fix: changes made to local files during a sync are lost

Only files modified since the end of the last sync were considered to be
modified, so files modified after the local directory was scanned were
overwritten by the next sync, if not by the same one.
---
 zielen/commands/sync.py |  1 +
 zielen/filelogic.py     | 11 +++++--
 zielen/fstools.py       | 65 ++++++++++++++++++++++++++---------------
 zielen/profile.py       | 16 ++++++++++
 4 files changed, 67 insertions(+), 26 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index f41eada..815839c 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -152,5 +152,6 @@ class SyncCommand(Command):
         # The sync is now complete. Update the time of the last sync in the
         # info file.
         self.remote_dir.write()
+        self.profile.last_scan = fm.start_time
         self.profile.last_sync = time.time()
         self.profile.write()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index f10212f..496c407 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -174,10 +174,12 @@ class FilesManager:
         local_dir: A LocalSyncDir object for the local directory.
         remote_dir: A RemoteSyncDir object for the remote directory.
         profile: A Profile object for the current profile.
+        start_time: The time before which the directories have been scanned.
     """
     def __init__(
             self, local_dir: LocalSyncDir, remote_dir: RemoteSyncDir,
             profile: Profile) -> None:
+        self.start_time = time.time()
         self.local_dir = local_dir
         self.remote_dir = remote_dir
         self.profile = profile
@@ -379,7 +381,7 @@ class FilesManager:
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False).keys()
-                & stale_paths, [], overwrite=True)
+                & stale_paths, [], overwrite=True, keep_since=self.start_time)
 
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
@@ -392,6 +394,7 @@ class FilesManager:
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
                 exclude=unsynced_paths,
+                keep_since=self.start_time,
                 message="Updating local files...")
 
             # Files which are missing from the remote directory are skipped,
@@ -691,7 +694,8 @@ class FilesManager:
         This method excludes the paths of directories and the paths of files
         that are new since the last sync. A file is considered to be
         modified if its mtime is more recent than the time of the last sync
-        and it is in the database. Additionally, remote files are considered
+        and it is in the database. Local files may also have been modified
+        while the last sync was in progress. Additionally, remote files are considered
         to be modified if the time they were last updated by a sync (stored
         in the remote database) is more recent than the time of the last sync.
 
@@ -713,7 +717,8 @@ class FilesManager:
         # that are new since the last sync.
         local_mod_paths = {
             path for path, mtime in local_mtimes
-            if mtime > last_sync and self.profile.get_path_info(path)
+            if mtime > self.profile.last_scan
+            and self.profile.get_path_info(path)
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
         remote_mod_paths = {
diff --git a/zielen/fstools.py b/zielen/fstools.py
index b7fc155..05969c7 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -19,6 +19,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 import os
 import sys
+import stat
 import time
 import shutil
 import filecmp
@@ -35,20 +36,27 @@ PROGRESS_BAR_LENGTH = 0.35
 TEMP_PREFIX = ".zielen-tmp-"
 
 
-def copy_file(source: str, dest: str) -> None:
-    """Copy a file or symlink, preserving file metadata.
+def _replace_file(create, dest: str, keep_since: Optional[float]) -> None:
+    """Replace a file all at once.
 
-    Symlinks are not followed. The destination is replaced all at once, so it
-    is never missing or incomplete, even if the transfer is interrupted.
+    The destination is never missing or incomplete, even if the operation is
+    interrupted.
 
     Args:
-        source: The path of the file to copy.
-        dest: The path to copy the file to.
+        create: A function that creates the new file at the given path.
+        dest: The path of the file to replace.
+        keep_since: Don't replace regular files modified after this time.
     """
     temp_path = os.path.join(
         os.path.dirname(dest), TEMP_PREFIX + secure_string(8))
     try:
-        shutil.copy2(source, temp_path, follow_symlinks=False)
+        create(temp_path)
+        if keep_since is not None and os.path.lexists(dest):
+            stats = os.lstat(dest)
+            if (stat.S_ISREG(stats.st_mode)
+                    and keep_since < stats.st_mtime <= time.time()):
+                os.remove(temp_path)
+                return
         os.replace(temp_path, dest)
     except BaseException:
         if os.path.lexists(temp_path):
@@ -56,25 +64,32 @@ def copy_file(source: str, dest: str) -> None:
         raise
 
 
-def replace_with_symlink(source: str, dest: str) -> None:
+def copy_file(source: str, dest: str, keep_since=None) -> None:
+    """Copy a file or symlink, preserving file metadata.
+
+    Symlinks are not followed. The destination is replaced all at once.
+
+    Args:
+        source: The path of the file to copy.
+        dest: The path to copy the file to.
+        keep_since: Don't overwrite regular files modified after this time.
+    """
+    _replace_file(
+        lambda path: shutil.copy2(source, path, follow_symlinks=False),
+        dest, keep_since)
+
+
+def replace_with_symlink(source: str, dest: str, keep_since=None) -> None:
     """Replace an existing file with a symlink.
 
-    The destination is replaced all at once, so it is never missing, even if
-    the operation is interrupted.
+    The destination is replaced all at once.
 
     Args:
         source: The path that the symlink points to.
         dest: The path of the file to replace.
+        keep_since: Don't overwrite regular files modified after this time.
     """
-    temp_path = os.path.join(
-        os.path.dirname(dest), TEMP_PREFIX + secure_string(8))
-    try:
-        os.symlink(source, temp_path)
-        os.replace(temp_path, dest)
-    except BaseException:
-        if os.path.lexists(temp_path):
-            os.remove(temp_path)
-        raise
+    _replace_file(lambda path: os.symlink(source, path), dest, keep_since)
 
 
 def rm_temp_files(path: str, min_age=0) -> None:
@@ -99,7 +114,7 @@ def rm_temp_files(path: str, min_age=0) -> None:
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
-        message="", rm_source=False) -> None:
+        message="", rm_source=False, keep_since=None) -> None:
     """Recursively copy files, preserving file metadata.
 
     Existing files in the destination are overwritten. A progress bar is
@@ -116,6 +131,7 @@ def transfer_tree(
         message: A message to display opposite the progress bar. If None, the
             progress bar won't appear.
         rm_source: Remove source files once they are copied to the destination.
+        keep_since: Don't overwrite regular files modified after this time.
 
     Raises:
         FileNotFoundError: The source or destination files couldn't be found.
@@ -166,7 +182,7 @@ def transfer_tree(
             if os.path.isdir(source_path) and not os.path.islink(source_path):
                 os.makedirs(dest_path, exist_ok=True)
             else:
-                copy_file(source_path, dest_path)
+                copy_file(source_path, dest_path, keep_since)
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
@@ -190,7 +206,8 @@ def transfer_tree(
 
 def symlink_tree(
         src_dir: str, dest_dir: str, src_files: Iterable[str],
-        src_dirs: Iterable[str], overwrite=False) -> Set[str]:
+        src_dirs: Iterable[str], overwrite=False,
+        keep_since=None) -> Set[str]:
     """Recursively copy a directory as a tree of symlinks.
 
     This function does not look in the source directory. Instead, the caller
@@ -208,6 +225,7 @@ def symlink_tree(
             destination.
         overwrite: Overwrite existing files in the destination directory
             with symlinks.
+        keep_since: Don't overwrite regular files modified after this time.
 
     Returns:
         A set of relative paths of files and directories that have been created
@@ -237,7 +255,8 @@ def symlink_tree(
                 os.symlink(full_src_path, full_dest_path)
             except FileExistsError:
                 if overwrite:
-                    replace_with_symlink(full_src_path, full_dest_path)
+                    replace_with_symlink(
+                        full_src_path, full_dest_path, keep_since)
                     new_paths.add(src_path)
             else:
                 new_paths.add(src_path)
diff --git a/zielen/profile.py b/zielen/profile.py
index 59092f6..b4db1d4 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -165,6 +165,21 @@ class Profile:
     def last_sync(self, value: float) -> None:
         self._info_file.vals["LastSync"] = self._convert_timestamp(value)
 
+    @property
+    def last_scan(self) -> float:
+        """The time at which the last sync started in epoch time.
+
+        Changes made to local files after this time weren't synced.
+        """
+        if self._info_file.vals.get("LastScan"):
+            return self._convert_epoch(self._info_file.vals["LastScan"])
+        else:
+            return self.last_sync
+
+    @last_scan.setter
+    def last_scan(self, value: float) -> None:
+        self._info_file.vals["LastScan"] = self._convert_timestamp(value)
+
     @property
     def last_adjust(self) -> float:
         """The time of the last priority adjustment in epoch time."""
@@ -434,6 +449,7 @@ class ProfileInfoFile(JSONFile):
         self.vals.update({
             "Status": "partial",
             "LastSync": None,
+            "LastScan": None,
             "LastAdjust": None,
             "Version": version,
             "ID": unique_id,
-- 
2.43.0


From aef767a971f527d1ce1208923591f0693b76894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 39/88] fix: local files in a directory called '.zielen' are
 mixed up with program files

---
 zielen/filelogic.py |  1 +
 zielen/userdata.py  | 27 ++++++++++-----------------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 496c407..58d9535 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -488,6 +488,7 @@ class FilesManager:
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
+                files=self.local_dir.scan_paths().keys(),
                 exclude=(
                     self.profile.all_exclude_matches(self.local_dir.path)
                     | unsafe_symlinks),
diff --git a/zielen/userdata.py b/zielen/userdata.py
index c1543fa..3960e75 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -37,8 +37,12 @@ class SyncDir:
     """Perform operations on a sync directory.
 
     Attributes:
+        UTIL_NAME: The name of the directory containing special program files.
+            Local files with this name must not be synced either, or they would
+            end up among the program files in the remote directory.
         path: The directory path without a trailing slash.
     """
+    UTIL_NAME = ".zielen"
 
     def __init__(self, path: str) -> None:
         self.path = path.rstrip(os.sep)
@@ -49,9 +53,9 @@ class SyncDir:
             memoize=True, lookup=True) -> Dict[str, os.stat_result]:
         """Get the paths and stats of files in the directory.
 
-        Symlinks are not followed. Directory paths and their os.stat_result
-        objects are cached so that the filesystem is not scanned each time the
-        method is called.
+        Symlinks are not followed and the util directory is always excluded.
+        Directory paths and their os.stat_result objects are cached so that the
+        filesystem is not scanned each time the method is called.
 
         Args:
             rel: Return relative file paths.
@@ -86,6 +90,8 @@ class SyncDir:
             for entry in scan_tree(self.path):
                 # Computing the relative path is expensive to do each time.
                 rel_path = os.path.relpath(entry.path, self.path)
+                if rel_path.split(os.sep)[0] == self.UTIL_NAME:
+                    continue
                 self._sub_entries.append((entry, rel_path))
 
         for entry, rel_path in self._sub_entries:
@@ -152,7 +158,7 @@ class RemoteSyncDir(SyncDir):
     """
     def __init__(self, path: str) -> None:
         super().__init__(path)
-        self.util_dir = os.path.join(self.path, ".zielen")
+        self.util_dir = os.path.join(self.path, self.UTIL_NAME)
         self.safe_path = os.path.normpath(os.path.join(self.util_dir, ".."))
         self.trash_dir = os.path.join(self.util_dir, "Trash")
         self._exclude_dir = os.path.join(self.util_dir, "exclude")
@@ -244,19 +250,6 @@ class RemoteSyncDir(SyncDir):
 
         return rm_files
 
-    def scan_paths(
-            self, rel=True, files=True, symlinks=True, dirs=True, exclude=None,
-            memoize=True, lookup=True):
-        """Extend parent method to automatically exclude the util directory."""
-        rel_util_path = os.path.relpath(self.util_dir, self.path)
-        output = super().scan_paths(
-            rel=rel, files=files, symlinks=symlinks, dirs=dirs,
-            exclude=exclude, memoize=memoize)
-        output = {
-            path: stats for path, stats in output.items()
-            if os.path.commonpath((path, rel_util_path)) != rel_util_path}
-        return output
-
 
 class RemoteDBFile(SyncDBFile):
     """Manipulate the remote file database.
-- 
2.43.0


From 509ef994459b7b115b8a1ff07c62e93d4b876b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 40/88] fix: exclude patterns for missing directories crash
 every sync

---
 zielen/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index b4db1d4..de01ed7 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -381,6 +381,10 @@ class ProfileExcludeFile:
                 glob_str = os.path.join(glob.escape(start_path), "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
+                # A pattern like 'dir/**' also yields 'dir/' if there is no
+                # such directory.
+                if not os.path.lexists(match_path):
+                    continue
                 rel_match_path = os.path.relpath(match_path, start_path)
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
-- 
2.43.0


From fb3d9edf3abd36d28336e0420ffb91067ec5cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 41/88] fix: unsafe symlinks in the remote directory are copied
 along with the directory that contains them

---
 zielen/filelogic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 58d9535..4aa7755 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -371,7 +371,11 @@ class FilesManager:
         update_paths = set(update_paths)
 
         stale_paths = self.compute_stale(update_paths)
-        unsynced_paths = self.get_unsynced()
+
+        # Directories may contain files that must not be synced.
+        unsynced_paths = self.get_unsynced() | (
+            self.remote_dir.scan_paths(memoize=False).keys()
+            - self.profile.get_paths().keys())
 
         try:
             # Replace old, unneeded files to make room for new ones. They must
-- 
2.43.0


From eb4fada4ec546d71ebdd187f191bf2f2f7c5283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 42/88] fix: removing excluded directories from the remote
 directory deletes files that are not synced

---
 zielen/filelogic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 4aa7755..9e7e986 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -937,6 +937,11 @@ class FilesManager:
         rm_paths = self.remote_dir.check_excluded(
             excluded_paths, self.local_dir.path)
         rm_paths &= self.remote_dir.get_paths().keys()
+
+        # Don't remove anything that hasn't been copied to the local directory.
+        rm_paths -= self.get_unsynced()
+        rm_paths -= self._get_parents(
+            self.remote_dir.scan_paths(memoize=False).keys() - rm_paths)
         self.rm_remote_files(rm_paths)
 
     def trash_files(self, paths: Iterable[str]) -> None:
-- 
2.43.0


From d708c03dcde9424e6389ece159f58d8a4f1b8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 43/88] fix: sync crashes or leaves the directory when a
 deleted file's parent was replaced in the other directory

---
 zielen/filelogic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9e7e986..93d5203 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -776,6 +776,10 @@ class FilesManager:
         local_del_paths -= self._get_parents(local_paths - local_del_paths)
         remote_del_paths -= self._get_parents(remote_paths - remote_del_paths)
 
+        # Files can't be deleted if they don't exist.
+        local_del_paths &= local_paths
+        remote_del_paths &= remote_paths
+
         # Don't include the files under selected directories.
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
-- 
2.43.0


From c5a58a33a98907dab75db07bc6c10e0c89a2ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 44/88] fix: a file that was replaced by a directory is still
 marked as a file in the remote database

---
 zielen/commands/sync.py |  2 +-
 zielen/filelogic.py     | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 815839c..1fa901d 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -101,7 +101,7 @@ class SyncCommand(Command):
         new_dir_paths = (new_paths.all & dir_paths)
         if self.profile.inflate_priority:
             self.profile.add_inflated(new_local_files, new_local_dirs)
-        self.remote_dir.add_paths(new_file_paths, new_dir_paths)
+        fm.add_remote_paths(new_file_paths, new_dir_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
 
         # Handle syncing conflicts.
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 93d5203..b25194f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -464,7 +464,7 @@ class FilesManager:
             files=False, symlinks=False).keys()
 
         self.profile.add_paths(remote_files, remote_dirs, local=False)
-        self.remote_dir.add_paths(remote_files, remote_dirs)
+        self.add_remote_paths(remote_files, remote_dirs)
 
         # Overwrite local files with symlinks to the corresponding files in the
         # remote dir.
@@ -474,6 +474,24 @@ class FilesManager:
             self.profile.get_paths(directory=True),
             overwrite=True)
 
+    def add_remote_paths(
+            self, files: Iterable[str], dirs: Iterable[str]) -> None:
+        """Add new files to the remote database.
+
+        Other clients may have added a file with the same path as a directory
+        before it was replaced or vice versa.
+
+        Args:
+            files: The paths of regular files to add to the database.
+            dirs: The paths of directories to add to the database.
+        """
+        files = set(files)
+        dirs = set(dirs)
+        self.remote_dir.rm_paths(
+            self.remote_dir.get_paths(directory=True).keys() & files
+            | self.remote_dir.get_paths(directory=False).keys() & dirs)
+        self.remote_dir.add_paths(files, dirs)
+
     def setup_from_local(self) -> None:
         """Copy initial local files to remote directory and symlink back."""
         unsafe_symlinks = {
-- 
2.43.0


From 14a1b26eab97eec29374a68993e6e7f2e475bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 45/88] fix: replacing an excluded directory with a file
 removes it from the remote database

---
 zielen/filelogic.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index b25194f..a1933d2 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -21,7 +21,7 @@ import os
 import copy
 import time
 import shutil
-from typing import Iterable, Tuple, Set, NamedTuple
+from typing import Iterable, Tuple, Set, NamedTuple, Union
 
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
@@ -782,12 +782,14 @@ class FilesManager:
         # Compute files that need to be deleted. A file that was deleted from
         # one directory isn't deleted from the other if it was modified there.
         local_del_paths = (
-            (known_paths - remote_paths | self._get_replaced(self.remote_dir))
+            (known_paths - remote_paths
+                | self._get_replaced(self.remote_dir, self.profile))
             - mod_paths.local)
         local_del_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
         remote_del_paths = (
-            (known_paths - local_paths | self._get_replaced(self.local_dir))
+            (known_paths - local_paths
+                | self._get_replaced(self.local_dir, self.profile))
             - mod_paths.remote)
 
         # Directories can't be deleted if they still contain other files.
@@ -824,16 +826,20 @@ class FilesManager:
         return set(get_path_ancestry(
             {os.path.dirname(path) for path in paths} - {""}))
 
-    def _get_replaced(self, sync_dir: SyncDir) -> Set[str]:
+    @staticmethod
+    def _get_replaced(
+            sync_dir: SyncDir, database: Union[Profile, RemoteSyncDir]
+            ) -> Set[str]:
         """Get files replaced by directories since the last sync or vice versa.
 
         Args:
             sync_dir: The directory to look for replaced files in.
+            database: The object used to look up the files.
         """
         dir_paths = sync_dir.scan_paths(files=False, symlinks=False).keys()
         return {
             path for path in sync_dir.scan_paths().keys()
-            for path_info in [self.profile.get_path_info(path)]
+            for path_info in [database.get_path_info(path)]
             if path_info and path_info.directory != (path in dir_paths)}
 
     def forget_missing(self) -> None:
@@ -847,15 +853,16 @@ class FilesManager:
         local_paths = self.local_dir.scan_paths(memoize=False).keys()
         remote_paths = self.remote_dir.scan_paths(memoize=False).keys()
 
-        replaced_paths = (
-            self._get_replaced(self.local_dir)
-            | self._get_replaced(self.remote_dir))
         self.profile.rm_paths(
             self.profile.get_paths().keys() - (local_paths & remote_paths)
-            | replaced_paths)
+            | self._get_replaced(self.local_dir, self.profile)
+            | self._get_replaced(self.remote_dir, self.profile))
+
+        # Other clients may still sync files that have been replaced in the
+        # local directory.
         self.remote_dir.rm_paths(
             self.remote_dir.get_paths().keys() - remote_paths
-            | replaced_paths)
+            | self._get_replaced(self.remote_dir, self.remote_dir))
 
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
-- 
2.43.0


From 20f1a38d3b9a19710c055ec4ff3c2ade69270cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 46/88] fix: replacing a file with a directory makes other
 clients report its contents as modified

---
 zielen/filelogic.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index a1933d2..8ff3581 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -914,7 +914,7 @@ class FilesManager:
                 raise
 
     def _rm_files(self, paths: Iterable[str], parent_dir: str) -> None:
-        """Delete files and remove them from both databases.
+        """Delete files.
 
         Args:
             paths: The relative paths of files to remove.
@@ -930,14 +930,11 @@ class FilesManager:
                 # This could happen if a previous sync was interrupted.
                 pass
 
-        self.profile.rm_paths(paths)
-        self.remote_dir.rm_paths(paths)
-
     def rm_local_files(self, paths: Iterable[str]) -> None:
-        """Delete local files and remove them from both databases.
+        """Delete local files and remove them from the local database.
 
-        If the files are excluded, don't delete them, but still remove them
-        from both databases.
+        If the files are excluded, don't delete them. Files that have been
+        replaced in the remote directory stay in the remote database.
 
         Args:
             paths: The relative paths of files to remove.
@@ -945,6 +942,7 @@ class FilesManager:
         paths = set(paths)
         paths -= self.profile.all_exclude_matches(self.local_dir.path)
         self._rm_files(paths, self.local_dir.path)
+        self.profile.rm_paths(paths)
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
@@ -952,7 +950,10 @@ class FilesManager:
         Args:
             paths: The relative paths of files to remove.
         """
+        paths = set(paths)
         self._rm_files(paths, self.remote_dir.path)
+        self.profile.rm_paths(paths)
+        self.remote_dir.rm_paths(paths)
 
     def rm_excluded_files(self, excluded_paths: Iterable[str]) -> None:
         """Remove excluded files from the remote directory.
-- 
2.43.0


From a20e932c819a9021ea58ae25b0a18f13e64b1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 47/88] fix: special files and symlinks out of the directory
 are mistaken for directories of files that sync

---
 zielen/filelogic.py | 51 ++++++++++++++++++++++++++++++++++++++-------
 zielen/fstools.py   | 13 ++++++++++++
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8ff3581..24d9c08 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,8 +28,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import SyncDir, LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
-    files_match, is_symlink_into, is_unsafe_symlink, symlink_tree, transfer_tree,
-    update_mtime)
+    files_match, is_special_file, is_symlink_into, is_unsafe_symlink,
+    symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -650,8 +650,9 @@ class FilesManager:
         """Get remote files with the same path as a local file not being synced.
 
         Local files aren't synced if they are excluded or if they are unsafe
-        symlinks, unless they come from the remote directory. They have nothing
-        to do with a remote file that happens to have the same path.
+        symlinks, unless they come from the remote directory, or if they are
+        special files (e.g. sockets). They have nothing to do with a remote file
+        that happens to have the same path.
 
         Returns:
             The relative paths of these remote files and all files under them.
@@ -668,12 +669,16 @@ class FilesManager:
             if os.path.dirname(path) in unsynced_paths:
                 unsynced_paths.add(path)
                 continue
-            elif (path not in local_paths
-                    or path in local_dirs and path in remote_dirs
+
+            full_path = os.path.join(self.local_dir.path, path)
+            if path not in local_paths:
+                if is_special_file(full_path):
+                    unsynced_paths.add(path)
+                continue
+            elif (path in local_dirs and path in remote_dirs
                     or self.profile.get_path_info(path)):
                 continue
 
-            full_path = os.path.join(self.local_dir.path, path)
             if is_symlink_into(full_path, self.remote_dir.safe_path):
                 continue
             elif (path in exclude_matches
@@ -682,6 +687,37 @@ class FilesManager:
 
         return unsynced_paths
 
+    def _get_blocked(self, paths: Iterable[str]) -> Set[str]:
+        """Get local files that can't be copied to the remote directory.
+
+        Unsafe symlinks and special files in the remote directory aren't synced,
+        but there can't be a directory with the same path. Unsafe symlinks must
+        not be followed.
+
+        Args:
+            paths: The relative paths of local files to check.
+
+        Returns:
+            The subset of the input paths that are in the place of such a file
+            or under it.
+        """
+        local_dirs = self.local_dir.scan_paths(
+            files=False, symlinks=False).keys()
+        parent_dirs = self._get_parents(paths) | (set(paths) & local_dirs)
+
+        blocked_dirs = set()
+        for path in sorted(parent_dirs):
+            full_path = os.path.join(self.remote_dir.safe_path, path)
+            if (os.path.dirname(path) in blocked_dirs
+                    or is_special_file(full_path)
+                    or is_unsafe_symlink(
+                        full_path, self.remote_dir.safe_path)):
+                blocked_dirs.add(path)
+
+        return {
+            path for path in paths
+            if path in blocked_dirs or os.path.dirname(path) in blocked_dirs}
+
     def compute_added(self) -> UpdatedPaths:
         """Compute paths of files that have been added since the last sync.
 
@@ -701,6 +737,7 @@ class FilesManager:
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
         new_local_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
+        new_local_paths -= self._get_blocked(new_local_paths)
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 05969c7..59d0065 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -328,6 +328,19 @@ def is_symlink_into(link_path: str, dir_path: str) -> bool:
     return os.path.commonpath([link_dest, dir_path]) == dir_path
 
 
+def is_special_file(path: str) -> bool:
+    """Check if a file is neither a regular file, directory nor symlink.
+
+    Args:
+        path: The absolute path of the file to check. It may not exist.
+    """
+    try:
+        mode = os.lstat(path).st_mode
+    except (FileNotFoundError, NotADirectoryError):
+        return False
+    return not (stat.S_ISREG(mode) or stat.S_ISDIR(mode) or stat.S_ISLNK(mode))
+
+
 def files_match(path_a: str, path_b: str) -> bool:
     """Check if two files have the same contents.
 
-- 
2.43.0


From 5b30f312951648f3d8bd184615cacf7649909b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 48/88] fix: a symlink that points to itself in place of a
 remote directory crashes the sync

---
 zielen/fstools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 59d0065..c6a5aca 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -336,7 +336,8 @@ def is_special_file(path: str) -> bool:
     """
     try:
         mode = os.lstat(path).st_mode
-    except (FileNotFoundError, NotADirectoryError):
+    except OSError:
+        # The file does not exist or its parent directory is a broken symlink.
         return False
     return not (stat.S_ISREG(mode) or stat.S_ISDIR(mode) or stat.S_ISLNK(mode))
 
-- 
2.43.0


From a26bc05549d40803121603e151a6b0f57050de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 49/88] fix: files are lost if the file behind a local symlink
 became a directory

---
 zielen/filelogic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 24d9c08..b8e8129 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -887,9 +887,17 @@ class FilesManager:
         files that have been replaced by directories and vice versa. This scans
         both directories again.
         """
-        local_paths = self.local_dir.scan_paths(memoize=False).keys()
         remote_paths = self.remote_dir.scan_paths(memoize=False).keys()
 
+        # A symlink to a remote file that has been replaced by a directory is
+        # not a local file. It must not be in the way of that directory.
+        for path in self.remote_dir.scan_paths(files=False, symlinks=False):
+            full_path = os.path.join(self.local_dir.path, path)
+            if is_symlink_into(full_path, self.remote_dir.safe_path):
+                os.remove(full_path)
+
+        local_paths = self.local_dir.scan_paths(memoize=False).keys()
+
         self.profile.rm_paths(
             self.profile.get_paths().keys() - (local_paths & remote_paths)
             | self._get_replaced(self.local_dir, self.profile)
-- 
2.43.0


From 82e56156b9b66ffcb3bc2fe1ae943f9375356175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 50/88] fix: known files can be missing from the remote
 database

---
 zielen/filelogic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index b8e8129..83c782b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -909,6 +909,14 @@ class FilesManager:
             self.remote_dir.get_paths().keys() - remote_paths
             | self._get_replaced(self.remote_dir, self.remote_dir))
 
+        # A file that another client has replaced may have been replaced again
+        # since, so that it looks unchanged to this client.
+        missing_paths = (
+            self.profile.get_paths().keys() - self.remote_dir.get_paths().keys())
+        self.add_remote_paths(
+            missing_paths & self.profile.get_paths(directory=False).keys(),
+            missing_paths & self.profile.get_paths(directory=True).keys())
+
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
             parent_dir: str) -> None:
-- 
2.43.0


From 14559672e3fb8add2df39b59b44c9f3e68a6e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 51/88] fix: symlinks to special files crash the sync

---
 zielen/fstools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index c6a5aca..5b65b38 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -74,9 +74,15 @@ def copy_file(source: str, dest: str, keep_since=None) -> None:
         dest: The path to copy the file to.
         keep_since: Don't overwrite regular files modified after this time.
     """
-    _replace_file(
-        lambda path: shutil.copy2(source, path, follow_symlinks=False),
-        dest, keep_since)
+    def create(path: str) -> None:
+        # The target of a symlink may be a special file.
+        if os.path.islink(source):
+            os.symlink(os.readlink(source), path)
+            shutil.copystat(source, path, follow_symlinks=False)
+        else:
+            shutil.copy2(source, path, follow_symlinks=False)
+
+    _replace_file(create, dest, keep_since)
 
 
 def replace_with_symlink(source: str, dest: str, keep_since=None) -> None:
-- 
2.43.0


From d6f22d71579cc4f0771bd912782e314cb36db8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 52/88] fix: a directory in place of a file that was deleted
 elsewhere is deleted too

---
 zielen/filelogic.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 83c782b..390c223 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -816,18 +816,20 @@ class FilesManager:
         known_paths = self.profile.get_paths().keys()
         mod_paths = self.compute_modified()
 
+        local_replaced = self._get_replaced(self.local_dir, self.profile)
+        remote_replaced = self._get_replaced(self.remote_dir, self.profile)
+
         # Compute files that need to be deleted. A file that was deleted from
-        # one directory isn't deleted from the other if it was modified there.
+        # one directory isn't deleted from the other if it was modified there
+        # or replaced by something else.
         local_del_paths = (
-            (known_paths - remote_paths
-                | self._get_replaced(self.remote_dir, self.profile))
-            - mod_paths.local)
+            (known_paths - remote_paths | remote_replaced)
+            - mod_paths.local - local_replaced)
         local_del_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
         remote_del_paths = (
-            (known_paths - local_paths
-                | self._get_replaced(self.local_dir, self.profile))
-            - mod_paths.remote)
+            (known_paths - local_paths | local_replaced)
+            - mod_paths.remote - remote_replaced)
 
         # Directories can't be deleted if they still contain other files.
         local_del_paths -= self._get_parents(local_paths - local_del_paths)
-- 
2.43.0


From a4146a8153c471e163dd8580c09b9544a09fed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 53/88] fix: files can end up in an empty mount point

---
 zielen/filelogic.py |  4 ++--
 zielen/fstools.py   | 30 ++++++++++++++++++++++++++----
 zielen/userdata.py  |  2 ++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 390c223..8cd7aec 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -433,7 +433,7 @@ class FilesManager:
         update_paths = set(update_paths)
         try:
             transfer_tree(
-                self.local_dir.path, self.remote_dir.safe_path,
+                self.local_dir.path, self.remote_dir.write_path,
                 files=update_paths,
                 exclude=(
                     self.local_dir.scan_paths(memoize=False).keys()
@@ -509,7 +509,7 @@ class FilesManager:
 
         try:
             transfer_tree(
-                self.local_dir.path, self.remote_dir.safe_path,
+                self.local_dir.path, self.remote_dir.write_path,
                 files=self.local_dir.scan_paths().keys(),
                 exclude=(
                     self.profile.all_exclude_matches(self.local_dir.path)
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 5b65b38..ca54e77 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -26,7 +26,8 @@ import filecmp
 import tempfile
 from typing import Iterable, Optional, Set
 
-from zielen.utils import shell_cmd, secure_string, ProgressBar
+from zielen.utils import (
+    get_path_ancestry, shell_cmd, secure_string, ProgressBar)
 from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
@@ -118,6 +119,22 @@ def rm_temp_files(path: str, min_age=0) -> None:
                 pass
 
 
+def _make_dirs(parent: str, path: str) -> None:
+    """Create a directory and all of its parents that don't exist yet.
+
+    Args:
+        parent: The path of an existing directory, which is never created.
+        path: The path of the directory to create, relative to parent.
+    """
+    for dir_path in reversed(get_path_ancestry([path] if path else [])):
+        full_path = os.path.join(parent, dir_path)
+        try:
+            os.mkdir(full_path)
+        except FileExistsError:
+            if not os.path.isdir(full_path):
+                raise
+
+
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
         message="", rm_source=False, keep_since=None) -> None:
@@ -182,11 +199,16 @@ def transfer_tree(
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
 
-    for source_path, dest_path in zip(source_paths, dest_paths):
-        os.makedirs(os.path.dirname(dest_path), exist_ok=True)
+    # The destination may be a path that must not be created because it doesn't
+    # exist if the destination is unmounted.
+    os.makedirs(os.path.normpath(dest), exist_ok=True)
+
+    for rel_path, source_path, dest_path in zip(
+            rel_paths, source_paths, dest_paths):
+        _make_dirs(dest, os.path.dirname(rel_path))
         try:
             if os.path.isdir(source_path) and not os.path.islink(source_path):
-                os.makedirs(dest_path, exist_ok=True)
+                _make_dirs(dest, rel_path)
             else:
                 copy_file(source_path, dest_path, keep_since)
         except PermissionError:
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 3960e75..7a7df36 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -151,6 +151,7 @@ class RemoteSyncDir(SyncDir):
         safe_path: Defined relative to util_dir in order to prevent access when
             util_dir is missing. The keeps files from being moved into an empty
             mountpoint.
+        write_path: The same as safe_path, but it really contains util_dir.
         trash_dir: The path of the remote trash directory.
         _exclude_dir: The path of the directory containing copies of each client's
             exclude pattern file.
@@ -160,6 +161,7 @@ class RemoteSyncDir(SyncDir):
         super().__init__(path)
         self.util_dir = os.path.join(self.path, self.UTIL_NAME)
         self.safe_path = os.path.normpath(os.path.join(self.util_dir, ".."))
+        self.write_path = os.path.join(self.util_dir, "..")
         self.trash_dir = os.path.join(self.util_dir, "Trash")
         self._exclude_dir = os.path.join(self.util_dir, "exclude")
         self._db_file = RemoteDBFile(os.path.join(self.util_dir, "remote.db"))
-- 
2.43.0


From 44901346de3e02cab21a69519d4605b572925547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 54/88] fix: new directories get a priority of their own

When priorities are inflated, new local directories were given the highest
priority of all files, even if they are empty. The priority of a directory is
the sum of the priorities of the files that it contains.
---
 zielen/profile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index de01ed7..3d9e8ff 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -667,7 +667,10 @@ class ProfileDBFile(SyncDBFile):
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-        self.add_paths(files, dirs, priority=max_priority)
+
+        # The priority of a directory comes from the files that it contains.
+        self.add_paths([], dirs)
+        self.add_paths(files, [], priority=max_priority)
 
     def update_paths(
             self, paths: Iterable[str], directory=None, priority=None,
-- 
2.43.0


From d2948bc3463bf02ea7118cbc1c04330baaa0b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 55/88] fix: resuming an initialization leaves files out of the
 database

---
 zielen/filelogic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8cd7aec..aa0a670 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -521,7 +521,13 @@ class FilesManager:
             else:
                 raise
 
-        self._setup_dir(unsafe_symlinks)
+        # If an interrupted initialization is being resumed, then some files
+        # have already been overwritten with symlinks.
+        self._setup_dir({
+            link_path for link_path in unsafe_symlinks
+            if not is_symlink_into(
+                os.path.join(self.local_dir.path, link_path),
+                self.remote_dir.safe_path)})
 
     def setup_from_remote(self) -> None:
         """Symlink initial remote files to the local directory."""
-- 
2.43.0


From c434e422074052bd1cae366da1ccd95ac53e52d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 56/88] fix: temporary files stay in the local directory after
 a reset

---
 zielen/commands/reset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 97c6387..ff0798f 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -23,7 +23,7 @@ from typing import Set
 
 from zielen.exceptions import (
     RemoteError, AvailableSpaceError, FileTransferError)
-from zielen.fstools import transfer_tree
+from zielen.fstools import rm_temp_files, transfer_tree
 from zielen.filelogic import FilesManager
 from zielen.commandbase import Command, unlock
 
@@ -52,6 +52,9 @@ class ResetCommand(Command):
         """
         self.setup_profile()
 
+        # Remove anything that an interrupted operation has left behind.
+        rm_temp_files(self.local_dir.path)
+
         if not self.no_retrieve:
             self.remote_dir.check()
 
-- 
2.43.0


From 19a5e1624eb88832e43556487566a14c19946a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 57/88] fix: a reset that was interrupted late can be run again

---
 zielen/commands/reset.py | 28 +++++++++++++++++++++++++---
 zielen/commands/sync.py  |  1 +
 zielen/profile.py        |  9 +++++++++
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index ff0798f..d008788 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -55,9 +55,7 @@ class ResetCommand(Command):
         # Remove anything that an interrupted operation has left behind.
         rm_temp_files(self.local_dir.path)
 
-        if not self.no_retrieve:
-            self.remote_dir.check()
-
+        if not self.no_retrieve and not self._check_emptied():
             # Check if there is enough space locally to accommodate remote
             # files.
             if self.remote_dir.disk_usage() > self.local_dir.space_avail():
@@ -96,6 +94,7 @@ class ResetCommand(Command):
                 # From this point, files that are missing from the remote
                 # directory have not been deleted. Otherwise, if this is
                 # interrupted, the next sync would delete the local files.
+                self.profile.retrieved = True
                 self.profile.rm_paths(self.profile.get_paths())
                 self.profile.write()
 
@@ -131,8 +130,31 @@ class ResetCommand(Command):
                 os.remove(full_path)
 
         self.remote_dir.rm_exclude_file(self.profile.id)
+
+        # Without its config file, the profile doesn't exist anymore. Otherwise,
+        # if this is interrupted, the profile would be incomplete.
+        os.remove(self.profile.cfg_path)
         shutil.rmtree(self.profile.path)
 
+    def _check_emptied(self) -> bool:
+        """Check if an interrupted reset has already emptied the remote dir.
+
+        Returns:
+            True if all files were retrieved and there is nothing left to do in
+            the remote directory. False if it has not been emptied yet.
+
+        Raises:
+            RemoteError: The remote directory could not be found.
+        """
+        try:
+            self.remote_dir.check()
+        except RemoteError:
+            if self.keep_remote or not self.profile.retrieved:
+                raise
+            shutil.rmtree(self.remote_dir.util_dir, ignore_errors=True)
+            return True
+        return False
+
     def _merge_local(self, fm: FilesManager) -> Set[str]:
         """Merge unsynced local files with remote files of the same path.
 
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 1fa901d..98e5d77 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -154,4 +154,5 @@ class SyncCommand(Command):
         self.remote_dir.write()
         self.profile.last_scan = fm.start_time
         self.profile.last_sync = time.time()
+        self.profile.retrieved = False
         self.profile.write()
diff --git a/zielen/profile.py b/zielen/profile.py
index 3d9e8ff..61da165 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -189,6 +189,15 @@ class Profile:
     def last_adjust(self, value: float) -> None:
         self._info_file.vals["LastAdjust"] = self._convert_timestamp(value)
 
+    @property
+    def retrieved(self) -> bool:
+        """Whether a reset has retrieved all files since the last sync."""
+        return bool(self._info_file.vals.get("Retrieved"))
+
+    @retrieved.setter
+    def retrieved(self, value: bool) -> None:
+        self._info_file.vals["Retrieved"] = value
+
     @property
     def version(self) -> str:
         """The version of the program that the profile was initialized by."""
-- 
2.43.0


From dfce7953abbb1def74b2c31421ed5e63b859d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 58/88] fix: a new profile does not use a stale database

---
 zielen/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 61da165..4eaf928 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -104,7 +104,8 @@ class Profile:
         try:
             self._db_file.create()
         except FileExistsError:
-            pass
+            # Don't use what an interrupted reset has left behind.
+            self._db_file.rm_paths(self._db_file.get_paths())
 
         if template_path:
             template_file = ProfileConfigFile(template_path)
-- 
2.43.0


From 85db58488849187ccb3eafd55272c20406aaf6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 59/88] fix: symbolic links get around the checks for
 overlapping directories

---
 zielen/commands/init.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index f965eab..aac37d3 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -138,9 +138,8 @@ class InitCommand(Command):
             error_message = self._verify_local_dir(self.profile.local_path)
             if error_message:
                 raise InputError(error_message)
-            if os.path.commonpath([
-                    self.profile.local_path, self.profile.remote_path]) in [
-                        self.profile.local_path, self.profile.remote_path]:
+            if self._overlaps(
+                    self.profile.local_path, self.profile.remote_path):
                 raise InputError(
                     "local directory overlaps with the remote directory")
             error_message = check_dir(
@@ -184,6 +183,12 @@ class InitCommand(Command):
             'systemctl --user enable zielen@{0}.service'""".format(
                 self.profile.name)))
 
+    @staticmethod
+    def _overlaps(first_path: str, second_path: str) -> bool:
+        """Check if one directory is, or is in, the other one."""
+        paths = [os.path.realpath(first_path), os.path.realpath(second_path)]
+        return os.path.commonpath(paths) in paths
+
     def _verify_local_dir(self, dir_path: str) -> Optional[str]:
         """Verity that local directory path doesn't overlap other profiles.
 
@@ -197,8 +202,7 @@ class InitCommand(Command):
             An error message if the local directory is invalid and None
             otherwise.
         """
-        common_path = os.path.commonpath([dir_path, get_program_dir()])
-        if common_path in [dir_path, get_program_dir()]:
+        if self._overlaps(dir_path, get_program_dir()):
             return "local directory must not contain zielen config files"
 
         overlap_profiles = []
@@ -208,8 +212,7 @@ class InitCommand(Command):
 
             profile.read()
 
-            common_path = os.path.commonpath([profile.local_path, dir_path])
-            if common_path in [profile.local_path, dir_path]:
+            if self._overlaps(profile.local_path, dir_path):
                 overlap_profiles.append(name)
 
         if overlap_profiles:
-- 
2.43.0


From ef8eb2b899159aa727e30434e10eeefcd9fa1975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 60/88] fix: init fails with a stack trace if a directory can't
 be created

---
 zielen/fstools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index ca54e77..6872d4f 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -423,7 +423,7 @@ def check_dir(path: str, expect_empty: bool) -> Optional[str]:
         if expect_empty:
             try:
                 os.makedirs(path)
-            except PermissionError:
+            except OSError:
                 return "must be in a directory with write access"
         else:
             return "must be an existing directory"
-- 
2.43.0


From e31d1dd48aef22a7ce3320ee13c35d104fb9b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 61/88] fix: paths below a parent of the home directory become
 relative

---
 zielen/profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 4eaf928..5fabcf1 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -233,14 +233,14 @@ class Profile:
     @property
     def local_path(self) -> str:
         """The absolute path of the local directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["LocalDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["LocalDir"]))
 
     @property
     def remote_path(self) -> str:
         """The absolute path of the remote directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["RemoteDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["RemoteDir"]))
 
     @property
     def storage_limit(self) -> int:
-- 
2.43.0


From 261cdb9341046a683a5a615cacd045f36b219def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 62/88] fix: an init can run alongside another operation on the
 same profile

---
 zielen/commands/init.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index aac37d3..cb4a50c 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -91,9 +91,13 @@ class InitCommand(Command):
                 raise InputError(
                     "argument for '--template' is not a valid file")
 
-        atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
 
+        # Lock profile if not already locked. Another operation may be changing
+        # it until then.
+        self.lock()
+        atexit.register(cleanup_profile)
+
         # The config file is generated last. If it's missing, then an earlier
         # initialization was interrupted before it could be resumed.
         if os.path.isfile(self.profile.cfg_path):
@@ -103,9 +107,6 @@ class InitCommand(Command):
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
 
-        # Lock profile if not already locked.
-        self.lock()
-
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
             # Resume an interrupted initialization.
-- 
2.43.0


From 3a01029dcf3af4784e6de04b622cef62957a9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 63/88] fix: commands use what they read of a profile before it
 was locked

---
 zielen/commandbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 4e46cd1..ff46ca9 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -103,8 +103,11 @@ class Command(abc.ABC):
         Raises:
             InputError: The selected profile is only partially initialized.
         """
-        self.profile.read()
+        # Another operation may have changed the profile until it is locked.
         self.lock()
+        if not os.path.isfile(self.profile.cfg_path):
+            raise InputError("this profile doesn't exist anymore")
+        self.profile.read()
 
         # Warn if profile is only partially initialized.
         if self.profile.status == "partial":
-- 
2.43.0


From 318950f6900c359c295429597e0ee1849e729d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 64/88] fix: resetting without the remote fails with a stack
 trace

---
 zielen/userdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/userdata.py b/zielen/userdata.py
index 7a7df36..299db8d 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -225,6 +225,10 @@ class RemoteSyncDir(SyncDir):
             os.remove(os.path.join(self._exclude_dir, profile_id))
         except FileNotFoundError:
             pass
+        except OSError:
+            # The remote directory may be unavailable.
+            if os.path.isdir(self._exclude_dir):
+                raise
 
     def check_excluded(
             self, paths: Iterable[str], start_path: str) -> Set[str]:
-- 
2.43.0


From e708f7d130cfaddfce70b2ef9d641a15f9bc0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 65/88] fix: init fails with a stack trace at the end of its
 input

---
 zielen/profile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 5fabcf1..dd73bb6 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -39,7 +39,7 @@ from zielen.fstools import scan_tree
 from zielen.utils import (
     DictProperty, secure_string, set_no_autocomplete, set_path_autocomplete,
     get_path_ancestry)
-from zielen.exceptions import FileParseError
+from zielen.exceptions import FileParseError, InputError
 
 PathData = NamedTuple(
     "PathData", [("directory", bool), ("priority", float), ("local", bool)])
@@ -1034,7 +1034,11 @@ class ProfileConfigFile(ConfigFile):
             while True:
                 print("\n".join(
                     textwrap.wrap(self._prompt_messages[key], width=79)))
-                user_input = input("> ").strip()
+                try:
+                    user_input = input("> ").strip()
+                except EOFError:
+                    raise InputError(
+                        "a value for '{}' is required".format(key))
                 print()
                 error_message = self.check_value(key, user_input)
                 if error_message:
-- 
2.43.0


From 2aa92bcd2d0f69553bfad5d922a889dc69327d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 66/88] fix: symlinks that lead out of the directory and back
 are synced

---
 zielen/fstools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 6872d4f..ebd0e82 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -335,9 +335,12 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
         # The file is not a symlink.
         return False
     if not os.path.isabs(link_dest):
-        abs_link_dest = os.path.normpath(
-            os.path.join(os.path.dirname(link_path), link_dest))
-        if os.path.commonpath([abs_link_dest, parent_path]) == parent_path:
+        # The directory has a different name on the other side, so the path must
+        # not lead out of it and back.
+        rel_link_dest = os.path.normpath(os.path.join(
+            os.path.relpath(os.path.dirname(link_path), parent_path),
+            link_dest))
+        if rel_link_dest.split(os.sep)[0] != os.pardir:
             return False
     return True
 
-- 
2.43.0


From d2ebfa695576f0728e0c88e3655629dcedf95572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 67/88] fix: changes made to remote files during a sync go
 unnoticed

---
 zielen/filelogic.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index aa0a670..53af2a7 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -760,8 +760,8 @@ class FilesManager:
         This method excludes the paths of directories and the paths of files
         that are new since the last sync. A file is considered to be
         modified if its mtime is more recent than the time of the last sync
-        and it is in the database. Local files may also have been modified
-        while the last sync was in progress. Additionally, remote files are considered
+        and it is in the database. Files may also have been modified while the
+        last sync was in progress. Additionally, remote files are considered
         to be modified if the time they were last updated by a sync (stored
         in the remote database) is more recent than the time of the last sync.
 
@@ -771,25 +771,33 @@ class FilesManager:
             remote ones.
         """
         last_sync = self.profile.last_sync
+        last_scan = self.profile.last_scan
 
         local_mtimes = (
             (path, data.st_mtime) for path, data in self.local_dir.scan_paths(
                 dirs=False).items())
-        remote_mtimes = (
-            (path, data.st_mtime) for path, data in self.remote_dir.scan_paths(
-                dirs=False).items())
+        remote_mtimes = {
+            path: data.st_mtime for path, data in self.remote_dir.scan_paths(
+                dirs=False).items()}
 
         # Only include file paths that are in the database to exclude files
         # that are new since the last sync.
         local_mod_paths = {
             path for path, mtime in local_mtimes
-            if mtime > self.profile.last_scan
+            if mtime > last_scan
             and self.profile.get_path_info(path)
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
         remote_mod_paths = {
-            path for path, mtime in remote_mtimes
-            if mtime > last_sync and self.profile.get_path_info(path)}
+            path for path, mtime in remote_mtimes.items()
+            if mtime > last_scan and self.profile.get_path_info(path)}
+
+        # These may have been put there by the last sync itself.
+        remote_mod_paths -= {
+            path for path in remote_mod_paths
+            for path_info in [self.remote_dir.get_path_info(path)]
+            if path_info
+            and remote_mtimes[path] <= path_info.lastsync <= last_sync}
 
         # Files may be in the remote database but not in the remote directory if
         # they were deleted directly or if a sync was interrupted. Files that
-- 
2.43.0


From f66b4ebbec489e928709bfdb2473ade0aaaef1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 68/88] fix: files that another client syncs at the end of a
 sync go unnoticed

---
 zielen/commands/sync.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 98e5d77..ff6830c 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -150,9 +150,11 @@ class SyncCommand(Command):
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-        # info file.
+        # info file. Other clients may update the remote directory as soon as
+        # its database is written.
+        sync_time = time.time()
         self.remote_dir.write()
         self.profile.last_scan = fm.start_time
-        self.profile.last_sync = time.time()
+        self.profile.last_sync = sync_time
         self.profile.retrieved = False
         self.profile.write()
-- 
2.43.0


From a7c73fa8c466b4f2ba83a60030cd342aed6ff21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 69/88] fix: a file that is modified while it is copied looks
 the same as the copy

---
 zielen/fstools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index ebd0e82..9072b53 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -81,7 +81,11 @@ def copy_file(source: str, dest: str, keep_since=None) -> None:
             os.symlink(os.readlink(source), path)
             shutil.copystat(source, path, follow_symlinks=False)
         else:
+            # If the file is modified while it is being copied, then the copy
+            # must be older.
+            stats = os.lstat(source)
             shutil.copy2(source, path, follow_symlinks=False)
+            os.utime(path, ns=(stats.st_atime_ns, stats.st_mtime_ns))
 
     _replace_file(create, dest, keep_since)
 
-- 
2.43.0


From c1d76276303c60215117e989dae8fab17aa1cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 70/88] fix: files that are modified while a deletion is synced
 are deleted

---
 zielen/filelogic.py |  8 +++-----
 zielen/fstools.py   | 46 +++++++++++++++++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 53af2a7..baed649 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,7 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import SyncDir, LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
-    files_match, is_special_file, is_symlink_into, is_unsafe_symlink,
+    files_match, is_special_file, is_symlink_into, is_unsafe_symlink, rm_tree,
     symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
@@ -983,7 +983,7 @@ class FilesManager:
                 raise
 
     def _rm_files(self, paths: Iterable[str], parent_dir: str) -> None:
-        """Delete files.
+        """Delete files, except for those modified since the sync started.
 
         Args:
             paths: The relative paths of files to remove.
@@ -992,9 +992,7 @@ class FilesManager:
         for path in paths:
             full_path = os.path.join(parent_dir, path)
             try:
-                os.remove(full_path)
-            except IsADirectoryError:
-                shutil.rmtree(full_path)
+                rm_tree(full_path, keep_since=self.start_time)
             except FileNotFoundError:
                 # This could happen if a previous sync was interrupted.
                 pass
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 9072b53..fb2c0a3 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -21,6 +21,7 @@ import os
 import sys
 import stat
 import time
+import errno
 import shutil
 import filecmp
 import tempfile
@@ -52,12 +53,10 @@ def _replace_file(create, dest: str, keep_since: Optional[float]) -> None:
         os.path.dirname(dest), TEMP_PREFIX + secure_string(8))
     try:
         create(temp_path)
-        if keep_since is not None and os.path.lexists(dest):
-            stats = os.lstat(dest)
-            if (stat.S_ISREG(stats.st_mode)
-                    and keep_since < stats.st_mtime <= time.time()):
-                os.remove(temp_path)
-                return
+        if (keep_since is not None and os.path.lexists(dest)
+                and _is_newer(dest, keep_since)):
+            os.remove(temp_path)
+            return
         os.replace(temp_path, dest)
     except BaseException:
         if os.path.lexists(temp_path):
@@ -103,6 +102,41 @@ def replace_with_symlink(source: str, dest: str, keep_since=None) -> None:
     _replace_file(lambda path: os.symlink(source, path), dest, keep_since)
 
 
+def _is_newer(path: str, start_time: float) -> bool:
+    """Check if a regular file was modified after a given time."""
+    stats = os.lstat(path)
+    return (stat.S_ISREG(stats.st_mode)
+            and start_time < stats.st_mtime <= time.time())
+
+
+def rm_tree(path: str, keep_since: float) -> None:
+    """Remove a file or a directory with everything in it.
+
+    Args:
+        path: The path of the file or directory to remove.
+        keep_since: Don't remove regular files modified after this time or the
+            directories that contain them.
+
+    Raises:
+        FileNotFoundError: The file doesn't exist.
+    """
+    if not os.path.isdir(path) or os.path.islink(path):
+        if not _is_newer(path, keep_since):
+            os.remove(path)
+        return
+
+    for name in os.listdir(path):
+        try:
+            rm_tree(os.path.join(path, name), keep_since)
+        except FileNotFoundError:
+            pass
+    try:
+        os.rmdir(path)
+    except OSError as error:
+        if error.errno not in (errno.ENOTEMPTY, errno.EEXIST):
+            raise
+
+
 def rm_temp_files(path: str, min_age=0) -> None:
     """Remove incomplete files left behind by an interrupted operation.
 
-- 
2.43.0


From da377bf472ce34028d19c02218fd2c190c7d8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 71/88] fix: files that are modified on both sides during a
 sync are overwritten

---
 zielen/commands/sync.py |  4 +++-
 zielen/filelogic.py     | 39 ++++++++++++++++++++++++++++++++++++---
 zielen/fstools.py       |  6 +++---
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index ff6830c..1a9929d 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -136,7 +136,9 @@ class SyncCommand(Command):
         # Copy the selected files as well as any excluded files still in the
         # remote directory to the local directory and replace all others
         # with symlinks.
-        fm.update_local(selected_dirs | selected_files | remote_excluded_files)
+        fm.update_local(
+            selected_dirs | selected_files | remote_excluded_files,
+            updated_paths.remote)
 
         # Remove excluded files that are still in the remote directory. Other
         # clients may do this as soon as they know that the files are excluded,
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index baed649..f53a2c8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,8 +28,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import SyncDir, LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path, get_path_ancestry
 from zielen.fstools import (
-    files_match, is_special_file, is_symlink_into, is_unsafe_symlink, rm_tree,
-    symlink_tree, transfer_tree, update_mtime)
+    files_match, is_newer, is_special_file, is_symlink_into, is_unsafe_symlink,
+    rm_tree, symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -360,13 +360,42 @@ class FilesManager:
 
         return SelectedPaths(remaining_space, selected_dirs)
 
-    def update_local(self, update_paths: Iterable[str]) -> None:
+    def _forget_conflicts(
+            self, paths: Iterable[str], sync_dir: SyncDir) -> None:
+        """Leave conflicts that came up during this sync to the next one.
+
+        Files that were modified while the sync was in progress have not been
+        overwritten. Those that were to be updated are removed from the local
+        database, so that the next sync treats both versions as new files.
+
+        Args:
+            paths: The relative paths of files that were to be updated.
+            sync_dir: The directory that was to be updated.
+        """
+        def is_conflict(path: str) -> bool:
+            full_path = os.path.join(sync_dir.path, path)
+            try:
+                return (
+                    is_newer(full_path, self.start_time)
+                    and not files_match(
+                        os.path.join(self.local_dir.path, path),
+                        os.path.join(self.remote_dir.path, path)))
+            except (FileNotFoundError, NotADirectoryError):
+                return False
+
+        self.profile.rm_paths({path for path in paths if is_conflict(path)})
+
+    def update_local(
+            self, update_paths: Iterable[str],
+            modified_paths: Iterable[str] = ()) -> None:
         """Update the local directory with remote files.
 
         Args:
             update_paths: The paths of files and directories to copy from the
                 remote directory to the local one. All other files in the local
                 directory are replaced with symlinks.
+            modified_paths: The paths of remote files that have been added or
+                modified since the last sync.
         """
         update_paths = set(update_paths)
 
@@ -410,6 +439,8 @@ class FilesManager:
             else:
                 raise
 
+        self._forget_conflicts(modified_paths, self.local_dir)
+
         # Update the database with information about which paths are being
         # kept in the local directory.
         kept_paths = set()
@@ -438,6 +469,7 @@ class FilesManager:
                 exclude=(
                     self.local_dir.scan_paths(memoize=False).keys()
                     - update_paths),
+                keep_since=self.start_time,
                 message="Updating remote files...")
 
             # The files must not be replaced in the local directory if the
@@ -451,6 +483,7 @@ class FilesManager:
 
         # Update the time of the last sync for files that have been modified.
         self.remote_dir.update_paths(update_paths, lastsync=time.time())
+        self._forget_conflicts(update_paths, self.remote_dir)
 
     def _setup_dir(self, unsafe_symlinks: Set[str]) -> None:
         """Add file paths to both databases and overwrite with symlinks.
diff --git a/zielen/fstools.py b/zielen/fstools.py
index fb2c0a3..1ab8208 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -54,7 +54,7 @@ def _replace_file(create, dest: str, keep_since: Optional[float]) -> None:
     try:
         create(temp_path)
         if (keep_since is not None and os.path.lexists(dest)
-                and _is_newer(dest, keep_since)):
+                and is_newer(dest, keep_since)):
             os.remove(temp_path)
             return
         os.replace(temp_path, dest)
@@ -102,7 +102,7 @@ def replace_with_symlink(source: str, dest: str, keep_since=None) -> None:
     _replace_file(lambda path: os.symlink(source, path), dest, keep_since)
 
 
-def _is_newer(path: str, start_time: float) -> bool:
+def is_newer(path: str, start_time: float) -> bool:
     """Check if a regular file was modified after a given time."""
     stats = os.lstat(path)
     return (stat.S_ISREG(stats.st_mode)
@@ -121,7 +121,7 @@ def rm_tree(path: str, keep_since: float) -> None:
         FileNotFoundError: The file doesn't exist.
     """
     if not os.path.isdir(path) or os.path.islink(path):
-        if not _is_newer(path, keep_since):
+        if not is_newer(path, keep_since):
             os.remove(path)
         return
 
-- 
2.43.0


From 745a93fc4170f26d3c7756a39419cfdb21641f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 72/88] fix: broken symlinks are left behind if remote files
 are deleted during a sync

---
 zielen/filelogic.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index f53a2c8..0485d3f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -937,6 +937,7 @@ class FilesManager:
         both directories again.
         """
         remote_paths = self.remote_dir.scan_paths(memoize=False).keys()
+        self.remote_dir.check()
 
         # A symlink to a remote file that has been replaced by a directory is
         # not a local file. It must not be in the way of that directory.
@@ -945,6 +946,17 @@ class FilesManager:
             if is_symlink_into(full_path, self.remote_dir.safe_path):
                 os.remove(full_path)
 
+        # Neither is a symlink to a remote file that has been deleted since or
+        # before an interrupted sync could finish.
+        link_paths = self.local_dir.scan_paths(files=False, dirs=False).keys()
+        for path in (link_paths - remote_paths
+                - self.profile.all_exclude_matches(self.local_dir.path)):
+            full_path = os.path.join(self.local_dir.path, path)
+            remote_path = os.path.join(self.remote_dir.safe_path, path)
+            if (os.path.islink(full_path)
+                    and os.readlink(full_path) == remote_path):
+                os.remove(full_path)
+
         local_paths = self.local_dir.scan_paths(memoize=False).keys()
 
         self.profile.rm_paths(
-- 
2.43.0


From 77b9bfbfd96428a978f60df8d5c4d27abc37e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 73/88] fix: files that are deleted during a sync make it crash

---
 zielen/fstools.py  | 8 ++++++--
 zielen/userdata.py | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 1ab8208..0d810d8 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -334,7 +334,8 @@ def scan_tree(path: str):
     """Recursively scan a directory tree and yield an os.DirEntry object.
 
     Files that are still being created are skipped, and so are special files
-    (e.g. sockets), which can't be copied.
+    (e.g. sockets), which can't be copied. Directories that are deleted in the
+    meantime are skipped, too.
 
     Args:
         path: The path of the directory to scan.
@@ -350,7 +351,10 @@ def scan_tree(path: str):
             continue
         yield entry
         if entry.is_dir(follow_symlinks=False):
-            yield from scan_tree(entry.path)
+            try:
+                yield from scan_tree(entry.path)
+            except (FileNotFoundError, NotADirectoryError):
+                pass
 
 
 def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 299db8d..e741cbd 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -92,6 +92,11 @@ class SyncDir:
                 rel_path = os.path.relpath(entry.path, self.path)
                 if rel_path.split(os.sep)[0] == self.UTIL_NAME:
                     continue
+                try:
+                    entry.stat(follow_symlinks=False)
+                except FileNotFoundError:
+                    # The file has been deleted since.
+                    continue
                 self._sub_entries.append((entry, rel_path))
 
         for entry, rel_path in self._sub_entries:
-- 
2.43.0


From b22e6768b6f2760920eddbae28a507baa576bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 74/88] fix: two clients can sync with the remote directory at
 the same time

---
 zielen/commands/sync.py |  1 +
 zielen/containerbase.py | 17 ++++++++++++++++-
 zielen/userdata.py      |  8 ++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 1a9929d..dcf36ba 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -62,6 +62,7 @@ class SyncCommand(Command):
         """Run the command."""
         self.setup_profile()
         self.remote_dir.check()
+        self.remote_dir.lock()
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
 
         # Remove anything that an interrupted sync has left behind. Other
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 69844cc..1c10825 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -25,7 +25,7 @@ import contextlib
 import hashlib
 from typing import List, Generator, Iterable
 
-from zielen.exceptions import FileParseError, RemoteError
+from zielen.exceptions import FileParseError, RemoteError, StatusError
 from zielen.utils import secure_string
 
 
@@ -243,6 +243,21 @@ class SyncDBFile:
         return int.from_bytes(
             path_hash.digest()[:8], byteorder="big", signed=True)
 
+    def lock(self) -> None:
+        """Begin a transaction which no other process can write during.
+
+        Raises:
+            StatusError: Another process is writing to the database.
+        """
+        try:
+            self._cur.execute("BEGIN IMMEDIATE;")
+        except sqlite3.OperationalError as e:
+            if "locked" in str(e):
+                raise StatusError(
+                    "another operation on the same directory is already "
+                    "taking place")
+            raise
+
     def commit(self) -> None:
         """Commit the database transaction."""
         self._conn.commit()
diff --git a/zielen/userdata.py b/zielen/userdata.py
index e741cbd..a7ad96f 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -197,6 +197,14 @@ class RemoteSyncDir(SyncDir):
         if not self._db_file.is_open:
             raise RemoteError("the remote directory could not be found")
 
+    def lock(self) -> None:
+        """Keep other clients from changing the directory until write().
+
+        Raises:
+            StatusError: Another client is changing the directory.
+        """
+        self._db_file.lock()
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._db_file.commit()
-- 
2.43.0


From befa5ab245dd535a386ed9d2a86ae1af25d9c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 75/88] fix: files are lost if directories of the same name are
 made during a sync

---
 zielen/filelogic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 0485d3f..94237a8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -21,6 +21,7 @@ import os
 import copy
 import time
 import shutil
+import stat
 from typing import Iterable, Tuple, Set, NamedTuple, Union
 
 from zielen.exceptions import RemoteError, AvailableSpaceError
@@ -374,12 +375,15 @@ class FilesManager:
         """
         def is_conflict(path: str) -> bool:
             full_path = os.path.join(sync_dir.path, path)
+            local_path = os.path.join(self.local_dir.path, path)
+            remote_path = os.path.join(self.remote_dir.path, path)
             try:
+                # A file may have been replaced by a directory.
                 return (
-                    is_newer(full_path, self.start_time)
-                    and not files_match(
-                        os.path.join(self.local_dir.path, path),
-                        os.path.join(self.remote_dir.path, path)))
+                    stat.S_ISDIR(os.lstat(local_path).st_mode)
+                    != stat.S_ISDIR(os.lstat(remote_path).st_mode)
+                    or is_newer(full_path, self.start_time)
+                    and not files_match(local_path, remote_path))
             except (FileNotFoundError, NotADirectoryError):
                 return False
 
-- 
2.43.0


From c4f5b90560990ef3e15c40002fbf188ef0458609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 76/88] fix: files that are made while they are copied
 overwrite remote files

---
 zielen/filelogic.py | 8 ++++----
 zielen/fstools.py   | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 94237a8..8b28ad7 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -464,15 +464,15 @@ class FilesManager:
             RemoteError: The remote directory is unmounted.
         """
         # Copy modified local files to the remote directory. New directories may
-        # contain files that must not be synced.
+        # contain files that must not be synced, or that did not exist yet when
+        # the directory was scanned.
         update_paths = set(update_paths)
+        self.local_dir.scan_paths(memoize=False)
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.write_path,
                 files=update_paths,
-                exclude=(
-                    self.local_dir.scan_paths(memoize=False).keys()
-                    - update_paths),
+                recurse=False,
                 keep_since=self.start_time,
                 message="Updating remote files...")
 
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 0d810d8..328aa72 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -175,7 +175,7 @@ def _make_dirs(parent: str, path: str) -> None:
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
-        message="", rm_source=False, keep_since=None) -> None:
+        message="", rm_source=False, keep_since=None, recurse=True) -> None:
     """Recursively copy files, preserving file metadata.
 
     Existing files in the destination are overwritten. A progress bar is
@@ -193,6 +193,7 @@ def transfer_tree(
             progress bar won't appear.
         rm_source: Remove source files once they are copied to the destination.
         keep_since: Don't overwrite regular files modified after this time.
+        recurse: Also copy the contents of the directories in files.
 
     Raises:
         FileNotFoundError: The source or destination files couldn't be found.
@@ -215,7 +216,8 @@ def transfer_tree(
             if not os.path.lexists(full_path):
                 continue
             rel_paths.add(os.path.relpath(full_path, source))
-            if os.path.isdir(full_path) and not os.path.islink(full_path):
+            if (recurse and os.path.isdir(full_path)
+                    and not os.path.islink(full_path)):
                 for entry in scan_tree(full_path):
                     rel_paths.add(os.path.relpath(entry.path, source))
 
-- 
2.43.0


From 12d2bbcec8a86239681ee22eb83045e4ce02028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 77/88] fix: unsafe symlinks that replace synced files are
 synced

---
 zielen/filelogic.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8b28ad7..2304712 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -409,6 +409,7 @@ class FilesManager:
         unsynced_paths = self.get_unsynced() | (
             self.remote_dir.scan_paths(memoize=False).keys()
             - self.profile.get_paths().keys())
+        unsynced_paths |= self._get_unsafe_remote()
 
         try:
             # Replace old, unneeded files to make room for new ones. They must
@@ -418,7 +419,8 @@ class FilesManager:
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False).keys()
-                & stale_paths, [], overwrite=True, keep_since=self.start_time)
+                & stale_paths - self._get_unsafe_remote(), [],
+                overwrite=True, keep_since=self.start_time)
 
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
@@ -730,6 +732,21 @@ class FilesManager:
 
         return unsynced_paths
 
+    def _get_unsafe_remote(self) -> Set[str]:
+        """Get remote symlinks that must not be synced.
+
+        Files that have been synced may have been replaced with them since.
+
+        Returns:
+            The relative paths of unsafe symlinks in the remote directory.
+        """
+        return {
+            path for path in self.remote_dir.scan_paths(
+                files=False, dirs=False).keys()
+            if is_unsafe_symlink(
+                os.path.join(self.remote_dir.path, path),
+                self.remote_dir.path)}
+
     def _get_blocked(self, paths: Iterable[str]) -> Set[str]:
         """Get local files that can't be copied to the remote directory.
 
@@ -783,11 +800,9 @@ class FilesManager:
         new_local_paths -= self._get_blocked(new_local_paths)
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
-            if not self.profile.get_path_info(path)
-            and not is_unsafe_symlink(
-                os.path.join(self.remote_dir.path, path),
-                self.remote_dir.path)}
+            if not self.profile.get_path_info(path)}
         new_remote_paths -= self.get_unsynced()
+        new_remote_paths -= self._get_unsafe_remote()
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
@@ -844,6 +859,7 @@ class FilesManager:
                 directory=False, min_lastsync=last_sync).keys()
             & self.remote_dir.scan_paths(dirs=False).keys()
             & self.profile.get_paths().keys())
+        remote_mod_paths -= self._get_unsafe_remote()
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
-- 
2.43.0


From 43ffe7e917bb28f5044d4e32d836517cc79f2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 78/88] fix: exclude patterns follow symlinks that lead in
 circles

---
 zielen/profile.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index dd73bb6..da239fb 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -21,6 +21,7 @@ import os
 import re
 import sys
 import glob
+import itertools
 import uuid
 import getpass
 import sqlite3
@@ -376,6 +377,13 @@ class ProfileExcludeFile:
         self._matches[start_path] = set()
         self._all_matches[start_path] = set()
 
+        # Unlike with the '**' pattern, symlinks are not followed. They may lead
+        # out of the directory or in circles.
+        visible_dirs = []
+        for parent, dirs, _ in os.walk(start_path):
+            visible_dirs.append(parent)
+            dirs[:] = [name for name in dirs if not name.startswith(".")]
+
         for line in self._readlines():
             # This assumes that cases where the user may accidentally leave
             # leading/trailing whitespace are more common than cases where they
@@ -384,13 +392,16 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(
-                    glob.escape(start_path), line.lstrip("/"))
+                search_dirs = [start_path]
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(glob.escape(start_path), "**", line)
+                search_dirs = visible_dirs
 
-            for match_path in glob.glob(glob_str, recursive=True):
+            for match_path in itertools.chain.from_iterable(
+                    glob.glob(
+                        os.path.join(glob.escape(path), line.lstrip("/")),
+                        recursive=True)
+                    for path in search_dirs):
                 # A pattern like 'dir/**' also yields 'dir/' if there is no
                 # such directory.
                 if not os.path.lexists(match_path):
-- 
2.43.0


From 6abe2174e455147a209f107cadbdd1da4ba1fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 79/88] fix: files outside of the directory are deleted through
 symlinks

Broken links to remote files that have been replaced by directories are
removed before syncing. This also looked at files with the same relative path
that are reached through a symlink to a directory, which can be anywhere.
---
 zielen/filelogic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 2304712..c65e858 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -961,14 +961,15 @@ class FilesManager:
 
         # A symlink to a remote file that has been replaced by a directory is
         # not a local file. It must not be in the way of that directory.
-        for path in self.remote_dir.scan_paths(files=False, symlinks=False):
+        link_paths = self.local_dir.scan_paths(files=False, dirs=False).keys()
+        for path in link_paths & self.remote_dir.scan_paths(
+                files=False, symlinks=False).keys():
             full_path = os.path.join(self.local_dir.path, path)
             if is_symlink_into(full_path, self.remote_dir.safe_path):
                 os.remove(full_path)
 
         # Neither is a symlink to a remote file that has been deleted since or
         # before an interrupted sync could finish.
-        link_paths = self.local_dir.scan_paths(files=False, dirs=False).keys()
         for path in (link_paths - remote_paths
                 - self.profile.all_exclude_matches(self.local_dir.path)):
             full_path = os.path.join(self.local_dir.path, path)
-- 
2.43.0


From 974124c4c5d17b52fb7468fc542ff34aa12d0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 80/88] fix: files are recorded wrongly if unsafe symlinks
 replace them

Local files stay as they are if the corresponding remote file has been replaced
by an unsafe symlink, but they were recorded as being kept or not as if they
had been synced. Deleting such a file locally deleted the symlink.
---
 zielen/filelogic.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index c65e858..8e3c206 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -409,7 +409,8 @@ class FilesManager:
         unsynced_paths = self.get_unsynced() | (
             self.remote_dir.scan_paths(memoize=False).keys()
             - self.profile.get_paths().keys())
-        unsynced_paths |= self._get_unsafe_remote()
+        unsafe_paths = self._get_unsafe_remote()
+        unsynced_paths |= unsafe_paths
 
         try:
             # Replace old, unneeded files to make room for new ones. They must
@@ -419,7 +420,7 @@ class FilesManager:
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False).keys()
-                & stale_paths - self._get_unsafe_remote(), [],
+                & stale_paths - unsafe_paths, [],
                 overwrite=True, keep_since=self.start_time)
 
             symlink_tree(
@@ -453,9 +454,18 @@ class FilesManager:
         for update_path in update_paths:
             kept_paths |= self.profile.get_paths(root=update_path).keys()
         nonlocal_paths = self.profile.get_paths().keys() - kept_paths
+        skipped_paths = {
+            local: unsafe_paths & self.profile.get_paths(
+                directory=False, local=local).keys()
+            for local in (True, False)}
         self.profile.update_paths(nonlocal_paths, local=False)
         self.profile.update_paths(kept_paths, local=True)
 
+        # Local files that have been replaced with unsafe symlinks in the
+        # remote directory have been left as they are.
+        for local, paths in skipped_paths.items():
+            self.profile.update_paths(paths, local=local)
+
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
 
@@ -896,7 +906,7 @@ class FilesManager:
             self.local_dir.path)
         remote_del_paths = (
             (known_paths - local_paths | local_replaced)
-            - mod_paths.remote - remote_replaced)
+            - mod_paths.remote - remote_replaced - self._get_unsafe_remote())
 
         # Directories can't be deleted if they still contain other files.
         local_del_paths -= self._get_parents(local_paths - local_del_paths)
-- 
2.43.0


From 51734477ff7774c9948187e611fe223433129846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:14 +0000
Subject: [PATCH 81/88] fix: profiles without a storage limit cannot be listed

---
 zielen/commands/list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zielen/commands/list.py b/zielen/commands/list.py
index c7bf200..89359bb 100644
--- a/zielen/commands/list.py
+++ b/zielen/commands/list.py
@@ -41,9 +41,9 @@ class ListCommand(Command):
             config_files.append((name, config_file))
 
         table_data = [(
-                name, config_file.vals["LocalDir"],
-                config_file.vals["RemoteDir"],
-                config_file.vals["StorageLimit"])
+                name, config_file.vals["LocalDir"] or "",
+                config_file.vals["RemoteDir"] or "",
+                config_file.vals["StorageLimit"] or "")
             for name, config_file in config_files]
         table_data.insert(0, (
             "Profile", "Local Directory", "Remote Directory", "Limit"))
-- 
2.43.0


From 31e1337a96c15f278736da3a6a0fb053821a12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 82/88] fix: commands crash if the profile database is missing

---
 zielen/commands/reset.py | 2 ++
 zielen/commands/sync.py  | 1 +
 zielen/profile.py        | 9 +++++++++
 3 files changed, 12 insertions(+)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index d008788..5daf799 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -51,6 +51,8 @@ class ResetCommand(Command):
             RemoteError: The remote directory could not be found.
         """
         self.setup_profile()
+        if not self.no_retrieve:
+            self.profile.check()
 
         # Remove anything that an interrupted operation has left behind.
         rm_temp_files(self.local_dir.path)
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index dcf36ba..db12ce2 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -61,6 +61,7 @@ class SyncCommand(Command):
     def main(self) -> None:
         """Run the command."""
         self.setup_profile()
+        self.profile.check()
         self.remote_dir.check()
         self.remote_dir.lock()
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
diff --git a/zielen/profile.py b/zielen/profile.py
index da239fb..9fbdd0f 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -124,6 +124,15 @@ class Profile:
             self._cfg_file.write(os.path.join(
                 sys.prefix, "share/zielen/config-template"))
 
+    def check(self) -> None:
+        """Check that the database is available.
+
+        Raises:
+            FileParseError: The database is missing.
+        """
+        if not self._db_file.is_open:
+            raise FileParseError("the profile database is missing")
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
-- 
2.43.0


From aed2b3355c7e4fc923e63b69c642a5da3facfd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 83/88] fix: damaged profile files and databases are not
 reported as errors

---
 zielen/cli.py           |  3 ++-
 zielen/containerbase.py | 17 ++++++++++++++---
 zielen/profile.py       | 15 +++++++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/zielen/cli.py b/zielen/cli.py
index c6500de..1d8e002 100644
--- a/zielen/cli.py
+++ b/zielen/cli.py
@@ -20,6 +20,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import signal
 import sys
 import os
+import sqlite3
 import argparse
 import pkg_resources
 from textwrap import dedent
@@ -263,7 +264,7 @@ def main() -> int:
         cmd_args = parse_args()
         command = def_command(cmd_args)
         command.main()
-    except ProgramError as error:
+    except (ProgramError, sqlite3.DatabaseError) as error:
         try:
             if cmd_args.debug:
                 raise
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 1c10825..1d98de5 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -59,6 +59,8 @@ class ConfigFile:
                         raw_vals[key.strip()] = value.strip()
         except OSError:
             raise FileParseError("could not open the configuration file")
+        except UnicodeDecodeError:
+            raise FileParseError("the configuration file is not valid")
         self.raw_vals = raw_vals
 
     def write(self, template_path: str) -> None:
@@ -105,9 +107,18 @@ class JSONFile:
         self.vals = None
 
     def read(self) -> None:
-        """Read file into an object."""
-        with open(self.path) as file:
-            self.vals = json.load(file)
+        """Read file into an object.
+
+        Raises:
+            FileParseError: The file could not be read.
+        """
+        try:
+            with open(self.path) as file:
+                self.vals = json.load(file)
+        except OSError:
+            raise FileParseError("could not open the profile info file")
+        except ValueError:
+            raise FileParseError("the profile info file is not valid")
 
     def write(self) -> None:
         """Write object to a file.
diff --git a/zielen/profile.py b/zielen/profile.py
index 9fbdd0f..130d3d7 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -466,11 +466,26 @@ class ProfileInfoFile(JSONFile):
 
     Attributes:
         vals: A dict of values from the file.
+        _required_keys: The values which must be in the file.
     """
+    _required_keys = {
+        "Status", "LastSync", "LastAdjust", "Version", "ID", "InitOptions"}
+
     def __init__(self, path) -> None:
         super().__init__(path)
         self.vals = collections.defaultdict(lambda: None)
 
+    def read(self) -> None:
+        """Read file into an object.
+
+        Raises:
+            FileParseError: The file could not be read or is incomplete.
+        """
+        super().read()
+        if (not isinstance(self.vals, dict)
+                or not self._required_keys <= self.vals.keys()):
+            raise FileParseError("the profile info file is not valid")
+
     def generate(self, name: str, init_options: Dict[str, Any]) -> None:
         """Generate info for a new profile.
 
-- 
2.43.0


From fd893962fe445aafbcb4dec67d0c5436a4d032db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 84/88] fix: the daemon does not watch subdirectories of
 symlinked directories

---
 zielen/daemon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index 766ba73..e446bae 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -77,8 +77,9 @@ class Daemon(Command):
         sync_thread = threading.Thread(target=self._sync, daemon=True)
         sync_thread.start()
 
-        local_dir = self.profile.local_path
-        remote_dir = self.profile.remote_path
+        # Watches do not follow symlinks.
+        local_dir = os.path.realpath(self.profile.local_path)
+        remote_dir = os.path.realpath(self.profile.remote_path)
 
         wm = pyinotify.WatchManager()
         notifier = pyinotify.ThreadedNotifier(
-- 
2.43.0


From 889164a2792712e075ed0eed8cde2e5ffc10b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 85/88] fix: the daemon ignores moved directories and exits if
 events are lost

---
 zielen/daemon.py | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index e446bae..6139e15 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -87,32 +87,48 @@ class Daemon(Command):
         notifier.daemon = True
         notifier.start()
 
-        mask = pyinotify.IN_OPEN | pyinotify.IN_CREATE
+        # The watches must follow directories which are moved.
+        mask = (
+            pyinotify.IN_OPEN | pyinotify.IN_CREATE | pyinotify.IN_MOVED_FROM
+            | pyinotify.IN_MOVED_TO | pyinotify.IN_MOVE_SELF)
         watch_paths = [local_dir, remote_dir]
-        for watch_path in watch_paths:
-            wm.add_watch(watch_path, mask, rec=True, auto_add=True)
 
         # Every few seconds, get a set of file paths from the queue and
         # increment their priority values in the database. This is done to
         # spread out the individual sqlite transactions over time so that
         # the database isn't a bottleneck.
+        opened_paths = []
         deduplicated_paths = []
+        overflow = False
         while True:
-            # Get the paths of files that have been accessed.
-            accessed_paths = []
+            for watch_path in watch_paths:
+                # A watch is lost if its directory is moved or unmounted. New
+                # directories can be missed if there are too many events.
+                if (overflow or not wm.get_wd(watch_path)
+                        and os.path.isdir(watch_path)):
+                    wm.add_watch(watch_path, mask, rec=True, auto_add=True)
+            overflow = False
+
+            # Get the paths of files that have been opened.
             while not self._files_queue.empty():
                 event, timestamp = self._files_queue.get()
-                for watch_path in watch_paths:
-                    if os.path.commonpath([
-                            event.pathname, watch_path]) == watch_path:
-                        rel_path = os.path.relpath(event.pathname, watch_path)
-                        break
-
-                if not event.dir and self.profile.get_path_info(rel_path):
-                    # The file is in the local database and is not a directory.
-                    # New files do not have a priority value until the first
-                    # sync after they are added.
-                    accessed_paths.append((rel_path, timestamp))
+                if event.mask & pyinotify.IN_Q_OVERFLOW:
+                    overflow = True
+                elif (not event.dir and event.mask
+                        & (pyinotify.IN_OPEN | pyinotify.IN_CREATE)):
+                    for watch_path in watch_paths:
+                        if os.path.commonpath([
+                                event.pathname, watch_path]) == watch_path:
+                            opened_paths.append((os.path.relpath(
+                                event.pathname, watch_path), timestamp))
+                            break
+
+            # New files do not have a priority value until the first sync after
+            # they are added.
+            accessed_paths = [
+                (path, timestamp) for path, timestamp in opened_paths
+                if self.profile.get_path_info(path)]
+            opened_paths = []
 
             for path, timestamp in accessed_paths:
                 past_timestamp = self._cooldown_files.get(path)
-- 
2.43.0


From f655b2494c2de6bcdb21f5d25ac86602263b56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 86/88] fix: the daemon exits or counts files twice if the
 database is locked

---
 zielen/containerbase.py |  4 +++
 zielen/daemon.py        | 69 +++++++++++++++++++++++------------------
 zielen/profile.py       |  9 ++++--
 3 files changed, 49 insertions(+), 33 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 1d98de5..87bc346 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -273,6 +273,10 @@ class SyncDBFile:
         """Commit the database transaction."""
         self._conn.commit()
 
+    def rollback(self) -> None:
+        """Undo the database transaction."""
+        self._conn.rollback()
+
     def close(self) -> None:
         """Close the database connection."""
         self._conn.close()
diff --git a/zielen/daemon.py b/zielen/daemon.py
index 6139e15..a1c22c6 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -28,6 +28,7 @@ import subprocess
 import pyinotify
 
 from zielen.commandbase import Command
+from zielen.exceptions import FileParseError
 
 
 class Daemon(Command):
@@ -110,6 +111,7 @@ class Daemon(Command):
             overflow = False
 
             # Get the paths of files that have been opened.
+            current_time = time.time()
             while not self._files_queue.empty():
                 event, timestamp = self._files_queue.get()
                 if event.mask & pyinotify.IN_Q_OVERFLOW:
@@ -123,11 +125,15 @@ class Daemon(Command):
                                 event.pathname, watch_path), timestamp))
                             break
 
-            # New files do not have a priority value until the first sync after
-            # they are added.
-            accessed_paths = [
-                (path, timestamp) for path, timestamp in opened_paths
-                if self.profile.get_path_info(path)]
+            try:
+                # New files do not have a priority value until the first
+                # sync after they are added.
+                accessed_paths = [
+                    (path, timestamp) for path, timestamp in opened_paths
+                    if self.profile.get_path_info(path)]
+            except sqlite3.OperationalError:
+                time.sleep(self.TRANSACTION_SLEEP_TIME)
+                continue
             opened_paths = []
 
             for path, timestamp in accessed_paths:
@@ -149,43 +155,44 @@ class Daemon(Command):
 
             # Remove any file paths that were modified more than
             # self.COOLDOWN_PERIOD seconds in the past.
-            current_time = time.time()
             self._cooldown_files = {
                 path: timestamp
                 for path, timestamp in self._cooldown_files.items()
                 if timestamp > current_time - self.COOLDOWN_PERIOD}
 
             # If the database is locked due to a long-running sync, try again.
+            # The configuration may not be valid while it is being edited.
             try:
-                self._adjust()
+                self.profile.read()
+                adjusted = self._adjust()
                 self.profile.increment(
                     deduplicated_paths, self.INCREMENT_AMOUNT)
-                self.profile.read()
-                self.profile.write()
-            except sqlite3.OperationalError:
-                continue
+                self.profile.commit()
+            except (sqlite3.OperationalError, FileParseError):
+                self.profile.rollback()
             else:
                 deduplicated_paths = []
-            finally:
-                time.sleep(self.TRANSACTION_SLEEP_TIME)
-
-    def _adjust(self) -> None:
-        """Adjust the priority values in the database at regular intervals."""
-        if time.time() >= self.profile.last_adjust + self.ADJUST_INTERVAL:
-            # This is necessary because a sync may have occurred since
-            # the last adjustment, which updates a value in the info
-            # file. If we don't read the info file before writing to it,
-            # that value will get reset.
-            self.profile.read()
-
-            # Use the formula for half-life to calculate the constant to
-            # multiply each priority value by.
-            half_life = self.profile.priority_half_life
-            adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)
-
-            self.profile.adjust_all(adjust_constant)
-            self.profile.last_adjust = time.time()
-            self.profile.write()
+                if adjusted:
+                    self.profile.last_adjust = time.time()
+                    self.profile.write()
+            time.sleep(self.TRANSACTION_SLEEP_TIME)
+
+    def _adjust(self) -> bool:
+        """Adjust the priority values in the database at regular intervals.
+
+        Returns:
+            True if the priority values have been adjusted.
+        """
+        if time.time() < self.profile.last_adjust + self.ADJUST_INTERVAL:
+            return False
+
+        # Use the formula for half-life to calculate the constant to
+        # multiply each priority value by.
+        half_life = self.profile.priority_half_life
+        adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)
+
+        self.profile.adjust_all(adjust_constant)
+        return True
 
     def _sync(self) -> None:
         """Initiate a sync in a subprocess at a regular interval."""
diff --git a/zielen/profile.py b/zielen/profile.py
index 130d3d7..79e5902 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -82,6 +82,8 @@ class Profile:
         self.get_paths = self._db_file.get_paths
         self.increment = self._db_file.increment
         self.adjust_all = self._db_file.adjust_all
+        self.commit = self._db_file.commit
+        self.rollback = self._db_file.rollback
 
     def read(self) -> None:
         """Load data from persistent storage."""
@@ -89,8 +91,11 @@ class Profile:
         # all subsequent files will not be read. The info file should be 
         # read first. 
         self._info_file.read()
-        self._cfg_file.read()
-        self._cfg_file.check_all()
+        # Keep the current values if the new ones are not valid.
+        cfg_file = ProfileConfigFile(self.cfg_path)
+        cfg_file.read()
+        cfg_file.check_all()
+        self._cfg_file = cfg_file
         self._exclude_file.reset()
 
     def generate(
-- 
2.43.0


From 7924ad6295ce2957a1f3a7893e6b7462847b1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:49 +0000
Subject: [PATCH 87/88] fix: tell other clients about updated files before
 replacing them with symlinks

If a sync was interrupted after it had replaced a modified local file with
a symlink and before it was complete, then the update was not recorded in
the remote database. Another client that had synced since the file was
modified overwrote it without a conflict.
---
 zielen/commands/sync.py |  5 +++++
 zielen/containerbase.py | 16 ++++++++++++++++
 zielen/userdata.py      |  8 ++++++++
 3 files changed, 29 insertions(+)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index db12ce2..c50b12c 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -121,6 +121,11 @@ class SyncCommand(Command):
         # Update the remote directory with modified local files.
         fm.update_remote(updated_paths.local)
 
+        # Local files are going to be replaced with symlinks. If this is
+        # interrupted, the next sync can't tell anymore that they were modified,
+        # so other clients must know already.
+        self.remote_dir.checkpoint()
+
         # At this point, the differences between the two directories have been
         # resolved.
 
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 87bc346..3911372 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -269,6 +269,22 @@ class SyncDBFile:
                     "taking place")
             raise
 
+    def checkpoint(self) -> None:
+        """Commit the transaction which was begun by lock() and go on with it.
+
+        Raises:
+            StatusError: Another process has written to the database or is
+                writing to it.
+        """
+        version_query = "PRAGMA data_version;"
+        version = self._cur.execute(version_query).fetchone()
+        self._conn.commit()
+        self.lock()
+        if self._cur.execute(version_query).fetchone() != version:
+            raise StatusError(
+                "another operation on the same directory is already taking "
+                "place")
+
     def commit(self) -> None:
         """Commit the database transaction."""
         self._conn.commit()
diff --git a/zielen/userdata.py b/zielen/userdata.py
index a7ad96f..14ce53e 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -205,6 +205,14 @@ class RemoteSyncDir(SyncDir):
         """
         self._db_file.lock()
 
+    def checkpoint(self) -> None:
+        """Write data to persistent storage, but keep the lock.
+
+        Raises:
+            StatusError: Another client is changing the directory.
+        """
+        self._db_file.checkpoint()
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._db_file.commit()
-- 
2.43.0


From bca23f5d13af3313f02a91fe1291be7aac392019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:05 +0000
Subject: [PATCH 88/88] fix: reset fails if an unsafe remote symlink is in the
 place of a local directory

---
 zielen/commands/reset.py |  5 +++++
 zielen/filelogic.py      | 10 +++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 5daf799..7f73b7a 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -178,6 +178,11 @@ class ResetCommand(Command):
         # The remote versions of these files would be lost if the remote
         # directory is removed.
         unsynced_paths = fm.get_unsynced()
+
+        # Neither can unsafe symlinks be synced, but a directory must not be in
+        # the place of one.
+        unsynced_paths |= fm.get_unsafe_remote() & self.local_dir.scan_paths(
+            files=False, symlinks=False).keys()
         if not self.keep_remote:
             local_paths |= (
                 unsynced_paths & self.local_dir.scan_paths().keys())
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8e3c206..42e575b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -409,7 +409,7 @@ class FilesManager:
         unsynced_paths = self.get_unsynced() | (
             self.remote_dir.scan_paths(memoize=False).keys()
             - self.profile.get_paths().keys())
-        unsafe_paths = self._get_unsafe_remote()
+        unsafe_paths = self.get_unsafe_remote()
         unsynced_paths |= unsafe_paths
 
         try:
@@ -742,7 +742,7 @@ class FilesManager:
 
         return unsynced_paths
 
-    def _get_unsafe_remote(self) -> Set[str]:
+    def get_unsafe_remote(self) -> Set[str]:
         """Get remote symlinks that must not be synced.
 
         Files that have been synced may have been replaced with them since.
@@ -812,7 +812,7 @@ class FilesManager:
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)}
         new_remote_paths -= self.get_unsynced()
-        new_remote_paths -= self._get_unsafe_remote()
+        new_remote_paths -= self.get_unsafe_remote()
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
@@ -869,7 +869,7 @@ class FilesManager:
                 directory=False, min_lastsync=last_sync).keys()
             & self.remote_dir.scan_paths(dirs=False).keys()
             & self.profile.get_paths().keys())
-        remote_mod_paths -= self._get_unsafe_remote()
+        remote_mod_paths -= self.get_unsafe_remote()
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
@@ -906,7 +906,7 @@ class FilesManager:
             self.local_dir.path)
         remote_del_paths = (
             (known_paths - local_paths | local_replaced)
-            - mod_paths.remote - remote_replaced - self._get_unsafe_remote())
+            - mod_paths.remote - remote_replaced - self.get_unsafe_remote())
 
         # Directories can't be deleted if they still contain other files.
         local_del_paths -= self._get_parents(local_paths - local_del_paths)
-- 
2.43.0

