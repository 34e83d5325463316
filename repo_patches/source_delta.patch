From d5f01256265cef1443e0bdc4949acd6cf1741616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 01/69] fix: fsync objects/pack after renaming a new pack and
 idx into it

finish_pack() synced the objects directory, but the renames change
objects/pack, so a power loss could leave refs to a pack that is gone.
---
 lib/bup/git.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index aa5bcf1..5be6c4c 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -841,7 +841,9 @@ class LocalPackStore():
                 objdir = os.path.join(self._repo_dir, b'objects')
                 self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
                 self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir, os.O_RDONLY),
+                # finish_pack() renames the pack and idx into this directory
+                packdir = os.path.join(objdir, b'pack')
+                self._parentfd = err_stack.enter_context(finalized(os.open(packdir, os.O_RDONLY),
                                                                    os.close))
                 self._file.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
-- 
2.43.0


From 34270eeef74913d34acc64d03bfa14b7611fae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 02/69] fix: flush the pack index before syncing it

The trailing checksum was still in the file object's buffer when
fsync() was called, so a power loss could leave a truncated idx that
makes its pack unreadable.
---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 5be6c4c..c2ceb89 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1073,6 +1073,7 @@ class PackIdxV2Writer:
             for b in chunkyreader(idx_f):
                 idx_sum.update(b)
             idx_f.write(idx_sum.digest())
+            idx_f.flush()
             fsync(idx_f.fileno())
 
 
-- 
2.43.0


From 8e7a66072de223c7ac7b24e4490063de470c2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 03/69] fix: gc: never remove a pack that this gc has
 (re)created

When rewriting a fully live pack recreates it under its own name and
the pack is finished before its stem is added to stale_packs (e.g.
packSizeLimit reached by its last object), the next finished pack
removed it, losing live objects.
---
 lib/bup/gc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 7ca2c28..2fa44ac 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -145,17 +145,21 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     """Traverse all the packs, saving the (probably) live data."""
 
     stale_packs = [] # stems like /some/where/pack-OIDX (no suffix)
+    # Rewriting can recreate an existing pack, and finish it before it's
+    # in stale_packs.
+    created_packs = set()
 
     def remove_stale_packs(new_pack_prefix):
         nonlocal stale_packs
         if new_pack_prefix:
             assert _pack_stem_rx.fullmatch(basename(new_pack_prefix))
+            created_packs.add(new_pack_prefix)
             if verbosity:
                 log('created ' + path_msg(basename(new_pack_prefix)) + '\n')
         for stem in stale_packs:
             assert _pack_stem_rx.fullmatch(basename(stem))
-            if stem == new_pack_prefix:
-                continue  # Don't remove the new pack file
+            if stem in created_packs:
+                continue  # Don't remove a new pack file
             for p in glob.glob(stem + b'.*'):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
-- 
2.43.0


From 6ade136a3153d80c2c83d7c45cf43146e0a0f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 04/69] fix: sync a bloom filter before renaming it into place

BloomWriter.close() renamed the file before its buffered data (the
index names, or with delaywrite everything) had been written, let alone
synced, so being killed or losing power could leave an empty or partial
bup.bloom, and an empty one makes every later save die.
---
 lib/bup/bloom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index a28d263..890aa6b 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -89,6 +89,7 @@ from bup.helpers import \
     (debug1,
      debug2,
      finalized,
+     fsync,
      log,
      mmap_read,
      mmap_readwrite,
@@ -336,6 +337,10 @@ class BloomWriter(_BloomBase):
                 self._file.seek(16 + 2**self.bits)
                 if self.idxnames:
                     self._file.write(b'\0'.join(self.idxnames))
+                # Otherwise a crash could leave an empty or partial
+                # filter at path, which would break every later command.
+                self._file.flush()
+                fsync(self._file.fileno())
                 os.rename(self._tmp_file_path, self.path)
         finally:
             self._file, self.map, self._tmp_file_path = None, None, None
-- 
2.43.0


From 0a53704ec4a4aa2d38995f321ca269dda637067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 05/69] fix: let a re-run of an interrupted index repair the
 index

index updates bupindex in place, and replaces it, before the metadata
store (and the hardlink database) has been written, so being killed or
losing power left entries referring to lost or wrong metadata, without
hardlink information, or below parents that were still valid.  Later
runs considered the entries up to date, so save died, or saved the wrong
metadata, or ignored changed files.

Sync the metadata store before the index that refers to it, drop a
partial record from its end, and always refresh the entries that are
invalid or that refer to lost metadata.
---
 lib/bup/cmd/index.py | 11 +++++++++--
 lib/bup/index.py     | 15 ++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index f9a3fea..0ae50aa 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -125,14 +125,19 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
 
             if rig.cur and rig.cur.name == path:    # paths that already existed
                 need_repack = False
-                if(rig.cur.stale(pst, check_device=check_device)):
+                # An interrupted index may have updated an entry in
+                # place (which also invalidates it) without managing
+                # to record its metadata, or to update its parents.
+                if rig.cur.stale(pst, check_device=check_device) \
+                   or not rig.cur.is_valid() \
+                   or rig.cur.meta_ofs >= msw.initial_size:
                     try:
                         meta = metadata.from_path(path, statinfo=pst)
                     except (OSError, IOError) as e:
                         add_error(e)
                         rig.next()
                         continue
-                    if not stat.S_ISDIR(rig.cur.mode) and rig.cur.nlink > 1:
+                    if not stat.S_ISDIR(rig.cur.mode):
                         hlinks.del_path(rig.cur.name)
                     if not stat.S_ISDIR(pst.st_mode) and pst.st_nlink > 1:
                         hlinks.add_path(path, pst.st_dev, pst.st_ino)
@@ -152,6 +157,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     meta.ctime = meta.mtime = meta.atime = 0
                     meta.freeze()
                     meta_ofs = msw.store(meta)
+                    msw.flush() # The existing entry is changed in place
                     rig.cur.update_from_stat(pst, meta_ofs)
                     rig.cur.invalidate()
                     need_repack = True
@@ -207,6 +213,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                             mi.add_ixentry(e)
                         mi.close()
 
+        msw.sync() # Also for entries that were changed in place
         hlinks.commit_save()
 
 
diff --git a/lib/bup/index.py b/lib/bup/index.py
index 6744617..803713a 100644
--- a/lib/bup/index.py
+++ b/lib/bup/index.py
@@ -148,10 +148,15 @@ class MetaStoreWriter:
                     m_off = m_file.tell()
                     m = metadata.Metadata.read(m_file)
             except EOFError:
-                pass
+                # An interrupted append; drop it so that whatever
+                # follows will be readable.
+                m_file.truncate(m_off)
             except:
                 log('index metadata in %r appears to be corrupt\n' % filename)
                 raise
+        # Any index entry referring to something at or beyond this
+        # offset lost its metadata (e.g. in a crash).
+        self.initial_size = m_off
         self._file = open(filename, 'ab') # pylint: disable=consider-using-with
 
     def close(self):
@@ -174,6 +179,12 @@ class MetaStoreWriter:
         self._offsets[meta_encoded] = ofs
         return ofs
 
+    def flush(self): self._file.flush()
+
+    def sync(self):
+        self._file.flush()
+        fsync(self._file.fileno())
+
 
 class Level:
     def __init__(self, ename, parent):
@@ -645,6 +656,8 @@ class Writer:
                 self.pending_index.cancel()
             else:
                 self.flush()
+                # The index must never refer to lost metadata
+                self.metastore.sync()
                 fsync(self.f.fileno())
 
     def __del__(self):
-- 
2.43.0


From 030b8c2617e8afafd0d73d6a00bf3d7850142fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 06/69] fix: find a chunked .bupm after names like .bupm.bupl

When a directory's metadata is large enough to be split, .bupm is a tree,
which git sorts as .bupm/, i.e. after names like .bupm.bupl or .bupm-x,
so all of the directory's metadata was ignored.
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 170d914..2faccfe 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -467,7 +467,7 @@ def tree_data_and_bupm(repo, oid):
     for _, mangled_name, sub_oid in tree_entries(data):
         if mangled_name == b'.bupm':
             return data, sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # it might be a (chunked) tree
             break
     return data, None
 
@@ -752,7 +752,7 @@ def _find_bupm_oid(entries):
     for _, mangled_name, sub_oid in entries:
         if mangled_name == b'.bupm':
             return sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # it might be a (chunked) tree
             break
     return None
 
@@ -829,7 +829,7 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
                 break
         else:
             split_or_not_known = True
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # it might be a (chunked) tree
             break
 
     # When repairing, "." wouldn't be affected by the missing entries
-- 
2.43.0


From e03cf703c8fbaa990c2a3670a81e62e47b7fba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 07/69] fix: index: preserve the order of a hard link's paths
 when re-adding one

---
 lib/bup/cmd/index.py | 14 ++++++++++----
 lib/bup/hlinkdb.py   | 10 +++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 0ae50aa..54d35d6 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -137,10 +137,16 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                         add_error(e)
                         rig.next()
                         continue
-                    if not stat.S_ISDIR(rig.cur.mode):
-                        hlinks.del_path(rig.cur.name)
-                    if not stat.S_ISDIR(pst.st_mode) and pst.st_nlink > 1:
-                        hlinks.add_path(path, pst.st_dev, pst.st_ino)
+                    # The first path is the others' hardlink target (also
+                    # in the trees already saved), so preserve the order.
+                    is_hlink = not stat.S_ISDIR(pst.st_mode) \
+                        and pst.st_nlink > 1
+                    if not (is_hlink
+                            and hlinks.has_path(path, pst.st_dev, pst.st_ino)):
+                        if not stat.S_ISDIR(rig.cur.mode):
+                            hlinks.del_path(rig.cur.name)
+                        if is_hlink:
+                            hlinks.add_path(path, pst.st_dev, pst.st_ino)
                     # Clear these so they don't bloat the store -- they're
                     # already in the index (since they vary a lot and they're
                     # fixed length).  If you've noticed "tmax", you might
diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index b71b550..ca7cca9 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -78,14 +78,11 @@ class HLinkDB:
         assert self.closed
 
     def add_path(self, path, dev, ino):
-        # Assume path is new.
         node = b'%d:%d' % (dev, ino)
         self._path_node[path] = node
-        link_paths = self._node_paths.get(node)
-        if link_paths and path not in link_paths:
+        link_paths = self._node_paths.setdefault(node, [])
+        if path not in link_paths:
             link_paths.append(path)
-        else:
-            self._node_paths[node] = [path]
 
     def _del_node_path(self, node, path):
         link_paths = self._node_paths[node]
@@ -106,6 +103,9 @@ class HLinkDB:
             self._del_node_path(node, path)
             del self._path_node[path]
 
+    def has_path(self, path, dev, ino):
+        return self._path_node.get(path) == b'%d:%d' % (dev, ino)
+
     def node_paths(self, dev, ino):
         node = b'%d:%d' % (dev, ino)
         return self._node_paths[node]
-- 
2.43.0


From 6b19ea424d932cdb8fcb13fbf4384bd8c53dad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 08/69] fix: save: keep the content of already saved
 directories that become the root

With --strip, --strip-path, or --graft the content of a directory may
become the root of the save, but if that directory was already saved
(by a save with different options), then it was not traversed, and the
resulting save was empty.  Traverse any such directory, and always
descend to the requested paths.
---
 lib/bup/cmd/save.py | 29 +++++++++++++++++++----------
 lib/bup/index.py    |  5 ++++-
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6cecdbd..aa995d8 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -198,11 +198,27 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
     def already_saved(ent):
         return ent.is_valid() and repo.exists(ent.sha) and ent.sha
 
+    def archive_path_components(dir):
+        if opt.strip:
+            return stripped_path_components(dir, opt.sources)
+        if opt.strip_path:
+            return stripped_path_components(dir, [opt.strip_path])
+        if opt.grafts:
+            return grafted_path_components(opt.grafts, dir)
+        return path_components(dir)
+
+    def is_archive_root(ent):
+        # The content of any such directory becomes (part of) the root
+        # tree, so an existing tree can't just be reused.
+        return stat.S_ISDIR(ent.mode) \
+            and len(archive_path_components(os.path.split(ent.name)[0])) == 1
+
     def wantrecurse_pre(ent):
-        return not already_saved(ent)
+        return not already_saved(ent) or is_archive_root(ent)
 
     def wantrecurse_during(ent):
-        return not already_saved(ent) or ent.sha_missing()
+        return not already_saved(ent) or ent.sha_missing() \
+            or is_archive_root(ent)
 
     def find_hardlink_target(hlink_db, ent):
         if hlink_db and not stat.S_ISDIR(ent.mode) and ent.nlink > 1:
@@ -284,14 +300,7 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             continue
 
         assert(dir.startswith(b'/'))
-        if opt.strip:
-            dirp = stripped_path_components(dir, opt.sources)
-        elif opt.strip_path:
-            dirp = stripped_path_components(dir, [opt.strip_path])
-        elif opt.grafts:
-            dirp = grafted_path_components(opt.grafts, dir)
-        else:
-            dirp = path_components(dir)
+        dirp = archive_path_components(dir)
 
         # At this point, dirp contains a representation of the archive
         # path that looks like [(archive_dir_name, real_fs_path), ...].
diff --git a/lib/bup/index.py b/lib/bup/index.py
index 803713a..86fa035 100644
--- a/lib/bup/index.py
+++ b/lib/bup/index.py
@@ -468,7 +468,10 @@ class ExistingEntry(Entry):
             if (not dname
                  or child.name.startswith(dname)
                  or child.name.endswith(b'/') and dname.startswith(child.name)):
-                if not wantrecurse or wantrecurse(child):
+                # Always descend to name
+                if not wantrecurse or wantrecurse(child) \
+                   or (dname and child.name != dname
+                       and dname.startswith(child.name)):
                     yield from child.iter(name=name, wantrecurse=wantrecurse)
             if not name or child.name == name or child.name.startswith(dname):
                 yield child
-- 
2.43.0


From 36f01d45c9e00c11d2791afc70e27028d082a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 09/69] fix: index: store normalized metadata

save uses the index's metadata for anything already saved, and
normalized metadata from the filesystem otherwise, and the two differed
with respect to the size of special files.
---
 lib/bup/cmd/index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 54d35d6..c2ea079 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -132,7 +132,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                    or not rig.cur.is_valid() \
                    or rig.cur.meta_ofs >= msw.initial_size:
                     try:
-                        meta = metadata.from_path(path, statinfo=pst)
+                        meta = metadata.from_path(path, statinfo=pst, normalized=True)
                     except (OSError, IOError) as e:
                         add_error(e)
                         rig.next()
@@ -181,7 +181,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                 rig.next()
             else:  # new paths
                 try:
-                    meta = metadata.from_path(path, statinfo=pst)
+                    meta = metadata.from_path(path, statinfo=pst, normalized=True)
                 except (OSError, IOError) as e:
                     add_error(e)
                     continue
-- 
2.43.0


From 897282702d3db5eac2de554c7d99086b6b99d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 10/69] fix: git: notice when show-ref fails

Previously a failure looked like an empty list of refs, and so (for
example) gc would delete everything.
---
 lib/bup/git.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index c2ceb89..269cdc1 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1095,6 +1095,8 @@ def list_refs(patterns=None, repo_dir=None,
     if patterns:
         argv.extend(patterns)
     cp = subprocess.run(argv, env=_gitenv(repo_dir), stdout=subprocess.PIPE)
+    if cp.returncode not in (0, 1): # 1 indicates no matches
+        _raise_git_cmd_error(argv, cp.returncode)
     if cp.returncode:
         assert not cp.stdout
     out = cp.stdout.strip()
-- 
2.43.0


From 2cb277300d9fabbd8b4008c9108174abc562c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 11/69] fix: never store the index's adjusted times in a save

index replaces any recent mtime or ctime with an older one in the index
entry (so that the path will be reconsidered next time), and then a
second save (before another index) would use the adjusted times. Keep
the actual times in the metadata store in those cases.
---
 lib/bup/cmd/index.py | 33 +++++++++++++++++----------------
 lib/bup/cmd/save.py  |  5 ++++-
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index c2ea079..85652a4 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -74,6 +74,18 @@ def clear_index(fsindex, verbose):
     rm(fsindex.hlink)
 
 
+def without_indexed_times(meta, tmax):
+    """Return meta with any times that will be available from the index
+    entry cleared to 0."""
+    meta.thaw()
+    meta.atime = 0
+    if meta.mtime <= tmax:
+        meta.mtime = 0
+    if meta.ctime <= tmax:
+        meta.ctime = 0
+    return meta.freeze()
+
+
 def update_index(top, excluded_paths, exclude_rxs, fsindex,
                  check=False, check_device=True,
                  xdev=False, xdev_exceptions=frozenset(),
@@ -152,17 +164,9 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     # fixed length).  If you've noticed "tmax", you might
                     # wonder why it's OK to do this, since that code may
                     # adjust (mangle) the index mtime and ctime -- producing
-                    # fake values which must not end up in a .bupm.  However,
-                    # it looks like that shouldn't be possible:  (1) When
-                    # "save" validates the index entry, it always reads the
-                    # metadata from the filesytem. (2) Metadata is only
-                    # read/used from the index if hashvalid is true. (3)
-                    # "faked" entries will be stale(), and so we'll invalidate
-                    # them below.
-                    meta.thaw()
-                    meta.ctime = meta.mtime = meta.atime = 0
-                    meta.freeze()
-                    meta_ofs = msw.store(meta)
+                    # fake values which must not end up in a .bupm.  So
+                    # don't clear the times that it adjusts.
+                    meta_ofs = msw.store(without_indexed_times(meta, tmax))
                     msw.flush() # The existing entry is changed in place
                     rig.cur.update_from_stat(pst, meta_ofs)
                     rig.cur.invalidate()
@@ -185,11 +189,8 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                 except (OSError, IOError) as e:
                     add_error(e)
                     continue
-                # See same assignment to 0, above, for rationale.
-                meta.thaw()
-                meta.atime = meta.mtime = meta.ctime = 0
-                meta.freeze()
-                meta_ofs = msw.store(meta)
+                # See above for rationale.
+                meta_ofs = msw.store(without_indexed_times(meta, tmax))
                 wi.add(path, pst, meta_ofs, hashgen=fake_hash)
                 if not stat.S_ISDIR(pst.st_mode) and pst.st_nlink > 1:
                     hlinks.add_path(path, pst.st_dev, pst.st_ino)
diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index aa995d8..6f0f5ed 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -359,7 +359,10 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             meta = msr.metadata_at(ent.meta_ofs).thaw()
             meta.hardlink_target = find_hardlink_target(hlink_db, ent)
             # Restore the times that were cleared to 0 in the metastore.
-            meta.atime, meta.mtime, meta.ctime = ent.atime, ent.mtime, ent.ctime
+            # (It still has those that the index entry doesn't.)
+            meta.atime = ent.atime
+            meta.mtime = meta.mtime or ent.mtime
+            meta.ctime = meta.ctime or ent.ctime
             meta.freeze()
             stack.append_to_current(file, ent.mode, ent.gitmode, ent.sha, meta)
         else:
-- 
2.43.0


From 4cdb4433bdaf6bc13bb84dd7707ef183e1f5a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 12/69] fix: gc: remove a stale pack's idx before the pack

Otherwise, if gc is interrupted, or can't remove the idx, then the idx
claims the existence of objects that are gone.
---
 lib/bup/gc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 2fa44ac..c659a83 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -160,7 +160,10 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
             assert _pack_stem_rx.fullmatch(basename(stem))
             if stem in created_packs:
                 continue  # Don't remove a new pack file
-            for p in glob.glob(stem + b'.*'):
+            # Remove the idx first, so that if we're interrupted (or the
+            # removal fails) no idx will refer to a missing pack.
+            for p in sorted(glob.glob(stem + b'.*'),
+                            key=lambda p: not p.endswith(b'.idx')):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
                 os.unlink(p)
-- 
2.43.0


From 5dbf597d42a143b2201af40af3a4497aae296ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 13/69] fix: gc: don't leave the liveness filter in
 objects/pack

BloomWriter creates its own temporary file, and renames it to path when
closed, so unlinking path beforehand doesn't help, and every gc (and
validate-refs) left a tmp-gc-*.bloom behind.
---
 lib/bup/gc.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index c659a83..8cd4b95 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -8,7 +8,7 @@ from bup import bloom, git, midx
 from bup.bloom import BloomWriter
 from bup.git import MissingObject, walk_object
 from bup.helpers import \
-    EXIT_FAILURE, log, note_error, progress, qprogress, reprogress
+    EXIT_FAILURE, log, note_error, progress, qprogress, reprogress, unlink
 from bup.io import walk_path_msg, path_msg
 from bup.repo import LocalRepo
 
@@ -76,6 +76,16 @@ def report_missing(ref_name, item_path):
     return True
 
 
+class EphemeralBloom(BloomWriter):
+    """A filter whose file is removed when it's closed."""
+    __slots__ = ()
+    def close(self, error=None):
+        try:
+            super().close(error)
+        finally:
+            unlink(self.path)
+
+
 def find_live_objects(existing_count, cat_pipe, refs=None, *,
                       idx_list=None, for_item=None, verbosity=0):
     # Currently, for_item(ref_name, item_path) is called for all
@@ -91,10 +101,10 @@ def find_live_objects(existing_count, cat_pipe, refs=None, *,
     os.close(ffd)
     # FIXME: allow selection of k?
     # FIXME: support ephemeral bloom filters (i.e. *never* written to disk)
-    live_blobs = BloomWriter(bloom_filename, 'w+b', expected=existing_count, k=None)
+    live_blobs = EphemeralBloom(bloom_filename, 'w+b', expected=existing_count, k=None)
     with ExitStack() as maybe_close_bloom:
         maybe_close_bloom.enter_context(live_blobs)
-        # live_blobs will hold on to the fd until close or exit
+        # live_blobs uses its own temporary file until close or exit
         os.unlink(bloom_filename)
         live_trees = set()
         def stop_at(x): return unhexlify(x) in live_trees
-- 
2.43.0


From d611812d6617cc1be6b737ae0d54b4e9601b2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 14/69] fix: prune-older: keep all of the saves that the
 documentation says it will

Any save newer than --wrt must be kept, saves preceding (older than) one
that's out of order must be left alone, and (for example) saves on the
same day of the month in adjacent years aren't on the same day, even if
there are no saves in between.
---
 lib/bup/cmd/prune_older.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 6c22182..67b47c0 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -20,12 +20,21 @@ def branches(refnames=tuple()):
             in git.list_refs(patterns=(b'refs/heads/' + n for n in refnames),
                              limit_to_heads=True))
 
-def classify_saves(saves, period_start):
+def classify_saves(saves, period_start, wrt):
     """For each (utc, ...) in saves, yield (True, (utc, ...)) if the
     save should be kept and (False, (utc, ...)) if the save should be
-    removed.
+    removed.  Keep any saves newer than wrt, and the first save that's
+    newer than its child, along with all of its ancestors.
 
     """
+    prev_utc = float('inf')
+    def in_order(save):
+        nonlocal prev_utc
+        ordered = save[0] <= prev_utc
+        prev_utc = save[0]
+        return ordered
+
+    saves, out_of_order = partition(in_order, saves)
 
     def retain_newest_in_region(region):
         for save in region[0:1]:
@@ -33,13 +42,19 @@ def classify_saves(saves, period_start):
         for save in region[1:]:
             yield False, save
 
-    matches, rest = partition(lambda s: s[0] >= period_start['all'], saves)
+    matches, rest = partition(lambda s: s[0] > wrt or s[0] >= period_start['all'],
+                              saves)
     for save in matches:
         yield True, save
 
-    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0]).tm_yday),
-                 (period_start['monthlies'], lambda s: localtime(s[0]).tm_mon),
-                 (period_start['yearlies'], lambda s: localtime(s[0]).tm_year))
+    # The ids include the year because adjacent saves can be years apart
+    def day(s): return localtime(s[0])[0], localtime(s[0]).tm_yday
+    def month(s): return localtime(s[0])[0:2]
+    def year(s): return localtime(s[0]).tm_year
+
+    tm_ranges = ((period_start['dailies'], day),
+                 (period_start['monthlies'], month),
+                 (period_start['yearlies'], year))
 
     # Break the decreasing utc sorted saves up into the respective
     # period ranges (dailies, monthlies, ...).  Within each range,
@@ -55,6 +70,10 @@ def classify_saves(saves, period_start):
     for save in rest:
         yield False, save
 
+    # These must come last (see partition())
+    for save in out_of_order:
+        yield True, save
+
 
 optspec = """
 bup prune-older [options...] [BRANCH...]
@@ -147,7 +166,7 @@ def main(argv):
                  for ((oidx, utc), save_name) \
                  in zip(revs, save_names_for_commit_utcs(x[1] for x in revs)))
         for keep_save, (utc, oid_, save_name) \
-                in classify_saves(saves, period_start):
+                in classify_saves(saves, period_start, now):
             assert(keep_save in (False, True))
             # FIXME: base removals on hashes
             if opt.pretend:
-- 
2.43.0


From 44860c530482983ba16a53dc3d1c95ddeae00b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 15/69] fix: index: invalidate a hard link's other paths when
 the first is removed

---
 lib/bup/cmd/index.py |  8 ++++++++
 lib/bup/hlinkdb.py   | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 85652a4..ca22115 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -199,6 +199,14 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
         paths_per_sec = total / elapsed if elapsed else 0
         progress('Indexing: %d, done (%d paths/s).\n' % (total, paths_per_sec))
 
+        # Anything saved before refers to the removed hardlink target, so
+        # it has to be saved again, even if it hasn't changed.
+        for path in hlinks.retargeted_paths():
+            ent = ri.find(path)
+            if ent:
+                ent.invalidate()
+                ent.repack()
+
         hlinks.prepare_save()
 
         if not ri.exists():
diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index ca7cca9..21d56e4 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -27,6 +27,8 @@ class HLinkDB:
         self._node_paths = pickle_load(filename) or {}
         # Map a path to a "dev:ino" node (a reverse hard link index).
         self._path_node = {}
+        # See retargeted_paths()
+        self._retargeted = set()
         for node, paths in self._node_paths.items():
             for path in paths:
                 self._path_node[path] = node
@@ -86,9 +88,12 @@ class HLinkDB:
 
     def _del_node_path(self, node, path):
         link_paths = self._node_paths[node]
+        was_target = link_paths[0] == path
         link_paths.remove(path)
         if not link_paths:
             del self._node_paths[node]
+        elif was_target:
+            self._retargeted.update(link_paths)
 
     def change_path(self, path, new_dev, new_ino):
         prev_node = self._path_node.get(path)
@@ -103,6 +108,11 @@ class HLinkDB:
             self._del_node_path(node, path)
             del self._path_node[path]
 
+    def retargeted_paths(self):
+        """Return the paths whose first path (i.e. the hardlink target)
+        has changed because the previous one was removed."""
+        return sorted(x for x in self._retargeted if x in self._path_node)
+
     def has_path(self, path, dev, ino):
         return self._path_node.get(path) == b'%d:%d' % (dev, ino)
 
-- 
2.43.0


From 0d2965ca4dd919f87489860765d27ec0c00460f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 16/69] fix: mux: handle partial writes

---
 lib/bup/helpers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b3eb852..8759fe6 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -528,7 +528,12 @@ def mux(outfd, outr, errr):
     terminate the multiplexed "session" before returning.
 
     """
-    os.write(outfd, b'BUPMUX')
+    def write_all(data):
+        # A write may be partial, e.g. when stopped and continued
+        data = memoryview(data)
+        while data:
+            data = data[os.write(outfd, data):]
+    write_all(b'BUPMUX')
     try:
         fds = [outr, errr]
         while fds:
@@ -539,15 +544,15 @@ def mux(outfd, outr, errr):
                     if not buf:
                         fds.remove(outr)
                     else:
-                        os.writev(outfd, (struct.pack('!IB', len(buf), 1), buf))
+                        write_all(struct.pack('!IB', len(buf), 1) + buf)
                 elif fd == errr:
                     buf = os.read(errr, 1024)
                     if not buf:
                         fds.remove(errr)
                     else:
-                        os.writev(outfd, (struct.pack('!IB', len(buf), 2), buf))
+                        write_all(struct.pack('!IB', len(buf), 2) + buf)
     finally:
-        os.write(outfd, struct.pack('!IB', 0, 3))
+        write_all(struct.pack('!IB', 0, 3))
 
 
 class DemuxConn(BaseConn):
-- 
2.43.0


From ed6d8e140cce7faf246767e9c13637d1dedde52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 17/69] fix: client: don't request indexes that are already
 cached

---
 lib/bup/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index e118faf..7e62f81 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -420,7 +420,7 @@ class Client:
                 extra.add(f)
         needed = set()
         for idx, load in self._list_indexes():
-            if load:
+            if load and idx not in extra:
                 # If the server requests that we load an idx and we don't
                 # already have a copy of it, it is needed
                 needed.add(idx)
-- 
2.43.0


From cd6786c6b28abe2cd66736d0c9caa6b2a6177c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 18/69] fix: save: don't let --smaller drop directories or
 poison later saves

Directories may well be larger than the limit; skipping them lost empty
ones and failed when no file remained.  And skipping an already saved
file left its parent directory marked as completely saved, so that later
saves without --smaller omitted the file.
---
 lib/bup/cmd/save.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6f0f5ed..9300bc5 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -292,11 +292,12 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
 
         if not exists:
             continue
-        if opt.smaller and ent.size >= opt.smaller:
-            if exists and not already_saved_oid:
-                if opt.verbose:
-                    log('skipping large file "%s"\n' % path_msg(ent.name))
-                lastskip_name = ent.name
+        if opt.smaller and ent.size >= opt.smaller \
+           and not stat.S_ISDIR(ent.mode):
+            if opt.verbose and not already_saved_oid:
+                log('skipping large file "%s"\n' % path_msg(ent.name))
+            # Even if it's already saved, it won't be in the parent's tree
+            lastskip_name = ent.name
             continue
 
         assert(dir.startswith(b'/'))
-- 
2.43.0


From 3883d6d78043917eefd6c4584614f7c121d83658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 19/69] fix: on: exit with an error when the output can't be
 reproduced

---
 lib/bup/cmd/on.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/on.py b/lib/bup/cmd/on.py
index d5b6525..020dbed 100644
--- a/lib/bup/cmd/on.py
+++ b/lib/bup/cmd/on.py
@@ -144,5 +144,5 @@ def main(argv):
                      timeout=1) as demux:
             if srv_config:
                 run_server(on_srv, srv_config)
-            demux.wait() # finish the output
-    return on_srv.returncode
+            demux_rc = demux.wait() # finish the output
+    return on_srv.returncode or demux_rc
-- 
2.43.0


From 6274c8751780f754415cffb0cb2686f863024887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 20/69] fix: demux: reject packets for unknown channels

---
 lib/bup/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 8759fe6..d569d38 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -620,6 +620,8 @@ class DemuxConn(BaseConn):
                 sys.stderr.buffer.write(buf)
                 buf = os.read(self.infd, 1024)
             sys.stderr.buffer.flush()
+        else:
+            raise Exception(f'demux: unexpected packet type {fdw}')
         return True
 
     def _load_buf(self, timeout):
-- 
2.43.0


From 60b53d3354000a6704684cc169ec28c6bbdd1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 21/69] fix: client: use the monotonic clock for --bwlimit

---
 lib/bup/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index 7e62f81..5b0f773 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -104,7 +104,7 @@ class _LineBasedCall(_AbstractTypicalCall):
 def _raw_write_bwlimit(f, buf, bwcount, bwtime):
     if not bwlimit:
         f.write(buf)
-        return (len(buf), time.time())
+        return (len(buf), time.monotonic())
     # We want to write in reasonably large blocks, but not so large that
     # they're likely to overflow a router's queue.  So our bwlimit timing
     # has to be pretty granular.  Also, if it takes too long from one
@@ -113,7 +113,7 @@ def _raw_write_bwlimit(f, buf, bwcount, bwtime):
     # outbound queue, which defeats the purpose.  So if we fall behind
     # by more than one block delay, we shouldn't ever try to catch up.
     for i in range(0,len(buf),4096):
-        now = time.time()
+        now = time.monotonic()
         next = max(now, bwtime + 1.0*bwcount/bwlimit)
         time.sleep(next-now)
         sub = buf[i:i+4096]
@@ -668,7 +668,7 @@ class RemotePackStore:
                  ensure_busy):
         self._closed = False
         self._bwcount = 0
-        self._bwtime = time.time()
+        self._bwtime = time.monotonic()
         self._cache = cache
         self._conn = conn
         self._ensure_busy = ensure_busy
-- 
2.43.0


From 415ec77883229a7b1efa1e33b022bded27338cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 22/69] fix: server: don't store objects that fail the crc
 check

---
 lib/bup/protocol.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index 1aadb98..e36934d 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -1,5 +1,5 @@
 
-import os, struct
+import os, struct, zlib
 from binascii import hexlify, unhexlify
 
 from bup import git, vfs, vint
@@ -335,10 +335,13 @@ class Server:
                         self.conn.write(b'index %s\n' % name)
                         suggested.add(name)
                     continue
+            # Check before writing, because everything that has been
+            # written will be stored when the repo is closed.
+            crc = zlib.crc32(buf) & 0xffffffff
+            self._check(crcr, crc, 'object read: expected crc %d, got %d\n')
             # FIXME: figure out the right abstraction for this; or better yet,
             #        make the protocol aware of the object type
-            crc = self.repo._packwriter._store.write((buf,), sha=shar)[1]
-            self._check(crcr, crc, 'object read: expected crc %d, got %d\n')
+            self.repo._packwriter._store.write((buf,), sha=shar)
         assert False  # should be unreachable
 
     @_command
-- 
2.43.0


From 8e3559cc08fed7a1e3c3fddda81d3a83e719ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 23/69] fix: on: don't trust the object ids sent by save and
 split

---
 lib/bup/cmd/on.py   |  2 ++
 lib/bup/git.py      |  6 +++++-
 lib/bup/protocol.py | 18 +++++++++++++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/on.py b/lib/bup/cmd/on.py
index 020dbed..4b118f5 100644
--- a/lib/bup/cmd/on.py
+++ b/lib/bup/cmd/on.py
@@ -100,6 +100,8 @@ def save_or_split_server_config(argv, opt_parser):
                          b'receive-objects-v2',
                          b'update-ref'),
             'vet_update_ref': vet_update_ref,
+            # a forged object could replace an existing one
+            'verify_objects': True,
             **restricted_repo_config()}
 
 def main(argv):
diff --git a/lib/bup/git.py b/lib/bup/git.py
index 269cdc1..036082d 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -367,7 +367,11 @@ def _decode_packobj(buf):
         shift += 7
         if not (c & 0x80):
             break
-    return (type, zlib.decompress(buf[i+1:]))
+    d = zlib.decompressobj()
+    content = d.decompress(buf[i+1:])
+    if not d.eof or d.unused_data or len(content) != sz:
+        raise GitError('invalid packed object')
+    return (type, content)
 
 
 class PackIdx:
diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index e36934d..85777d4 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -173,7 +173,8 @@ class CommandDenied(Exception): pass
 
 class Server:
     def __init__(self, conn, backend, *, commands='all',
-                 vet_init_dir=None, vet_set_dir=None, vet_update_ref=None):
+                 vet_init_dir=None, vet_set_dir=None, vet_update_ref=None,
+                 verify_objects=False):
         """When commands is a sequence of command names (bytes),
         enable those commands.  When it is 'all', enable all commands.
         The help and quit commands are always enabled, and the
@@ -185,6 +186,9 @@ class Server:
         COMMAND's decoded arguments, and raise a CommandDenied
         exception if the invocation is not acceptable.
 
+        When verify_objects is true, don't trust the client's object
+        ids.
+
         """
         all_cmds = self._get_commands()
         if commands == 'all':
@@ -206,6 +210,7 @@ class Server:
         self._vet_init_dir = vet_init_dir
         self._vet_set_dir = vet_set_dir
         self._vet_update_ref = vet_update_ref
+        self._verify_objects = verify_objects
 
     def _get_commands(self):
         commands = []
@@ -276,6 +281,15 @@ class Server:
         self.repo.send_index(name, self.conn, self._send_size)
         self.conn.ok()
 
+    def _check_oid(self, oid, buf):
+        try:
+            kind, content = git._decode_packobj(buf)
+            actual = git.calc_hash(kind, content)
+        except (AssertionError, IndexError, KeyError, git.GitError, zlib.error) as ex:
+            raise CommandDenied(f'invalid object {oid.hex()}') from ex
+        if actual != oid:
+            raise CommandDenied(f'object {oid.hex()} is actually {actual.hex()}')
+
     def _check(self, expected, actual, msg):
         if expected != actual:
             self.repo.abort_writing()
@@ -339,6 +353,8 @@ class Server:
             # written will be stored when the repo is closed.
             crc = zlib.crc32(buf) & 0xffffffff
             self._check(crcr, crc, 'object read: expected crc %d, got %d\n')
+            if self._verify_objects:
+                self._check_oid(shar, buf)
             # FIXME: figure out the right abstraction for this; or better yet,
             #        make the protocol aware of the object type
             self.repo._packwriter._store.write((buf,), sha=shar)
-- 
2.43.0


From 51bd63f1d94d9732cfb13a30085ffcc43db7a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 24/69] fix: keep full names and missing accounts from
 producing unusable saves

---
 lib/bup/pwdgrp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/bup/pwdgrp.py b/lib/bup/pwdgrp.py
index 2f76075..eab8cc0 100644
--- a/lib/bup/pwdgrp.py
+++ b/lib/bup/pwdgrp.py
@@ -1,5 +1,5 @@
 
-import os
+import os, re
 
 from bup import _helpers
 from bup.helpers import cache_key_value
@@ -110,19 +110,27 @@ def username():
     global _username
     if not _username:
         uid = os.getuid()
-        _username = pwd_from_uid(uid).pw_name or b'user%d' % uid
+        entry = pwd_from_uid(uid)
+        _username = (entry and entry.pw_name) or b'user%d' % uid
     return _username
 
 
+def _without_crud(name):
+    # Like git, drop what can't appear in a commit's author/committer
+    # name, or at either end of it (cf. commit._safe_str_rx).
+    return re.sub(br'[\0\n<>]', b'', name).strip(b' .,:;"\'')
+
+
 _userfullname = None
 def userfullname():
-    """Get the user's full name."""
+    """Get the user's full name, suitable for a commit."""
     global _userfullname
     if not _userfullname:
         uid = os.getuid()
         entry = pwd_from_uid(uid)
         if entry:
-            _userfullname = entry.pw_gecos.split(b',')[0] or entry.pw_name
+            _userfullname = _without_crud(entry.pw_gecos.split(b',')[0]) \
+                or entry.pw_name
         if not _userfullname:
             _userfullname = b'user%d' % uid
     return _userfullname
-- 
2.43.0


From 62d95d05b53c18f05194d3cd82ad735b19a3ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 25/69] fix: get: let later targets build on earlier ones with
 the same destination

---
 lib/bup/cmd/get.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/bup/cmd/get.py b/lib/bup/cmd/get.py
index 6d48913..2ec9525 100644
--- a/lib/bup/cmd/get.py
+++ b/lib/bup/cmd/get.py
@@ -891,8 +891,9 @@ def get_everything(opt):
                              else x._replace(spec=dcreplace(x.spec, rewriter=rewriter)))
                             for x in target_items]
 
-            updated_refs = {}  # ref_name -> (original_ref, tip_commit(bin))
-            no_ref_info = (None, None)
+            # ref_name -> (original_ref, tip(bin), tip_type)
+            updated_refs = {}
+            no_ref_info = (None, None, None)
 
             handlers = {'ff': handle_ff,
                         'append': handle_append,
@@ -916,9 +917,11 @@ def get_everything(opt):
                     dest_ref = None
 
                 dest_hash = item.dest and item.dest.hash
-                orig_ref, cur_ref = updated_refs.get(dest_ref, no_ref_info)
+                orig_ref, cur_ref, cur_type = updated_refs.get(dest_ref, no_ref_info)
                 orig_ref = orig_ref or dest_hash
-                cur_ref = cur_ref or dest_hash
+                if cur_ref: # build on the preceding targets' changes
+                    item = item._replace(dest=item.dest._replace(hash=cur_ref,
+                                                                 type=cur_type))
 
                 handler = handlers[item.spec.method]
                 get_res = handler(item, src_repo, dest_repo)
@@ -927,7 +930,14 @@ def get_everything(opt):
                 if not dest_ref:
                     log_item(item.spec.src, item.src.type, opt)
                 else:
-                    updated_refs[dest_ref] = (orig_ref, get_res.oid)
+                    if not dest_ref.startswith(b'refs/tags/'):
+                        new_type = 'branch'
+                    elif item.spec.method in ('pick', 'force-pick') \
+                         or item.src.type in ('branch', 'save'):
+                        new_type = 'commit'
+                    else:
+                        new_type = item.src.type
+                    updated_refs[dest_ref] = (orig_ref, get_res.oid, new_type)
                     if dest_ref.startswith(b'refs/tags/'):
                         log_item(item.spec.src, item.src.type, opt,
                                  tag=get_res.oid)
@@ -939,7 +949,7 @@ def get_everything(opt):
         # finished writing, so that if something goes wrong above, the old
         # refs will be undisturbed.
         for ref_name, info in updated_refs.items():
-            orig_ref, new_ref = info
+            orig_ref, new_ref, _ = info
             try:
                 dest_repo.update_ref(ref_name, new_ref, orig_ref)
                 if opt.verbose:
-- 
2.43.0


From 91c8f2323da1fae3aeff0cd345b609b93e0a6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 26/69] fix: git: don't keep a pack with a partially written
 object

---
 lib/bup/git.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 036082d..5702704 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -6,7 +6,7 @@ interact with the Git data structures.
 import os, sys, zlib, subprocess, struct, stat, re, glob
 from array import array
 from binascii import hexlify, unhexlify
-from contextlib import ExitStack
+from contextlib import ExitStack, suppress
 from dataclasses import replace
 from itertools import islice
 from os import fsdecode
@@ -867,14 +867,20 @@ class LocalPackStore():
         # to our hashsplit algorithm.)  f.write() does its own buffering,
         # but that's okay because we'll flush it in _end().
         oneblob = b''.join(datalist)
+        complete = False
         try:
             f.write(oneblob)
+            nw = len(oneblob)
+            crc = zlib.crc32(oneblob) & 0xffffffff
+            self._update_idx(sha, crc, nw)
+            self._obj_count += 1
+            complete = True
         except IOError as e:
             raise GitError(e) from e
-        nw = len(oneblob)
-        crc = zlib.crc32(oneblob) & 0xffffffff
-        self._update_idx(sha, crc, nw)
-        self._obj_count += 1
+        finally:
+            # f may have part of it, or have it without an index entry
+            if not complete:
+                self.finish_pack(abort=True)
         return nw, crc
 
     def finish_pack(self, *, abort=False):
@@ -887,7 +893,12 @@ class LocalPackStore():
             with nullcontext_if_not(self._objcache), \
                  finalized(pfd, lambda x: x is not None and os.close(x)), \
                  nullcontext_if_not(f):
-                if abort or not f:
+                if abort:
+                    if f:
+                        with suppress(OSError): # e.g. can't flush
+                            f.close()
+                    return None
+                if not f:
                     return None
 
                 # update object count
-- 
2.43.0


From 3fdefc52ad6d315d00890399b38d9c55a08a95ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 27/69] fix: save: don't continue after losing a pack

---
 lib/bup/git.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 5702704..952bc8a 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -929,6 +929,11 @@ class LocalPackStore():
                 if self._run_midx:
                     auto_midx(os.path.join(self._repo_dir, b'objects/pack'))
                 return nameprefix
+        except OSError as ex:
+            # The pack's objects (which others may already refer to)
+            # are gone, so this must not be mistaken for a problem with
+            # whatever is currently being saved.
+            raise GitError(f'unable to finish pack: {ex}') from ex
         finally:
             self._obj_count = 0
             self._objcache = None # last -- some code above depends on it
-- 
2.43.0


From a80caf01a6dc299d97a0793fa040ba439abde958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 28/69] fix: client: don't try to finish a pack after an error

---
 lib/bup/client.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index 5b0f773..d91ba01 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -709,15 +709,20 @@ class RemotePackStore:
                            struct.pack('!I', crc),
                            data))
         try:
-            self._bwcount, self._bwtime = \
-                _raw_write_bwlimit(self._conn, outbuf, self._bwcount, self._bwtime)
-        except IOError as e:
-            raise ClientError(e) from e
-
-        if self._conn.has_input():
-            self._objcache.close_temps()
-            self._suggest_packs()
-            self._objcache.refresh()
+            try:
+                self._bwcount, self._bwtime = \
+                    _raw_write_bwlimit(self._conn, outbuf, self._bwcount, self._bwtime)
+                if self._conn.has_input():
+                    self._objcache.close_temps()
+                    self._suggest_packs()
+                    self._objcache.refresh()
+            except OSError as e:
+                raise ClientError(e) from e
+        except BaseException:
+            # No telling what the server expects now, so don't have
+            # close() try to finish the pack (which could deadlock).
+            self._packopen = False
+            raise
 
         return len(data), crc
 
-- 
2.43.0


From ec8e9cfa8c6423a6d7c06cafebebd0ae8c4533c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 29/69] fix: don't treat errors listing packs as if there
 weren't any

---
 lib/bup/cmd/bloom.py                 |  5 +++--
 lib/bup/cmd/fsck.py                  |  8 ++++----
 lib/bup/cmd/midx.py                  |  9 +++++----
 lib/bup/cmd/validate_object_links.py |  7 +++----
 lib/bup/gc.py                        | 16 +++++++++-------
 lib/bup/git.py                       |  7 ++++---
 lib/bup/helpers.py                   | 12 ++++++++++++
 lib/bup/midx.py                      |  6 +++---
 8 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c418640..a2ea009 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -1,5 +1,5 @@
 
-import os, glob
+import os
 
 from bup import bloom, options, git
 from bup.bloom import BloomInvalid, BloomNotFound, BloomReader, BloomWriter
@@ -11,6 +11,7 @@ from bup.helpers \
             debug1,
             log,
             note_error,
+            paths_in,
             progress,
             qprogress,
             saved_errors)
@@ -93,7 +94,7 @@ def do_bloom(path, outfilename, k, force):
         rest = []
         add_count = 0
         rest_count = 0
-        for i, name in enumerate(glob.glob(b'%s/*.idx' % path)):
+        for i, name in enumerate(paths_in(path, suffix=b'.idx')):
             progress('bloom: counting: %d\r' % i)
             with git.open_idx(name) as ix:
                 ixbase = os.path.basename(name)
diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 496edb3..63db260 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -4,13 +4,13 @@ from os.path import join
 from shutil import copy2, rmtree
 from subprocess import DEVNULL, PIPE, run
 from tempfile import mkdtemp
-import errno, glob, os, re, sys
+import errno, os, re, sys
 
 from bup import options, git
 from bup.compat import argv_bytes
 from bup.helpers \
     import (EXIT_FAILURE, EXIT_FALSE, EXIT_TRUE, EXIT_SUCCESS,
-            Sha1, chunkyreader, istty2, log, progress, temp_dir)
+            Sha1, chunkyreader, istty2, log, paths_in, progress, temp_dir)
 from bup.io import byte_stream, path_msg
 
 
@@ -32,7 +32,7 @@ def report_stray_pack_related_files(repo, pack_paths):
 
     # Pack-related is currently pack-40HEX or pack-40HEX.*
     pack_related_rx = re.compile(br'(?:^|/)pack-([a-f0-9]{40})(?:\..*)?$')
-    for path in glob.glob(repo + b'/objects/pack/pack-*'):
+    for path in paths_in(repo + b'/objects/pack', prefix=b'pack-'):
         m = pack_related_rx.search(path)
         if not m or m.group(1) in pack_oidxs:
             continue
@@ -354,7 +354,7 @@ def main(argv):
     else:
         debug('fsck: No filenames given: checking all packs.\n')
         git.check_repo_or_die()
-        pack_files = glob.glob(git.repo(b'objects/pack/*.pack'))
+        pack_files = paths_in(git.repo(b'objects/pack'), suffix=b'.pack')
         report_stray_pack_related_files(git.repo(), pack_files)
         pack_stems = [x[:-5] for x in pack_files]
 
diff --git a/lib/bup/cmd/midx.py b/lib/bup/cmd/midx.py
index 479d0c2..21f5d08 100644
--- a/lib/bup/cmd/midx.py
+++ b/lib/bup/cmd/midx.py
@@ -1,7 +1,7 @@
 
 from binascii import hexlify
 from contextlib import ExitStack
-import glob, os, math, resource, struct, sys
+import os, math, resource, struct, sys
 
 from bup import options, git, midx, _helpers, xstat
 from bup.compat import argv_bytes
@@ -12,6 +12,7 @@ from bup.helpers import \
      fsync,
      log,
      mmap_readwrite,
+     paths_in,
      qprogress,
      saved_errors,
      unlink)
@@ -201,7 +202,7 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
     else:
         midxs = []
         contents = {}
-        for mname in glob.glob(b'%s/*.midx' % path):
+        for mname in paths_in(path, suffix=b'.midx'):
             m = _maybe_open_midx(mname, rm_broken=auto or force)
             if not m:
                 continue
@@ -226,7 +227,7 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
                 already[mname] = 1
 
     midxs = [k for k in midxs if not already.get(k)]
-    idxs = [k for k in glob.glob(b'%s/*.idx' % path) if not already.get(k)]
+    idxs = [k for k in paths_in(path, suffix=b'.idx') if not already.get(k)]
 
     for iname in idxs:
         with git.open_idx(iname) as i:
@@ -305,7 +306,7 @@ def main(argv):
             midxes = extra
         else:
             debug1('midx: scanning %s\n' % path)
-            midxes = glob.glob(os.path.join(path, b'*.midx'))
+            midxes = paths_in(path, suffix=b'.midx')
         for name in midxes:
             check_midx(name)
         if not saved_errors:
diff --git a/lib/bup/cmd/validate_object_links.py b/lib/bup/cmd/validate_object_links.py
index 5855dbc..c6f038e 100644
--- a/lib/bup/cmd/validate_object_links.py
+++ b/lib/bup/cmd/validate_object_links.py
@@ -1,12 +1,11 @@
 
 from binascii import hexlify, unhexlify
-from os import path
-import glob, sys, zlib
+import sys, zlib
 
 from bup import options, git
 from bup.compat import pairwise
 from bup.git import tree_iter
-from bup.helpers import EXIT_FALSE, EXIT_TRUE, log, qprogress, reprogress
+from bup.helpers import EXIT_FALSE, EXIT_TRUE, log, paths_in, qprogress, reprogress
 from bup.io import byte_stream, path_msg
 
 
@@ -86,7 +85,7 @@ def main(argv):
     cp = git.catpipe()
     ret = EXIT_TRUE
     with git.PackIdxList(git.repo(b'objects/pack')) as mi:
-        idxlist = glob.glob(path.join(git.repo(b'objects/pack'), b'*.idx'))
+        idxlist = paths_in(git.repo(b'objects/pack'), suffix=b'.idx')
         obj_n = 0
         for idxname in idxlist:
             with git.open_idx(idxname) as idx:
diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 8cd4b95..a8b38d2 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -1,14 +1,15 @@
 
 from binascii import hexlify, unhexlify
 from contextlib import ExitStack
-from os.path import basename
-import glob, os, re, subprocess, sys, tempfile
+from os.path import basename, dirname
+import os, re, subprocess, sys, tempfile
 
 from bup import bloom, git, midx
 from bup.bloom import BloomWriter
 from bup.git import MissingObject, walk_object
 from bup.helpers import \
-    EXIT_FAILURE, log, note_error, progress, qprogress, reprogress, unlink
+    EXIT_FAILURE, log, note_error, paths_in, progress, qprogress, \
+    reprogress, unlink
 from bup.io import walk_path_msg, path_msg
 from bup.repo import LocalRepo
 
@@ -56,7 +57,7 @@ def count_objects(dir, verbosity):
     # more efficient since all we need is a single integer (the last
     # fanout entry) from each index.
     object_count = 0
-    indexes = glob.glob(os.path.join(dir, b'*.idx'))
+    indexes = paths_in(dir, suffix=b'.idx')
     for i, idx_name in enumerate(indexes):
         if verbosity:
             qprogress('found %d objects (%d/%d %s)\r'
@@ -172,7 +173,8 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
                 continue  # Don't remove a new pack file
             # Remove the idx first, so that if we're interrupted (or the
             # removal fails) no idx will refer to a missing pack.
-            for p in sorted(glob.glob(stem + b'.*'),
+            for p in sorted(paths_in(dirname(stem),
+                                     prefix=basename(stem) + b'.'),
                             key=lambda p: not p.endswith(b'.idx')):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
@@ -189,7 +191,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     try:
         # FIXME: sanity check .idx names vs .pack names?
         collect_count = 0
-        for idx_name in glob.glob(os.path.join(git.repo(b'objects/pack'), b'*.idx')):
+        for idx_name in paths_in(git.repo(b'objects/pack'), suffix=b'.idx'):
             if verbosity:
                 qprogress('preserving live data (%d%% complete)\r'
                           % ((float(collect_count) / existing_count) * 100))
@@ -245,7 +247,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
         # Nothing should have recreated midx/bloom yet.
         pack_dir = git.repo(b'objects/pack')
         assert(not os.path.exists(os.path.join(pack_dir, b'bup.bloom')))
-        assert(not glob.glob(os.path.join(pack_dir, b'*.midx')))
+        assert(not paths_in(pack_dir, suffix=b'.midx'))
 
     except BaseException as ex:
         repo.abort_writing()
diff --git a/lib/bup/git.py b/lib/bup/git.py
index 952bc8a..4c33814 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -3,7 +3,7 @@ bup repositories are in Git format. This library allows us to
 interact with the Git data structures.
 """
 
-import os, sys, zlib, subprocess, struct, stat, re, glob
+import os, sys, zlib, subprocess, struct, stat, re
 from array import array
 from binascii import hexlify, unhexlify
 from contextlib import ExitStack, suppress
@@ -32,6 +32,7 @@ from bup.helpers import (EXIT_FAILURE,
                          mmap_read, mmap_readwrite,
                          notimplemented,
                          nullcontext_if_not,
+                         paths_in,
                          progress, qprogress,
                          stopped,
                          temp_dir,
@@ -674,7 +675,7 @@ class PackIdxList:
         if os.path.exists(self.dir):
             if not skip_midx:
                 midxl = []
-                midxes = set(glob.glob(os.path.join(self.dir, b'*.midx')))
+                midxes = set(paths_in(self.dir, suffix=b'.midx'))
                 # remove any *.midx files from our list that no longer exist
                 for ix in list(d.values()):
                     if not isinstance(ix, midx.PackMidx):
@@ -724,7 +725,7 @@ class PackIdxList:
                                % path_msg(os.path.basename(ix.name)))
                         ix.close()
                         unlink(ix.name)
-            for full in glob.glob(os.path.join(self.dir, b'*.idx')):
+            for full in paths_in(self.dir, suffix=b'.idx'):
                 if not d.get(full):
                     try:
                         ix = open_idx(full)
diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index d569d38..d2712e6 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -232,6 +232,18 @@ def lines_until_sentinel(f, sentinel, ex_type):
         yield line
 
 
+def paths_in(dir, *, prefix=b'', suffix=b''):
+    """Return the paths of the entries of dir with the given prefix and
+    suffix. Unlike glob.glob(), don't treat errors (other than a
+    missing dir) as if there weren't any matches."""
+    try:
+        names = os.listdir(dir)
+    except FileNotFoundError:
+        return []
+    return [os.path.join(dir, x) for x in names
+            if x.startswith(prefix) and x.endswith(suffix)]
+
+
 def mkdirp(d, mode=None):
     """Recursively create directories on path 'd'.
 
diff --git a/lib/bup/midx.py b/lib/bup/midx.py
index e7eec42..507eaa8 100644
--- a/lib/bup/midx.py
+++ b/lib/bup/midx.py
@@ -1,9 +1,9 @@
 
 from contextlib import ExitStack
-import glob, os, struct
+import os, struct
 
 from bup import _helpers
-from bup.helpers import OBJECT_EXISTS, ObjectLocation, log, mmap_read
+from bup.helpers import OBJECT_EXISTS, ObjectLocation, log, mmap_read, paths_in
 from bup.io import path_msg
 
 
@@ -190,5 +190,5 @@ def open_midx(path, *, ignore_missing=True):
 
 
 def clear_midxes(dir=None):
-    for midx in glob.glob(os.path.join(dir, b'*.midx')):
+    for midx in paths_in(dir, suffix=b'.midx'):
         os.unlink(midx)
-- 
2.43.0


From bc83da0fed2e4f0e6966d8527d2d748a6a26ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 30/69] fix: tolerate concurrent index maintenance

---
 lib/bup/client.py   |  9 ++++++---
 lib/bup/cmd/midx.py | 12 ++++++++++--
 lib/bup/git.py      | 10 ++++++----
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index d91ba01..ce6d884 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -24,6 +24,7 @@ from bup.helpers import \
      nullcontext_if_not,
      progress,
      qprogress,
+     unlink,
      DemuxConn)
 from bup.io import path_msg as pm
 from bup.path import index_cache
@@ -429,7 +430,7 @@ class Client:
 
         debug1('client: removing extra indexes: %s\n' % extra)
         for idx in extra:
-            os.unlink(os.path.join(self.cachedir, idx))
+            unlink(os.path.join(self.cachedir, idx))
         debug1('client: server requested load of: %s\n' % needed)
         for idx in needed:
             self.sync_index(idx)
@@ -456,8 +457,10 @@ class Client:
         mkdirp(self.cachedir)
         fn = os.path.join(self.cachedir, name)
         if os.path.exists(fn):
-            msg = f"won't request existing .idx, try `bup bloom --check {pm(fn)}`"
-            raise ClientError(msg)
+            # e.g. another client using the same cache was faster
+            debug1(f'client: not requesting existing {pm(fn)}'
+                   ' (if unexpected, try bup bloom --check)\n')
+            return
         with atomically_replaced_file(fn, 'wb') as f:
             self.send_index(name, f, lambda size: None)
 
diff --git a/lib/bup/cmd/midx.py b/lib/bup/cmd/midx.py
index 21f5d08..478e894 100644
--- a/lib/bup/cmd/midx.py
+++ b/lib/bup/cmd/midx.py
@@ -46,11 +46,14 @@ def _group(l, count):
 def _maybe_open_midx(path, *, rm_broken=False):
     """Return a PackMidx for path as open_midx() does unless some of
     its idx files are missing.  In that case, warn, delete the path
-    if rm_broken is true, and return None.
+    if rm_broken is true, and return None.  Also return None if the
+    path is gone (e.g. because a concurrent midx merged it).
     """
     missing = None
     try:
         return open_midx(path, ignore_missing=False)
+    except FileNotFoundError:
+        return None
     except MissingIdxs as ex:
         missing = ex.paths
     pathm = path_msg(path)
@@ -196,6 +199,7 @@ def do_midx(outdir, outfilename, infilenames, prefixstr, prout,
 def do_midx_dir(path, outfilename, prout, auto=False, force=False,
                 max_files=-1, print_names=False):
     already = {}
+    mtimes = {}
     sizes = {}
     if force and not auto:
         midxs = []   # don't use existing midx files
@@ -207,13 +211,17 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
             if not m:
                 continue
             with m:
+                try:
+                    mtimes[mname] = xstat.stat(mname).st_mtime_ns
+                except FileNotFoundError:
+                    continue
                 midxs.append(mname)
                 contents[mname] = [(b'%s/%s' % (path,i)) for i in m.idxnames]
                 sizes[mname] = len(m)
 
         # sort the biggest+newest midxes first, so that we can eliminate
         # smaller (or older) redundant ones that come later in the list
-        midxs.sort(key=lambda ix: (-sizes[ix], -xstat.stat(ix).st_mtime_ns))
+        midxs.sort(key=lambda ix: (-sizes[ix], -mtimes[ix]))
 
         for mname in midxs:
             any = 0
diff --git a/lib/bup/git.py b/lib/bup/git.py
index 4c33814..f3ec0b2 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -694,11 +694,14 @@ class PackIdxList:
                     if not d.get(full):
                         mx, missing = None, None
                         try:
+                            mtime = xstat.stat(full).st_mtime_ns
                             mx = open_midx(full, ignore_missing=False)
+                        except FileNotFoundError:
+                            continue # e.g. a concurrent bup midx merged it
                         except midx.MissingIdxs as ex:
                             missing = ex.paths
                         if not missing:
-                            if mx: midxl.append(mx)
+                            if mx: midxl.append((-len(mx), -mtime, mx))
                         else:
                             mxf = os.path.split(full)[1]
                             for n in missing:
@@ -706,9 +709,8 @@ class PackIdxList:
                                      '  used by %s\n')
                                     % (path_msg(n), path_msg(mxf)))
                             unlink(full)
-                midxl.sort(key=lambda ix:
-                           (-len(ix), -xstat.stat(ix.name).st_mtime_ns))
-                for ix in midxl:
+                midxl.sort(key=lambda x: x[:2])
+                for _, _, ix in midxl:
                     any_needed = False
                     for sub in ix.idxnames:
                         found = d.get(os.path.join(self.dir, sub))
-- 
2.43.0


From b534195a09c5cda2401767a17b08a87ec20b1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 31/69] fix: fsck: handle packs and indexes shorter than a
 checksum

---
 lib/bup/cmd/fsck.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 63db260..429ceba 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -202,6 +202,8 @@ def trailing_and_actual_checksum(path):
     except FileNotFoundError:
         return None, None
     with f:
+        if os.fstat(f.fileno()).st_size < 20: # e.g. truncated
+            return f.read(), Sha1().digest()
         f.seek(-20, SEEK_END)
         trailing = f.read(20)
         assert len(trailing) == 20
-- 
2.43.0


From dab1e0d1997b950bccfdb7505b98369ebec7a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 32/69] fix: fsck: report a failure of any parallel job

---
 lib/bup/cmd/fsck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 429ceba..c61bf0e 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -408,7 +408,7 @@ def main(argv):
         nc >>= 8
         if pid in outstanding:
             del outstanding[pid]
-            code = code or nc
+            code = merge_exits(code, nc)
             count += 1
         if not opt.verbose:
             progress('fsck (%d/%d)\r' % (count, len(pack_stems)))
-- 
2.43.0


From 832d91363116412531d845e3616ea0a21abf32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 33/69] fix: fsck: treat killed parallel jobs as failures

---
 lib/bup/cmd/fsck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index c61bf0e..758817e 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -386,7 +386,7 @@ def main(argv):
         else:
             while len(outstanding) >= opt.jobs:
                 (pid,nc) = os.wait()
-                nc >>= 8
+                nc = nc >> 8 if os.WIFEXITED(nc) else EXIT_FAILURE
                 if pid in outstanding:
                     del outstanding[pid]
                     code = merge_exits(code, nc)
@@ -405,7 +405,7 @@ def main(argv):
 
     while len(outstanding):
         (pid,nc) = os.wait()
-        nc >>= 8
+        nc = nc >> 8 if os.WIFEXITED(nc) else EXIT_FAILURE
         if pid in outstanding:
             del outstanding[pid]
             code = merge_exits(code, nc)
-- 
2.43.0


From 166095e8fdebd7b20d0594cb056141304771f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 34/69] fix: fsck: don't let a repair hide bad recovery files

---
 lib/bup/cmd/fsck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 758817e..5fece48 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -370,8 +370,7 @@ def main(argv):
         base = os.path.basename(stem)
         par2_status = par2_recovery_file_status(stem)
         if par2_status is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
             continue
         sys.stdout.flush()  # Not sure we still need this, but it'll flush out too
         debug('fsck: checking %r (%s)\n'
@@ -418,7 +417,6 @@ def main(argv):
     # double-check (e.g. for (unlikely) problems with generate tmpdir renames)
     for stem in pack_stems:
         if par2_recovery_file_status(stem) is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
 
     sys.exit(code)
-- 
2.43.0


From 9f3a7fdef6181c2556f5d27bebfd41ac587156e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 35/69] fix: fsck: only report a pack as repaired if it is

---
 lib/bup/cmd/fsck.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 5fece48..92dff0b 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -247,14 +247,17 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
         if verbose: out.write(base + b' failed\n')
         return EXIT_FAILURE
     log(f'{path_msg(base)} par2 repair: succeeded, checking .idx\n')
-    try:
-        exp, act = trailing_and_actual_checksum(stem + b'.idx')
-        idx_ok = exp == act
-        if not idx_ok:
+    exp, act = trailing_and_actual_checksum(stem + b'.pack')
+    if act is None or exp != act:
+        # e.g. the recovery data was generated after the damage
+        log(f'{path_msg(base)} is still damaged\n')
+        if verbose: out.write(base + b' failed\n')
+        return EXIT_FAILURE
+    if not git_verify(stem, quick=opt.quick):
+        try:
             os.unlink(stem + b'.idx')
-    except FileNotFoundError:
-        idx_ok = False
-    if not idx_ok:
+        except FileNotFoundError:
+            pass
         cmd = (b'git', b'index-pack', stem + b'.pack')
         idx_rc = run(cmd).returncode
         if idx_rc:
@@ -262,6 +265,9 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
             if verbose: out.write(base + b' failed\n')
             return EXIT_FAILURE
         log(f'{path_msg(base)} index-pack succeeded\n')
+        if not git_verify(stem, quick=opt.quick):
+            if verbose: out.write(base + b' failed\n')
+            return EXIT_FAILURE
     if verbose: out.write(base + b' repaired\n')
     # As with grep, test, and --par2-ok, we use 1 for communicating
     # information that's an expected possibility i.e. --repair needed
-- 
2.43.0


From eedf9f8f3d09224cc06cb45dc0514c8729c49cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 36/69] fix: fsck: make recovery files durable before using
 them

---
 lib/bup/cmd/fsck.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 92dff0b..6dd9d81 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -10,7 +10,7 @@ from bup import options, git
 from bup.compat import argv_bytes
 from bup.helpers \
     import (EXIT_FAILURE, EXIT_FALSE, EXIT_TRUE, EXIT_SUCCESS,
-            Sha1, chunkyreader, istty2, log, paths_in, progress, temp_dir)
+            Sha1, chunkyreader, fsync, istty2, log, paths_in, progress, temp_dir)
 from bup.io import byte_stream, path_msg
 
 
@@ -107,6 +107,13 @@ _unable_to_link.add(getattr(errno, 'EXDEV', None)) # openafs (cross-directory)
 _unable_to_link.discard(None)
 _unable_to_link = frozenset(_unable_to_link)
 
+def fsync_path(path):
+    fd = os.open(path, os.O_RDONLY)
+    try:
+        fsync(fd)
+    finally:
+        os.close(fd)
+
 def par2_generate(stem):
     parent, base = os.path.split(stem)
     # Work in a temp_dir because par2 was observed creating empty
@@ -139,9 +146,12 @@ def par2_generate(stem):
                     log(f'Unexpected par2 file (please report) {path_msg(tmp)}\n')
                 if tmp in (p2_idx, pack):
                     continue
+                fsync_path(join(tmpdir, tmp))
                 os.rename(join(tmpdir, tmp), join(parent, tmp))
             # Let this indicate success
+            fsync_path(join(tmpdir, p2_idx))
             os.rename(join(tmpdir, p2_idx), join(parent, p2_idx))
+            fsync_path(parent)
             expected = frozenset([pack])
             remaining = frozenset(os.listdir(tmpdir))
             assert expected == remaining
-- 
2.43.0


From bd5373fd3a65b46cd0cc0405aa421376a5daf167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 37/69] fix: fsck: work without par2

---
 lib/bup/cmd/fsck.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 6dd9d81..1d1c22d 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -48,6 +48,7 @@ def par2_setup():
                  check=False)
     except (FileNotFoundError, NotADirectoryError):
         log('fsck: warning: par2 not found; disabling recovery features.\n')
+        return
     if sp.returncode == 0:
         par2_ok = 1
         return
-- 
2.43.0


From b9663d71482a79f6b49896ccddd0bd71a94b64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 38/69] fix: fsck: don't par2-repair packs that are intact

---
 lib/bup/cmd/fsck.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 1d1c22d..07c90c0 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -252,18 +252,22 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
         log(f'{path_msg(base)} has no recovery data\n')
         if verbose: out.write(base + b' failed\n')
         return EXIT_FAILURE
-    rc = par2_repair(stem)
-    if rc:
-        log(f'{path_msg(base)} par2 repair: failed ({rc})\n')
-        if verbose: out.write(base + b' failed\n')
-        return EXIT_FAILURE
+    def pack_ok():
+        exp, act = trailing_and_actual_checksum(stem + b'.pack')
+        return act is not None and exp == act
+    # par2 would "restore" an intact pack if the recovery data was
+    # generated from a damaged one.
+    if not pack_ok():
+        rc = par2_repair(stem)
+        if rc:
+            log(f'{path_msg(base)} par2 repair: failed ({rc})\n')
+            if verbose: out.write(base + b' failed\n')
+            return EXIT_FAILURE
+        if not pack_ok():
+            log(f'{path_msg(base)} is still damaged\n')
+            if verbose: out.write(base + b' failed\n')
+            return EXIT_FAILURE
     log(f'{path_msg(base)} par2 repair: succeeded, checking .idx\n')
-    exp, act = trailing_and_actual_checksum(stem + b'.pack')
-    if act is None or exp != act:
-        # e.g. the recovery data was generated after the damage
-        log(f'{path_msg(base)} is still damaged\n')
-        if verbose: out.write(base + b' failed\n')
-        return EXIT_FAILURE
     if not git_verify(stem, quick=opt.quick):
         try:
             os.unlink(stem + b'.idx')
-- 
2.43.0


From ecb2866a7cfdada70ca6389e43166caa9a8cdfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 39/69] fix: hashsplit: don't ignore failures to open further
 inputs

---
 lib/bup/_hashsplit.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/_hashsplit.c b/lib/bup/_hashsplit.c
index 237f64e..ac5d946 100644
--- a/lib/bup/_hashsplit.c
+++ b/lib/bup/_hashsplit.c
@@ -614,8 +614,10 @@ static PyObject *HashSplitter_iternext(HashSplitter *self)
 
         /* read some data if possible/needed */
         if (self->end < self->bufsz && self->fobj) {
-            if (self->eof && (!self->boundaries || self->start == self->end))
-                HashSplitter_nextfile(self);
+            if (self->eof && (!self->boundaries || self->start == self->end)) {
+                if (HashSplitter_nextfile(self))
+                    return NULL;
+            }
 
             int rc = HashSplitter_read(self);
             if (rc < 0)
-- 
2.43.0


From ede02315dc609319484365d3a8630b9f08fe2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 40/69] fix: split --git-ids: don't return more data than
 requested

---
 lib/bup/cmd/split.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 74aaeb0..fe1e421 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -210,8 +210,11 @@ def main(argv):
             class IterToFile:
                 def __init__(self, it):
                     self.it = iter(it)
-                def read(self, size_):
-                    return next(self.it, b'')
+                    self.pending = b''
+                def read(self, size):
+                    data = self.pending or next(self.it, b'')
+                    self.pending = data[size:]
+                    return data[:size]
             def read_ids():
                 while 1:
                     line = stdin.readline()
-- 
2.43.0


From b8209973d1a5ce0df46b8be9256b00f473786141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 41/69] fix: save: don't use metadata of a replaced or
 unreadable directory

When a directory had been replaced by something else since it was
indexed, its tree was saved with the metadata of its replacement, and
then restore would fail for the whole save.  And when its metadata
could not be read, the tree with empty metadata was still considered
valid by later saves (as was, e.g. a parent with a file that had been
skipped before), because lastskip_name was not comparable with the
names in the index.
---
 lib/bup/cmd/save.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 9300bc5..783ba97 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -1,6 +1,6 @@
 
 from binascii import hexlify
-from errno import ENOENT
+from errno import ENOENT, ENOTDIR
 from os import O_NOFOLLOW, O_RDONLY
 import math, os, stat, sys, time
 
@@ -333,9 +333,14 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             try:
                 meta = metadata.from_path(fs_path, normalized=True) \
                     if fs_path else empty_metadata
+                # It may have been replaced since it was indexed, and then
+                # this metadata would make the tree impossible to restore.
+                if fs_path and not stat.S_ISDIR(meta.mode):
+                    raise OSError(ENOTDIR, os.strerror(ENOTDIR), fs_path)
             except (OSError, IOError) as e:
                 add_error(e)
-                lastskip_name = dir_name
+                # (Compared with index entry names below)
+                lastskip_name = os.path.join(fs_path, b'')
                 meta = empty_metadata
             stack.push(dir_name, meta)
 
-- 
2.43.0


From 0013eb3800333025015556720b943dea720c14b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 42/69] fix: restore: preserve hard links between dangling
 symlinks

os.path.exists() is false for any symlink whose target doesn't exist, so
that they were restored as separate symlinks.
---
 lib/bup/cmd/restore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 797a7a0..cac3c5a 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -79,7 +79,7 @@ def apply_metadata(meta, name, restore_numeric_ids, owner_map):
 
 def hardlink_compatible(prev_path, prev_item, new_item, top):
     prev_candidate = top + prev_path
-    if not os.path.exists(prev_candidate):
+    if not os.path.lexists(prev_candidate):
         return False
     prev_meta, new_meta = prev_item.meta, new_item.meta
     if new_item.oid != prev_item.oid \
@@ -88,7 +88,7 @@ def hardlink_compatible(prev_path, prev_item, new_item, top):
             or new_meta.mode != prev_meta.mode:
         return False
     # FIXME: should we be checking the path on disk, or the recorded metadata?
-    # The exists() above might seem to suggest the former.
+    # The lexists() above might seem to suggest the former.
     if not new_meta.same_file(prev_meta):
         return False
     return True
-- 
2.43.0


From ec0f92cd9f8cc39552f369beca40c4be888890a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 43/69] fix: index, save: skip symlinks that can't be read

The metadata code reports a failure to read a symlink, but didn't raise,
and then save would crash, and not save anything, or, if that happened
during an index, it could create a save that can't be restored, later.
---
 lib/bup/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index a2ee808..90a68e1 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -489,7 +489,7 @@ class Metadata:
 
     ## Symlink targets
 
-    def _add_symlink_target(self, path, st):
+    def _add_symlink_target(self, path, st, ignore_errors=True):
         try:
             if stat.S_ISLNK(st.st_mode):
                 self.symlink_target = os.readlink(path)
@@ -497,6 +497,8 @@ class Metadata:
                 # one that was in place when we did stat()
                 self.size = len(self.symlink_target)
         except OSError as e:
+            if not ignore_errors:
+                raise
             erm = e.strerror or e.errno
             note_error(f'error: readlink ({erm}): {path_msg(path)}\n')
 
@@ -1006,7 +1008,7 @@ def from_path(path, statinfo=None, archive_path=None,
         after_stat(path)
     result._add_common(st)
     if save_symlinks:
-        result._add_symlink_target(path, st)
+        result._add_symlink_target(path, st, ignore_errors=not normalized)
     result._add_hardlink_target(hardlink_target)
     result._add_posix1e_acl(path, st)
     result._add_linux_attr(path, st)
-- 
2.43.0


From 08b757c1c68ed52d03f4577bd414c10ce2d74dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 44/69] fix: drecurse: don't give up when a directory can't be
 listed

It may well have been removed since it was opened, in which case Linux
reports ENOENT.
---
 lib/bup/drecurse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/bup/drecurse.py b/lib/bup/drecurse.py
index bb17723..b12788f 100644
--- a/lib/bup/drecurse.py
+++ b/lib/bup/drecurse.py
@@ -16,7 +16,12 @@ from bup.io import path_msg as pm
 
 def _dirlist(fd, path):
     l = []
-    for n in os.listdir(fd):
+    try:
+        names = os.listdir(fd)
+    except OSError as e: # e.g. it has been removed, or is damaged
+        add_error(Exception(f'{pm(resolve_parent(path))}: {e}'))
+        return l
+    for n in names:
         try:
             st = xstat.lstat(n, dir_fd=fd)
         except OSError as e:
-- 
2.43.0


From 0ceba659aa7346c32ba3594d171d848e6d44ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 45/69] fix: save: don't block on a fifo that has replaced a
 file

When a file is replaced by a fifo between the check for that and the
open, save would wait for a writer, perhaps forever.
---
 lib/bup/cmd/save.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 783ba97..9d497cf 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -1,7 +1,7 @@
 
 from binascii import hexlify
-from errno import ENOENT, ENOTDIR
-from os import O_NOFOLLOW, O_RDONLY
+from errno import EINVAL, ENOENT, ENOTDIR
+from os import O_NOFOLLOW, O_NONBLOCK, O_RDONLY
 import math, os, stat, sys, time
 
 from bup import hashsplit, hlinkdb, options, index, client, metadata
@@ -412,8 +412,12 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                         return repo.write_data(data)
                     before_saving_regular_file(ent.name)
 
-                    with open(open_noatime(ent.name, O_RDONLY | O_NOFOLLOW),
+                    # It may have become, say, a fifo since the stat() above
+                    with open(open_noatime(ent.name,
+                                           O_RDONLY | O_NOFOLLOW | O_NONBLOCK),
                               'rb', buffering=1024 * 1024) as f:
+                        if not stat.S_ISREG(os.fstat(f.fileno()).st_mode):
+                            raise OSError(EINVAL, 'not a regular file anymore')
                         mode, id = \
                             split_to_blob_or_tree(write_data, repo.write_tree,
                                                   hashsplit.from_config([f], split_cfg))
-- 
2.43.0


From 0cdb0b187348f9cddacbeb5b5fc704bf84468d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 46/69] fix: drecurse: handle errors for names that aren't
 UTF-8

Reporting a failing stat() of such a file crashed with a
UnicodeEncodeError.
---
 lib/bup/drecurse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/drecurse.py b/lib/bup/drecurse.py
index b12788f..26eadb8 100644
--- a/lib/bup/drecurse.py
+++ b/lib/bup/drecurse.py
@@ -25,7 +25,7 @@ def _dirlist(fd, path):
         try:
             st = xstat.lstat(n, dir_fd=fd)
         except OSError as e:
-            add_error(Exception(f'{pm(resolve_parent(path))}/{n}: {e}'))
+            add_error(Exception(f'{pm(resolve_parent(path))}/{pm(fsencode(n))}: {e}'))
             continue
         l.append((fsencode(n + '/' if S_ISDIR(st.st_mode) else n), st))
     l.sort(reverse=True)
-- 
2.43.0


From 5227d81f4b22a67e2c8014d9b77d6cab6beebdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 47/69] fix: save: don't mark files valid whose size has
 changed

If a file changes between index and save, another save without an
intervening index used its new content together with the metadata from
the index, i.e. with the wrong size.
---
 lib/bup/cmd/save.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 9d497cf..08c79a5 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -436,9 +436,14 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                 (mode, id) = (GIT_MODE_FILE, repo.write_data(b''))
 
             if id:
-                ent.validate(mode, id)
-                ent.repack()
-                stack.append_to_current(file, ent.mode, ent.gitmode, id, meta)
+                if stat.S_ISREG(ent.mode) and meta.size != ent.size:
+                    # It has changed since it was indexed, and another save
+                    # must not combine this content with that metadata.
+                    lastskip_name = ent.name
+                else:
+                    ent.validate(mode, id)
+                    ent.repack()
+                stack.append_to_current(file, ent.mode, mode, id, meta)
 
         if exists and wasmissing:
             prog_count += oldsize
-- 
2.43.0


From fc7ecbb6812cea1b8a51fcc89b2875ddd4ec854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 48/69] fix: index: invalidate changed entries without metadata

When the metadata of a path that has changed could not be read, its
entry remained valid, so that save combined what was saved before with
the older metadata in the index.
---
 lib/bup/cmd/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index ca22115..6380697 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -147,6 +147,9 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                         meta = metadata.from_path(path, statinfo=pst, normalized=True)
                     except (OSError, IOError) as e:
                         add_error(e)
+                        # Don't let save rely on what's there
+                        rig.cur.invalidate()
+                        rig.cur.repack()
                         rig.next()
                         continue
                     # The first path is the others' hardlink target (also
-- 
2.43.0


From 68972c5baa118a84e3415aae04f9b7867c2ede4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 49/69] fix: vfs: don't take an object of another type for file
 content

---
 lib/bup/vfs.py | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 2faccfe..8c29783 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -162,15 +162,25 @@ def get_oidx(repo, oidx, *, throw_missing=True):
         raise MissingObject(unhexlify(oidx))
     return result
 
-def _normal_or_chunked_file_size(repo, oid):
+def _require_type(oid, obj_t, exp_t):
+    if exp_t and obj_t != exp_t:
+        raise GitError(f'expected {oid.hex()} to be a {exp_t.decode("ascii")},'
+                       f' not a {obj_t.decode("ascii")}')
+
+def _type_for_gitmode(mode):
+    return b'tree' if S_ISDIR(mode) else b'blob'
+
+def _normal_or_chunked_file_size(repo, oid, exp_t=None):
     """Return the size of the normal or chunked file indicated by oid."""
     # FIXME: --batch-format CatPipe?
     _, obj_t, _, it = get_oidx(repo, hexlify(oid))
+    _require_type(oid, obj_t, exp_t)
     ofs = 0
     while obj_t == b'tree':
-        mode_, name, last_oid = last_tree_entry(b''.join(it))
+        mode, name, last_oid = last_tree_entry(b''.join(it))
         ofs += int(name, 16)
         _, obj_t, _, it = get_oidx(repo, hexlify(last_oid))
+        _require_type(last_oid, obj_t, _type_for_gitmode(mode))
     return ofs + sum(len(b) for b in it)
 
 def _skip_chunks_before_offset(tree_data, offset):
@@ -199,9 +209,10 @@ def _tree_chunks(repo, tree_data, startofs):
             yield data[skipmore:]
 
 class _ChunkReader:
-    def __init__(self, repo, oid, startofs):
+    def __init__(self, repo, oid, startofs, exp_t=None):
         _, obj_t, _, it = get_oidx(repo, hexlify(oid))
         data = b''.join(it)
+        _require_type(oid, obj_t, exp_t)
         if obj_t == b'tree':
             self.it = _tree_chunks(repo, data, startofs)
             self.blob = None
@@ -244,9 +255,12 @@ class _ChunkReader:
         return b''.join(out_parts)
 
 class _FileReader:
-    def __init__(self, repo, oid):
+    def __init__(self, repo, oid, exp_t=None):
+        """Read the data in oid, which must be an exp_t (b'blob' or
+        b'tree') unless that's None."""
         assert len(oid) == 20
         self.closed = False
+        self._exp_t = exp_t
         self.oid = oid
         self.ofs = 0
         self.reader = None
@@ -255,7 +269,8 @@ class _FileReader:
 
     def _require_size(self):
         if self._size is None:
-            self._size = _normal_or_chunked_file_size(self._repo, self.oid)
+            self._size = _normal_or_chunked_file_size(self._repo, self.oid,
+                                                      self._exp_t)
         return self._size
 
     def seek(self, ofs):
@@ -274,7 +289,8 @@ class _FileReader:
                 return b''
             assert self.ofs < self._size, f'{self.ofs} > {self._size}'
         if not self.reader or self.reader.ofs != self.ofs:
-            self.reader = _ChunkReader(self._repo, self.oid, self.ofs)
+            self.reader = _ChunkReader(self._repo, self.oid, self.ofs,
+                                       self._exp_t)
         try:
             buf = self.reader.next(count)
         except:
@@ -504,10 +520,14 @@ def readlink(repo, item):
             return target
     return _readlink(repo, item.oid)
 
+def _file_item_type(item):
+    return b'tree' if isinstance(item, Chunky) else b'blob'
+
 def _compute_item_size(repo, item):
     mode = item_mode(item)
     if S_ISREG(mode):
-        size = _normal_or_chunked_file_size(repo, item.oid)
+        size = _normal_or_chunked_file_size(repo, item.oid,
+                                            _file_item_type(item))
         return size
     if S_ISLNK(mode):
         if isinstance(item, FakeLink):
@@ -532,7 +552,7 @@ def tree_data_reader(repo, oid):
 def fopen(repo, item):
     """Return an open reader for the given file item."""
     assert S_ISREG(item_mode(item))
-    return tree_data_reader(repo, item.oid)
+    return _FileReader(repo, item.oid, _file_item_type(item))
 
 def _commit_item_from_data(oid, data):
     info = parse_commit(data)
@@ -1356,14 +1376,18 @@ def join(repo, ref):
         if typ == b'blob':
             yield from it
         elif typ == b'tree':
-            for ent_mode_, ent_name, ent_oid in tree_iter(b''.join(it)):
-                yield from _join(*get_oidx(repo, hexlify(ent_oid)), path + [ent_name])
+            for ent_mode, ent_name, ent_oid in tree_iter(b''.join(it)):
+                got = get_oidx(repo, hexlify(ent_oid))
+                _require_type(ent_oid, got[1], _type_for_gitmode(ent_mode))
+                yield from _join(*got, path + [ent_name])
         elif typ == b'commit':
             treeline = b''.join(it).split(b'\n', maxsplit=1)[0]
             assert treeline.startswith(b'tree ')
             tree_oidx = treeline[5:]
             path += [oidx, tree_oidx]
-            yield from _join(*get_oidx(repo, tree_oidx), path)
+            got = get_oidx(repo, tree_oidx)
+            _require_type(unhexlify(tree_oidx), got[1], b'tree')
+            yield from _join(*got, path)
         else:
             raise GitError(f'type {typ!r} is not blob/tree/commit at {path!r}')
 
-- 
2.43.0


From ee671a95b7f62692c937c39c0a3f7d48549653b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 50/69] fix: get: don't copy objects that don't match their ids

---
 lib/bup/cmd/get.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/cmd/get.py b/lib/bup/cmd/get.py
index 2ec9525..583fb9b 100644
--- a/lib/bup/cmd/get.py
+++ b/lib/bup/cmd/get.py
@@ -329,6 +329,9 @@ def get_random_item(hash, src_repo, dest_repo, ignore_missing):
                 raise MissingObject(item.oid)
             note_error(f'skipping missing source object {item.oid.hex()}\n')
             continue
+        # git cat-file doesn't check this for packed objects
+        if git.calc_hash(item.type, item.data) != item.oid:
+            raise git.GitError(f'source object {item.oid.hex()} is corrupt')
         # We must not just_write() unless we're sure that the oid
         # doesn't writer.exists() *now* or we may cause the server to
         # suggest the same idx more than once, causing
-- 
2.43.0


From 50ec6522efaa6df670354be9a59b86b37fa1b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 51/69] fix: vfs: don't take a cached branch for its latest
 save

---
 lib/bup/vfs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 8c29783..a8a613d 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -419,7 +419,8 @@ def cache_get_commit_item(oid, need_meta=True):
     """Return the requested tree item if it can be found in the cache.
     When need_meta is true don't return a cached item that only has a
     mode."""
-    # tree might be stored independently, or as '.' with its entries.
+    # The commit might be stored independently, or with the entries of
+    # the branch it's the tip of (whose '.' is a RevList).
     commit_key = b'itm:' + oid
     item = cache_get(commit_key)
     if item:
@@ -427,7 +428,7 @@ def cache_get_commit_item(oid, need_meta=True):
             return item
     entries = cache_get(b'rvl:' + oid)
     if entries:
-        item = entries[b'.']
+        item = entries[entries[b'latest'].target]
         if _has_metadata_if_needed(item, need_meta):
             return item
     return None
-- 
2.43.0


From bf60067094cf363be187467da0fb56aca171054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 52/69] fix: vfs: finish listing the tags before reading them

---
 lib/bup/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index a8a613d..74b5c6e 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1033,7 +1033,8 @@ def tags_items(repo, names):
             return
         remaining -= 1
 
-    for name, oid in repo.refs(names, limit_to_tags=True):
+    # As above, tag_item calls cat()
+    for name, oid in tuple(repo.refs(names, limit_to_tags=True)):
         assert(name.startswith(b'refs/tags/'))
         name = name[10:]
         if name > last_name:
-- 
2.43.0


From 51d8204789bf4d4ec03bb11df96ed77a53c512a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 53/69] fix: repo: let cat() of a remote ref finish

---
 lib/bup/repo/remote.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/bup/repo/remote.py b/lib/bup/repo/remote.py
index f459481..1c73825 100644
--- a/lib/bup/repo/remote.py
+++ b/lib/bup/repo/remote.py
@@ -92,12 +92,17 @@ class RemoteRepo(RepoProtocol):
             # causes client to finish the call
             assert not next(batch, None)
 
+        def unchecked_data(it, batch):
+            yield from it
+            # causes client to finish the call
+            assert not next(batch, None)
+
         batch = self.client.cat_batch((ref,))
         oidx, typ, size, it = items = next(batch, None) # cannot return None
         if not oidx:
             return items
         if not _oidx_rx.fullmatch(ref):
-            return items
+            return *items[:-1], unchecked_data(it, batch)
         return *items[:-1], hash_checked_data(typ, size, it, ref, batch)
 
     def write_commit(self, tree, parent,
-- 
2.43.0


From 34ae915cc68195cce017f048bd9446fb92918b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 54/69] fix: client: don't end the patterns of refs() before
 they're sent

---
 lib/bup/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index ce6d884..75875ea 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -565,8 +565,8 @@ class Client:
                     raise ClientError('unexpected leftover data ' + repr(detritus))
 
     def refs(self, patterns=None, limit_to_heads=False, limit_to_tags=False):
-        args = b'%d %d\n' % (1 if limit_to_heads else 0,
-                             1 if limit_to_tags else 0)
+        args = b'%d %d' % (1 if limit_to_heads else 0,
+                           1 if limit_to_tags else 0)
         with self._line_based_call('refs', args) as call:
             patterns = patterns or tuple()
             for pattern in patterns:
-- 
2.43.0


From 161d5af7fc031a17a4b27e4921496ce8813ede5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 55/69] fix: vfs: don't drop what follows an absolute symlink
 in a path

---
 lib/bup/vfs.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 74b5c6e..9baf3cd 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1215,12 +1215,8 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
                 if is_absolute:
-                    if not target_future:  # path was effectively '/'
-                        return notice_resolution(((b'', _root),))
                     past = [(b'', _root)]
-                    future = target_future
-                else:
-                    future.extend(target_future)
+                future.extend(target_future)
                 hops += 1
 
 def resolve(repo, path, parent=None, want_meta=True, follow=True):
-- 
2.43.0


From ce8797429d051f1235ffb4a575563cfe15ca9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 56/69] fix: vfs: don't take an empty read for the end of the
 file

---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 9baf3cd..1c6a38a 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -296,10 +296,10 @@ class _FileReader:
         except:
             self.reader = None
             raise  # our offsets will be all screwed up otherwise
-        if not buf:
-            self._size = self.ofs
-        else:
+        if buf:
             self.ofs += len(buf)
+        elif count != 0:
+            self._size = self.ofs
         return buf
 
     def close(self):
-- 
2.43.0


From 1d46b521e2bed0adf809dfc7957a87c4d915674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:56 +0000
Subject: [PATCH 57/69] fix: vfs: don't mistake the parent for format arguments
 in errors

---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 1c6a38a..0f7cc70 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1126,7 +1126,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
         raise IOError(ENOTDIR,
                       "path %s%s resolves to non-directory %r"
                       % (path,
-                         ' (relative to %r)' % parent if parent else '',
+                         ' (relative to %r)' % (parent,) if parent else '',
                          past),
                       terminus=past)
     global _root
@@ -1191,7 +1191,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                         raise IOError(ENOTDIR,
                                       'path %r%s ends internally in non-directory here: %r'
                                       % (path,
-                                         ' (relative to %r)' % parent if parent else '',
+                                         ' (relative to %r)' % (parent,) if parent else '',
                                          past),
                                       terminus=past)
                     if must_be_dir:
@@ -1210,7 +1210,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 if hops > 100:
                     raise IOError(ELOOP,
                                   'too many symlinks encountered while resolving %r%s'
-                                  % (path, ' relative to %r' % parent if parent else ''),
+                                  % (path, ' relative to %r' % (parent,) if parent else ''),
                                   terminus=tuple(past + [(segment, item)]))
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
-- 
2.43.0


From ebca4522f92ae834349b7d25d7ac589a9c3fad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 58/69] fix: vfs: don't confuse different parents of the same
 name

---
 lib/bup/vfs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 0f7cc70..be2bb09 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1101,6 +1101,11 @@ def contents(repo, item, names=None, want_meta=True, repair=False):
     else:
         raise Exception('unexpected VFS item ' + str(item))
 
+def _parent_key(name, item):
+    # The same name may refer to something else later, e.g. /.tag/foo
+    oid = getattr(item, 'coid', None) or getattr(item, 'oid', None) or b''
+    return hexlify(oid) + b':' + name
+
 def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
     # FIXME: eventually more sophistication than just MissingObject
     # with an oid, e.g. perhaps the path leading to the missing
@@ -1112,7 +1117,8 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
     # ids. Shouldn't happen, but...
     cache_key = b'res:%d%d%d:%s\0%s' \
                 % (bool(want_meta), bool(follow), id(repo),
-                   (b'/'.join(x[0] for x in parent) if parent else b''),
+                   (b'/'.join(_parent_key(*x) for x in parent) if parent
+                    else b''),
                    path)
     resolution = cache_get(cache_key)
     if resolution:
-- 
2.43.0


From 4719ba6692f93e353a7250a83c83d157aca36863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 59/69] fix: validate-refs: don't skip the refs when all the
 packs are lost

---
 lib/bup/cmd/validate_refs.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index f81b23f..80c9f0f 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -129,19 +129,19 @@ def main(argv):
             existing_count = count_objects(git.repo(b'objects/pack'), verbosity)
             if verbosity:
                 log(f'found {existing_count} objects\n')
-            if existing_count:
-                with ExitStack() as maybe_close_idxl:
-                    idxl = None
-                    if opt.links:
-                        idxl = git.PackIdxList(git.repo(b'objects/pack'))
-                        maybe_close_idxl.enter_context(idxl)
-                    live_objs, live_trees_ = \
-                        find_live_objects(existing_count, cat_pipe,
-                                          refs=ref_info,
-                                          idx_list=idxl,
-                                          for_item=for_item,
-                                          verbosity=verbosity)
-                    live_objs.close()
+            # Even without any objects, the refs may still refer to some
+            with ExitStack() as maybe_close_idxl:
+                idxl = None
+                if opt.links:
+                    idxl = git.PackIdxList(git.repo(b'objects/pack'))
+                    maybe_close_idxl.enter_context(idxl)
+                live_objs, live_trees_ = \
+                    find_live_objects(max(existing_count, 1), cat_pipe,
+                                      refs=ref_info,
+                                      idx_list=idxl,
+                                      for_item=for_item,
+                                      verbosity=verbosity)
+                live_objs.close()
         if bad_bupm:
             return EXIT_FAILURE
         if (ref_missing + found_missing + abridged_bupm):
-- 
2.43.0


From 36bb988d56e9427c3e38a59a50ef91b55aba062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 60/69] fix: walk_path_msg: handle missing commits

---
 lib/bup/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/io.py b/lib/bup/io.py
index e1e4361..6a69bdc 100644
--- a/lib/bup/io.py
+++ b/lib/bup/io.py
@@ -291,7 +291,8 @@ def walk_path_msg(ref_name, item_path):
         path_top = root + 2
     path = path_msg(b'/'.join(x.name for x in item_path[path_top:]))
     path = f'{path_msg(item_path[root].name)}:{path}'
-    if S_ISDIR(item_path[-1].mode):
+    mode = item_path[-1].mode # None for (missing) commits
+    if mode is not None and S_ISDIR(mode):
         return f'{path_msg(ref_name)} {path}/'
     return f'{path_msg(ref_name)} {path}'
 
-- 
2.43.0


From 3a0d968327cf91b69afbcd99558208f416a64e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 61/69] fix: validate: don't report what concurrent saves add
 as missing

---
 lib/bup/cmd/validate_object_links.py | 4 +++-
 lib/bup/cmd/validate_refs.py         | 5 +++++
 lib/bup/gc.py                        | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/validate_object_links.py b/lib/bup/cmd/validate_object_links.py
index c6f038e..a0b84e8 100644
--- a/lib/bup/cmd/validate_object_links.py
+++ b/lib/bup/cmd/validate_object_links.py
@@ -84,8 +84,10 @@ def main(argv):
     out = byte_stream(sys.stdout)
     cp = git.catpipe()
     ret = EXIT_TRUE
+    # List the indexes first, so that a concurrent writer can't add any
+    # that aren't considered when checking for existence.
+    idxlist = paths_in(git.repo(b'objects/pack'), suffix=b'.idx')
     with git.PackIdxList(git.repo(b'objects/pack')) as mi:
-        idxlist = paths_in(git.repo(b'objects/pack'), suffix=b'.idx')
         obj_n = 0
         for idxname in idxlist:
             with git.open_idx(idxname) as idx:
diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index 80c9f0f..5be02c3 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -75,6 +75,11 @@ def main(argv):
         ref_missing, ref_info = \
             resolve_refs(repo, [argv_bytes(x) for x in extra], o.fatal)
 
+        if not extra:
+            # Before the indexes (below), so that a concurrent writer can't
+            # add any that refer to objects that aren't in those.
+            ref_info = list(git.list_refs())
+
         bad_bupm = 0
         abridged_bupm = 0
         found_missing = 0
diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index a8b38d2..ad83bed 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -111,7 +111,7 @@ def find_live_objects(existing_count, cat_pipe, refs=None, *,
         def stop_at(x): return unhexlify(x) in live_trees
         oid_exists = idx_list.exists if idx_list else None
         approx_live_count = 0
-        scan_refs = refs if refs else list(git.list_refs())
+        scan_refs = list(git.list_refs()) if refs is None else refs
         ref_n = len(scan_refs)
         def progress_msg(ref_i):
             return 'scanned %s of %s ref%s (%02.2f%% of all objects)' \
-- 
2.43.0


From e502132196c66798d87d024781546c0b9ea120f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:18 +0000
Subject: [PATCH 62/69] fix: validate-refs: end the report of a missing ref

---
 lib/bup/cmd/validate_refs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index 5be02c3..d716b91 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -45,7 +45,7 @@ def resolve_refs(repo, refs, fatal):
         # FIXME: IOError ENOTDIR ELOOP
         _, leaf = res[-1]
         if not leaf:
-            log(f'missing {path_msg(ref)}')
+            log(f'missing {path_msg(ref)}\n')
             ref_missing += 1
             continue
         kind = type(leaf)
-- 
2.43.0


From a6bcfe26c4e9244424d46080666d467e8048116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 63/69] fix: gc: don't ignore an empty index list in
 find_live_objects

---
 lib/bup/gc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index ad83bed..a056e83 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -109,7 +109,7 @@ def find_live_objects(existing_count, cat_pipe, refs=None, *,
         os.unlink(bloom_filename)
         live_trees = set()
         def stop_at(x): return unhexlify(x) in live_trees
-        oid_exists = idx_list.exists if idx_list else None
+        oid_exists = None if idx_list is None else idx_list.exists
         approx_live_count = 0
         scan_refs = list(git.list_refs()) if refs is None else refs
         ref_n = len(scan_refs)
-- 
2.43.0


From a4a0072c9ceb32c1f4a3b790656b6d9d6005f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 64/69] fix: get: rewrite symlinks that have no metadata

For symlinks without metadata (git commits), or whose metadata was
lost, the blob holds the only target, but it was considered to
contradict the (absent) metadata, so that --rewrite exited and --repair
crashed attempting to write None.
---
 lib/bup/rewrite.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/bup/rewrite.py b/lib/bup/rewrite.py
index e7999ec..ef49033 100755
--- a/lib/bup/rewrite.py
+++ b/lib/bup/rewrite.py
@@ -269,7 +269,9 @@ def _vfs_walk_dir_recursively(srcrepo, dstrepo, path, excludes, db, mapping,
 def _rewrite_link(path, item_mode, srcrepo, dstrepo, stack, repairs):
     name, item = path[-1]
     assert isinstance(name, bytes)
-    have_meta = isinstance(item.meta, metadata.Metadata)
+    # LostMetadata has no target
+    have_meta = isinstance(item.meta, metadata.Metadata) \
+        and item.meta.symlink_target is not None
     if have_meta:
         # FIXME: not tested?
         if item.meta.size is None:
@@ -296,7 +298,9 @@ def _rewrite_link(path, item_mode, srcrepo, dstrepo, stack, repairs):
         else:
             assert kind == b'blob', kind
             target_blob = b''.join(it)
-            if target_blob != target: # very unlikely, but easy to handle
+            if target is None: # no metadata (git or pre-meta bup), or lost
+                target = target_blob
+            elif target_blob != target: # very unlikely, but easy to handle
                 if not repairs.destructive:
                     ep = path_msg(render_path(path))
                     log(f'Symlink with mismatched targets (can --repair): {ep}\n')
-- 
2.43.0


From d9efcf41bb93b73d6756d57e47896e77145f150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 65/69] fix: get: date repair files in nanoseconds

Metadata times are in nanoseconds, so every repair file claimed to be
from 1970.
---
 lib/bup/rewrite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/rewrite.py b/lib/bup/rewrite.py
index ef49033..5109b13 100755
--- a/lib/bup/rewrite.py
+++ b/lib/bup/rewrite.py
@@ -141,7 +141,7 @@ def _path_repaired(path, oid, replacement_oid, missing_oid, repairs):
     log(f'repaired {ep} {oid.hex()} -> {replacement_oid.hex()}\n')
 
 def _blob_replacement(repo, meta, content):
-    now = time.time()
+    now = time.time_ns()
     oid = repo.write_data(content)
     rm = Metadata(frozen=False)
     rm.mode = default_file_mode
-- 
2.43.0


From b23c14e3a91a202c63a93dc38e6147e0315b6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 66/69] fix: get: repair files whose metadata was lost too

LostMetadata has no owner, so the replacement's metadata could not be
encoded.
---
 lib/bup/rewrite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/rewrite.py b/lib/bup/rewrite.py
index 5109b13..89b2128 100755
--- a/lib/bup/rewrite.py
+++ b/lib/bup/rewrite.py
@@ -148,7 +148,7 @@ def _blob_replacement(repo, meta, content):
     rm.rdev = 0
     rm.atime = rm.mtime = rm.ctime = now
     rm.size = len(content)
-    if isinstance(meta, Metadata):
+    if isinstance(meta, Metadata) and not isinstance(meta, LostMetadata):
         rm.uid = meta.uid
         rm.gid = meta.gid
         rm.user = meta.user
-- 
2.43.0


From 06f1b6bf107aa48e87d971f369924bf02ef874b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 67/69] fix: restore: don't silently drop a hard link when its
 target can't be examined

---
 lib/bup/cmd/restore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index cac3c5a..8997930 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -79,7 +79,9 @@ def apply_metadata(meta, name, restore_numeric_ids, owner_map):
 
 def hardlink_compatible(prev_path, prev_item, new_item, top):
     prev_candidate = top + prev_path
-    if not os.path.lexists(prev_candidate):
+    try: # lexists() would hide (and so drop the link for) other errors
+        os.lstat(prev_candidate)
+    except (FileNotFoundError, NotADirectoryError):
         return False
     prev_meta, new_meta = prev_item.meta, new_item.meta
     if new_item.oid != prev_item.oid \
@@ -88,7 +90,7 @@ def hardlink_compatible(prev_path, prev_item, new_item, top):
             or new_meta.mode != prev_meta.mode:
         return False
     # FIXME: should we be checking the path on disk, or the recorded metadata?
-    # The lexists() above might seem to suggest the former.
+    # The lstat() above might seem to suggest the former.
     if not new_meta.same_file(prev_meta):
         return False
     return True
-- 
2.43.0


From fedab233c0e00c27c96822981a45ed2db0a96ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:29 +0000
Subject: [PATCH 68/69] fix: keep the existing contents when adding to a bloom
 filter

---
 lib/bup/bloom.py     | 19 +++++++++++++------
 lib/bup/cmd/bloom.py |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index 890aa6b..4a5ada1 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -82,7 +82,7 @@ Brandon Low <lostlogic@lostlogicx.com> 2011-02-04
 
 from contextlib import ExitStack
 from tempfile import mkstemp
-import builtins, os, math, struct
+import builtins, os, math, shutil, struct
 
 from bup import _helpers
 from bup.helpers import \
@@ -285,19 +285,26 @@ class BloomWriter(_BloomBase):
         if mode ==  'wb':
             with ExitStack() as ctx:
                 try:
-                    self._file = ctx.enter_context(builtins.open(path, 'r+b'))
+                    orig = ctx.enter_context(builtins.open(path, 'rb'))
                 except FileNotFoundError as ex:
                     raise BloomNotFound(ex.errno, ex.strerror, ex.filename) from ex
+                dir, name = os.path.split(path)
+                fd, tmp = mkstemp(dir=dir or os.getcwdb(), prefix=(name + b'-'))
+                ctx.enter_context(finalized(tmp, unlink))
+                os.fchmod(fd, os.fstat(orig.fileno()).st_mode & 0o7777)
+                os.close(fd)
+                # Work on a copy so that there's always a valid filter
+                # at path, even after a crash.
+                self._file = ctx.enter_context(builtins.open(tmp, 'r+b'))
+                shutil.copyfileobj(orig, self._file)
+                self._file.flush()
                 self.map, self._delaywrite = open_map(self._file)
                 ctx.enter_context(self.map)
                 self.version, self.bits, self.k, self.entries, self.idxnames = \
                     _validate_and_get_info(path, self.map)
-                dir, name = os.path.split(path)
-                fd, tmp = mkstemp(dir=dir or os.getcwdb(), prefix=name)
                 self._tmp_file_path = tmp
-                os.close(fd)
-                os.rename(path, tmp)
                 ctx.pop_all()
+                orig.close()
             return
 
         assert mode == 'w+b', mode # new filter
diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index a2ea009..0eab9b5 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -130,7 +130,7 @@ def do_bloom(path, outfilename, k, force):
             else:
                 b, b_tmp = None, b
                 b_tmp.close()
-                b = BloomWriter(outfilename, mode='w+b', expected=add_count)
+                b = BloomWriter(outfilename, mode='wb', expected=add_count)
         if b is None: # Need all idxs to build from scratch
             add += rest
             add_count += rest_count
-- 
2.43.0


From 82fdbd489599cd1b67bf2f769081bb4a27af4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:49 +0000
Subject: [PATCH 69/69] fix: gc: never discard live objects that git can't read

When git can't open a pack (e.g. for lack of permission, or because of
an I/O error), cat-file reports its objects as missing, and sweep()
then took them for dead and removed the pack, although they had been
found live.
---
 lib/bup/gc.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index a056e83..6de514a 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -152,7 +152,7 @@ def find_live_objects(existing_count, cat_pipe, refs=None, *,
 _pack_stem_rx = re.compile(br'pack-[0-9a-fA-F]{40}')
 
 def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
-          compression, verbosity):
+          compression, verbosity, ignore_missing=False):
     """Traverse all the packs, saving the (probably) live data."""
 
     stale_packs = [] # stems like /some/where/pack-OIDX (no suffix)
@@ -201,6 +201,11 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
                 live_in_this_pack = set()
                 for sha in idx:
                     typ = cat_pipe.get(hexlify(sha), include_data=False)[1]
+                    # git also reports an object as missing when it can't
+                    # read the pack, and we mustn't discard those.
+                    if typ is None and not ignore_missing \
+                       and (sha in live_trees or live_objects.exists(sha)):
+                        raise MissingObject(sha)
                     if typ != b'blob':
                         is_live = sha in live_trees
                         if not is_live:
@@ -310,8 +315,11 @@ def bup_gc(threshold=10, compression=1, verbosity=0, ignore_missing=False):
                 if verbosity: log('removing unreachable data\n')
                 sweep(live_objects, live_trees, existing_count, cat_pipe,
                       threshold, compression,
-                      verbosity)
+                      verbosity, ignore_missing)
             except BaseException as ex:
                 log('WARNING: Collection interrupted.  Run gc (again) to completion before\n'
                     'WARNING: adding any new data to the repository (e.g. via save or get).\n')
+                if isinstance(ex, MissingObject):
+                    log('bup: missing object %r \n' % ex.oid.hex())
+                    sys.exit(EXIT_FAILURE)
                 raise ex
-- 
2.43.0

