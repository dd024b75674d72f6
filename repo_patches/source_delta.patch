From 5d6456c5c85c0a8df8a7d200d76b3aafe76cdccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 01/28] fix: store pending object references in the realm that
 holds the objects

Pending object references were kept in one set for all realms, and the first
flush stored all of them in whatever realm it was called for. Objects in other
realms stayed unprotected, and the flushed realm got references to objects it
does not have.
---
 .../mapper/gitmapper/metadatamapper.py        |  4 +-
 .../gitmapper/metadatarootrecordmapper.py     |  4 +-
 .../mapper/gitmapper/objectreference.py       | 51 ++++++++++++++-----
 dataladmetadatamodel/mtreeproxy.py            |  2 +-
 4 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..3200656 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -75,7 +75,7 @@ class MetadataGitMapper(Mapper):
         # JSON-strings that are stored in the
         # repository.
         metadata_blob_location = git_save_str(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         # Save reference. NB we don't add the metadata reference to the object
         # tree here. Our "owner" will do that if necessary. For example, the
@@ -105,7 +105,7 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..0b66b0c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -76,7 +76,7 @@ class MetadataRootRecordGitMapper(Mapper):
                 "git",
                 force_write)
             if not file_tree_reference.is_none_reference():
-                add_tree_reference(file_tree_reference.location)
+                add_tree_reference(file_tree_reference.location, realm)
 
         if mrr.dataset_level_metadata is None:
             dataset_level_metadata_reference = Reference.get_none_reference("Metadata")
@@ -85,7 +85,7 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm,
                 "git",
                 force_write)
-            add_blob_reference(dataset_level_metadata_reference.location)
+            add_blob_reference(dataset_level_metadata_reference.location, realm)
 
         json_object = {
             Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..bc8a121 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -1,9 +1,13 @@
 import enum
 import logging
+import os
 from pathlib import Path
 from typing import (
+    Dict,
+    Optional,
     Set,
     Tuple,
+    Union,
 )
 
 from ...mapper.reference import none_location
@@ -13,7 +17,10 @@ from .utils import split_git_lstree_line
 
 logger = logging.getLogger("datalad.metalad.gitmapper.objectreference")
 
-cached_object_references: Set[Tuple[EntryType, str]] = set()
+# Object references that are not yet stored, together with the realms that hold
+# the referenced objects. A reference that was added without a realm, i.e. with
+# the realm `None`, is stored in the realm that is flushed next.
+cached_object_references: Dict[Tuple[EntryType, str], Set[Optional[str]]] = dict()
 
 
 class GitReference(enum.Enum):
@@ -27,14 +34,22 @@ class GitReference(enum.Enum):
 checked_legacy_stores = set()
 
 
+def _get_realm_id(realm: Optional[Union[str, Path]]) -> Optional[str]:
+    return None if realm is None else os.path.realpath(realm)
+
+
 def add_object_reference(entry_type: EntryType,
-                         object_hash: str):
+                         object_hash: str,
+                         realm: Optional[Union[str, Path]] = None):
 
     if object_hash == none_location:
         logger.warning("attempt to add a None-reference")
         return
 
-    cached_object_references.add((entry_type, object_hash))
+    cached_object_references.setdefault(
+        (entry_type, object_hash),
+        set()
+    ).add(_get_realm_id(realm))
 
 
 def add_legacy_store_entries_from(realm: Path,
@@ -52,7 +67,7 @@ def add_legacy_store_entries_from(realm: Path,
                     f"{reference.value}) to new format")
 
         for entry in legacy_entries:
-            cached_object_references.add((entry_type, entry[2]))
+            add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
         return False
@@ -90,8 +105,6 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    global cached_object_references
-
     from .gitbackend.subprocess import git_update_ref
     from ..gitmapper.treeupdater import (
         PathInfo,
@@ -102,7 +115,14 @@ def flush_object_references(realm: Path):
 
     legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)
 
-    if cached_object_references:
+    realm_ids = {_get_realm_id(realm), None}
+    pending_references = [
+        reference
+        for reference, reference_realm_ids in cached_object_references.items()
+        if not realm_ids.isdisjoint(reference_realm_ids)
+    ]
+
+    if pending_references:
         path_infos = [
             PathInfo(
                 [
@@ -113,7 +133,7 @@ def flush_object_references(realm: Path):
                 ],
                 object_hash,
                 entry_type)
-            for entry_type, object_hash in cached_object_references
+            for entry_type, object_hash in pending_references
         ]
 
         with locked_backend(realm):
@@ -125,7 +145,10 @@ def flush_object_references(realm: Path):
             tree_hash = add_paths(realm, path_infos, root_entries)
             git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)
 
-        cached_object_references = set()
+        for reference in pending_references:
+            cached_object_references[reference] -= realm_ids
+            if not cached_object_references[reference]:
+                del cached_object_references[reference]
 
     if legacy_trees_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)
@@ -133,12 +156,14 @@ def flush_object_references(realm: Path):
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
 
-def add_tree_reference(object_hash: str):
-    add_object_reference(EntryType.Directory, object_hash)
+def add_tree_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.Directory, object_hash, realm)
 
 
-def add_blob_reference(object_hash: str):
-    add_object_reference(EntryType.File, object_hash)
+def add_blob_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.File, object_hash, realm)
 
 
 def remove_object_reference(*args, **kwargs):
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..1e90674 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -81,7 +81,7 @@ class MTreeProxy:
             MetadataGitMapper.flush_realm(cache_destination)
 
         if not reference.is_none_reference():
-            add_tree_reference(reference.location)
+            add_tree_reference(reference.location, cache_destination)
         return reference
 
     def purge(self):
-- 
2.43.0


From 7ed206ffbe5d16749387dd40692c2b4df67d323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 02/28] fix: protect metadata root records that are listed in
 version lists

A version list is a JSON blob. Records that are only listed in the UUID set,
i.e. that are not part of a dataset tree, were never added to the object
references, and git gc deleted them.
---
 .../mapper/gitmapper/versionlistmapper.py     | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f4a99ee 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -3,7 +3,10 @@ from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    GitReference,
+    add_blob_reference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -62,6 +65,18 @@ class VersionListGitMapper(Mapper):
         assert isinstance(version_list, VersionList)
         version_list.version_set = self._get_version_records(realm, reference)
 
+    @staticmethod
+    def _write_element(element: "MappableObject", realm: str) -> Reference:
+        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
+
+        reference = element.write_out(realm)
+        if isinstance(element, MetadataRootRecord):
+            # Version lists are blobs, git does not know that they refer to
+            # the blob of the metadata root record, and the record is not
+            # necessarily part of a dataset tree.
+            add_blob_reference(reference.location, realm)
+        return reference
+
     def map_out_impl(self,
                      version_list: "VersionList",
                      realm: str,
@@ -76,7 +91,9 @@ class VersionListGitMapper(Mapper):
                 "primary_data_version": primary_data_version,
                 "time_stamp": version_record.time_stamp,
                 "path": version_record.prefix_path.as_posix(),
-                "dataset_tree": version_record.element.write_out(realm).to_json_obj()
+                "dataset_tree": self._write_element(
+                    version_record.element,
+                    realm).to_json_obj()
             }
             for primary_data_version, prefix_set in version_list.version_set.items()
             for version_record in prefix_set.values()
-- 
2.43.0


From 12e0b779a553b8d9e25be68b786f23afdf004ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 03/28] fix: do not lose cached metadata if saving a file tree
 fails

If anything failed between the activation of the blob cache and its flush, the
cache stayed active: every further attempt to save a file tree in this realm
failed, and metadata that was never stored counted as saved. Blob references
of metadata that was never stored were flushed as well.
---
 .../mapper/gitmapper/metadatamapper.py        | 27 +++++++++++++++++--
 dataladmetadatamodel/mtreeproxy.py            | 17 +++++++-----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index 3200656..47c98e1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -1,4 +1,8 @@
-from typing import Dict
+from typing import (
+    Dict,
+    List,
+    Tuple,
+)
 
 from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
 from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
@@ -15,6 +19,10 @@ class MetadataGitMapper(Mapper):
 
     metadata_caches: Dict[str, GitBlobCache] = dict()
 
+    # Metadata objects that were written to a cache, together with the location
+    # of the blob that needs an object reference, once the cache is flushed.
+    cached_metadata: Dict[str, List[Tuple["Metadata", str]]] = dict()
+
     @classmethod
     def get_cache(cls, realm: str):
         return cls.metadata_caches.get(realm, None)
@@ -24,6 +32,7 @@ class MetadataGitMapper(Mapper):
         if cls.get_cache(realm) is not None:
             raise RuntimeError(f"already caching realm: {realm}")
         cls.metadata_caches[realm] = GitBlobCache(realm)
+        cls.cached_metadata[realm] = []
 
     @classmethod
     def flush_realm(cls, realm: str):
@@ -32,6 +41,20 @@ class MetadataGitMapper(Mapper):
             raise RuntimeError(f"realm is not cached: {realm}")
         cache.flush()
         del cls.metadata_caches[realm]
+        for _, metadata_blob_location in cls.cached_metadata.pop(realm, []):
+            add_blob_reference(metadata_blob_location, realm)
+
+    @classmethod
+    def discard_realm(cls, realm: str):
+        """
+        Discard the cache of a realm after a failure. What was cached is not
+        necessarily stored, the respective metadata objects become unsaved.
+        """
+        cache = cls.metadata_caches.pop(realm, None)
+        if cache is not None:
+            cache.cached_objects = []
+        for metadata, _ in cls.cached_metadata.pop(realm, []):
+            metadata.touch()
 
     def map_in_impl(self,
                     metadata: "Metadata",
@@ -105,7 +128,7 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location, realm)
+        self.cached_metadata[realm].append((metadata, metadata_blob_location))
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 1e90674..bdf760d 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -73,12 +73,17 @@ class MTreeProxy:
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
 
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+        try:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
+
+            if isinstance(self, FileTree):
+                MetadataGitMapper.flush_realm(cache_destination)
+        except BaseException:
+            if isinstance(self, FileTree):
+                MetadataGitMapper.discard_realm(cache_destination)
+            raise
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location, cache_destination)
-- 
2.43.0


From ad55d01aad22da669141f6cd9b388c09b9565709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 04/28] fix: keep the realm of an object if writing it to
 another realm fails

An object that is saved in realm A could not be loaded any more, if writing it
to realm B failed and it was purged afterwards.
---
 dataladmetadatamodel/mappableobject.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..de133f1 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -169,10 +169,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
+                self.realm = destination_realm
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
@@ -193,6 +192,8 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        # Only now the object can be read from the destination
+        self.realm = destination_realm
         self.set_saved_on(destination_realm)
 
         assert isinstance(self.reference, Reference), \
-- 
2.43.0


From 8786a37b164bf73abd5d28a3a8437c34c50226bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 05/28] fix: do not overwrite the object references if they can
 not be read

A transient failure while reading the object references, e.g. because no
process could be started, was taken for an empty store. All object references
of earlier saves were dropped, and git gc deleted their objects.
---
 .../mapper/gitmapper/gitbackend/subprocess.py | 30 +++++++++++++++++++
 .../mapper/gitmapper/objectreference.py       |  6 +++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..85e52ab 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -1,4 +1,5 @@
 import json
+import os
 import shlex
 import subprocess
 from typing import (
@@ -185,6 +186,35 @@ def git_delete_ref(repo_dir: str, ref_name: str) -> None:
     checked_execute(cmd_line)
 
 
+def _git_test(cmd_line: List[str], missing_code: int) -> bool:
+    """ Execute a test for existence, raise if it could not be performed """
+    result = execute(cmd_line)
+    if result.returncode in (0, missing_code):
+        return result.returncode == 0
+    raise RuntimeError(
+        f"Command failed (exit code: {result.returncode}) "
+        f"{' '.join(cmd_line)}:\n"
+        f"STDERR:\n"
+        f"{result.stderr.decode()}")
+
+
+def git_ref_exists(repo_dir: str, ref_name: str) -> bool:
+    """
+    Check whether a reference exists. In contrast to just trying to read it,
+    this tells a missing reference from a failure to read it. There are no
+    references, if the local directory is not a git repository.
+    """
+    if Reference.is_remote(repo_dir):
+        return _git_test(
+            ["git", "-P", "ls-remote", "--exit-code", repo_dir, ref_name], 2)
+    git_dir = os.path.join(repo_dir, ".git")
+    if not os.path.isfile(git_dir) \
+            and not os.path.lexists(os.path.join(git_dir, "HEAD")):
+        return False
+    return _git_test(
+        git_command_line(repo_dir, "show-ref", ["--verify", "--quiet", ref_name]), 1)
+
+
 def git_fetch_object(repo_dir: str,
                      remote_repo: str,
                      remote_reference: str):
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index bc8a121..e2c34b7 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -105,7 +105,7 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import git_ref_exists, git_update_ref
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -140,6 +140,10 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                # Start from scratch only if there is nothing yet, otherwise
+                # the existing object references would be overwritten.
+                if git_ref_exists(str(realm), GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From cc06c58d6ab07812af7922e31989b2ae39134421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 06/28] fix: do not report top-level elements as missing if
 they can not be read

A transient failure while reading, or the absence of only one of the two
elements, made both of them look missing. Callers that create what is missing
then replaced the existing elements.
---
 dataladmetadatamodel/common.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..c645107 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -54,6 +54,8 @@ def get_top_level_metadata_objects(
     from dataladmetadatamodel.mapper import (
         get_uuid_set_location,
         get_tree_version_list_location)
+    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+        git_ref_exists)
 
     realm = str(realm)
 
@@ -69,10 +71,17 @@ def get_top_level_metadata_objects(
             realm,
             get_uuid_set_location(mapper_family)))
 
-    try:
-        return tree_version_list.read_in(), uuid_set.read_in()
-    except RuntimeError:
-        return None, None
+    def read_if_existing(top_level_object):
+        try:
+            return top_level_object.read_in()
+        except RuntimeError:
+            # An existing element that can not be read is not a missing
+            # element. If it was reported as missing, callers would replace it.
+            if git_ref_exists(realm, top_level_object.reference.location):
+                raise
+            return None
+
+    return read_if_existing(tree_version_list), read_if_existing(uuid_set)
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From 2a6759b24a354f569165402ce60c5eb5bc37b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 07/28] fix: save containers of objects that were saved on
 their own

If an element was modified and then written on its own, e.g. through
unget_dataset_tree() or unget_metadata(), or through another container that
shares it, its container counted as saved, although the stored container still
referred to the previous state of the element. Saving it was skipped, and the
modification got lost.
---
 dataladmetadatamodel/mappableobject.py | 25 +++++++++++++++++++++++++
 dataladmetadatamodel/mtreeproxy.py     |  4 ++++
 2 files changed, 29 insertions(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index de133f1..3a62a41 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -5,6 +5,7 @@ from abc import (
 from contextlib import contextmanager
 from typing import (
     Iterable,
+    List,
     Optional,
 )
 
@@ -66,6 +67,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.realm = realm
         self.reference = reference
         self.mapped = reference is None
+        self.saved_sub_references = None
 
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
@@ -84,6 +86,26 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # delegate to our subclasses
         return self.modifiable_sub_objects_impl()
 
+    def _get_sub_references(self) -> List[Optional[str]]:
+        return [
+            None if sub_object.reference is None else sub_object.reference.location
+            for sub_object in self.modifiable_sub_objects
+        ]
+
+    def is_saved_on(self, destination: str) -> bool:
+        """
+        In addition to being saved on the destination and having only
+        sub-objects that are saved there, a mapped object must have been
+        saved with the current state of its sub-objects. A sub-object might
+        have been modified and saved on its own.
+        """
+        if not super().is_saved_on(destination):
+            return False
+        return (
+            not self.mapped
+            or self.saved_sub_references is None
+            or self.saved_sub_references == self._get_sub_references())
+
     def read_in(self,
                 backend_type: str = "git"
                 ) -> "MappableObject":
@@ -122,6 +144,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.saved_sub_references = self._get_sub_references()
 
         else:
 
@@ -195,6 +218,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # Only now the object can be read from the destination
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
+        self.saved_sub_references = self._get_sub_references()
 
         assert isinstance(self.reference, Reference), \
             f"write_out({self}): object {self} has no valid " \
@@ -211,6 +235,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             self.purge_impl()
             self.mapped = False
+            self.saved_sub_references = None
 
     def ensure_mapped(self,
                       backend_type="git") -> bool:
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index bdf760d..f9b19bc 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -50,6 +50,10 @@ class MTreeProxy:
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def ensure_mapped(self) -> bool:
         return self.mtree.ensure_mapped()
 
-- 
2.43.0


From 3baa389602b65a2c4d6805ed79a6f6f7bd62fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 08/28] fix: save trees that contain empty sub-trees

An empty sub-tree, e.g. the rest of a removed file or dataset, has no location
in git. Saving a tree that contains one failed, or stored a broken entry.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..3032b3f 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -70,7 +70,12 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            if not child_node.reference.is_none_reference()
         ]
+        # Nodes without content, e.g. because everything in it was removed,
+        # have no representation in git.
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From 920fcd411e393942e7fa9c6625882a047d9038a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 09/28] fix: write version lists that contain loaded, empty
 dataset trees

A none-reference counted as unsaved, therefore a version list that was loaded
with an empty dataset tree could not be saved any more.
---
 dataladmetadatamodel/mappableobject.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 3a62a41..6cf86c9 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -58,11 +58,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         # We assume that objects that carry a reference have been
         # saved in the location given by the reference.
-        super().__init__(
-            realm
-            if reference is not None and not reference.is_none_reference()
-            else None
-        )
+        # That includes None-references, i.e. references to objects without
+        # content.
+        super().__init__(realm if reference is not None else None)
 
         self.realm = realm
         self.reference = reference
-- 
2.43.0


From c4400222088096d6df5eaf0463ee13b18b404f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 10/28] fix: purge and read records without dataset-level
 metadata

---
 dataladmetadatamodel/metadatarootrecord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..2f177d6 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,11 +45,11 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
+        if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
-        if self.dataset_level_metadata is not None:
-            self.dataset_level_metadata = None
+        self.dataset_level_metadata = None
         self._file_tree = None
 
     def set_file_tree(self, file_tree: FileTree):
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From 517c23e6c66e11c4b48f2918f3c58f08279705f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 11/28] fix: map purged version lists and UUID sets before they
 are changed

Setting a version list in a purged UUID set dropped all others when the set
was saved, and removing an element of a purged version list from memory failed.
---
 dataladmetadatamodel/uuidset.py     | 2 ++
 dataladmetadatamodel/versionlist.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
@@ -60,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..5c75ad6 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -187,7 +187,9 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
-        version_record = self.version_set[primary_data_version][prefix_path]
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
         version_record.element.write_out(new_destination)
         version_record.element.purge()
 
-- 
2.43.0


From 839001360a3879fb30de1fdd7a8006abe16b4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 12/28] fix: save empty UUID sets

git mktree does not accept the blank line that was sent for an empty tree.
---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 85e52ab..54ffd7d 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -151,10 +151,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -162,10 +162,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From 9f95a7c99280b865a8dc63177bac58d5ec95d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 13/28] fix: add extractor runs for new paths to a file tree

---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From f7f43158fe3c928b9990da6f11e6a05e0ae40565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 14/28] fix: save names that contain line breaks

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 3032b3f..ec1e5f8 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -81,12 +81,14 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        # A line break would end the entry, if it is not quoted
+        if '"' in input_string or '\n' in input_string:
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
                 + '"'
             )
         else:
-- 
2.43.0


From de5a08d0bc966a4856264331b114167f5ab9fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 15/28] fix: complete the local cache if its initialisation was
 interrupted

If git init was interrupted, the directory existed, but was no repository, and
every further access to the remote failed.
---
 dataladmetadatamodel/mapper/gitmapper/localcache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/localcache.py b/dataladmetadatamodel/mapper/gitmapper/localcache.py
index a1c6532..d453ff2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/localcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/localcache.py
@@ -31,7 +31,10 @@ def get_repo_cache_path(remote_repo: str) -> Path:
 
 def ensure_cache_exists(remote_repo: str):
     cache_path = get_repo_cache_path(remote_repo)
-    if not cache_path.exists():
+    # An interrupted initialisation leaves an incomplete directory. Repeating it
+    # is safe, even if another process does the same.
+    git_dir = cache_path / ".git"
+    if not all((git_dir / name).exists() for name in ("HEAD", "objects", "refs")):
         git_init(str(cache_path))
 
 
-- 
2.43.0


From 89e7993b0f9a3d32bc8230729a2b446dd63f1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 16/28] fix: use one lock per repository, independent of the
 spelling of its path

---
 dataladmetadatamodel/mapper/gitmapper/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/utils.py b/dataladmetadatamodel/mapper/gitmapper/utils.py
index 1afff10..418f1ff 100644
--- a/dataladmetadatamodel/mapper/gitmapper/utils.py
+++ b/dataladmetadatamodel/mapper/gitmapper/utils.py
@@ -75,7 +75,10 @@ def unlock_backend(realm: Path):
 
 
 def get_lock_dir(realm: Path, create_directory: bool = True) -> Path:
-    lock_dir = realm / ".git"
+    # Locks are kept per directory. Different spellings of its path must not
+    # lead to different locks, because a process loses all locks that it has on
+    # a file, if it closes one of them.
+    lock_dir = Path(os.path.realpath(realm)) / ".git"
     if not lock_dir.exists() and create_directory:
         # if exist_ok is False, we might get an error if
         # a concurrent mapper tries to lock the same
-- 
2.43.0


From 2ddb332c297fc06d42b0ba69e99d6bfbf3ebb65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 17/28] fix: copy and write git objects of repositories with
 special paths

The paths were interpreted by a shell, blanks in them made the commands fail.
If the object could not be read, an empty object was written to the
destination.
---
 dataladmetadatamodel/metadatasource.py | 27 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..c86ed4a 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -18,7 +18,7 @@ import logging
 import subprocess
 from copy import deepcopy
 from pathlib import Path
-from typing import IO, Optional
+from typing import IO, List, Optional
 
 from dataladmetadatamodel import (
     JSONObject,
@@ -93,10 +93,15 @@ class LocalGitMetadataSource(MetadataSource):
             and self.git_repository_path == other.git_repository_path
             and self.object_reference == other.object_reference)
 
+    @staticmethod
+    def _git_command(repository_path: Path, *arguments: str) -> List[str]:
+        return ["git", "--git-dir", str(repository_path / ".git"), *arguments]
+
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = self._git_command(
+            self.git_repository_path,
+            "cat-file", "blob", self.object_reference)
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +113,15 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
+        content = subprocess.check_output(
+            self._git_command(
+                self.git_repository_path,
+                "cat-file", "blob", self.object_reference))
         copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+            self._git_command(
+                destination_repository,
+                "hash-object", "-w", "--stdin"),
+            input=content).decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 2e9a7b164aae1b4c28145ff9218ba2166d5d390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 18/28] fix: read top-level elements that are created while
 they are looked up

A reader that looks for a top-level element while another process creates it
reported an error, because the element did not exist when it was read, but did
exist when the reason for the failure was determined.
---
 dataladmetadatamodel/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index c645107..0c8b3df 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -77,9 +77,11 @@ def get_top_level_metadata_objects(
         except RuntimeError:
             # An existing element that can not be read is not a missing
             # element. If it was reported as missing, callers would replace it.
-            if git_ref_exists(realm, top_level_object.reference.location):
-                raise
-            return None
+            if not git_ref_exists(realm, top_level_object.reference.location):
+                return None
+            # It might have been created by another process after we tried to
+            # read it, otherwise this will fail again.
+            return top_level_object.read_in()
 
     return read_if_existing(tree_version_list), read_if_existing(uuid_set)
 
-- 
2.43.0


From 5bc271edfbcc1b79a98f7839bdbc7cfda7dc265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 19/28] fix: copy the content of texts

---
 dataladmetadatamodel/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..cbfd906 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,7 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
+        copied_text.purge()
         return copied_text
-- 
2.43.0


From 24f0a8b8ff460857f1655fb03656e64f5d492cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 20/28] fix: keep the line separators of stored texts

---
 .../mapper/gitmapper/gitbackend/subprocess.py    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 54ffd7d..2ed9513 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -30,9 +30,9 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
-def checked_execute(arguments: Union[str, List[str]],
+def _checked_result(arguments: Union[str, List[str]],
                     stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+                    ) -> Any:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -46,6 +46,14 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
+    return result
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    result = _checked_result(arguments, stdin_content)
     return (
         result.stdout.decode().splitlines(),
         result.stderr.decode().splitlines())
@@ -66,8 +74,8 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    # Do not split the text into lines: that would lose the line separators
+    return _checked_result(cmd_line).stdout.decode()
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From 21d8efd9d65591136458233ffa9dd36244d6b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 21/28] fix: unget version lists that are not in memory

---
 dataladmetadatamodel/mappableobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 6cf86c9..ab408f2 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -158,6 +158,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         from dataladmetadatamodel.mapper import get_mapper
 
+        if self.realm:
+            destination_realm = destination_realm or self.realm
+
         # If the object is not mapped and not modified,
         # we do not have to do anything.
         if not self.mapped:
@@ -179,9 +182,6 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f" saved on {destination_realm}")
             return self.reference
 
-        if self.realm:
-            destination_realm = destination_realm or self.realm
-
         assert destination_realm is not None, \
             f"write_out({self}): no destination available for {self}"
 
-- 
2.43.0


From fef2ab1bd21872f4948374e64adc1fabcbf41371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 22/28] fix: read tree version lists again that were saved and
 purged

---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f4a99ee..166fd44 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -128,4 +128,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From 7fa5a69dfbb6df75523facc8e0b70d1f03ff5f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 23/28] fix: do not purge containers of elements that were
 saved on their own

---
 dataladmetadatamodel/mappableobject.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index ab408f2..16f70da 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -227,7 +227,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            # A container is not saved, if its elements were modified since it
+            # was saved, even if the elements are saved on their own.
+            if not any(map(self.is_saved_on, self.saved_on)):
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
-- 
2.43.0


From 3d94d7fba0f62c285f748104921fd124657a4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 24/28] fix: names with Unicode line separators could not be
 read if core.quotepath was off

With core.quotepath=false git reports such names as they are, and the lines of
its output were split within the names.
---
 .../mapper/gitmapper/gitbackend/subprocess.py                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 2ed9513..637b8e8 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -64,9 +64,13 @@ def git_command_line(repo_dir: str,
                      arguments: List[str]
                      ) -> List[str]:
 
+    # With quoted paths, no name contains a separator of lines, independent of
+    # the configuration of the user
     return [
                "git",
                "-P",
+               "-c",
+               "core.quotepath=true",
                "--git-dir",
                repo_dir + "/.git",
                command
-- 
2.43.0


From ab0067d50e25c62463ba3bade3a1e0c3729c902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 25/28] fix: broken references were reported as missing
 metadata

---
 .../mapper/gitmapper/gitbackend/subprocess.py             | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 637b8e8..f4d51cb 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -223,8 +223,14 @@ def git_ref_exists(repo_dir: str, ref_name: str) -> bool:
     if not os.path.isfile(git_dir) \
             and not os.path.lexists(os.path.join(git_dir, "HEAD")):
         return False
-    return _git_test(
+    # Git ignores references with invalid content, e.g. after a system crash. They
+    # are damaged, but not missing.
+    has_file = os.path.isfile(os.path.join(git_dir, ref_name))
+    exists = _git_test(
         git_command_line(repo_dir, "show-ref", ["--verify", "--quiet", ref_name]), 1)
+    if has_file and not exists:
+        raise RuntimeError(f"broken reference in {repo_dir}: {ref_name}")
+    return exists
 
 
 def git_fetch_object(repo_dir: str,
-- 
2.43.0


From f3e118ac3e10a974525f8c70c2bb3856ee3e1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 26/28] fix: containers modified and saved elsewhere were
 considered saved in all former places

---
 dataladmetadatamodel/mappableobject.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 16f70da..c6545e5 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -206,6 +206,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): calling map_out to save {self} "
             f"to {destination_realm}")
 
+        previous_reference = self.reference
         self.reference = get_mapper(
             type(self).__name__,
             backend_type).map_out(
@@ -213,6 +214,12 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        # If a sub-object was modified, the other places hold a former
+        # state of this object.
+        if previous_reference is None \
+                or previous_reference.location != self.reference.location:
+            self.set_unsaved()
+
         # Only now the object can be read from the destination
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
-- 
2.43.0


From 8c771ddbb12e66b5293a9ba7725a6aaf2facf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 27/28] fix: metadata with several configurations could not be
 compared

---
 dataladmetadatamodel/metadata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..a2ef209 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,14 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        # The order of the configurations does not matter
+        return (
+            len(self.parameter_set) == len(other.parameter_set)
+            and all(
+                configuration in other.parameter_set
+                and self.get_instance_for_configuration(configuration)
+                == other.get_instance_for_configuration(configuration)
+                for configuration in self.parameter_set))
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From e24c065a9812ae6f07d6b53ab2652a76469e2cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 28/28] fix: absolute metadata paths were created on python
 3.12 and later

---
 dataladmetadatamodel/metadatapath.py | 33 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..ce3b04b 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,10 +1,21 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
 
 
 class MetadataPath(PurePosixPath):
-    def __new__(cls, *args):
+    # Up to python 3.11 `PurePosixPath.__new__` interprets the arguments,
+    # from python 3.12 on `PurePosixPath.__init__` does.
+    if sys.version_info < (3, 12):
+        def __new__(cls, *args):
+            return super().__new__(cls, cls._get_relative_path(*args))
+    else:
+        def __init__(self, *args):
+            super().__init__(self._get_relative_path(*args))
+
+    @staticmethod
+    def _get_relative_path(*args) -> str:
 
         posix_args = []
         for arg in args:
@@ -14,18 +25,14 @@ class MetadataPath(PurePosixPath):
 
         original_path = PurePosixPath(*posix_args)
         if not original_path.is_absolute():
-            created_path = super().__new__(
-                cls,
-                "/".join(original_path.parts))
-        else:
-            modified_path = "/".join(original_path.parts[1:])
-            created_path = super().__new__(cls, modified_path)
-            logger.warning(
-                f"Denied creation of absolute metadata path: {original_path}, "
-                f"created {modified_path} instead. This is considered an error "
-                f"in the calling code.")
-
-        return created_path
+            return "/".join(original_path.parts)
+
+        modified_path = "/".join(original_path.parts[1:])
+        logger.warning(
+            f"Denied creation of absolute metadata path: {original_path}, "
+            f"created {modified_path} instead. This is considered an error "
+            f"in the calling code.")
+        return modified_path
 
     def __str__(self):
         path_str = PurePosixPath.__str__(self)
-- 
2.43.0

