From dd80ad83f18038a5b7fd64d061a0ed7cd828de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 01/69] fix: reject non-monotonic keys when splitting in-memory
 datasets

The first occurrences of keys like [1, 2, 1] are increasing, so such a
dataset was accepted and its last rows were filed under the wrong key.
---
 zcollection/partitioning/abc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 5eb2fc9..e0966a8 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -120,9 +120,15 @@ def unique_and_check_monotony(arr: ArrayLike) -> tuple[NDArray, NDArray]:
     """
     index: NDArray
     indices: NDArray
-
-    index, indices = numpy.unique(arr, axis=0, return_index=True)
-    if not numpy.all(numpy.diff(indices) > 0):
+    inverse: NDArray
+
+    index, indices, inverse = numpy.unique(arr,
+                                           axis=0,
+                                           return_index=True,
+                                           return_inverse=True)
+    # The keys are monotonic if and only if the ranks of the sorted unique
+    # elements never decrease along the array.
+    if not numpy.all(numpy.diff(inverse.ravel()) >= 0):
         raise ValueError('index is not monotonic')
     return index, indices
 
-- 
2.43.0


From 8df4f840b15aa856755c9114825a8b26efb070a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 02/69] fix: keep the record following the merged period in
 time series

A period ends one time unit after its last record: comparing with the end
dropped the existing record dated exactly there, and raised IndexError if
no other record followed.
---
 zcollection/merging/time_series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/merging/time_series.py b/zcollection/merging/time_series.py
index 099add0..a25405c 100644
--- a/zcollection/merging/time_series.py
+++ b/zcollection/merging/time_series.py
@@ -56,7 +56,7 @@ def _merge_time_series(
         # pylint: disable=comparison-with-callable
         indices = numpy.where(
             # comparison between ndarray and datetime64
-            existing_axis > intersection.end())[0]  # type: ignore
+            existing_axis > intersection.last)[0]  # type: ignore
         # pylint: enable=comparison-with-callable
         return inserted_ds.concat(
             existing_ds.isel({partitioning_dim: indices}), partitioning_dim)
@@ -81,7 +81,7 @@ def _merge_time_series(
 
     # pylint: disable=comparison-with-callable
     # comparison between ndarray and datetime64
-    index = numpy.where(existing_axis > intersection.end())[0]  # type: ignore
+    index = numpy.where(existing_axis > intersection.last)[0]  # type: ignore
     # pylint: enable=comparison-with-callable
     after: dataset.Dataset = existing_ds.isel(
         {partitioning_dim: slice(index[0], index[-1] + 1, None)})
-- 
2.43.0


From 674c94a24c7ed5e53e316eec3f6d58e1f852e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 03/69] fix: load the immutable variables when using
 overlapping partitions

---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index d2cb9fe..04c0849 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -243,7 +243,7 @@ def _load_dataset_with_overlap(
 
     if immutable:
         zds.merge(
-            open_zarr_group(partition,
+            open_zarr_group(immutable,
                             fs,
                             delayed=delayed,
                             selected_variables=selected_variables))
-- 
2.43.0


From 7b930eb8f30e13312a771ced738f6a85a91a1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 04/69] fix: give the immutable variables to the function
 inferred by update

---
 zcollection/collection/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee83f64..480a648 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -38,6 +38,7 @@ from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
     _insert,
+    _load_dataset,
     _try_infer_callable,
     _wrap_update_func,
     _wrap_update_func_with_overlap,
@@ -89,11 +90,12 @@ def _infer_callable(
         return ()
 
     with collection.synchronizer:
-        zds: dataset.Dataset = storage.open_zarr_group(
-            one_partition,
-            collection.fs,
-            delayed=delayed,
-            selected_variables=selected_variables)
+        # pylint: disable=protected-access
+        # The function must see the same variables as during the update.
+        zds: dataset.Dataset = _load_dataset(delayed, collection.fs,
+                                             collection._immutable,
+                                             one_partition, selected_variables)
+        # pylint: enable=protected-access
     func_result: dict[str, Any]
     func_result = _try_infer_callable(func, zds,
                                       collection.partition_properties.dim,
-- 
2.43.0


From 1990e9194bfa4677f3e84b2d1cfd86fe14fd4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 05/69] fix: select the immutable variables with the
 partitioning dimension

The name of the axis variable was used as a dimension name, so inserting
failed if the axis and its dimension have different names.
---
 zcollection/collection/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 480a648..50f0606 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -59,7 +59,7 @@ def _write_immutable_dataset(
 
     Args:
         zds: The dataset to write.
-        axis: The partitioning axis.
+        axis: The partitioning dimension.
         path: The path to the immutable dataset.
         fs: The file system that the partition is stored on.
     """
@@ -381,11 +381,13 @@ class Collection(ReadOnlyCollection):
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
             if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.axis, self._immutable,
-                                         self.fs, self.synchronizer)
+                _write_immutable_dataset(ds, self.partition_properties.dim,
+                                         self._immutable, self.fs,
+                                         self.synchronizer)
 
             # Remove the variables that should not be partitioned.
-            ds = ds.select_variables_by_dims((self.axis, ))
+            ds = ds.select_variables_by_dims(
+                (self.partition_properties.dim, ))
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-- 
2.43.0


From 68a1663b9b5f7786ead3b132a3ad13bec701c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 06/69] fix: hide the temporary directories used to merge
 partitions

A temporary directory, in use or left by a crash, was listed as a
partition of the collection, so listing the partitions failed.
---
 zcollection/merging/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 7a39e3e..aa1680b 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -109,10 +109,11 @@ def _update_fs(
         synchronizer: The instance handling access to critical resources.
     """
     # Building a temporary directory to store the new data. The name of the
-    # temporary directory is the hash of the partition name.
+    # temporary directory is the hash of the partition name, hidden to not be
+    # listed as a partition.
     temp: str = fs_utils.join_path(
         _extract_root_dirname(dirname, fs.sep),
-        hashlib.sha256(dirname.encode()).hexdigest())
+        '.' + hashlib.sha256(dirname.encode()).hexdigest())
     if fs.exists(temp):
         fs.rm(temp, recursive=True)
 
-- 
2.43.0


From 76be89a6775985ee73e3214b3c7f08722c016fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 07/69] fix: keep the temporary directories inside the
 collection

All the path elements containing '=' were ignored, even those of the
collection's base directory, so that the temporary directory was written
elsewhere on the file system.
---
 zcollection/merging/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index aa1680b..8b67303 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -89,7 +89,10 @@ def _rename(
 
 def _extract_root_dirname(dirname: str, sep: str) -> str:
     """Extracts the root directory name from a partition name."""
-    parts = filter(lambda x: '=' not in x, dirname.split(sep))
+    parts = dirname.split(sep)
+    # Only the trailing "key=value" elements belong to the partition.
+    while parts and '=' in parts[-1]:
+        parts.pop()
     return sep.join(parts)
 
 
-- 
2.43.0


From 8d3592c249fe7a61a583cd0f6b3e05d48edc6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 08/69] fix: do not delete a partition before its replacement
 is in place

The existing partition was removed file by file before the new one was
moved: an error or a crash meanwhile lost its records.
---
 zcollection/merging/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 8b67303..0080bb6 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Protocol
 import hashlib
+import os
 import shutil
 
 import fsspec
@@ -78,9 +79,19 @@ def _rename(
         # fspec implementation of the local file system, copy the source
         # directory to the destination directory and remove the source
         # directory. This is not efficient. So we use the shutil
-        # implementation to rename the directory.
-        shutil.rmtree(dest, ignore_errors=True)
-        shutil.move(source, dest)
+        # implementation to rename the directory. The existing directory is
+        # only deleted once it has been replaced.
+        backup: str = source + '.old'
+        shutil.rmtree(backup, ignore_errors=True)
+        if os.path.exists(dest):
+            os.rename(dest, backup)
+        try:
+            os.rename(source, dest)
+        except OSError:
+            if os.path.exists(backup):
+                os.rename(backup, dest)
+            raise
+        shutil.rmtree(backup, ignore_errors=True)
         return
 
     fs.rm(dest, recursive=True)
-- 
2.43.0


From b86547e1ab2dab4559f28525c0b37617eecfb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 09/69] fix: allow to insert again a partition whose creation
 was interrupted

The incomplete partition left by a crash made the first new insertion fail
(the Zarr group already exists).
---
 zcollection/collection/detail.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 04c0849..9281164 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -430,6 +430,9 @@ def _insert(
     # The current partition does not exist, so we need to create
     # it and insert the dataset.
     try:
+        if fs.isdir(dirname):
+            # Remnant of an interrupted insertion.
+            _rm(fs, dirname)
         zarr.storage.init_group(store=fs.get_mapper(dirname))
 
         # The synchronization is done by the caller.
-- 
2.43.0


From 926c0c10fbacfb29c947be758f620c38b23c8642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 10/69] fix: write the immutable variables again if their
 writing was interrupted

---
 zcollection/collection/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 50f0606..96d9224 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -379,8 +379,10 @@ class Collection(ReadOnlyCollection):
         if self._immutable is not None:
 
             # On the first call, we store the immutable variables in
-            # a directory located at the root of the collection.
-            if not self.fs.exists(self._immutable):
+            # a directory located at the root of the collection. The metadata
+            # are the last item written by a successful call.
+            if not self.fs.exists(
+                    fs_utils.join_path(self._immutable, '.zmetadata')):
                 _write_immutable_dataset(ds, self.partition_properties.dim,
                                          self._immutable, self.fs,
                                          self.synchronizer)
-- 
2.43.0


From 8453ac05efb8b07f542718d87a8f6f5a83833ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 11/69] fix: hold the lock until all the tasks of a failed
 transaction end

The lock was released as soon as one task failed, while the others were
still writing.
---
 zcollection/storage.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index af8d28f..99a48a1 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -68,18 +68,18 @@ def execute_transaction(
     """
     if not futures:
         return None
-    awaitables: Iterable[Any] = []
-    try:
-        with synchronizer:
+    with synchronizer:
+        awaitables: Iterable[Any] = []
+        try:
             awaitables = client.compute(futures,
                                         **kwargs)  # type: ignore[arg-type]
             return client.gather(awaitables)
-    except:  # noqa: E722
-        # Before throwing the exception, we wait until all future scheduled
-        # ones finished.
-        dask.distributed.wait(awaitables)
-        dask.distributed.wait(futures)
-        raise
+        except:  # noqa: E722
+            # Before throwing the exception, and releasing the lock, we wait
+            # until all future scheduled ones finished.
+            dask.distributed.wait(awaitables)
+            dask.distributed.wait(futures)
+            raise
 
 
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
-- 
2.43.0


From aa5f46dd9f9250893f2a57b896024294eaea135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 12/69] fix: start the tasks of the transactions once the lock
 is acquired

Except for insertions, the tasks were submitted to the cluster, and could
already be writing, before the synchronizer was acquired.
---
 zcollection/collection/__init__.py | 32 +++++++-------
 zcollection/dask_utils.py          | 23 +++++++++-
 zcollection/view/__init__.py       | 71 +++++++++++++++---------------
 3 files changed, 72 insertions(+), 54 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 96d9224..1793cab 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -18,7 +18,6 @@ import os
 import types
 import warnings
 
-import dask.bag.core
 import dask.distributed
 import dask.utils
 import fsspec
@@ -470,7 +469,7 @@ class Collection(ReadOnlyCollection):
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True))
+            dask_utils.delayed_map(self.fs.rm, folders, recursive=True))
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -587,7 +586,7 @@ class Collection(ReadOnlyCollection):
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(local_func, tuple(batches), key=func.__name__))
+            dask_utils.delayed_map(local_func, batches))
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
@@ -624,11 +623,11 @@ class Collection(ReadOnlyCollection):
                     f'The variable {variable!r} is part of the immutable '
                     'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
-        bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-        awaitables: list[
-            dask.distributed.Future] = dask.distributed.futures_of(
-                bag.map(storage.del_zarr_array, variable, self.fs).persist())
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map(storage.del_zarr_array,
+                                   self.partitions(lock=True), variable,
+                                   self.fs))
         del self.metadata.variables[variable]
         self._write_config()
 
@@ -681,15 +680,14 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
-            bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-            futures: list[
-                dask.distributed.Future] = dask.distributed.futures_of(
-                    bag.map(storage.add_zarr_array,
-                            variable,
-                            template.name,
-                            self.fs,
-                            chunks=chunks).persist())
-            storage.execute_transaction(client, self.synchronizer, futures)
+            storage.execute_transaction(
+                client, self.synchronizer,
+                dask_utils.delayed_map(storage.add_zarr_array,
+                                       self.partitions(lock=True),
+                                       variable,
+                                       template.name,
+                                       self.fs,
+                                       chunks=chunks))
         except Exception:
             self.drop_variable(variable.name)
             raise
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 40c6b75..fc8d951 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -8,7 +8,7 @@ Dask utilities
 """
 from __future__ import annotations
 
-from typing import Any, Callable, Iterator, Sequence
+from typing import Any, Callable, Iterable, Iterator, Sequence
 import itertools
 import uuid
 
@@ -102,3 +102,24 @@ def simple_delayed(name: str, func: Callable) -> dask_Delayed:
         }}, {name: set()}),
         None,
     )
+
+
+def delayed_map(func: Callable, iterable: Iterable[Any], *args,
+                **kwargs) -> list[dask_Delayed]:
+    """Delay the application of a function to the items of an iterable.
+
+    Unlike :py:meth:`dask.distributed.Client.map`, the execution only starts
+    when the result is computed, for example in a transaction.
+
+    Args:
+        func: function to apply
+        iterable: items to process
+        *args: positional arguments passed to the function after the item
+        **kwargs: keyword arguments passed to the function
+
+    Returns:
+        delayed calls, one per item.
+    """
+    delayed: dask_Delayed = simple_delayed(
+        getattr(func, '__name__', 'delayed_map'), func)
+    return [delayed(item, *args, **kwargs) for item in iterable]
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f878511..0290ea6 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -118,9 +118,9 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(
+            dask_utils.delayed_map(
                 _write_checksum,
-                tuple(args),
+                args,
                 base_dir=self.base_dir,
                 view_ref=self.view_ref,
                 fs=self.fs,
@@ -283,20 +283,20 @@ class View:
         try:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_create_zarr_array,
-                           tuple(args),
-                           base_dir=self.base_dir,
-                           fs=self.fs,
-                           template=template.name,
-                           variable=variable))
+                dask_utils.delayed_map(_create_zarr_array,
+                                       args,
+                                       base_dir=self.base_dir,
+                                       fs=self.fs,
+                                       template=template.name,
+                                       variable=variable))
         except Exception:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_drop_zarr_zarr,
-                           tuple(self.partitions()),
-                           fs=self.fs,
-                           variable=variable.name,
-                           ignore_errors=True))
+                dask_utils.delayed_map(_drop_zarr_zarr,
+                                       self.partitions(),
+                                       fs=self.fs,
+                                       variable=variable.name,
+                                       ignore_errors=True))
             raise
 
         self._write_config()
@@ -328,10 +328,10 @@ class View:
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_drop_zarr_zarr,
-                       tuple(self.partitions()),
-                       fs=self.fs,
-                       variable=variable.name))
+            dask_utils.delayed_map(_drop_zarr_zarr,
+                                   self.partitions(),
+                                   fs=self.fs,
+                                   variable=variable.name))
 
     def load(
         self,
@@ -527,12 +527,11 @@ class View:
         batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        awaitables: list[dask.distributed.Future] = client.map(
-            wrap_function,
-            tuple(batchs),
-            key=func.__name__,
-            base_dir=self.base_dir)
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map(wrap_function,
+                                   batchs,
+                                   base_dir=self.base_dir))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
@@ -740,13 +739,13 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         unsynchronized_partition = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata,
-                       dry_run=True))
+            dask_utils.delayed_map(_sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata,
+                                   dry_run=True))
         return len(
             tuple(
                 filter(lambda item: item is not None,
@@ -791,12 +790,12 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         synchronized_partition: list[str | None] = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata))
+            dask_utils.delayed_map(_sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata))
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
-- 
2.43.0


From b964e8c92be0f8f7c1d25d92a8dab81432f24caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 13/69] fix: copy the immutable variables and allow the copy of
 any collection

The default file system was looked up from the target path, the directory
of the immutable variables was not copied, and an empty selection of
partitions raised ZeroDivisionError.
---
 zcollection/collection/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 1793cab..cbc7877 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -726,10 +726,17 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
-            filesystem = fs_utils.get_fs(target)
+            filesystem = self.fs
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
+        filesystem.makedirs(target, exist_ok=True)
+
+        # Directories to copy: the selected partitions and, if any, the
+        # immutable dataset.
+        folders = list(self.partitions(filters=filters))
+        if self._immutable is not None and self.fs.exists(self._immutable):
+            folders.append(self._immutable)
 
         # Sequence of (source, target) to copy split in npartitions
         args = tuple(
@@ -738,7 +745,7 @@ class Collection(ReadOnlyCollection):
                   fs_utils.join_path(
                       target,
                       os.path.relpath(item, self.partition_properties.dir)))
-                 for item in self.partitions(filters=filters)], npartitions))
+                 for item in folders], npartitions)) if folders else ()
         # Copy the selected partitions
         partial = functools.partial(fs_utils.copy_tree,
                                     fs_source=self.fs,
-- 
2.43.0


From f06967e0566c32a92b8bc442c020eba6d32705dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 14/69] fix: report the partitions without consolidated
 metadata as invalid

---
 zcollection/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 99a48a1..a6e1f48 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -468,6 +468,6 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (ValueError, TypeError, RuntimeError):
+    except (KeyError, OSError, TypeError, ValueError, RuntimeError):
         return False
     return True
-- 
2.43.0


From c2436803a04a72763308798a15b099d94a616845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 15/69] fix: refuse to remove invalid partitions in read-only
 mode

---
 zcollection/collection/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index cbc7877..80a8979 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -784,6 +784,8 @@ class Collection(ReadOnlyCollection):
         Returns:
             A list of invalid partitions.
         """
+        if fix and self.is_readonly():
+            raise io.UnsupportedOperation('not writable')
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
-- 
2.43.0


From c5637521f3ecdcb15cbd26f71ceb957e5aebb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 16/69] fix: hold the lock while removing invalid partitions

---
 zcollection/collection/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 80a8979..ee5acca 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -804,7 +804,8 @@ class Collection(ReadOnlyCollection):
                 invalid_partitions.append(partition)
 
         if fix and invalid_partitions:
-            for item in invalid_partitions:
-                _LOGGER.info('Removing invalid partition: %s', item)
-                self.fs.rm(item, recursive=True)
+            with self.synchronizer:
+                for item in invalid_partitions:
+                    _LOGGER.info('Removing invalid partition: %s', item)
+                    self.fs.rm(item, recursive=True)
         return invalid_partitions
-- 
2.43.0


From 1734d493f83cad1fdc2ea96889612b83e905b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 17/69] fix: compare the creation dates of the partitions in
 the same time zone

The local time was compared to the UTC date given by the file system.
---
 zcollection/collection/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee5acca..0b09377 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -443,7 +443,7 @@ class Collection(ReadOnlyCollection):
             >>> collection.drop_partitions(
             ...     timedelta=datetime.timedelta(days=30))
         """
-        now: datetime.datetime = datetime.datetime.now()
+        now: datetime.datetime = datetime.datetime.now(datetime.timezone.utc)
         client: dask.distributed.Client = dask_utils.get_client()
         folders = list(self.partitions(filters=filters, lock=True))
 
@@ -456,8 +456,8 @@ class Collection(ReadOnlyCollection):
             """Return whether the partition was created before the
             timedelta."""
             created: datetime.datetime = self.fs.created(path)
-            if created.tzinfo is not None:
-                created = created.replace(tzinfo=None)
+            if created.tzinfo is None:
+                created = created.replace(tzinfo=datetime.timezone.utc)
             return now - created > timedelta
 
         if timedelta is not None:
-- 
2.43.0


From ad31c440e8412deeb099a8fc4048ec0663a28477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 18/69] fix: report the variables that cannot be concatenated

The error raised for arrays of incompatible shapes was handled as if the
variable did not use the dimension: only the first array was returned.
---
 zcollection/variable/abc.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 01aa236..cfef892 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -79,17 +79,6 @@ def concat(
 
     try:
         axis: int = self.dimensions.index(dim)
-        return new_variable(
-            type(self),
-            name=self.name,
-            array=concatenate((self.array, *(item.array for item in other)),
-                              axis=axis),
-            dimensions=self.dimensions,
-            attrs=self.attrs,
-            compressor=self.compressor,
-            fill_value=self.fill_value,
-            filters=self.filters,
-        )
     except ValueError:
         # If the concatenation dimension is not within the dimensions of the
         # variable, then the original variable is returned (i.e.
@@ -102,6 +91,17 @@ def concat(
                             compressor=self.compressor,
                             fill_value=self.fill_value,
                             filters=self.filters)
+    return new_variable(
+        type(self),
+        name=self.name,
+        array=concatenate((self.array, *(item.array for item in other)),
+                          axis=axis),
+        dimensions=self.dimensions,
+        attrs=self.attrs,
+        compressor=self.compressor,
+        fill_value=self.fill_value,
+        filters=self.filters,
+    )
 
 
 def not_equal(first: Any, second: Any) -> bool:
-- 
2.43.0


From c93ee8babeb12f8cf2872e913e808b543bfd1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 19/69] fix: keep an array in a variable persisted in memory

---
 zcollection/variable/delayed_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index e9da492..14e61be 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -238,7 +238,7 @@ class DelayedArray(Variable):
         Returns:
             The variable
         """
-        self.array = dask.base.persist(self.array, **kwargs)
+        (self.array, ) = dask.base.persist(self.array, **kwargs)
         return self
 
     def compute(self, **kwargs) -> NDArray | NDMaskedArray:
-- 
2.43.0


From 956333a9619d4ba900b8d29b2dda6a9c351512a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 20/69] fix: import the modules used to write a dataset to Zarr

---
 zcollection/dataset.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 5fd2dbc..74969cb 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -774,14 +774,16 @@ class Dataset:
         """
         if not self.delayed:
             raise ValueError('cannot write a non-delayed dataset to Zarr')
-        # pylint: disable=import-outside-toplevel, import-error
+        # pylint: disable=import-outside-toplevel
         # Avoid circular import
-        import storage
-        import sync
-
-        # pylint: enable=import-outside-toplevel, import-error
-        storage.write_zarr_group(self, path, fs or fsspec.filesystem('file'),
-                                 sync.NoSync(), parallel)
+        from . import storage, sync
+
+        # pylint: enable=import-outside-toplevel
+        storage.write_zarr_group(self,
+                                 path,
+                                 fs or fsspec.filesystem('file'),
+                                 sync.NoSync(),
+                                 distributed=parallel)
 
     def __str__(self) -> str:
         return _dataset_repr(self)
-- 
2.43.0


From 29e1a2ea7506862f87343d9a5a7144a8addb63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 21/69] fix: ProcessSync is no longer seen locked after having
 been released

---
 zcollection/sync.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zcollection/sync.py b/zcollection/sync.py
index 74467dc..8637331 100644
--- a/zcollection/sync.py
+++ b/zcollection/sync.py
@@ -70,4 +70,12 @@ class ProcessSync(Sync):
 
     def is_locked(self) -> bool:
         """Returns True if the lock is acquired, False otherwise."""
-        return self.lock.exists()
+        if self.lock.acquired:
+            return True
+        # The lock file is not deleted when the lock is released.
+        if not self.lock.exists():
+            return False
+        if self.lock.acquire(blocking=False):
+            self.lock.release()
+            return False
+        return True
-- 
2.43.0


From 713ea12d0a5beb8aa30a82bb1eb098ce578e10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:33 +0000
Subject: [PATCH 22/69] fix: handle the empty datasets and the collections
 without partitions

Inserting an empty dataset, or updating variables of a collection without
partitions, raised ZeroDivisionError or ValueError.
---
 zcollection/collection/__init__.py | 4 ++++
 zcollection/dask_utils.py          | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 0b09377..6063212 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -400,6 +400,10 @@ class Collection(ReadOnlyCollection):
                 raise ValueError('The number of partitions must be positive')
             npartitions = len(partitions) // npartitions + 1
 
+        # Nothing to insert.
+        if not partitions:
+            return ()
+
         scattered_ds: Any = client.scatter(ds)
         for sequence in dask_utils.split_sequence(partitions, npartitions):
             futures: list[dask.distributed.Future] = [
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index fc8d951..b95b2c8 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -72,6 +72,8 @@ def split_sequence(sequence: Sequence[Any],
     if sections <= 0:
         raise ValueError('The number of sections must be greater than zero.')
     length: int = len(sequence)
+    if length == 0:
+        return
     sections = min(sections, length)
 
     size: int
-- 
2.43.0


From 1dbef12cb878dbc98128798fa973eb6f37bd4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:09 +0000
Subject: [PATCH 23/69] fix: parse the partition keys at the end of the path

---
 zcollection/partitioning/abc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index e0966a8..b22c888 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -266,7 +266,10 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile('.'.join(f'({item})=(.*)' for item in self._keys()))
+        # The scheme is at the end of the path of the partition: the parent
+        # directories may have names similar to those of the partitions.
+        return re.compile('.'.join(f'({item})=(-?[0-9]+)'
+                                   for item in self._keys()) + '$')
 
     @abc.abstractmethod
     def _split(
-- 
2.43.0


From 9b2a331c4ed7c4e199f67c708d56b9714a0912ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 24/69] fix: keep the data types of the keys of a sequence in
 the configuration

---
 zcollection/partitioning/sequence.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zcollection/partitioning/sequence.py b/zcollection/partitioning/sequence.py
index 194c6ea..b72c825 100644
--- a/zcollection/partitioning/sequence.py
+++ b/zcollection/partitioning/sequence.py
@@ -124,6 +124,16 @@ class Sequence(abc.Partitioning):
                 for item, (ix, start) in zip(index, enumerate(indices[:-1])))
         # pylint: enable=arguments-differ
 
+    def get_config(self) -> dict[str, Any]:
+        """Return the configuration of the partitioning scheme.
+
+        Returns:
+            The configuration of the partitioning scheme.
+        """
+        config: dict[str, Any] = super().get_config()
+        config['dtype'] = self._dtype
+        return config
+
     def encode(
         self,
         partition: tuple[tuple[str, int], ...],
-- 
2.43.0


From e3531a8902d90d97734269da804ad8bc9c37ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 25/69] fix: do not modify the list of variables given to
 update

---
 zcollection/collection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 6063212..9fea8d0 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -554,7 +554,7 @@ class Collection(ReadOnlyCollection):
         # If depth is not 0, the variables updated must be in the selected
         # variables.
         if depth != 0 and selected_variables is not None:
-            selected_variables += list(
+            selected_variables = [*selected_variables] + list(
                 set(variables) - set(selected_variables))
 
         _LOGGER.info('Updating of the (%s) variable in the collection',
-- 
2.43.0


From 7255af82079a6ee54ba6515b5ccba8f3e983584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:44 +0000
Subject: [PATCH 26/69] fix: allow to drop a variable before the first
 insertion

---
 zcollection/collection/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 9fea8d0..31709e3 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -619,13 +619,10 @@ class Collection(ReadOnlyCollection):
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-        if self._immutable:
-            zds: dataset.Dataset = storage.open_zarr_group(
-                self._immutable, self.fs)
-            if variable in zds.variables:
-                raise ValueError(
-                    f'The variable {variable!r} is part of the immutable '
-                    'dataset.')
+        if variable in self.metadata.select_variables_by_dims(
+            (self.partition_properties.dim, ), predicate=False):
+            raise ValueError(f'The variable {variable!r} is part of the '
+                             'immutable dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-- 
2.43.0


From 2a08ff5ca993ea92ab57d300d9ffe8399a315302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:44 +0000
Subject: [PATCH 27/69] fix: check that a new variable can be created before
 declaring it

---
 zcollection/collection/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 31709e3..56d6439 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -665,6 +665,10 @@ class Collection(ReadOnlyCollection):
         if self.partition_properties.dim not in variable.dimensions:
             raise ValueError(
                 'The new variable must use the partitioning axis.')
+        # The template is an existing variable: the search must be done before
+        # declaring the new variable.
+        template: meta.Variable = self.metadata.search_same_dimensions_as(
+            variable)
         self.metadata.add_variable(variable)
         self._write_config()
 
@@ -674,8 +678,6 @@ class Collection(ReadOnlyCollection):
 
         client: dask.distributed.Client = dask_utils.get_client()
 
-        template: meta.Variable = self.metadata.search_same_dimensions_as(
-            variable)
         chunks: dict[str, int] = {
             dim.name: dim.value
             for dim in self.metadata.chunks
-- 
2.43.0


From 628f464d532c34ce8c5b289e9569e3cc34295a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 28/69] fix: apply the filters when loading a view with an
 indexer

---
 zcollection/view/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 0290ea6..5c4f376 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -368,7 +368,7 @@ class View:
                     self.view_ref,
                     filters,
                     indexer,
-                    partitions=self.partitions()))
+                    partitions=self.partitions(filters=filters)))
             if len(arguments) == 0:
                 return None
         else:
-- 
2.43.0


From df3d7c4da074dcff810d74af612fb425da5f6436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 29/69] fix: apply the indexer when only the variables of a
 view are loaded

---
 zcollection/view/detail.py | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4892d73..bf4aa2d 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -185,8 +185,26 @@ def _load_one_dataset(
     # If the user has not selected any variables in the reference view. In this
     # case, the dataset is built from all the variables selected in the view.
     if len(zds.dimensions) == 0:
-        return dataset.Dataset(
-            [
+        zds = dataset.Dataset([
+            open_zarr_array(
+                zarr.open(  # type: ignore[arg-type]
+                    fs.get_mapper(join_path(base_dir, partition, variable)),
+                    mode='r',
+                ),
+                variable,
+                delayed=delayed) for variable in variables
+        ],
+                              attrs=zds.attrs,
+                              delayed=delayed)
+    else:
+        # pylint: disable=expression-not-assigned
+        # We use the set notation to evaluate the generator.
+        {
+            zds.add_variable(  # type: ignore[func-returns-value]
+                item.metadata(),
+                item.array,
+            )
+            for item in (
                 open_zarr_array(
                     zarr.open(  # type: ignore[arg-type]
                         fs.get_mapper(join_path(base_dir, partition,
@@ -194,27 +212,9 @@ def _load_one_dataset(
                         mode='r',
                     ),
                     variable,
-                    delayed=delayed) for variable in variables
-            ],
-            attrs=zds.attrs), partition
-
-    # pylint: disable=expression-not-assigned
-    # We use the set notation to evaluate the generator.
-    {
-        zds.add_variable(  # type: ignore[func-returns-value]
-            item.metadata(),
-            item.array,
-        )
-        for item in (
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables)
-    }
-    # pylint: enable=expression-not-assigned
+                    delayed=delayed) for variable in variables)
+        }
+        # pylint: enable=expression-not-assigned
 
     # Apply indexing if needed.
     if len(slices):
-- 
2.43.0


From 04638f3b3359eb7466a4f182f4b826e8ac9d4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 30/69] fix: create the variables of the partitions added when
 syncing a view

---
 zcollection/view/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 5c4f376..c01a9ce 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -782,7 +782,6 @@ class View:
         if filters is not None:
             self.filters = filters
             self._write_config()
-            self._init_partitions(filters)
 
         partitions = tuple(self.view_ref.partitions(relative=True))
         _LOGGER.info('%d partitions to synchronize', len(partitions))
-- 
2.43.0


From 1412bc937a1fa78410a3de3b8b24c437a536911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 31/69] fix: synchronize a view on an empty collection

---
 zcollection/view/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index c01a9ce..eba69b6 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -749,7 +749,7 @@ class View:
         return len(
             tuple(
                 filter(lambda item: item is not None,
-                       unsynchronized_partition))) == 0
+                       unsynchronized_partition or ()))) == 0
 
     def sync(
         self,
@@ -800,5 +800,5 @@ class View:
             dict(self.view_ref.partitioning.parse(
                 item))  # type: ignore[arg-type] # item is filtered
             for item in filter(lambda item: item is not None,
-                               synchronized_partition))
+                               synchronized_partition or ()))
         return lambda item: item in partition_ids
-- 
2.43.0


From 294b88f74e96de1b127b0125fbfe3cbc3728ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 32/69] fix: handle a partition of a view without neighbors

---
 zcollection/view/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index bf4aa2d..08a5614 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -342,7 +342,8 @@ def _select_overlap(
     # Build the dataset for the selected partitions.
     groups: list[dataset.Dataset] = [ds for ds, _ in selected_datasets]
     zds: dataset.Dataset = groups.pop(0)
-    zds = zds.concat(groups, view_ref.partition_properties.dim)
+    if groups:
+        zds = zds.concat(groups, view_ref.partition_properties.dim)
 
     return zds, calculate_slice(selected_datasets)
 
-- 
2.43.0


From 18fd1c6fa190e4433dc5ff7985e2dfa50f3aca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 33/69] fix: keep the declaration of a view consistent when
 adding a variable

---
 zcollection/view/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index eba69b6..b869af1 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -258,9 +258,9 @@ class View:
                 or variable.name in self.metadata.variables):
             raise ValueError(f'Variable {variable.name} already exists')
         client: dask.distributed.Client = dask_utils.get_client()
-        self.metadata.add_variable(variable)
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
+        self.metadata.add_variable(variable)
 
         existing_partitions: set[str] = {
             pathlib.Path(path).relative_to(self.base_dir).as_posix()
@@ -269,6 +269,7 @@ class View:
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
+            self._write_config()
             return
 
         args = filter(lambda item: item[0] in existing_partitions,
@@ -290,6 +291,7 @@ class View:
                                        template=template.name,
                                        variable=variable))
         except Exception:
+            del self.metadata.variables[variable.name]
             storage.execute_transaction(
                 client, self.synchronizer,
                 dask_utils.delayed_map(_drop_zarr_zarr,
-- 
2.43.0


From affef3c52e431cf5e6ea371d6ecb0fb5f85fe594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 34/69] fix: create the missing variables of the partitions
 when syncing a view

---
 zcollection/view/detail.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 08a5614..f521059 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -644,6 +644,14 @@ def _sync(
     array: zarr.Array = _load_checksum_array(partition_view, fs)
     axis_ref: AxisReference = _calculate_axis_reference(
         partition_ref, view_ref)
+    # The variables created while the partition was not in the reference
+    # collection are missing.
+    missing = meta.Dataset(
+        metadata.dimensions,
+        variables=[
+            item for item in metadata.variables.values()
+            if not fs.exists(join_path(partition_view, item.name))
+        ])
     # If the checksums are different, the partition is not synced. So we
     # remove it (information between the partition and the reference are
     # not consistent)
@@ -659,6 +667,7 @@ def _sync(
             # fs_invalid_cache is done by _extend_partition
             if not dry_run:
                 _extend_partition(partition_view, fs, axis_ref)
+                _sync_partition(missing, partition, base_dir, fs, view_ref)
             return partition
         # The partition is not synced, so we remove it.
         if not dry_run:
@@ -666,6 +675,10 @@ def _sync(
             fs.invalidate_cache(partition_view)
             _sync_partition(metadata, partition, base_dir, fs, view_ref)
         return partition
+    if missing.variables:
+        if not dry_run:
+            _sync_partition(missing, partition, base_dir, fs, view_ref)
+        return partition
     return None
 
 
-- 
2.43.0


From 04f29d78cda3703f06e7fe296b504a5b5127eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:03 +0000
Subject: [PATCH 35/69] fix: remove from the index the entries of a partition
 that no longer has any

---
 zcollection/indexing/abc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 22ab1e1..1b25d1e 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -274,6 +274,9 @@ class Indexer(abc.ABC):
         partitions = []
         for partition, data in bag.compute():
             length = data.size
+            # Memoize the updated partitions.
+            partitions.append(tuple(
+                (name, value) for name, value in partition))
             # If the current item is empty, skip it.
             if length == 0:
                 continue
@@ -287,9 +290,6 @@ class Indexer(abc.ABC):
                 (name,
                  pyarrow.nulls(length, type=self._type[name]).fill_null(value))
                 for name, value in partition)
-            # Memoize the updated partitions.
-            partitions.append(tuple(
-                (name, value) for name, value in partition))
             tables.append(pyarrow.Table.from_pydict(data))
 
         # If no new data, skip the update.
-- 
2.43.0


From 20ecaff84ac90b4c93f15f009012c4da27b26224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:03 +0000
Subject: [PATCH 36/69] fix: keep all the rows of nested slices when querying
 an index

---
 zcollection/indexing/abc.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 1b25d1e..241357c 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -376,25 +376,28 @@ class Indexer(abc.ABC):
 
         # Convert columns of the slice definition to numpy arrays.
         start = table[self.START].to_numpy()
-        stop = table[self.STOP].to_numpy()
+        stop = numpy.array(table[self.STOP].to_numpy())
+
+        # Indexes where the values of the columns kept change.
+        groups: Any = [[0], [len(table)]] + [
+            numpy.where(numpy.roll(values, 1) != values)[0]
+            for values in data.values()
+        ]
+        groups = numpy.unique(numpy.concatenate(groups)).astype('int64')
+
+        # A slice may overlap, or even contain, the following ones.
+        for ix0, ix1 in zip(groups[:-1], groups[1:]):
+            stop[ix0:ix1] = numpy.maximum.accumulate(stop[ix0:ix1])
 
         # Calculate the indexes of each contiguous slice.
         # index = [0,     1, ...,   69,    70, ...,   134]
         # start = [817, 823, ..., 2320, 17333, ..., 19337]
         # stop  = [832, 874, ..., 2396, 17420, ..., 19389]
         # chunks = [0, 70, 134]
-        chunks: Any = [[0],
-                       numpy.where(start[1:] - stop[:-1] > 0)[0] + 1,
-                       [len(table)]]
-
-        # Adds the chunks corresponding to the partitioning keys
-        chunks += [
-            numpy.where(numpy.roll(values, 1) != values)[0]
-            for values in data.values()
-        ]
+        chunks: Any = numpy.where(start[1:] - stop[:-1] > 0)[0] + 1
 
         # Finally, we build the list of indexes of the different chunks found.
-        chunks = numpy.unique(numpy.concatenate(chunks))
+        chunks = numpy.unique(numpy.concatenate([chunks, groups]))
 
         return (  # force yapf to respect the line break for flake8
             (tuple((name, data[name][ix0])
-- 
2.43.0


From ea5fa8ae6758183d85785da6290619aea2633475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:39 +0000
Subject: [PATCH 37/69] fix: do not modify a dataset if the merge is refused

---
 zcollection/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 74969cb..c0aee51 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -699,13 +699,10 @@ class Dataset:
         if self.delayed != other.delayed:
             raise ValueError('cannot merge delayed and non-delayed data')
 
-        # Merge the variables
-        for name, var in other.variables.items():
-
-            # It's impossible to merge a variable with itself.
+        # It's impossible to merge a variable with itself.
+        for name in other.variables:
             if name in self.variables:
                 raise ValueError(f'variable {name} already exists')
-            self.variables[name] = var
 
         # If the dataset has common dimensions, they must be identical.
         same_dims: set[str] = set(self.dimensions) & set(other.dimensions)
@@ -713,6 +710,9 @@ class Dataset:
                                  for dim in same_dims):
             raise ValueError(f'dimensions {same_dims} are not identical')
 
+        # Merge the variables
+        self.variables.update(other.variables)
+
         # Merge the dimensions.
         self.dimensions.update(other.dimensions)
 
-- 
2.43.0


From ae2fd3aee0d9547543242e4e6f1e374bb5dc2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:39 +0000
Subject: [PATCH 38/69] fix: keep the variables that do not use the dimension
 of the deleted data

---
 zcollection/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index c0aee51..08a0fcb 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -148,7 +148,8 @@ def _delete_delayed_vars(self: Dataset, indexer: slice | Sequence[int],
         _duplicate_delayed_array(
             var,  # type: ignore[arg-type]
             dask.array.routines.delete(var.array, indexer,
-                                       var.dimensions.index(axis)))
+                                       var.dimensions.index(axis))
+            if axis in var.dimensions else var.array)
         for var in self.variables.values()
     ]
 
@@ -159,7 +160,8 @@ def _delete_vars(self: Dataset, indexer: slice | Sequence[int],
     return [
         _duplicate_array(
             var,  # type: ignore[arg-type]
-            numpy.delete(var.array, indexer, var.dimensions.index(axis)))
+            numpy.delete(var.array, indexer, var.dimensions.index(axis))
+            if axis in var.dimensions else var.array)
         for var in self.variables.values()
     ]
 
@@ -567,6 +569,8 @@ class Dataset:
         Returns:
             New dataset.
         """
+        if axis not in self.dimensions:
+            raise ValueError(f'axis {axis!r} is not a dimension')
         variables: list[Variable] = _delete_delayed_vars(
             self, indexer, axis) if self.delayed else _delete_vars(
                 self, indexer, axis)
-- 
2.43.0


From 08fa1485a5f7f4cde6d57acfa47f5308eef51f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:46 +0000
Subject: [PATCH 39/69] fix: refuse to update variables unknown to the
 collection

---
 zcollection/collection/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 56d6439..3a33253 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -545,6 +545,11 @@ class Collection(ReadOnlyCollection):
         variables = variables or _infer_callable(
             self, func, filters, delayed, selected_variables, *args, **kwargs)
 
+        unknown_variables: set[str] = set(variables) - set(
+            self.metadata.variables.keys())
+        if unknown_variables:
+            raise ValueError(f'Unknown variables: {unknown_variables}')
+
         if not variables:
             warnings.warn('You are trying to update an empty collection.',
                           category=RuntimeWarning,
-- 
2.43.0


From 3f1e8d7a770704040d954f08b95e1644e43f74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:38 +0000
Subject: [PATCH 40/69] fix: do not store the immutable variables of a refused
 dataset

---
 zcollection/collection/__init__.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 3a33253..b8c1de4 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -374,19 +374,9 @@ class Collection(ReadOnlyCollection):
         ds = ds.set_for_insertion(self.metadata)
         client: dask.distributed.Client = dask_utils.get_client()
 
-        # If the dataset contains variables that should not be partitioned.
+        # Remove the variables that should not be partitioned.
+        full_ds: dataset.Dataset = ds
         if self._immutable is not None:
-
-            # On the first call, we store the immutable variables in
-            # a directory located at the root of the collection. The metadata
-            # are the last item written by a successful call.
-            if not self.fs.exists(
-                    fs_utils.join_path(self._immutable, '.zmetadata')):
-                _write_immutable_dataset(ds, self.partition_properties.dim,
-                                         self._immutable, self.fs,
-                                         self.synchronizer)
-
-            # Remove the variables that should not be partitioned.
             ds = ds.select_variables_by_dims(
                 (self.partition_properties.dim, ))
 
@@ -404,6 +394,16 @@ class Collection(ReadOnlyCollection):
         if not partitions:
             return ()
 
+        # If the dataset contains variables that should not be partitioned, on
+        # the first call, we store the immutable variables in a directory
+        # located at the root of the collection. The metadata are the last item
+        # written by a successful call.
+        if self._immutable is not None and not self.fs.exists(
+                fs_utils.join_path(self._immutable, '.zmetadata')):
+            _write_immutable_dataset(full_ds, self.partition_properties.dim,
+                                     self._immutable, self.fs,
+                                     self.synchronizer)
+
         scattered_ds: Any = client.scatter(ds)
         for sequence in dask_utils.split_sequence(partitions, npartitions):
             futures: list[dask.distributed.Future] = [
-- 
2.43.0


From 15f7ed82003d3bbe4931fae7a57da6537af84eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:04 +0000
Subject: [PATCH 41/69] fix: split empty delayed datasets

---
 zcollection/partitioning/abc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index b22c888..cf2c434 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -90,6 +90,8 @@ def unique(arr: dask.array.core.Array) -> tuple[NDArray, NDArray]:
         Tuple of unique elements and their indices.
     """
     size: int = arr.shape[0]
+    if size == 0:
+        return arr.compute(), numpy.empty((0, ), dtype=numpy.uint32)
     chunks: tuple[int, ...] = arr.chunks[0]
     #: pylint: disable=not-callable
     mask: dask.array.core.Array = dask.array.wrap.empty((size, ),
-- 
2.43.0


From a7693eeff58d4927b6bd863791aff6e031596141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:45 +0000
Subject: [PATCH 42/69] fix: report as invalid the partitions whose
 decompression fails

---
 zcollection/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index a6e1f48..76534bb 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -468,6 +468,7 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (KeyError, OSError, TypeError, ValueError, RuntimeError):
+    # Each codec raises its own exceptions (zlib.error, lzma.LZMAError, etc.)
+    except Exception:  # pylint: disable=broad-except
         return False
     return True
-- 
2.43.0


From df5d2135ad0c196f9d306fecacf81ae45a789cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:46 +0000
Subject: [PATCH 43/69] fix: drop a variable from all the partitions of a view

---
 zcollection/view/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index b869af1..cf2d9b3 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -328,10 +328,15 @@ class View:
         variable: meta.Variable = self.metadata.variables.pop(varname)
         self._write_config()
 
+        # The partitions of the view that are no longer in the reference
+        # collection may return there: the variable is also removed from them.
+        partitions = filter(
+            lambda item: self.fs.exists(fs_utils.join_path(item, varname)),
+            self.view_ref.partitioning.list_partitions(self.fs, self.base_dir))
         storage.execute_transaction(
             client, self.synchronizer,
             dask_utils.delayed_map(_drop_zarr_zarr,
-                                   self.partitions(),
+                                   partitions,
                                    fs=self.fs,
                                    variable=variable.name))
 
-- 
2.43.0


From c3ab238bc862da251261040b3d4ca634b4e90298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:52 +0000
Subject: [PATCH 44/69] fix: load variables of a view having more dimensions
 than the selected ones

---
 zcollection/view/detail.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index f521059..6369cde 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -182,29 +182,13 @@ def _load_one_dataset(
     if zds is None:
         return None
 
-    # If the user has not selected any variables in the reference view. In this
-    # case, the dataset is built from all the variables selected in the view.
-    if len(zds.dimensions) == 0:
-        zds = dataset.Dataset([
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables
-        ],
-                              attrs=zds.attrs,
-                              delayed=delayed)
-    else:
-        # pylint: disable=expression-not-assigned
-        # We use the set notation to evaluate the generator.
-        {
-            zds.add_variable(  # type: ignore[func-returns-value]
-                item.metadata(),
-                item.array,
-            )
-            for item in (
+    # The dataset is built from the variables selected in the reference and in
+    # the view. The user may have selected no variable in the reference, or none
+    # using all the dimensions of the variables of the view.
+    zds = dataset.Dataset(
+        [
+            *zds.variables.values(),
+            *(
                 open_zarr_array(
                     zarr.open(  # type: ignore[arg-type]
                         fs.get_mapper(join_path(base_dir, partition,
@@ -213,8 +197,9 @@ def _load_one_dataset(
                     ),
                     variable,
                     delayed=delayed) for variable in variables)
-        }
-        # pylint: enable=expression-not-assigned
+        ],
+        attrs=zds.attrs,
+        delayed=delayed)
 
     # Apply indexing if needed.
     if len(slices):
-- 
2.43.0


From 006bfed9102c8298f607a0f29485dfe28ab9726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:51 +0000
Subject: [PATCH 45/69] fix: query an index for a single value of type bytes

---
 zcollection/indexing/abc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 241357c..0adb51c 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -438,9 +438,10 @@ class Indexer(abc.ABC):
             raise ValueError(
                 f'Invalid column names: {", ".join(columns.keys())}')
 
-        # Transform the columns values into a list if they are not iterable.
+        # Transform the columns values into a list if they are scalars. The
+        # bytes are scalars, although they are iterable.
         values = {
-            k: [v] if not isinstance(v, Iterable) else v
+            k: [v] if isinstance(v, bytes) or not isinstance(v, Iterable) else v
             for k, v in columns.items()
         }
 
-- 
2.43.0


From faa36d26bad51e6ce0a6a62078f74c960b92a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:47 +0000
Subject: [PATCH 46/69] fix: put back a partition whose replacement was
 interrupted before inserting into it

---
 zcollection/collection/detail.py |  1 +
 zcollection/merging/__init__.py  | 41 +++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 9281164..fa95524 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -411,6 +411,7 @@ def _insert(
 
     partition, indexer = args
     dirname: str = join_path(*((partitioning_properties.dir, ) + partition))
+    merging.recover(dirname, fs)
 
     # If the consolidated zarr metadata does not exist, we consider the
     # partition as empty.
diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 0080bb6..ad9ffce 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -22,7 +22,10 @@ from zcollection import fs_utils
 from .. import dataset, storage, sync
 from .time_series import merge_time_series
 
-__all__ = ('MergeCallable', 'perform', 'merge_time_series')
+__all__ = ('MergeCallable', 'perform', 'merge_time_series', 'recover')
+
+#: Suffix of the directory keeping the data of a partition being replaced.
+BACKUP_SUFFIX = '.old'
 
 
 #: pylint: disable=too-few-public-methods,duplicate-code
@@ -81,7 +84,7 @@ def _rename(
         # directory. This is not efficient. So we use the shutil
         # implementation to rename the directory. The existing directory is
         # only deleted once it has been replaced.
-        backup: str = source + '.old'
+        backup: str = source + BACKUP_SUFFIX
         shutil.rmtree(backup, ignore_errors=True)
         if os.path.exists(dest):
             os.rename(dest, backup)
@@ -107,6 +110,32 @@ def _extract_root_dirname(dirname: str, sep: str) -> str:
     return sep.join(parts)
 
 
+def _temporary_dirname(dirname: str, sep: str) -> str:
+    """Returns the directory storing the new data of a partition: the hash of
+    the partition name, hidden to not be listed as a partition."""
+    return fs_utils.join_path(
+        _extract_root_dirname(dirname, sep),
+        '.' + hashlib.sha256(dirname.encode()).hexdigest())
+
+
+def recover(dirname: str, fs: fsspec.AbstractFileSystem) -> None:
+    """Puts back a partition whose replacement was interrupted after moving the
+    existing data away.
+
+    Args:
+        dirname: The name of the partition.
+        fs: The file system that the partition is stored on.
+    """
+    if not isinstance(fs, fsspec.implementations.local.LocalFileSystem):
+        return
+    temp: str = _temporary_dirname(dirname, fs.sep)
+    backup: str = temp + BACKUP_SUFFIX
+    if not os.path.exists(dirname) and all(
+            os.path.exists(os.path.join(item, '.zmetadata'))
+            for item in (temp, backup)):
+        os.rename(backup, dirname)
+
+
 def _update_fs(
     dirname: str,
     zds: dataset.Dataset,
@@ -122,12 +151,8 @@ def _update_fs(
         fs: The file system that the partition is stored on.
         synchronizer: The instance handling access to critical resources.
     """
-    # Building a temporary directory to store the new data. The name of the
-    # temporary directory is the hash of the partition name, hidden to not be
-    # listed as a partition.
-    temp: str = fs_utils.join_path(
-        _extract_root_dirname(dirname, fs.sep),
-        '.' + hashlib.sha256(dirname.encode()).hexdigest())
+    # Building a temporary directory to store the new data.
+    temp: str = _temporary_dirname(dirname, fs.sep)
     if fs.exists(temp):
         fs.rm(temp, recursive=True)
 
-- 
2.43.0


From c8c29e518e6c01f4e413c1346d891c7e0240cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:48 +0000
Subject: [PATCH 47/69] fix: do not reuse the results of earlier tasks that
 read or write files

---
 zcollection/collection/__init__.py | 5 +++--
 zcollection/storage.py             | 1 +
 zcollection/view/__init__.py       | 3 ++-
 zcollection/view/detail.py         | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index b8c1de4..91c11a7 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -763,7 +763,7 @@ class Collection(ReadOnlyCollection):
             """Function call on each worker to copy the partitions."""
             tuple(map(lambda arg: partial(*arg), args))
 
-        client.gather(client.map(worker_task, args))
+        client.gather(client.map(worker_task, args, pure=False))
         # Then the remaining files in the root directory (config, metadata,
         # etc.)
         fs_utils.copy_files([
@@ -802,7 +802,8 @@ class Collection(ReadOnlyCollection):
             _check_partition,
             partitions,
             fs=self.fs,
-            partitioning_strategy=self.partitioning)
+            partitioning_strategy=self.partitioning,
+            pure=False)
         invalid_partitions: list[str] = []
         for item in dask.distributed.as_completed(futures):
             partition, valid = item.result()  # type: ignore
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 76534bb..ddd27f4 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -261,6 +261,7 @@ def write_zarr_group(
                     chunks=zds.chunks,
                     dirname=dirname,
                     fs=fs,
+                    pure=False,
                 )
                 execute_transaction(
                     client,
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index cf2d9b3..797bf78 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -392,7 +392,8 @@ class View:
             selected_variables=self.view_ref.metadata.select_variables(
                 selected_variables),
             view_ref=client.scatter(self.view_ref),
-            variables=self.metadata.select_variables(selected_variables))
+            variables=self.metadata.select_variables(selected_variables),
+            pure=False)
 
         # The load function returns the path to the partitions and the loaded
         # datasets. Only the loaded datasets are retrieved here and filter None
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 6369cde..5ecface 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -265,7 +265,8 @@ def _load_datasets_list(
         selected_variables=view_ref.metadata.select_variables(
             keep_variables=selected_variables),
         view_ref=client.scatter(view_ref),
-        variables=metadata.select_variables(selected_variables))
+        variables=metadata.select_variables(selected_variables),
+        pure=False)
 
     return filter(lambda item: item is not None,
                   client.gather(futures))  # type: ignore[arg-type]
-- 
2.43.0


From 1a89e87d959223fab3854d9113f79f049f1398f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:43 +0000
Subject: [PATCH 48/69] fix: rewrite the groups whose consolidated metadata is
 empty

---
 zcollection/collection/__init__.py |  4 ++--
 zcollection/collection/detail.py   |  9 +++++++--
 zcollection/merging/__init__.py    |  3 +--
 zcollection/storage.py             | 15 +++++++++++++++
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 91c11a7..c94b1d9 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -398,8 +398,8 @@ class Collection(ReadOnlyCollection):
         # the first call, we store the immutable variables in a directory
         # located at the root of the collection. The metadata are the last item
         # written by a successful call.
-        if self._immutable is not None and not self.fs.exists(
-                fs_utils.join_path(self._immutable, '.zmetadata')):
+        if self._immutable is not None and not storage.is_complete(
+                self._immutable, self.fs):
             _write_immutable_dataset(full_ds, self.partition_properties.dim,
                                      self._immutable, self.fs,
                                      self.synchronizer)
diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index fa95524..271a7b8 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -21,7 +21,12 @@ import zarr.storage
 
 from .. import dataset, merging, partitioning, sync
 from ..fs_utils import join_path
-from ..storage import open_zarr_group, update_zarr_array, write_zarr_group
+from ..storage import (
+    is_complete,
+    open_zarr_group,
+    update_zarr_array,
+    write_zarr_group,
+)
 from ..type_hints import ArrayLike
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 
@@ -415,7 +420,7 @@ def _insert(
 
     # If the consolidated zarr metadata does not exist, we consider the
     # partition as empty.
-    if fs.exists(join_path(dirname, '.zmetadata')):
+    if is_complete(dirname, fs):
         # The current partition already exists, so we need to merge
         # the dataset.
         merging.perform(zds.isel(indexer),
diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index ad9ffce..72bf92e 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -131,8 +131,7 @@ def recover(dirname: str, fs: fsspec.AbstractFileSystem) -> None:
     temp: str = _temporary_dirname(dirname, fs.sep)
     backup: str = temp + BACKUP_SUFFIX
     if not os.path.exists(dirname) and all(
-            os.path.exists(os.path.join(item, '.zmetadata'))
-            for item in (temp, backup)):
+            storage.is_complete(item, fs) for item in (temp, backup)):
         os.rename(backup, dirname)
 
 
diff --git a/zcollection/storage.py b/zcollection/storage.py
index ddd27f4..04a6222 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -219,6 +219,21 @@ def _write_meta(
     fs.invalidate_cache(dirname)
 
 
+def is_complete(dirname: str, fs: fsspec.AbstractFileSystem) -> bool:
+    """Returns whether a Zarr group was written to the end: its consolidated
+    metadata, written last, exist and are not empty.
+
+    Args:
+        dirname: The name of the group.
+        fs: The file system that the group is stored on.
+
+    Returns:
+        True if the group is complete.
+    """
+    path: str = join_path(dirname, '.zmetadata')
+    return fs.exists(path) and fs.size(path) != 0
+
+
 def write_zarr_group(
     zds: dataset.Dataset,
     dirname: str,
-- 
2.43.0


From f0494939ad32a465356f536ec2ef6abf5ec24a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:32 +0000
Subject: [PATCH 49/69] fix: do not consolidate the metadata of a group whose
 writing failed

---
 zcollection/storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 04a6222..4610716 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -188,8 +188,11 @@ def write_zarr_variable(
         write_zattrs(dirname, variable, fs)
     except Exception:
         # If an exception is thrown, we delete the variable from the Zarr
-        # dataset.
-        del_zarr_array(dirname, name, fs)
+        # dataset. The metadata of the group, which is incomplete, are not
+        # consolidated.
+        path: str = join_path(dirname, name)
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
         raise
 
 
-- 
2.43.0


From 2e1b687e53ef6ed48493913d0e9a10261f6fb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:24 +0000
Subject: [PATCH 50/69] fix: a failure writing the configuration of a
 collection or a view leaves the declaration as before

---
 zcollection/collection/__init__.py | 14 +++++++++-----
 zcollection/fs_utils.py            | 22 ++++++++++++++++++++++
 zcollection/view/__init__.py       |  8 ++++----
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index c94b1d9..5575f50 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -244,8 +244,7 @@ class Collection(ReadOnlyCollection):
             'partitioning': self.partitioning.get_config(),
         }
 
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+        fs_utils.write_text(self.fs, config, json.dumps(params, indent=4))
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
@@ -634,8 +633,13 @@ class Collection(ReadOnlyCollection):
             dask_utils.delayed_map(storage.del_zarr_array,
                                    self.partitions(lock=True), variable,
                                    self.fs))
-        del self.metadata.variables[variable]
-        self._write_config()
+        removed: meta.Variable = self.metadata.variables.pop(variable)
+        try:
+            self._write_config()
+        except Exception:
+            # The variable is still declared: its removal can be repeated.
+            self.metadata.variables[variable] = removed
+            raise
 
     def add_variable(
         self,
@@ -675,7 +679,6 @@ class Collection(ReadOnlyCollection):
         template: meta.Variable = self.metadata.search_same_dimensions_as(
             variable)
         self.metadata.add_variable(variable)
-        self._write_config()
 
         # Remove the attribute from the variable. The attribute will be added
         # from the collection metadata.
@@ -688,6 +691,7 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
+            self._write_config()
             storage.execute_transaction(
                 client, self.synchronizer,
                 dask_utils.delayed_map(storage.add_zarr_array,
diff --git a/zcollection/fs_utils.py b/zcollection/fs_utils.py
index 4728300..dc071b3 100644
--- a/zcollection/fs_utils.py
+++ b/zcollection/fs_utils.py
@@ -12,6 +12,7 @@ from typing import Any, Iterator, Sequence
 import os
 
 import fsspec
+import fsspec.implementations.local
 
 #: Path separator
 SEPARATOR = '/'
@@ -22,6 +23,27 @@ def join_path(*args: str) -> str:
     return SEPARATOR.join(args)
 
 
+def is_local(fs: fsspec.AbstractFileSystem) -> bool:
+    """Return True if the files are stored on a local file system."""
+    return isinstance(fs, fsspec.implementations.local.LocalFileSystem)
+
+
+def write_text(fs: fsspec.AbstractFileSystem, path: str, text: str) -> None:
+    """Replace the content of a file. On a local file system, an error leaves
+    the existing file unchanged.
+
+    Args:
+        fs: file system object
+        path: path to the file
+        text: new content of the file
+    """
+    target: str = f'{path}.tmp' if is_local(fs) else path
+    with fs.open(target, mode='w') as stream:
+        stream.write(text)  # type: ignore[arg-type]
+    if target != path:
+        os.replace(target, path)
+
+
 def normalize_path(fs: fsspec.AbstractFileSystem, path: str) -> str:
     """Normalize the path.
 
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 797bf78..5503a50 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -140,8 +140,9 @@ class View:
         """Write the configuration file for the view."""
         config: str = self._config(self.base_dir)
         fs: dict[str, Any] = json.loads(self.view_ref.fs.to_json())
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(
+        fs_utils.write_text(
+            self.fs, config,
+            json.dumps(
                 {
                     'base_dir': self.base_dir,
                     'filters': _serialize_filters(self.filters),
@@ -151,8 +152,7 @@ class View:
                         'fs': fs,
                     },
                 },
-                stream,  # type: ignore[arg-type]
-                indent=4)
+                indent=4))
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From a2bfb2df8f7b18058be3eabdb63396b0e7f79d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:22 +0000
Subject: [PATCH 51/69] fix: a failure consolidating the metadata of a
 partition leaves it readable and can be repeated

---
 zcollection/storage.py | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 4610716..b31a546 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -12,6 +12,7 @@ from typing import Any, Iterable, Sequence
 import collections
 import json
 import logging
+import os
 
 import dask.array.core
 import dask.base
@@ -25,7 +26,7 @@ import numpy
 import zarr
 
 from . import dataset, meta, sync
-from .fs_utils import join_path
+from .fs_utils import is_local, join_path
 from .type_hints import ArrayLike, NDArray
 
 #: Name of the attribute storing the names of the dimensions of an array.
@@ -37,6 +38,9 @@ ZATTRS = '.zattrs'
 #: Configuration file that describes the attributes of a group.
 ZGROUP = '.zgroup'
 
+#: Name of the file containing the consolidated metadata.
+ZMETADATA = '.zmetadata'
+
 #: Module logger.
 _LOGGER: logging.Logger = logging.getLogger(__name__)
 
@@ -196,6 +200,25 @@ def write_zarr_variable(
         raise
 
 
+def _consolidate_metadata(
+    dirname: str,
+    fs: fsspec.AbstractFileSystem,
+) -> None:
+    """Consolidate the metadata of a Zarr group. On a local file system, an
+    error leaves the existing metadata unchanged.
+
+    Args:
+        dirname: The storage directory of the Zarr group.
+        fs: The file system on which the Zarr group is stored.
+    """
+    key: str = f'{ZMETADATA}.tmp' if is_local(fs) else ZMETADATA
+    zarr.consolidate_metadata(
+        fs.get_mapper(dirname),  # type: ignore[arg-type]
+        metadata_key=key)
+    if key != ZMETADATA:
+        os.replace(join_path(dirname, key), join_path(dirname, ZMETADATA))
+
+
 def _write_meta(
     zds: dataset.Dataset,
     dirname: str,
@@ -218,7 +241,7 @@ def _write_meta(
             stream,  # type: ignore[arg-type]
             indent=2,
         )
-    zarr.consolidate_metadata(fs.get_mapper(dirname))  # type: ignore[arg-type]
+    _consolidate_metadata(dirname, fs)
     fs.invalidate_cache(dirname)
 
 
@@ -233,7 +256,7 @@ def is_complete(dirname: str, fs: fsspec.AbstractFileSystem) -> bool:
     Returns:
         True if the group is complete.
     """
-    path: str = join_path(dirname, '.zmetadata')
+    path: str = join_path(dirname, ZMETADATA)
     return fs.exists(path) and fs.size(path) != 0
 
 
@@ -412,11 +435,11 @@ def del_zarr_array(
     path: str = join_path(dirname, name)
     if fs.exists(path):
         fs.rm(path, recursive=True)
-        zarr.consolidate_metadata(
-            fs.get_mapper(dirname),  # type: ignore[arg-type]
-        )
-        # Invalidate any cached directory information.
-        fs.invalidate_cache(dirname)
+    # The metadata are consolidated even if the variable has already been
+    # deleted, by a call interrupted before doing it.
+    _consolidate_metadata(dirname, fs)
+    # Invalidate any cached directory information.
+    fs.invalidate_cache(dirname)
 
 
 def add_zarr_array(
@@ -463,7 +486,7 @@ def add_zarr_array(
         store=store,
         filters=variable.filters)
     write_zattrs(dirname, variable, fs)
-    zarr.consolidate_metadata(fs.get_mapper(dirname))  # type: ignore[arg-type]
+    _consolidate_metadata(dirname, fs)
 
 
 def check_zarr_group(
-- 
2.43.0


From fb1fab5b8c16a07ad54b6caf367abd8670fe5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 52/69] fix: the data sent to the workers is not shared with an
 earlier call sending the same values

---
 zcollection/collection/__init__.py | 2 +-
 zcollection/storage.py             | 2 +-
 zcollection/view/__init__.py       | 2 +-
 zcollection/view/detail.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 5575f50..070acf0 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -403,7 +403,7 @@ class Collection(ReadOnlyCollection):
                                      self._immutable, self.fs,
                                      self.synchronizer)
 
-        scattered_ds: Any = client.scatter(ds)
+        scattered_ds: Any = client.scatter(ds, hash=False)
         for sequence in dask_utils.split_sequence(partitions, npartitions):
             futures: list[dask.distributed.Future] = [
                 dask_utils.simple_delayed('insert', _insert)(
diff --git a/zcollection/storage.py b/zcollection/storage.py
index b31a546..d137dbb 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -292,7 +292,7 @@ def write_zarr_group(
         if distributed:
             with dask.distributed.worker_client() as client:
                 iterables: list[tuple[str, Any]] = [
-                    (name, client.scatter(variable))
+                    (name, client.scatter(variable, hash=False))
                     for name, variable in zds.variables.items()
                 ]
                 futures: list[dask.distributed.Future] = client.map(
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 5503a50..82c61bb 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -391,7 +391,7 @@ class View:
             fs=self.fs,
             selected_variables=self.view_ref.metadata.select_variables(
                 selected_variables),
-            view_ref=client.scatter(self.view_ref),
+            view_ref=client.scatter(self.view_ref, hash=False),
             variables=self.metadata.select_variables(selected_variables),
             pure=False)
 
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 5ecface..3d0a3f2 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -264,7 +264,7 @@ def _load_datasets_list(
         fs=fs,
         selected_variables=view_ref.metadata.select_variables(
             keep_variables=selected_variables),
-        view_ref=client.scatter(view_ref),
+        view_ref=client.scatter(view_ref, hash=False),
         variables=metadata.select_variables(selected_variables),
         pure=False)
 
-- 
2.43.0


From 4090fdbde64834c21847e76c6164174e67df645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:12 +0000
Subject: [PATCH 53/69] fix: parse the keys of the partitions whose variables
 have special characters in their names

---
 zcollection/partitioning/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index cf2c434..4355e98 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -270,7 +270,7 @@ class Partitioning(metaclass=abc.ABCMeta):
         """Return a regular expression that matches the partitioning scheme."""
         # The scheme is at the end of the path of the partition: the parent
         # directories may have names similar to those of the partitions.
-        return re.compile('.'.join(f'({item})=(-?[0-9]+)'
+        return re.compile('.'.join(f'({re.escape(item)})=(-?[0-9]+)'
                                    for item in self._keys()) + '$')
 
     @abc.abstractmethod
-- 
2.43.0


From d486f831a4bba53e5233be44ae9a6255f0fe82b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:12 +0000
Subject: [PATCH 54/69] fix: refuse to drop the axis of a collection

---
 zcollection/collection/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 070acf0..e830787 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -607,8 +607,8 @@ class Collection(ReadOnlyCollection):
             variable: The variable to delete.
 
         Raises:
-            ValueError: If the variable doesn't exist in the collection or is
-                used by the partitioning.
+            ValueError: If the variable doesn't exist in the collection, is
+                used by the partitioning or is the axis of the collection.
 
         Example:
             >>> import zcollection
@@ -620,6 +620,9 @@ class Collection(ReadOnlyCollection):
         if variable in self.partitioning.variables:
             raise ValueError(
                 f'The variable {variable!r} is part of the partitioning.')
+        if variable == self.axis:
+            raise ValueError(
+                f'The variable {variable!r} is the axis of the collection.')
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-- 
2.43.0


From a933b6df0101fdacbe82222bdd5efbe5ae919e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:56 +0000
Subject: [PATCH 55/69] fix: add a variable to a collection whose chunk sizes
 are determined by Dask

---
 zcollection/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index d137dbb..60a9b1f 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -475,6 +475,11 @@ def add_zarr_array(
     var_chunks: tuple[int | str, ...] = shape if chunks is None else tuple(
         chunks.get(dim, shape[ix])  # type: ignore[misc]
         for ix, dim in enumerate(variable.dimensions))
+    if any(isinstance(item, str) for item in var_chunks):
+        # Zarr does not handle the sizes known to Dask, such as "auto".
+        var_chunks = tuple(item[0]
+                           for item in dask.array.core.normalize_chunks(
+                               var_chunks, shape=shape, dtype=variable.dtype))
 
     store: fsspec.FSMap = fs.get_mapper(join_path(dirname, variable.name))
     zarr.create(
-- 
2.43.0


From af10d47988692946549ca9064bbb04328d77aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:37 +0000
Subject: [PATCH 56/69] fix: rechunking a compressed array keeps its fill value

---
 zcollection/compressed_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 109247b..1523374 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -175,12 +175,14 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The rechunked array.
         """
-        return CompressedArray(
+        result = CompressedArray(
             zarr.array(self._array,
                        chunks=chunks,
                        compressor=self.compressor,
                        fill_value=self.fill_value,
                        filters=self.filters))
+        result._fill_value = self._fill_value
+        return result
 
     def __array__(self, dtype=None) -> Array:
         """Return a numpy.ndarray of the array.
-- 
2.43.0


From 5be1dc8842d737b71d820a9829464924f0929605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 57/69] fix: refuse a variable whose data has more dimensions
 than declared

---
 zcollection/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 08a0fcb..e4831c8 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -176,6 +176,9 @@ def _update_dimensions(self: Dataset,
             raise ValueError(
                 'the dataset contains both delayed and non-delayed '
                 'variables')
+        if len(var.array.shape) > len(var.dimensions):
+            raise ValueError(f'variable {var.name} has more dimensions than '
+                             f'declared: {var.dimensions}')
         try:
             for idx, dim in enumerate(var.dimensions):
                 if dim not in self.dimensions:
-- 
2.43.0


From 1f4b9e7e310f7afb7408afe9585da072a5d1b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 58/69] fix: a refused renaming or removal of variables leaves
 the dataset unmodified

---
 zcollection/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index e4831c8..15a2915 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -369,10 +369,12 @@ class Dataset:
         Raises:
             ValueError: If the new names conflict with existing names
         """
+        variables = self.variables.copy()
         for old, new in names.items():
-            if new in self.variables:
+            if new in variables:
                 raise ValueError(f'{new} already exists in the dataset')
-            self.variables[new] = self.variables.pop(old).rename(new)
+            variables[new] = variables.pop(old).rename(new)
+        self.variables = variables
 
     def drops_vars(self, names: str | Sequence[str]) -> None:
         """Drop variables from the dataset.
@@ -382,7 +384,9 @@ class Dataset:
         """
         if isinstance(names, str) or not isinstance(names, Iterable):
             names = [names]
-        tuple(map(self.variables.pop, names))
+        variables = self.variables.copy()
+        tuple(map(variables.pop, names))
+        self.variables = variables
 
     def select_vars(self, names: str | Sequence[str]) -> Dataset:
         """Return a new dataset containing only the selected variables.
-- 
2.43.0


From bc12acf04cb21eeb7ab350726e035532712f5b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 59/69] fix: an empty selection of variables of a non-delayed
 dataset is not delayed

---
 zcollection/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 15a2915..44dd569 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -402,7 +402,8 @@ class Dataset:
         return Dataset((self.variables[name] for name in names),
                        attrs=self.attrs,
                        block_size_limit=self.block_size_limit,
-                       chunks=self.dims_chunk)
+                       chunks=self.dims_chunk,
+                       delayed=self.delayed)
 
     def metadata(self) -> meta.Dataset:
         """Get the dataset metadata.
@@ -639,7 +640,8 @@ class Dataset:
         return Dataset(variables=variables,
                        attrs=self.attrs,
                        chunks=self.dims_chunk,
-                       block_size_limit=self.block_size_limit)
+                       block_size_limit=self.block_size_limit,
+                       delayed=self.delayed)
 
     def persist(
         self,
@@ -770,7 +772,8 @@ class Dataset:
         return Dataset(variables=variables,
                        attrs=self.attrs,
                        chunks=self.dims_chunk,
-                       block_size_limit=self.block_size_limit)
+                       block_size_limit=self.block_size_limit,
+                       delayed=self.delayed)
 
     def to_zarr(self,
                 path: str,
-- 
2.43.0


From 727eb02804a8325e3138ed8356442ee484e76f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 60/69] fix: refuse to add a variable whose data does not have
 its dimensions

---
 zcollection/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 44dd569..3925b6a 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -344,6 +344,10 @@ class Dataset:
                 dtype=var.dtype) if self.delayed else numpy.full(
                     shape, var.fill_value, dtype=var.dtype)
         else:
+            if len(data.shape) != len(var.dimensions):
+                raise ValueError(
+                    f'variable {var.name} has dimensions {var.dimensions} '
+                    f'but its data has shape {data.shape}')
             for dim, size in zip(var.dimensions, data.shape):
                 if size != self.dimensions[dim]:
                     raise ValueError(
-- 
2.43.0


From 92a3c21836c8d710fbcd0e92bdad73323c922b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 61/69] fix: refuse to concatenate variables whose dimensions
 differ

---
 zcollection/variable/abc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index cfef892..f79f8ca 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -91,6 +91,11 @@ def concat(
                             compressor=self.compressor,
                             fill_value=self.fill_value,
                             filters=self.filters)
+    if not all(
+            tuple(item.dimensions) == tuple(self.dimensions)
+            for item in other):
+        raise ValueError(f'the variables {self.name} to concatenate do not '
+                         'have the same dimensions')
     return new_variable(
         type(self),
         name=self.name,
-- 
2.43.0


From 4e9f7d96c33d2b7ec112f2bad1b55c2dddd17606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:18 +0000
Subject: [PATCH 62/69] fix: refuse to delete rows that a delayed dataset does
 not have

---
 zcollection/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 3925b6a..a7947b8 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -583,6 +583,12 @@ class Dataset:
         """
         if axis not in self.dimensions:
             raise ValueError(f'axis {axis!r} is not a dimension')
+        if not isinstance(indexer, slice):
+            indices = numpy.asarray(indexer)
+            size = self.dimensions[axis]
+            if ((indices < -size) | (indices >= size)).any():
+                raise IndexError(f'indices {indexer!r} are out of bounds for '
+                                 f'axis {axis!r} with size {size}')
         variables: list[Variable] = _delete_delayed_vars(
             self, indexer, axis) if self.delayed else _delete_vars(
                 self, indexer, axis)
-- 
2.43.0


From 8eb1fb4aef99b0b807bb5a788dbcb4e69d6bbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:46 +0000
Subject: [PATCH 63/69] fix: persisting a dataset keeps the arrays of its
 variables unmasked

---
 zcollection/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index a7947b8..a5304b7 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -676,7 +676,7 @@ class Dataset:
                 var.array = var.array.map_blocks(CompressedArray,
                                                  fill_value=var.fill_value)
         arrays: Iterable[NDArray] = dask.base.persist(
-            *tuple(item.data for item in self.variables.values()), **kwargs)
+            *tuple(item.array for item in self.variables.values()), **kwargs)
         variables: OrderedDict[str, Variable] = self.variables
         for name, array in zip(self.variables, arrays):
             variables[name].array = array
-- 
2.43.0


From 06d85aa05329d86fa923617168b02b2151a13a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:46 +0000
Subject: [PATCH 64/69] fix: concatenate the blocks of a compressed array

---
 zcollection/compressed_array.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 1523374..c67add6 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -309,9 +309,19 @@ def dask_array_from_compressed_array(
 @dask.array.dispatch.concatenate_lookup.register(CompressedArray)
 def _concatenate_compressed_array(arrays, **kwargs) -> NDArray:
     dtype: DType | None = kwargs.get('dtype', None)
-    arr: list[NDArray] = [item.__array__(dtype=dtype) for item in arrays]
-    if any(tuple(item.fill_value is not None for item in arrays)):
-        return numpy.ma.concatenate(arr, **kwargs)
+    # Dask can mix compressed blocks with blocks already decompressed.
+    arr: list[NDArray] = [
+        item.__array__(dtype=dtype)
+        if isinstance(item, CompressedArray) else item for item in arrays
+    ]
+    fill_values = [
+        item.fill_value for item in arrays
+        if getattr(item, 'fill_value', None) is not None
+    ]
+    if fill_values:
+        result: NDMaskedArray = numpy.ma.concatenate(arr, **kwargs)
+        result.fill_value = fill_values[0]
+        return result
     return numpy.concatenate(arr, **kwargs)
 
 
-- 
2.43.0


From f9ceb6d8b923fafae2b01f546cf0bdf9cd9a3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:25 +0000
Subject: [PATCH 65/69] fix: functions taking a sequence of compressed arrays

---
 zcollection/compressed_array.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index c67add6..97864e6 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -235,11 +235,16 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The result of the numpy function.
         """
-        arrays: list[NDArray] = [
-            item.__array__() if isinstance(item, CompressedArray) else item
-            for item in args
-        ]
-        return func(*arrays, **kwargs)
+
+        def _uncompress(item: Any) -> Any:
+            """Uncompress the arrays given, alone or in a sequence."""
+            if isinstance(item, CompressedArray):
+                return item.__array__()
+            if isinstance(item, (list, tuple)):
+                return type(item)(map(_uncompress, item))
+            return item
+
+        return func(*map(_uncompress, args), **kwargs)
 
     def __array_ufunc__(
         self,
-- 
2.43.0


From 61a445256cf36b4a717e3b582bed3a329017e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:34 +0000
Subject: [PATCH 66/69] fix: mask all the blocks of a variable whose data is
 partly compressed

---
 zcollection/variable/delayed_array.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index 14e61be..1603a24 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -184,14 +184,10 @@ class DelayedArray(Variable):
 
             :meth:`Variable.array`
         """
-        # If the fill value is None, or if the dask array already holds a
-        # masked array, return the underlying array.
-        # pylint: disable=protected-access
-        # No other way to check if the dask array is a masked array.
-        if (self.fill_value is None
-                or isinstance(self.array._meta, numpy.ma.MaskedArray)):
+        # A part of the blocks of a masked array may not be masked yet (i.e.
+        # concatenation of compressed and uncompressed data).
+        if self.fill_value is None:
             return self.array
-        # pylint: enable=protected-access
         return dask.array.ma.masked_equal(self.array, self.fill_value)
 
     @property
-- 
2.43.0


From 36e0b68087b094113c0c5b079ff04bab6aed8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 67/69] fix: filter partitions whose directory name begins like
 the collection's

The base directory was removed everywhere in the path: with a collection at
/cycle, the directory cycle=1 lost its name and every filter failed.
---
 zcollection/collection/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index e7d5bd9..94cbe4f 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -362,7 +362,7 @@ class ReadOnlyCollection:
         yield from (self._relative_path(item) if relative else item
                     for item in partitions
                     if (item != self._immutable and self._is_selected(
-                        item.replace(base_dir, '').split(sep), expr)))
+                        item.replace(base_dir, '', 1).split(sep), expr)))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
-- 
2.43.0


From 29f5ee452f7279e6563c50a3362a3926a18b9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 68/69] fix: mask each compressed operand with its own fill
 value

In an operation on two compressed arrays, the second one was masked with the
fill value of the first: values were lost, and missing ones were used.
---
 zcollection/compressed_array.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 97864e6..8f389d6 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -204,11 +204,7 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     def _cast(self, obj: Any) -> Any:
         """Cast an object to a value compatible with numpy.ndarray."""
         if isinstance(obj, CompressedArray):
-            #: pylint: disable=protected-access
-            # obj is a CompressedArray, we can access its _array attribute.
-            return obj._array[...] if self._fill_value is None else \
-                numpy.ma.masked_equal(obj._array[...], self._fill_value)
-            #: pylint: enable=protected-access
+            return obj.__array__()
         if isinstance(obj, numpy.ndarray):
             return obj
         if isinstance(obj, dask.array.core.Array):
-- 
2.43.0


From 6d4e1000330b1051e9c1dee56a5bf865ac8de003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:05 +0000
Subject: [PATCH 69/69] fix: accept numpy scalars in operations on compressed
 arrays

Adding a numpy integer to a compressed array, such as the result of a reduction
of another one, raised a TypeError.
---
 zcollection/compressed_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 8f389d6..db0c8c7 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -209,7 +209,7 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
             return obj
         if isinstance(obj, dask.array.core.Array):
             return obj.compute()
-        if isinstance(obj, (float, int, bool)):
+        if isinstance(obj, (float, int, bool, numpy.generic)):
             return obj
         raise TypeError(f'Cannot cast {type(obj)} to array like object')
 
-- 
2.43.0

