From e76c755019348d409c429bda32daf6d28f8db9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 01/21] fix: make MmapStore::sync write the mapped data to disk

It was inherited from the trait as a no-op, so data reported as synced was
lost by a power failure.
---
 src/store/mmap.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index b2abbd3..c90fcf4 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -271,6 +271,14 @@ impl<E: Element> Store<E> for MmapStore<E> {
         Ok(map.is_some())
     }
 
+    fn sync(&self) -> Result<()> {
+        if let Some(map) = &self.map {
+            map.flush().context("failed to flush map")?;
+        }
+
+        self.file.sync_all().context("failed to sync file")
+    }
+
     #[allow(unsafe_code)]
     fn reinit(&mut self) -> Result<()> {
         self.map = unsafe { Some(MmapMut::map_mut(&self.file)?) };
-- 
2.43.0


From 6d1f02bca826dae254a970eae991ecd28d14491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 02/21] fix: make MmapStore::delete remove the backing file

It reported success and left the file, so a later build under the same id
found the old data.
---
 src/store/mmap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index c90fcf4..d86b44f 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -1,4 +1,4 @@
-use std::fs::{File, OpenOptions};
+use std::fs::{remove_file, File, OpenOptions};
 use std::marker::PhantomData;
 use std::ops;
 use std::path::Path;
@@ -287,8 +287,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
         Ok(())
     }
 
-    fn delete(_config: StoreConfig) -> Result<()> {
-        Ok(())
+    fn delete(config: StoreConfig) -> Result<()> {
+        let path = StoreConfig::data_path(&config.path, &config.id);
+        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From b3c56414a41fea8dae14b9b4ede726c6387478a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 03/21] fix: return the error when MmapStore cannot open its
 file

A failed open panicked instead of being reported through the Result.
---
 src/store/mmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index d86b44f..bb9a7f6 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -86,7 +86,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
                 if e.kind() == std::io::ErrorKind::PermissionDenied {
                     error!("MmapStore doesn't support read-only storages");
                 }
-                panic!("{}", e)
+                return Err(e.into());
             }
         };
 
-- 
2.43.0


From 36666ef9f307a561c630d549918d1c21b909eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 04/21] fix: report MmapStores loaded from disk as such

The flag was always false, so building from a slice under an existing id
overwrote the persisted tree instead of loading it.
---
 src/store/mmap.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index bb9a7f6..c3cf3c4 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -16,6 +16,12 @@ pub struct MmapStore<E: Element> {
     map: Option<MmapMut>,
     file: File,
     len: usize,
+
+    // This flag is useful only immediate after instantiation, which
+    // is false if the store was newly initialized and true if the
+    // store was loaded from already existing on-disk data.
+    loaded_from_disk: bool,
+
     _e: PhantomData<E>,
 }
 
@@ -53,6 +59,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: 0,
+            loaded_from_disk: false,
             _e: Default::default(),
         })
     }
@@ -70,6 +77,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: 0,
+            loaded_from_disk: false,
             _e: Default::default(),
         })
     }
@@ -107,6 +115,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: size,
+            loaded_from_disk: true,
             _e: Default::default(),
         })
     }
@@ -257,7 +266,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn loaded_from_disk(&self) -> bool {
-        false
+        self.loaded_from_disk
     }
 
     fn compact(
-- 
2.43.0


From f7d4116a5fc43d0df2be8e0339f252874ddd8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 05/21] fix: never serve discarded rows from LevelCacheStore

The bounds check accepted the first element past the base layer and ranges
running out of the base layer, and answered with unrelated bytes.
---
 src/store/level_cache.rs | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8275fef..9e343f9 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -351,10 +351,6 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
 
         Ok(E::from_slice(&self.store_read_range(start, end)?))
     }
@@ -366,10 +362,6 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
 
         self.store_read_into(start, end, buf)
     }
@@ -381,10 +373,6 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
 
         self.store_read_into(start, end, buf)
     }
@@ -396,10 +384,6 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
 
         Ok(self
             .store_read_range(start, end)?
@@ -703,15 +687,26 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(store_size == cache_size)
     }
 
+    // The rows between the base layer and the cached rows are not
+    // available, so a byte range must lie entirely in one of the two
+    // (unless nothing was discarded and both are in the same file).
+    fn check_range(&self, start: usize, end: usize) -> Result<()> {
+        let base_end = self.data_width * self.elem_len;
+        let contiguous = self.cache_index_start == base_end && self.reader.is_none();
+        ensure!(
+            end <= base_end || start >= self.cache_index_start || contiguous,
+            "out of bounds"
+        );
+
+        Ok(())
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
         let mut adjusted_start = start;
 
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.check_range(start, end)?;
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
@@ -810,10 +805,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "Invalid read start"
-        );
+        self.check_range(start, end)?;
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-- 
2.43.0


From e7d734d3266acbc28c4d868a8f487463a34aa784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 06/21] fix: refuse short reads from a LevelCacheStore's
 external reader

The number of bytes the reader returned was ignored, so a short read was
served as zero-filled base layer data.
---
 src/store/level_cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 9e343f9..a0fed37 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -710,7 +710,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let read = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, &mut read_data)
@@ -721,6 +722,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(read == read_len, "Failed to read the full range");
 
             return Ok(read_data);
         }
@@ -809,7 +811,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let read = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, buf)
@@ -820,6 +823,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(read == end - start, "Failed to read the full range");
         } else {
             // Adjust read index if in the cached ranged to be shifted
             // over since the data stored is compacted.
-- 
2.43.0


From 6268572c91daeafde17b833daedf0b710ae5b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 07/21] fix: do not read base layer data from a file that only
 has cached rows

A LevelCacheStore without external reader answered reads of the base layer
with cached nodes when its file holds only the cached rows.
---
 src/store/level_cache.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index a0fed37..d67547e 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -611,6 +611,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         ensure!(written == store_size - len, "Failed to copy all data");
 
         self.file.set_len(written)?;
+        self.store_size = written as usize;
 
         Ok(())
     }
@@ -698,6 +699,15 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
             "out of bounds"
         );
 
+        // Without a reader, the base layer has to be in the file.
+        let total = self.len * self.elem_len;
+        ensure!(
+            self.reader.is_some()
+                || start >= self.cache_index_start
+                || self.store_size + self.cache_index_start >= base_end + total,
+            "base layer data is not available without an external reader"
+        );
+
         Ok(())
     }
 
-- 
2.43.0


From b824784f905ae4b2ae7dba1ebe328e8af598ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 08/21] fix: check the file size in
 LevelCacheStore::new_from_disk

Any file was accepted, whatever its size, and its bytes were served as nodes
of the tree.
---
 src/store/level_cache.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index d67547e..04a410f 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -298,19 +298,15 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             get_merkle_tree_cache_size(size, branches, config.rows_to_discard)? * E::byte_len();
         let cache_index_start = store_range - cache_size;
 
-        // For a true v1 compatible store, this check should remain,
-        // but since the store structure is identical otherwise this
-        // method can be re-used to open v2 stores, so long as an
-        // external_reader is set afterward.
-
         // Sanity checks that the StoreConfig rows_to_discard matches this
-        // particular on-disk file.
-        /*
+        // particular on-disk file.  Since the store structure is
+        // identical otherwise, this method can be re-used to open v2
+        // stores (holding only the cached data), so long as an
+        // external_reader is set afterward.
         ensure!(
-            store_size == size * E::byte_len() + cache_size,
+            store_size == size * E::byte_len() + cache_size || store_size == cache_size,
             "Inconsistent store size detected"
         );
-         */
 
         Ok(LevelCacheStore {
             len: store_range / E::byte_len(),
-- 
2.43.0


From 827a1a9cb57539c6ffbd07af9e50f61a3758e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 09/21] fix: return errors from tree builds instead of
 panicking

A failing iterator or store made try_from_iter_with_config and from_par_iter
panic although both return a Result.
---
 src/merkle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index ba17492..b1b9417 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1627,7 +1627,7 @@ impl<
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
-        let mut data = S::new(size).expect("failed to create data store");
+        let mut data = S::new(size).context("failed to create data store")?;
 
         populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, None)?;
@@ -1799,7 +1799,7 @@ impl<
         }
 
         populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .expect("failed to populate data");
+            .context("failed to populate data")?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
 
         Ok(MerkleTree {
-- 
2.43.0


From 618117f17d2e3157599739c41525a5878339f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 10/21] fix: detect missing items when populating leaves in
 parallel

A store that fails a read while it is iterated yields fewer items; with more
than one block the gap went unnoticed and the tree was built over zeroes.
---
 src/merkle.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index b1b9417..a921fab 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -2061,11 +2061,20 @@ where
         return Ok(());
     }
 
+    let leafs = iter.len();
     let store = Arc::new(RwLock::new(data));
 
     iter.chunks(BUILD_DATA_BLOCK_SIZE)
         .enumerate()
         .try_for_each(|(index, chunk)| {
+            // A source that fails to deliver all its items must not
+            // leave a gap in the base layer.
+            let start = BUILD_DATA_BLOCK_SIZE * index;
+            ensure!(
+                chunk.len() == std::cmp::min(BUILD_DATA_BLOCK_SIZE, leafs - start),
+                "Missing data in parallel iterator"
+            );
+
             let mut a = A::default();
             let mut buf = Vec::with_capacity(BUILD_DATA_BLOCK_SIZE * E::byte_len());
 
@@ -2076,7 +2085,7 @@ where
             store
                 .write()
                 .expect("[populate_data_par] couldn't block current thread while copying")
-                .copy_from_slice(&buf[..], BUILD_DATA_BLOCK_SIZE * index)
+                .copy_from_slice(&buf[..], start)
         })?;
 
     store
-- 
2.43.0


From 60cd16b6e52f7d1c49cab4fd9177dcc9be5230ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 11/21] fix: validate proofs with the heights the tree was
 built with

For arities above 2 and for compound layers a different height was passed to
the hash, so honest proofs failed with height-aware algorithms.
---
 src/proof.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 2a56d9a..4371a8f 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -119,7 +119,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 return Ok(false);
             }
 
-            a.multi_node(&nodes, 0)
+            // Same height as used when the compound root was built.
+            a.multi_node(&nodes, 1)
         };
 
         Ok(h == self.root())
@@ -186,8 +187,9 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                     return Ok(false);
                 }
 
+                let level = path_index - 1;
                 path_index += 1;
-                a.multi_node(&nodes, i - 1)
+                a.multi_node(&nodes, level)
             };
         }
 
-- 
2.43.0


From de5f65b72185f46693f16c69dae8de6b0eece43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 12/21] fix: return the leaf as the item of a compound proof

item() returned the root of a sibling tree, so validate_with_data rejected
the original data for every compound proof.
---
 src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 4371a8f..48b63fe 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,6 +60,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
+        // In compound proofs, the leaf is in the base layer proof.
+        if let Some(sub_tree_proof) = &self.sub_tree_proof {
+            return sub_tree_proof.item();
+        }
+
         self.lemma
             .first()
             .expect("[item] requested element is empty")
-- 
2.43.0


From 4dfe0b384f85de5eb6adf1d3dfefcbe22d908695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 13/21] fix: sync the copied rows before truncating in
 DiskStore::compact

A power failure between the two could keep the truncation and lose the copy.
---
 src/store/disk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 592c2ec..96affc6 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -260,6 +260,10 @@ impl<E: Element> Store<E> for DiskStore<E> {
         // Copy the data from the cached region to the writer.
         let written = copy(&mut reader, &mut self.file)?;
         ensure!(written == cache_size as u64, "Failed to copy all data");
+
+        // The copied data must be on disk before its original location
+        // is cut off.
+        self.sync()?;
         if v1 {
             // Truncate the data on-disk to be the base layer data
             // followed by the cached data.
-- 
2.43.0


From 036a62b3ac0c22ae78d3b32e6ba7b7980eff7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:16 +0000
Subject: [PATCH 14/21] fix: store iterators report their exact size, as
 ExactSizeIterator requires

---
 src/store/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 4e6aae7..09e0dd1 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -594,6 +594,10 @@ macro_rules! impl_parallel_iter {
                     }
                 }
             }
+
+            fn size_hint(&self) -> (usize, Option<usize>) {
+                (self.len(), Some(self.len()))
+            }
         }
 
         impl<'data, E: 'data + Element> ExactSizeIterator for $iter<'data, E> {
-- 
2.43.0


From f68afb07eaff4e1d4cd5a2244b0bee4ead030cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:08 +0000
Subject: [PATCH 15/21] fix: sync the cached rows before cutting off their
 original location in front_truncate

---
 src/store/level_cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 04a410f..66215c2 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -606,6 +606,9 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         let written = copy(&mut reader, &mut self.file)?;
         ensure!(written == store_size - len, "Failed to copy all data");
 
+        // The copied data must be on disk before its original location
+        // is cut off.
+        self.sync()?;
         self.file.set_len(written)?;
         self.store_size = written as usize;
 
-- 
2.43.0


From c6fed0a2dcfd027ede3bb816b0b2462545f4b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 16/21] fix: refuse arity 0 and 1 instead of looping forever
 over a tree that never narrows

---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index a921fab..945cf70 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1925,7 +1925,7 @@ pub fn get_merkle_tree_cache_size(
 }
 
 pub fn is_merkle_tree_size_valid(leafs: usize, branches: usize) -> bool {
-    if branches == 0 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
+    if branches < 2 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
         return false;
     }
 
-- 
2.43.0


From 13fe9fcaf35f41418e96e166de260e4a0168869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 17/21] fix: every leaf constructor refuses a leaf count that
 makes no tree of the arity before it creates a file

---
 src/merkle.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 945cf70..88304f5 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1515,6 +1515,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
@@ -1557,6 +1561,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
@@ -1623,6 +1631,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1663,6 +1675,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1731,6 +1747,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1772,6 +1792,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
-- 
2.43.0


From d4714e7f160cafc448af9d5813f4735c5efd42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:50 +0000
Subject: [PATCH 18/21] fix: a LevelCacheStore created without a configuration
 reads back what was written to it

---
 src/store/level_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 66215c2..8a1e4ff 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -208,7 +208,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             elem_len: E::byte_len(),
             file,
             data_width: size,
-            cache_index_start: 0,
+            cache_index_start: store_size,
             store_size,
             loaded_from_disk: false,
             reader: None,
-- 
2.43.0


From 061016b384a2e284c4777f56e14fc9dffc84ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 19/21] fix: refuse a wrong number of store configs for a
 compound tree

from_sub_tree_store_configs and its replica variant divided the number of
configs by the number of sub trees and silently ignored the remainder, so a
call with parts left over returned a tree that does not cover them.
---
 src/merkle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 88304f5..d9e631b 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -292,6 +292,10 @@ impl<
         );
 
         let sub_tree_count = TopTreeArity::to_usize();
+        ensure!(
+            configs.len() == sub_tree_count * SubTreeArity::to_usize(),
+            "Length of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / sub_tree_count;
@@ -805,6 +809,10 @@ impl<
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         let tree_count = TopTreeArity::to_usize();
+        ensure!(
+            configs.len() == tree_count * SubTreeArity::to_usize(),
+            "Length of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / tree_count;
-- 
2.43.0


From a5e732e50922abdaa6be7b9b836da09221806dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:10 +0000
Subject: [PATCH 20/21] fix: VecStore refuses bytes that are no whole number of
 elements, as the other stores do

---
 src/store/vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/vec.rs b/src/store/vec.rs
index 9bf42a1..08c5da4 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -68,6 +68,12 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn new_from_slice(size: usize, data: &[u8]) -> Result<Self> {
+        ensure!(
+            data.len() % E::byte_len() == 0,
+            "data size must be a multiple of {}",
+            E::byte_len()
+        );
+
         let mut v: Vec<_> = data
             .chunks_exact(E::byte_len())
             .map(E::from_slice)
-- 
2.43.0


From 5a034f18926f4ffe758d70858f6848f254248a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:38 +0000
Subject: [PATCH 21/21] fix: from_store_configs reports a missing file instead
 of creating it and later taking its zeros for a tree

---
 src/merkle.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index d9e631b..b31eab9 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -784,12 +784,8 @@ impl<
         let branches = BaseTreeArity::to_usize();
         let mut trees = Vec::with_capacity(configs.len());
         for config in configs {
-            let data = S::new_with_config(
-                get_merkle_tree_len(leafs, branches)?,
-                branches,
-                config.clone(),
-            )
-            .context("failed to create data store")?;
+            let data = S::new_from_disk(get_merkle_tree_len(leafs, branches)?, branches, config)
+                .context("failed to load data store")?;
             trees.push(MerkleTree::<E, A, S, BaseTreeArity>::from_data_store(
                 data, leafs,
             )?);
-- 
2.43.0

