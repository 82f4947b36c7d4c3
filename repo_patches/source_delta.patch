From 70bb520849450ec44828fb4cb3d135a36741d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 01/13] fix: report store creation and population failures as
 errors instead of panicking

---
 src/merkle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index ba17492..b1b9417 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1627,7 +1627,7 @@ impl<
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
-        let mut data = S::new(size).expect("failed to create data store");
+        let mut data = S::new(size).context("failed to create data store")?;
 
         populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, None)?;
@@ -1799,7 +1799,7 @@ impl<
         }
 
         populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .expect("failed to populate data");
+            .context("failed to populate data")?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
 
         Ok(MerkleTree {
-- 
2.43.0


From bd958e806b5bef34a789dc4558373c36a87c58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 02/13] fix: Proof::item returns the leaf of compound proofs,
 not a top layer node

---
 src/proof.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 2a56d9a..e75a3fe 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,6 +60,12 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
+        // The leaf of a compound proof is held by the proof of the
+        // sub tree containing it.
+        if let Some(sub_tree_proof) = &self.sub_tree_proof {
+            return sub_tree_proof.item();
+        }
+
         self.lemma
             .first()
             .expect("[item] requested element is empty")
-- 
2.43.0


From f2753e706427b268539ced5b3e04cab417a9a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 03/13] fix: proof validation hashes each layer with the height
 used to build it

---
 src/proof.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index e75a3fe..3dbfb73 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -125,7 +125,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 return Ok(false);
             }
 
-            a.multi_node(&nodes, 0)
+            // Same height as used when joining trees into a compound tree.
+            a.multi_node(&nodes, 1)
         };
 
         Ok(h == self.root())
@@ -192,8 +193,9 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                     return Ok(false);
                 }
 
+                let height = path_index - 1;
                 path_index += 1;
-                a.multi_node(&nodes, i - 1)
+                a.multi_node(&nodes, height)
             };
         }
 
-- 
2.43.0


From add67e9d5df95d7671492be85e98c229e363bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 04/13] fix: out of range leaf indexes on compound trees are
 errors instead of panics

---
 src/merkle.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index b1b9417..8754d76 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -866,6 +866,12 @@ impl<
         arity: usize,
     ) -> Result<Proof<E, BaseTreeArity>> {
         ensure!(arity != 0, "Invalid sub-tree arity");
+        ensure!(
+            i < self.leafs,
+            "{} is out of bounds (max: {})",
+            i,
+            self.leafs
+        ); // i in [0 .. self.leafs)
 
         // Locate the sub-tree the leaf is contained in.
         let tree_index = i / (self.leafs / arity);
@@ -1437,6 +1443,12 @@ impl<
                     TopTreeArity::to_usize() == sub_trees.len(),
                     "Top layer tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                );
                 let tree_index = i / (self.leafs / TopTreeArity::to_usize());
                 let tree = &sub_trees[tree_index];
                 let tree_leafs = tree.leafs();
@@ -1452,6 +1464,12 @@ impl<
                     SubTreeArity::to_usize() == base_trees.len(),
                     "Sub-tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                );
                 let tree_index = i / (self.leafs / SubTreeArity::to_usize());
                 let tree = &base_trees[tree_index];
                 let tree_leafs = tree.leafs();
-- 
2.43.0


From 9eca9c8e05a2cef1a7c11b681c7dc037f0ecff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 05/13] fix: compound trees holding nodes do not report
 themselves as empty

---
 src/merkle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 8754d76..6f33246 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1405,8 +1405,8 @@ impl<
     #[inline]
     pub fn is_empty(&self) -> bool {
         match &self.data {
-            Data::TopTree(_) => true,
-            Data::SubTree(_) => true,
+            Data::TopTree(_) => self.len == 0,
+            Data::SubTree(_) => self.len == 0,
             Data::BaseTree(store) => store.is_empty(),
         }
     }
-- 
2.43.0


From 2d750ab163ba1be47d7a833d6ad77e7748f8a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 06/13] fix: store iterators stop after a read error instead of
 running past their range

---
 src/store/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 4e6aae7..e0d91b4 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -571,7 +571,7 @@ macro_rules! impl_parallel_iter {
 
         impl<'data, E: 'data + Element> $iter<'data, E> {
             fn is_done(&self) -> bool {
-                !self.err && self.len() == 0
+                self.err || self.len() == 0
             }
         }
 
-- 
2.43.0


From 0aff51fc6795ed0ba165411a64c7a13fa9e8b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 07/13] fix: reads into a buffer are limited to the requested
 range

---
 src/store/disk.rs        | 5 +++++
 src/store/level_cache.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 592c2ec..d3c0b0a 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -524,6 +524,11 @@ impl<E: Element> DiskStore<E> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            start + buf.len() == end,
+            "buf size must match the requested range"
+        );
+
         self.file
             .read_exact_at(start as u64, buf)
             .with_context(|| {
diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8275fef..0d4a53e 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -810,6 +810,10 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            start + buf.len() == end,
+            "buf size must match the requested range"
+        );
         ensure!(
             start <= self.data_width * self.elem_len || start >= self.cache_index_start,
             "Invalid read start"
-- 
2.43.0


From fd23f0da13b4f8c86e0b9637a53eff7db48b02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 08/13] fix: level cache reads never return data for discarded
 rows

---
 src/store/level_cache.rs | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 0d4a53e..578540d 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -351,10 +351,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_readable(start, end), "out of bounds");
 
         Ok(E::from_slice(&self.store_read_range(start, end)?))
     }
@@ -366,10 +363,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_readable(start, end), "out of bounds");
 
         self.store_read_into(start, end, buf)
     }
@@ -381,10 +375,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_readable(start, end), "out of bounds");
 
         self.store_read_into(start, end, buf)
     }
@@ -396,10 +387,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_readable(start, end), "out of bounds");
 
         Ok(self
             .store_read_range(start, end)?
@@ -708,10 +696,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         let mut read_data = vec![0; read_len];
         let mut adjusted_start = start;
 
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_readable(start, end), "out of bounds");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
@@ -753,6 +738,15 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(read_data)
     }
 
+    // The rows between the base layer and the cached rows are discarded, so
+    // a byte range can only be read when it does not touch them.
+    fn is_readable(&self, start: usize, end: usize) -> bool {
+        let data_end = self.data_width * self.elem_len;
+        let nothing_discarded = self.reader.is_none() && self.cache_index_start <= data_end;
+
+        end <= data_end || start >= self.cache_index_start || nothing_discarded
+    }
+
     // This read is for internal use only during the 'build' process.
     fn store_read_range_internal(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
@@ -814,10 +808,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
             start + buf.len() == end,
             "buf size must match the requested range"
         );
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "Invalid read start"
-        );
+        ensure!(self.is_readable(start, end), "Invalid read start");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-- 
2.43.0


From c490b30abe65c49fba9e8fa150f2eb340e634be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:11 +0000
Subject: [PATCH 09/13] fix: MmapStore reports a file it cannot open as an
 error instead of panicking

---
 src/store/mmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index b2abbd3..9c3b649 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -86,7 +86,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
                 if e.kind() == std::io::ErrorKind::PermissionDenied {
                     error!("MmapStore doesn't support read-only storages");
                 }
-                panic!("{}", e)
+                return Err(e.into());
             }
         };
 
-- 
2.43.0


From e54372eeb0b3181a3524a01174b30551d9cf04b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:50 +0000
Subject: [PATCH 10/13] fix: MmapStore does not repopulate a store loaded from
 an existing file

---
 src/store/mmap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 9c3b649..7af23e0 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -16,6 +16,7 @@ pub struct MmapStore<E: Element> {
     map: Option<MmapMut>,
     file: File,
     len: usize,
+    loaded_from_disk: bool,
     _e: PhantomData<E>,
 }
 
@@ -53,6 +54,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: 0,
+            loaded_from_disk: false,
             _e: Default::default(),
         })
     }
@@ -70,6 +72,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: 0,
+            loaded_from_disk: false,
             _e: Default::default(),
         })
     }
@@ -107,6 +110,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: size,
+            loaded_from_disk: true,
             _e: Default::default(),
         })
     }
@@ -257,7 +261,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn loaded_from_disk(&self) -> bool {
-        false
+        self.loaded_from_disk
     }
 
     fn compact(
-- 
2.43.0


From fca0f808dd5a5028786fa5d135cd398879eb4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:50 +0000
Subject: [PATCH 11/13] fix: from_byte_slice_with_config reuses a tree already
 on disk instead of failing

---
 src/merkle.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 6f33246..a1399ea 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1539,6 +1539,26 @@ impl<
 
         let mut data = S::new_from_slice_with_config(size, branches, leafs, config.clone())
             .context("failed to create data store")?;
+
+        // If the data store was loaded from disk, we know we have
+        // access to the full merkle tree.
+        if data.loaded_from_disk() {
+            let root = data.last().context("failed to read root")?;
+
+            return Ok(MerkleTree {
+                data: Data::BaseTree(data),
+                leafs: leafs_count,
+                len: size,
+                row_count,
+                root,
+                _a: PhantomData,
+                _e: PhantomData,
+                _bta: PhantomData,
+                _sta: PhantomData,
+                _tta: PhantomData,
+            });
+        }
+
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs_count, row_count, Some(config))?;
 
         Ok(MerkleTree {
-- 
2.43.0


From f4f490b4920a0cb36480ac85692494c2bb612115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:02 +0000
Subject: [PATCH 12/13] fix: configuration lists that do not fit are errors
 instead of being cut or causing a panic

---
 src/merkle.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index a1399ea..0e255cf 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -292,6 +292,10 @@ impl<
         );
 
         let sub_tree_count = TopTreeArity::to_usize();
+        ensure!(
+            sub_tree_count > 0 && configs.len() % sub_tree_count == 0,
+            "Number of configs MUST be a multiple of the number of top layer nodes"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / sub_tree_count;
@@ -735,6 +739,10 @@ impl<
         leafs: usize,
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
+        ensure!(
+            tree_data.len() == configs.len(),
+            "Number of configs MUST equal the number of trees"
+        );
         let mut trees = Vec::with_capacity(tree_data.len());
         for i in 0..tree_data.len() {
             trees.push(
@@ -805,6 +813,10 @@ impl<
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         let tree_count = TopTreeArity::to_usize();
+        ensure!(
+            tree_count > 0 && configs.len() % tree_count == 0,
+            "Number of configs MUST be a multiple of the number of top layer nodes"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / tree_count;
-- 
2.43.0


From 2e0ecdd43a0966d9a7a06ad20c3e1ad9502664ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 13/13] fix: get_merkle_tree_leafs rejects even lengths of
 binary trees

---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 0e255cf..8a89a4d 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -2019,6 +2019,10 @@ pub fn get_merkle_tree_leafs(len: usize, branches: usize) -> Result<usize> {
     let leafs = {
         // Optimization:
         if branches == 2 {
+            ensure!(
+                len % 2 == 1,
+                "Invalid tree length provided for the specified arity"
+            );
             (len >> 1) + 1
         } else {
             let mut leafs = 1;
-- 
2.43.0

