From bdbefc7f945c15aeeb34f4f2ddf1a1dbd8f87d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 01/65] fix: report partial out-of-bounds reads of in-memory
 block devices as errors instead of panicking

---
 xdvdfs-core/src/blockdev.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 722cf3c..858e2fb 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -57,14 +57,12 @@ impl BlockDeviceRead for [u8] {
     type ReadError = OutOfBounds;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), OutOfBounds> {
-        let offset = offset as usize;
-        if offset >= self.as_ref().len() {
-            return Err(OutOfBounds);
-        }
-
-        let size = core::cmp::min(self.as_ref().len() - offset, <[u8]>::len(buffer));
-        let range = offset..(offset + size);
-        buffer.copy_from_slice(&self[range]);
+        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
+        let end = offset
+            .checked_add(<[u8]>::len(buffer))
+            .ok_or(OutOfBounds)?;
+        let data = self.get(offset..end).ok_or(OutOfBounds)?;
+        buffer.copy_from_slice(data);
         Ok(())
     }
 }
-- 
2.43.0


From 27af202fa73333713daedefea3f901ef373dbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 02/65] fix: keep the directory scan position when reading the
 next sector fails or is cancelled

---
 xdvdfs-core/src/read.rs | 48 +++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3c827a5..e1a0db8 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -7,6 +7,7 @@ use maybe_async::maybe_async;
 
 pub struct DirentScanIter<'a, BDR: BlockDeviceRead> {
     sector: usize,
+    loaded_sector: Option<usize>,
     sector_buf: [u8; layout::SECTOR_SIZE as usize],
     offset: usize,
     end_sector: usize,
@@ -14,22 +15,23 @@ pub struct DirentScanIter<'a, BDR: BlockDeviceRead> {
 }
 
 impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
+    /// Loads the sector at the cursor into the buffer, if it is not there already.
+    /// The cursor only moves past a sector once it has been processed, so that a
+    /// failed or cancelled read can be retried.
     #[maybe_async]
-    async fn next_sector(&mut self) -> Result<(), util::Error<BDR::ReadError>> {
-        self.offset = 0;
-        self.sector += 1;
-
-        if self.sector >= self.end_sector {
-            // Don't bother reading sectors in that we don't care about
+    async fn load_sector(&mut self) -> Result<(), util::Error<BDR::ReadError>> {
+        if self.loaded_sector == Some(self.sector) {
             return Ok(());
         }
 
+        self.loaded_sector = None;
         self.dev
             .read(
                 (self.sector as u64) * (layout::SECTOR_SIZE as u64),
                 &mut self.sector_buf,
             )
             .await?;
+        self.loaded_sector = Some(self.sector);
 
         Ok(())
     }
@@ -38,11 +40,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
     pub async fn next_entry(
         &mut self,
     ) -> Result<Option<DirectoryEntryNode>, util::Error<BDR::ReadError>> {
-        if self.sector >= self.end_sector {
-            return Ok(None);
-        }
+        while self.sector < self.end_sector {
+            self.load_sector().await?;
 
-        loop {
             // Invariant: offset must remain in bounds of sector_buf
             assert!(self.offset + 0xe < layout::SECTOR_SIZE as usize);
 
@@ -53,29 +53,29 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-                if self.sector + 1 < self.end_sector {
-                    self.next_sector().await?;
-                    continue;
-                }
-
-                break Ok(None);
+                self.offset = 0;
+                self.sector += 1;
+                continue;
             };
 
             let name_len = dirent.node.dirent.filename_length as usize;
+            let name_end = name_offset + name_len;
+            assert!(name_end <= layout::SECTOR_SIZE as usize);
+
             let name_buf = &mut dirent.name[0..name_len];
-            assert!(name_offset + name_len <= layout::SECTOR_SIZE as usize);
-            name_buf.copy_from_slice(&self.sector_buf[name_offset..(name_offset + name_len)]);
+            name_buf.copy_from_slice(&self.sector_buf[name_offset..name_end]);
 
             // Dirent is valid, advance cursor before returning
-            self.offset = name_offset + name_len;
-            self.offset += (4 - (self.offset % 4)) % 4;
-
+            self.offset = name_end.next_multiple_of(4);
             if self.offset + 0xe >= layout::SECTOR_SIZE as usize {
-                self.next_sector().await?;
+                self.offset = 0;
+                self.sector += 1;
             }
 
-            break Ok(Some(dirent));
+            return Ok(Some(dirent));
         }
+
+        Ok(None)
     }
 }
 
@@ -259,6 +259,7 @@ impl DirectoryEntryTable {
             // needing to read data or maintain other empty state.
             return Ok(DirentScanIter {
                 sector: 0,
+                loaded_sector: None,
                 sector_buf: [0xff; layout::SECTOR_SIZE as usize],
                 offset: 0,
                 end_sector: 0,
@@ -273,6 +274,7 @@ impl DirectoryEntryTable {
         let sector = self.region.sector as usize;
         Ok(DirentScanIter {
             sector,
+            loaded_sector: Some(sector),
             sector_buf,
             offset: 0,
             end_sector: sector + self.region.size.div_ceil(layout::SECTOR_SIZE) as usize,
-- 
2.43.0


From 28bb7b2b18808d8ba69085a21b1a19bae1db9a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 03/65] fix: report directory entries that cross a sector end
 as errors when scanning instead of panicking

---
 xdvdfs-core/src/read.rs | 4 +++-
 xdvdfs-core/src/util.rs | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index e1a0db8..e50db21 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -60,7 +60,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
 
             let name_len = dirent.node.dirent.filename_length as usize;
             let name_end = name_offset + name_len;
-            assert!(name_end <= layout::SECTOR_SIZE as usize);
+            if name_end > layout::SECTOR_SIZE as usize {
+                return Err(util::Error::InvalidDirectoryTable);
+            }
 
             let name_buf = &mut dirent.name[0..name_len];
             name_buf.copy_from_slice(&self.sector_buf[name_offset..name_end]);
diff --git a/xdvdfs-core/src/util.rs b/xdvdfs-core/src/util.rs
index ef107e7..3fc45e5 100644
--- a/xdvdfs-core/src/util.rs
+++ b/xdvdfs-core/src/util.rs
@@ -14,6 +14,7 @@ pub enum Error<E> {
     IsNotDirectory,
     NameTooLong,
     InvalidFileName,
+    InvalidDirectoryTable,
     TooManyDirectoryEntries,
     FileTooLarge,
 }
@@ -32,6 +33,7 @@ impl<E> Error<E> {
             Self::IsNotDirectory => "Expected directory, found file",
             Self::NameTooLong => "File name is too long",
             Self::InvalidFileName => "Invalid file name",
+            Self::InvalidDirectoryTable => "Invalid directory entry table",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
         }
-- 
2.43.0


From ee0921c7467cb53ac6577949efc3255d62b7a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 04/65] fix: give scanned directory entries the same offset as
 walked ones

---
 xdvdfs-core/src/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index e50db21..e788a23 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -49,7 +49,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let mut buf = [0; 0xe];
             let name_offset = self.offset + 0xe;
             buf.copy_from_slice(&self.sector_buf[self.offset..name_offset]);
-            let dirent = deserialize_dirent_node(&buf, self.offset as u64)?;
+            let dirent_offset =
+                self.sector as u64 * layout::SECTOR_SIZE as u64 + self.offset as u64;
+            let dirent = deserialize_dirent_node(&buf, dirent_offset)?;
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-- 
2.43.0


From 7fcfa8000909587cb93f6344d7157a524f90ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 05/65] fix: ignore redundant slashes in image paths and do not
 panic on a path of only slashes

---
 xdvdfs-core/src/read.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index e788a23..9f050ed 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -221,15 +221,12 @@ impl DirectoryEntryTable {
         path: &str,
     ) -> Result<DirectoryEntryNode, util::Error<BDR::ReadError>> {
         debugln!("[walk_path] Called on {}", path);
-        if path.is_empty() || path == "/" {
+        if path.trim_matches('/').is_empty() {
             return Err(util::Error::NoDirent);
         }
 
         let mut dirent_tab = *self;
-        let mut path_iter = path
-            .trim_start_matches('/')
-            .split_terminator('/')
-            .peekable();
+        let mut path_iter = path.split('/').filter(|s| !s.is_empty()).peekable();
 
         while let Some(segment) = path_iter.next() {
             let dirent = dirent_tab.find_dirent(dev, segment).await?;
-- 
2.43.0


From 5818772996c4f9fdbf20049f432c56cb08962ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 06/65] fix: report cyclic directory tables as errors instead
 of looping forever

---
 xdvdfs-core/src/read.rs            | 22 +++++++++++++++++++++-
 xdvdfs-core/src/write/fs/xdvdfs.rs | 13 +++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 9f050ed..b60e624 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -185,7 +185,9 @@ impl DirectoryEntryTable {
 
         let mut offset = self.offset(0)?;
 
-        loop {
+        // The table has at most one entry per four bytes, any longer search
+        // is going around in circles
+        for _ in 0..self.region.size.div_ceil(4) {
             let dirent = read_dirent(dev, offset).await?;
             let dirent = dirent.ok_or(util::Error::DoesNotExist)?;
             let dirent_name = dirent.name_str()?;
@@ -207,6 +209,8 @@ impl DirectoryEntryTable {
 
             offset = self.offset(4 * next_offset as u64)?;
         }
+
+        Err(util::Error::InvalidDirectoryTable)
     }
 
     /// Retrieves the directory entry node corresponding to the provided path,
@@ -289,6 +293,7 @@ impl DirectoryEntryTable {
         &self,
         dev: &mut BDR,
     ) -> Result<alloc::vec::Vec<DirectoryEntryNode>, util::Error<BDR::ReadError>> {
+        use alloc::collections::BTreeSet;
         use alloc::vec;
 
         debugln!("[walk_dirent_tree] {:?}", self);
@@ -298,8 +303,13 @@ impl DirectoryEntryTable {
             return Ok(dirents);
         }
 
+        let mut visited = BTreeSet::new();
         let mut stack = vec![0];
         while let Some(top) = stack.pop() {
+            if !visited.insert(top) {
+                return Err(util::Error::InvalidDirectoryTable);
+            }
+
             let offset = self.offset(top)?;
             let dirent = read_dirent(dev, offset).await?;
 
@@ -332,16 +342,26 @@ impl DirectoryEntryTable {
         alloc::vec::Vec<(alloc::string::String, DirectoryEntryNode)>,
         util::Error<BDR::ReadError>,
     > {
+        use alloc::collections::BTreeSet;
         use alloc::format;
         use alloc::string::String;
         use alloc::vec;
 
         let mut dirents = vec![];
+        let mut visited = BTreeSet::new();
 
         let mut stack = vec![(String::from(""), *self)];
         while let Some((parent, tree)) = stack.pop() {
             debugln!("[file_tree] Descending through {}", parent);
             let children = tree.walk_dirent_tree(dev).await?;
+
+            // A directory can only be in one place, otherwise the tree is not
+            // finite. Empty directories have nothing to descend into.
+            let sector = tree.region.sector;
+            if !children.is_empty() && !visited.insert(sector) {
+                return Err(util::Error::InvalidDirectoryTable);
+            }
+
             for child in children.iter() {
                 if let Some(dirent_table) = child.node.dirent.dirent_table() {
                     let child_name = child.name_str()?;
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 3de5119..d7e1e5c 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -1,3 +1,4 @@
+use alloc::collections::BTreeMap;
 use alloc::vec::Vec;
 use core::error::Error;
 use core::fmt::Debug;
@@ -192,6 +193,7 @@ where
     dev: D,
     volume: crate::layout::VolumeDescriptor,
     dirent_cache: PathPrefixTree<DirectoryEntryNode>,
+    dir_paths: BTreeMap<u32, PathVec>,
 
     w_type: core::marker::PhantomData<W>,
     copier_type: core::marker::PhantomData<Copier>,
@@ -212,6 +214,7 @@ where
                 dev,
                 volume,
                 dirent_cache: PathPrefixTree::default(),
+                dir_paths: BTreeMap::new(),
                 w_type: core::marker::PhantomData,
                 copier_type: core::marker::PhantomData,
             })
@@ -278,6 +281,16 @@ where
             });
         }
 
+        // A directory can only be in one place, otherwise the tree is not
+        // finite. Empty directories have nothing to descend into.
+        if !entries.is_empty() {
+            let sector = dirtab.region.sector;
+            let path = self.dir_paths.entry(sector).or_insert_with(|| dir.clone());
+            if path != dir {
+                return Err(util::Error::InvalidDirectoryTable);
+            }
+        }
+
         Ok(entries)
     }
 }
-- 
2.43.0


From c28421cef617ccc9c42112c3c300277f0e25f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 07/65] fix: treat 0xffff as a missing child when looking up a
 path, like when walking a directory

---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index b60e624..4a33f28 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -203,7 +203,7 @@ impl DirectoryEntryTable {
                 core::cmp::Ordering::Greater => dirent.node.right_entry_offset,
             };
 
-            if next_offset == 0 {
+            if next_offset == 0 || next_offset == 0xffff {
                 return Err(util::Error::DoesNotExist);
             }
 
-- 
2.43.0


From e99f1dd5660e6f39a97bd6cd4a2633444891ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:21 +0000
Subject: [PATCH 08/65] fix: end ranged reads of a file at the end of the file

---
 xdvdfs-core/src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 6aaac26..b2c81cf 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -273,11 +273,11 @@ impl DirectoryEntryDiskData {
         size: u64,
         offset: u64,
     ) -> Result<alloc::boxed::Box<[u8]>, util::Error<BDR::ReadError>> {
-        let size = core::cmp::min(size, self.data.size as u64);
+        let size = core::cmp::min(size, (self.data.size as u64).saturating_sub(offset));
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-        if self.data.size == 0 {
+        if size == 0 {
             return Ok(buf);
         }
 
-- 
2.43.0


From a980f13f66b285616ac057b994c6453dd6003d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:21 +0000
Subject: [PATCH 09/65] fix: do not panic on file names with characters beyond
 U+00FF when repacking or remapping

---
 xdvdfs-core/src/write/fs/mod.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/mod.rs b/xdvdfs-core/src/write/fs/mod.rs
index aef75a2..44ed081 100644
--- a/xdvdfs-core/src/write/fs/mod.rs
+++ b/xdvdfs-core/src/write/fs/mod.rs
@@ -5,6 +5,7 @@ use std::format;
 use std::path::{Path, PathBuf};
 
 use alloc::boxed::Box;
+use alloc::collections::BTreeMap;
 use alloc::string::String;
 use alloc::vec::Vec;
 
@@ -187,7 +188,7 @@ impl<E, BDW: BlockDeviceWrite> FilesystemCopier<BDW> for Box<dyn FilesystemCopie
 
 #[derive(Clone, Debug)]
 struct PathPrefixTree<T> {
-    children: [Option<Box<PathPrefixTree<T>>>; 256],
+    children: BTreeMap<char, Box<PathPrefixTree<T>>>,
     pub record: Option<(T, Box<PathPrefixTree<T>>)>,
 }
 
@@ -204,12 +205,10 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
         // Expand until we find a node with a record
         while let Some(subtree) = self.queue.pop() {
             let (name, node) = &subtree;
-            for (ch, child) in node.children.iter().enumerate() {
-                if let Some(child) = child {
-                    let mut name = name.to_owned();
-                    name.push(ch as u8 as char);
-                    self.queue.push((name, child));
-                }
+            for (ch, child) in node.children.iter() {
+                let mut name = name.to_owned();
+                name.push(*ch);
+                self.queue.push((name, child));
             }
 
             if let Some(record) = &node.record {
@@ -224,7 +223,7 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
 impl<T> Default for PathPrefixTree<T> {
     fn default() -> Self {
         Self {
-            children: [const { None }; 256],
+            children: BTreeMap::new(),
             record: None,
         }
     }
@@ -238,8 +237,7 @@ impl<T> PathPrefixTree<T> {
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
             for ch in component.chars() {
-                let next = &node.children[ch as usize];
-                node = next.as_ref()?;
+                node = node.children.get(&ch)?;
             }
 
             if component_iter.peek().is_some() {
@@ -259,8 +257,7 @@ impl<T> PathPrefixTree<T> {
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
             for ch in component.chars() {
-                let next = &mut node.children[ch as usize];
-                node = next.as_mut()?;
+                node = node.children.get_mut(&ch)?;
             }
 
             if component_iter.peek().is_some() {
@@ -279,8 +276,7 @@ impl<T> PathPrefixTree<T> {
 
         for component in path.iter() {
             for ch in component.chars() {
-                let next = &node.children[ch as usize];
-                node = next.as_ref()?;
+                node = node.children.get(&ch)?;
             }
 
             let record = &node.record;
@@ -295,8 +291,7 @@ impl<T> PathPrefixTree<T> {
         let mut node = self;
 
         for ch in tail.chars() {
-            let next = &mut node.children[ch as usize];
-            node = next.get_or_insert_with(|| Box::new(Self::default()));
+            node = node.children.entry(ch).or_default();
         }
 
         node.record
-- 
2.43.0


From 887cf4b1e2c3740dddc07fe583bd4519d5b2b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 10/65] fix: compress images whose files do not end on a sector
 boundary

---
 xdvdfs-core/src/write/fs/sector_linear.rs | 20 +++++++++++++-------
 xdvdfs-core/src/write/fs/xdvdfs.rs        |  3 ++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index 24af142..e1b62fe 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -10,7 +10,8 @@ use super::{FileEntry, FilesystemCopier, FilesystemHierarchy, PathVec};
 #[derive(Clone, Debug)]
 pub enum SectorLinearBlockContents {
     RawData(Box<[u8; layout::SECTOR_SIZE as usize]>),
-    File(PathVec, u64),
+    /// Path, index of the sector within the file, and number of bytes of the file in it
+    File(PathVec, u64, u64),
     Empty,
 }
 
@@ -40,7 +41,7 @@ impl SectorLinearBlockDevice {
                 *sector * layout::SECTOR_SIZE as u64
                     + match contents {
                         SectorLinearBlockContents::RawData(_) => layout::SECTOR_SIZE,
-                        SectorLinearBlockContents::File(_, _) => layout::SECTOR_SIZE,
+                        SectorLinearBlockContents::File(_, _, _) => layout::SECTOR_SIZE,
                         SectorLinearBlockContents::Empty => 0,
                     } as u64
             })
@@ -132,9 +133,14 @@ where
         }
 
         for i in 0..sector_span {
+            let start = i * layout::SECTOR_SIZE as u64;
+            let len = core::cmp::min(size - start, layout::SECTOR_SIZE as u64);
             if dest
                 .contents
-                .insert(sector + i, SectorLinearBlockContents::File(src.clone(), i))
+                .insert(
+                    sector + i,
+                    SectorLinearBlockContents::File(src.clone(), i, len),
+                )
                 .is_some()
             {
                 unimplemented!("Overwriting sectors is not implemented");
@@ -194,19 +200,19 @@ where
             SectorLinearBlockContents::RawData(data) => {
                 buf.copy_from_slice(data.as_slice());
             }
-            SectorLinearBlockContents::File(path, sector_idx) => {
+            SectorLinearBlockContents::File(path, sector_idx, len) => {
                 let bytes_read = self
                     .fs
                     .fs
                     .copy_file_in(
                         path,
-                        &mut buf,
+                        &mut buf[0..(*len as usize)],
                         sector_size as u64 * sector_idx,
                         0,
-                        sector_size as u64,
+                        *len,
                     )
                     .await?;
-                assert_eq!(bytes_read, sector_size as u64);
+                assert_eq!(bytes_read, *len);
             }
         };
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index d7e1e5c..a55421a 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -319,7 +319,8 @@ where
                 util::Error::NoDirent,
             ))?;
 
-        let size_to_copy = core::cmp::min(size, dirent.node.dirent.data.size as u64);
+        let size_left = (dirent.node.dirent.data.size as u64).saturating_sub(input_offset);
+        let size_to_copy = core::cmp::min(size, size_left);
         if size_to_copy == 0 {
             return Ok(0);
         }
-- 
2.43.0


From df3bb23a61497f75858183f047eb36525dc5f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 11/65] fix: copy whole files into memory regardless of short
 reads, and report files that do not fit or end early

---
 xdvdfs-core/src/write/fs/stdfs.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index f41179a..77238ee 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -8,7 +8,7 @@ use std::path::{Path, PathBuf};
 #[cfg(not(feature = "sync"))]
 use alloc::boxed::Box;
 
-use crate::blockdev::BlockDeviceWrite;
+use crate::blockdev::{BlockDeviceWrite, OutOfBounds};
 
 use super::{FileEntry, FileType, FilesystemCopier, FilesystemHierarchy, PathVec};
 
@@ -121,12 +121,12 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         file.seek(SeekFrom::Start(input_offset))?;
 
         let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
-
-        let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
-        Ok(<[u8]>::len(dest) as u64)
+        let dest = dest
+            .get_mut(output_offset..)
+            .and_then(|dest| dest.get_mut(..(size as usize)))
+            .ok_or(std::io::Error::other(OutOfBounds))?;
+        Read::read_exact(&mut file, dest)?;
+        Ok(size)
     }
 }
 
@@ -150,11 +150,11 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         file.seek(SeekFrom::Start(input_offset))?;
 
         let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
-
-        let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
-        Ok(<[u8]>::len(dest) as u64)
+        let dest = dest
+            .get_mut(output_offset..)
+            .and_then(|dest| dest.get_mut(..(size as usize)))
+            .ok_or(std::io::Error::other(OutOfBounds))?;
+        Read::read_exact(&mut file, dest)?;
+        Ok(size)
     }
 }
-- 
2.43.0


From fa2c4f37fcb73e41fd159e725df9a5ce94e8f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 12/65] fix: fail image creation when a source file delivers
 fewer bytes than its size

---
 xdvdfs-core/src/write/img.rs | 22 +++++++++++++---------
 xdvdfs-core/src/write/mod.rs |  2 ++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index 4e3499e..e45b59a 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -169,15 +169,19 @@ pub async fn create_xdvdfs_image<
             if entry.is_dir {
                 dir_sectors.insert(file_path.clone(), entry.sector);
             } else {
-                fs.copy_file_in(
-                    &file_path,
-                    image,
-                    0,
-                    entry.sector * layout::SECTOR_SIZE as u64,
-                    entry.size,
-                )
-                .await
-                .map_err(WriteError::FilesystemCopierError)?;
+                let copied = fs
+                    .copy_file_in(
+                        &file_path,
+                        image,
+                        0,
+                        entry.sector * layout::SECTOR_SIZE as u64,
+                        entry.size,
+                    )
+                    .await
+                    .map_err(WriteError::FilesystemCopierError)?;
+                if copied != entry.size {
+                    return Err(FileStructureError::FileSizeMismatch.into());
+                }
             }
         }
     }
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index d269ecb..47e14b6 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -18,6 +18,7 @@ pub enum FileStructureError {
     DuplicateFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    FileSizeMismatch,
 }
 
 #[derive(Debug)]
@@ -43,6 +44,7 @@ impl FileStructureError {
             Self::DuplicateFileName => "Duplicate file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::FileSizeMismatch => "File size does not match its directory listing",
         }
     }
 }
-- 
2.43.0


From 6c354ee5b92de2de22f583c9a4c16e76d890d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 13/65] fix: report images beyond the addressable number of
 sectors as errors

---
 xdvdfs-core/src/write/dirtab.rs |  2 +-
 xdvdfs-core/src/write/img.rs    |  2 +-
 xdvdfs-core/src/write/mod.rs    |  2 ++
 xdvdfs-core/src/write/sector.rs | 10 +++++++---
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index 22edf31..da3b73f 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -189,7 +189,7 @@ impl DirectoryEntryTableWriter {
                 dirent,
             };
 
-            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64);
+            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64)?;
             dirent.dirent.data.sector = sector;
 
             file_listing.push(FileListingEntry {
diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index e45b59a..7918c26 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -137,7 +137,7 @@ pub async fn create_xdvdfs_image<
         .first_key_value()
         .expect("should always have one dirent at minimum (root)");
     let root_dirtab_size = root_dirtab.1.dirtab_size();
-    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64);
+    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64)?;
     let root_table = layout::DirectoryEntryTable::new(root_dirtab_size, root_sector);
     dir_sectors.insert((*root_dirtab.0).clone(), root_sector as u64);
 
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index 47e14b6..a8ab2f5 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -19,6 +19,7 @@ pub enum FileStructureError {
     TooManyDirectoryEntries,
     FileTooLarge,
     FileSizeMismatch,
+    ImageTooLarge,
 }
 
 #[derive(Debug)]
@@ -44,6 +45,7 @@ impl FileStructureError {
             Self::DuplicateFileName => "Duplicate file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::ImageTooLarge => "Image is too large",
             Self::FileSizeMismatch => "File size does not match its directory listing",
         }
     }
diff --git a/xdvdfs-core/src/write/sector.rs b/xdvdfs-core/src/write/sector.rs
index 85715d9..d936de5 100644
--- a/xdvdfs-core/src/write/sector.rs
+++ b/xdvdfs-core/src/write/sector.rs
@@ -1,5 +1,7 @@
 use crate::layout::SECTOR_SIZE;
 
+use super::FileStructureError;
+
 pub struct SectorAllocator {
     next_free: u32,
 }
@@ -30,10 +32,12 @@ pub fn required_sectors(len: u64) -> u32 {
 impl SectorAllocator {
     /// Allocates a contiguous set of sectors, big enough to fit `bytes`.
     /// Returns the number of the first sector in the allocation
-    pub fn allocate_contiguous(&mut self, bytes: u64) -> u32 {
+    pub fn allocate_contiguous(&mut self, bytes: u64) -> Result<u32, FileStructureError> {
         let sectors = required_sectors(bytes);
         let allocation = self.next_free;
-        self.next_free += sectors;
-        allocation
+        self.next_free = allocation
+            .checked_add(sectors)
+            .ok_or(FileStructureError::ImageTooLarge)?;
+        Ok(allocation)
     }
 }
-- 
2.43.0


From bec3bc984e99c9a5fe69f9cb9c0b04a081b762a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:25 +0000
Subject: [PATCH 14/65] fix: measure the length of file names as stored on
 disk, not in UTF-8

---
 xdvdfs-core/src/layout.rs       | 6 +++---
 xdvdfs-core/src/write/dirtab.rs | 9 +++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index b2c81cf..9a5f8d3 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -109,7 +109,8 @@ pub struct DirectoryEntryNode {
 #[cfg(feature = "write")]
 pub struct DirectoryEntryData {
     pub node: DirectoryEntryDiskData,
-    pub name: arrayvec::ArrayString<256>,
+    // 255 characters on disk may take up to three bytes each in UTF-8
+    pub name: arrayvec::ArrayString<768>,
 }
 
 impl DiskRegion {
@@ -321,8 +322,7 @@ impl DirectoryEntryNode {
 #[cfg(feature = "write")]
 impl DirectoryEntryData {
     pub fn name_slice(&self) -> &[u8] {
-        let name_len = self.node.filename_length as usize;
-        &self.name.as_str().as_bytes()[0..name_len]
+        self.name.as_str().as_bytes()
     }
 
     pub fn name_str(&self) -> &str {
diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index da3b73f..9d4b158 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -49,19 +49,16 @@ impl DirectoryEntryTableWriter {
     ) -> Result<(), FileStructureError> {
         let name =
             arrayvec::ArrayString::from(name).map_err(|_| FileStructureError::FileNameTooLong)?;
-        let filename_length = name
-            .len()
-            .try_into()
-            .map_err(|_| FileStructureError::FileNameTooLong)?;
 
-        let dirent = DirectoryEntryData {
+        let mut dirent = DirectoryEntryData {
             node: DirectoryEntryDiskData {
                 data: DiskRegion { sector: 0, size },
                 attributes,
-                filename_length,
+                filename_length: 0,
             },
             name,
         };
+        dirent.node.filename_length = dirent.encode_name(&mut [0; 256])?;
 
         self.size = None;
         self.table
-- 
2.43.0


From 8b1ece7c1a280690c8a6e9839d30de581c279d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:26 +0000
Subject: [PATCH 15/65] fix: report errors in writing the last buffered data of
 an image

---
 xdvdfs-cli/src/cmd_build_image.rs | 2 ++
 xdvdfs-cli/src/cmd_pack.rs        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 90dddbc..d53091f 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -244,6 +244,8 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     write::img::create_xdvdfs_image(&mut remapfs, &mut image, progress_callback).await?;
 
+    // Dropping the writer would ignore an error in writing the last buffered data
+    image.flush()?;
     Ok(())
 }
 
diff --git a/xdvdfs-cli/src/cmd_pack.rs b/xdvdfs-cli/src/cmd_pack.rs
index 2605c8e..9c396b2 100644
--- a/xdvdfs-cli/src/cmd_pack.rs
+++ b/xdvdfs-cli/src/cmd_pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 use anyhow::bail;
@@ -99,5 +100,7 @@ pub async fn cmd_pack_path(source_path: &Path, image_path: &Path) -> Result<(),
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    // Dropping the writer would ignore an error in writing the last buffered data
+    image.flush()?;
     Ok(())
 }
-- 
2.43.0


From 6840bfa93320c07d66989d4a46d563fdcfb28407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:26 +0000
Subject: [PATCH 16/65] fix: fail to unpack files that a truncated image does
 not contain completely

---
 xdvdfs-cli/src/cmd_unpack.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 23e6a85..13e95a0 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,4 +1,5 @@
 use crate::img::open_image_raw;
+use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
@@ -55,9 +56,11 @@ async fn copyout_directory(
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
-                let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file)?;
+                let size = dirent.node.dirent.data.size as u64;
+                let mut data = std::io::BufReader::new(data.take(size));
+                if std::io::copy(&mut data, &mut file)? != size {
+                    bail!("Image ends before the end of {}", file_name);
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
@@ -141,9 +144,11 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
     let data = img.get_ref().get_ref().try_clone();
     match data {
         Ok(data) => {
-            let data = data.take(dirent.node.dirent.data.size as u64);
-            let mut data = std::io::BufReader::new(data);
-            std::io::copy(&mut data, &mut file)?;
+            let size = dirent.node.dirent.data.size as u64;
+            let mut data = std::io::BufReader::new(data.take(size));
+            if std::io::copy(&mut data, &mut file)? != size {
+                bail!("Image ends before the end of {}", args.src_path);
+            }
         }
         Err(err) => {
             eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From 444ea41d7be2449de7e4d9ea08f01cc01aa6604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:26 +0000
Subject: [PATCH 17/65] fix: refuse to extract file names that lead out of the
 destination directory

---
 xdvdfs-cli/src/cmd_unpack.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 13e95a0..f6be95c 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -5,11 +5,21 @@ use maybe_async::maybe_async;
 use std::{
     fs::File,
     io::{BufReader, Read, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
     str::FromStr,
 };
 use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
 
+/// Returns whether `name` names an entry of the directory it is joined to,
+/// and does not lead anywhere else (such as `..`, or an absolute path)
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(
+        (components.next(), components.next()),
+        (Some(Component::Normal(component)), None) if component == name
+    )
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
@@ -18,6 +28,14 @@ async fn copyout_directory(
 ) -> Result<(), anyhow::Error> {
     let tree = dirtab.file_tree(img).await?;
 
+    for (_, dirent) in &tree {
+        let file_name = dirent.name_str::<std::io::Error>()?;
+        let is_dir = dirent.node.dirent.is_directory();
+        if !is_plain_file_name(&file_name) && (is_dir || !file_name.is_empty()) {
+            bail!("Image contains an invalid file name: {:?}", file_name);
+        }
+    }
+
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
-- 
2.43.0


From f5a9efe6c67f5f21dc3aed7d143f28a0cd84b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 18/65] fix: print child offsets of large directory tables
 without overflow

---
 xdvdfs-cli/src/cmd_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 4c7c796..948c65b 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -42,7 +42,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Left Child Offset:",
         if dirent.node.left_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.left_entry_offset)
+            format!("{} bytes", 4 * dirent.node.left_entry_offset as u32)
         } else {
             String::from("None")
         }
@@ -51,7 +51,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Right Child Offset:",
         if dirent.node.right_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.right_entry_offset)
+            format!("{} bytes", 4 * dirent.node.right_entry_offset as u32)
         } else {
             String::from("None")
         }
-- 
2.43.0


From f20fba0c8434f0f1c2adccd20225d04cca0e813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 19/65] fix: accept any spelling of the root directory

---
 xdvdfs-cli/src/cmd_info.rs   | 2 +-
 xdvdfs-cli/src/cmd_read.rs   | 2 +-
 xdvdfs-cli/src/cmd_unpack.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 948c65b..4c2625f 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -91,7 +91,7 @@ pub async fn cmd_info(args: &InfoArgs) -> Result<(), anyhow::Error> {
 
     match &args.file_entry {
         Some(path) => {
-            if path == "/" {
+            if path.trim_matches('/').is_empty() {
                 print_subdir(&volume.root_table, &mut img).await?;
                 return Ok(());
             }
diff --git a/xdvdfs-cli/src/cmd_read.rs b/xdvdfs-cli/src/cmd_read.rs
index 00b2d1e..45d822b 100644
--- a/xdvdfs-cli/src/cmd_read.rs
+++ b/xdvdfs-cli/src/cmd_read.rs
@@ -25,7 +25,7 @@ pub async fn cmd_ls(args: &LsArgs) -> Result<(), anyhow::Error> {
     let mut img = open_image(Path::new(&args.image_path)).await?;
     let volume = xdvdfs::read::read_volume(&mut img).await?;
 
-    let dirent_table = if args.path == "/" {
+    let dirent_table = if args.path.trim_matches('/').is_empty() {
         volume.root_table
     } else {
         volume
diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index f6be95c..2f5e4c8 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -136,7 +136,7 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
     let dest_path = Path::new(&args.dest_path);
 
     let volume = xdvdfs::read::read_volume(&mut img).await?;
-    if args.src_path == "/" {
+    if args.src_path.trim_matches('/').is_empty() {
         return copyout_directory(&mut img, dest_path, &volume.root_table).await;
     }
 
-- 
2.43.0


From 5c6ee77c0d150f4925fc3cdb10e88b6353bb6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 20/65] fix: accept output files in further -c arguments of
 extract-xiso

---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 45d2fec..3750dae 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -117,7 +117,7 @@ async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> a
 
         if i + 2 < rest.len() && rest[i + 2] != "-c" {
             tasks.push((&rest[i + 1], Some(rest[i + 2].clone())));
-            i += 2;
+            i += 3;
         } else {
             tasks.push((&rest[i + 1], None));
             i += 2;
-- 
2.43.0


From 038e9822b4e1c5d6d96bcedbfc01872304f214f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 21/65] fix: put the rewritten image inside the directory given
 to extract-xiso -d

---
 xdvdfs-cli/src/exiso_compat.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 3750dae..5d3ab80 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -179,9 +179,7 @@ async fn exiso_repack(
 
         // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => {
-                absolute_path(Path::new(d))?.with_file_name(source_path.file_name().unwrap())
-            }
+            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
             None => source_path,
         };
 
-- 
2.43.0


From cc50ca94abfb1a3d5121946c3f6f3d32df4043af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 22/65] fix: resolve symlinks and parent references in paths of
 outputs that do not exist yet

---
 xdvdfs-cli/src/img.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index f570ff6..82860f4 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -80,11 +80,32 @@ pub async fn open_image(
 /// otherwise returns the result of std::path::absolute
 /// std::fs::canonicalize will follow symlinks, but seems to error on some filesystems
 /// on Windows. Following symlinks is desirable, so it is attempted first
+///
+/// If only the last component of the path does not exist yet, then the path that would
+/// be created is returned.
 pub fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
-    match std::fs::canonicalize(path) {
-        Err(_) => std::path::absolute(path),
-        ok => ok,
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
     }
+
+    let mut path = std::path::absolute(path)?;
+    // Same limit on dangling symlinks to follow as most systems have
+    for _ in 0..40 {
+        let (Some(parent), Some(file_name)) = (path.parent(), path.file_name()) else {
+            break;
+        };
+        let Ok(parent) = std::fs::canonicalize(parent) else {
+            break;
+        };
+
+        path = parent.join(file_name);
+        match std::fs::read_link(&path) {
+            Ok(target) => path = parent.join(target),
+            Err(_) => break,
+        }
+    }
+
+    Ok(path)
 }
 
 /// Similar to Path::with_extension, but will not overwrite the extension for
-- 
2.43.0


From b509e485386033400e45fcb2aa8297128d36278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 23/65] fix: refuse to overwrite the image that is being
 unpacked

---
 xdvdfs-cli/src/cmd_unpack.rs | 38 +++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 2f5e4c8..7fd428d 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,4 +1,4 @@
-use crate::img::open_image_raw;
+use crate::img::{absolute_path, open_image_raw};
 use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
@@ -20,9 +20,24 @@ fn is_plain_file_name(name: &str) -> bool {
     )
 }
 
+/// Creates or replaces a file, unless it is the image that is being read
+fn create_output_file(image_path: &Path, file_path: &Path) -> Result<File, anyhow::Error> {
+    if file_path.exists() && absolute_path(file_path)? == absolute_path(image_path)? {
+        bail!("Extracting {} would overwrite the image", file_path.display());
+    }
+
+    let file = File::options()
+        .write(true)
+        .truncate(true)
+        .create(true)
+        .open(file_path)?;
+    Ok(file)
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
+    image_path: &Path,
     dest_dir: &Path,
     dirtab: &DirectoryEntryTable,
 ) -> Result<(), anyhow::Error> {
@@ -60,11 +75,7 @@ async fn copyout_directory(
             continue;
         }
 
-        let mut file = File::options()
-            .write(true)
-            .truncate(true)
-            .create(true)
-            .open(file_path)?;
+        let mut file = create_output_file(image_path, &file_path)?;
 
         if dirent.node.dirent.is_empty() {
             continue;
@@ -114,7 +125,8 @@ pub async fn cmd_unpack(args: &UnpackArgs) -> Result<(), anyhow::Error> {
     let mut img = open_image_raw(Path::new(&args.image_path)).await?;
     let volume = xdvdfs::read::read_volume(&mut img).await?;
 
-    copyout_directory(&mut img, &target_dir, &volume.root_table).await
+    let image_path = Path::new(&args.image_path);
+    copyout_directory(&mut img, image_path, &target_dir, &volume.root_table).await
 }
 
 #[derive(Args)]
@@ -137,7 +149,8 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
 
     let volume = xdvdfs::read::read_volume(&mut img).await?;
     if args.src_path.trim_matches('/').is_empty() {
-        return copyout_directory(&mut img, dest_path, &volume.root_table).await;
+        let image_path = Path::new(&args.image);
+        return copyout_directory(&mut img, image_path, dest_path, &volume.root_table).await;
     }
 
     let dirent = volume
@@ -145,14 +158,11 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
         .walk_path(&mut img, &args.src_path)
         .await?;
     if let Some(table) = dirent.node.dirent.dirent_table() {
-        return copyout_directory(&mut img, dest_path, &table).await;
+        let image_path = Path::new(&args.image);
+        return copyout_directory(&mut img, image_path, dest_path, &table).await;
     }
 
-    let mut file = File::options()
-        .write(true)
-        .truncate(true)
-        .create(true)
-        .open(&args.dest_path)?;
+    let mut file = create_output_file(Path::new(&args.image), dest_path)?;
 
     if dirent.node.dirent.is_empty() {
         return Ok(());
-- 
2.43.0


From 01784b7a1284210e85e54cf7af3d4124a94dc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 24/65] fix: report errors in writing the last data of a
 compressed image

---
 xdvdfs-cli/src/cmd_compress.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 68b55da..8d82f5a 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -22,7 +22,9 @@ pub struct CompressArgs {
 
 struct SplitStdFs;
 
-type BufFile = std::io::BufWriter<std::fs::File>;
+// The output seeks before every write, so that a buffer would not save any
+// system call, but would delay errors until after the last chance to report them
+type OutputFile = std::fs::File;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -33,14 +35,12 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, OutputFile> for SplitStdFs {
+    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutputFile, std::io::Error> {
+        std::fs::File::create(name)
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: OutputFile) {}
 }
 
 fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
-- 
2.43.0


From ae0e150719d2ffa6abe7cf546fe6a10f735ec84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 25/65] fix: write compressed images to the requested directory

---
 xdvdfs-cli/src/cmd_compress.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 8d82f5a..c23abc7 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -20,7 +20,9 @@ pub struct CompressArgs {
     image_path: Option<String>,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    directory: PathBuf,
+}
 
 // The output seeks before every write, so that a buffer would not save any
 // system call, but would delay errors until after the last chance to report them
@@ -37,7 +39,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, OutputFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutputFile, std::io::Error> {
-        std::fs::File::create(name)
+        std::fs::File::create(self.directory.join(name))
     }
 
     async fn close(&mut self, _: OutputFile) {}
@@ -74,7 +76,13 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         ));
     }
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, image_path);
+    let split_fs = SplitStdFs {
+        directory: image_path
+            .parent()
+            .map(|p| p.to_path_buf())
+            .unwrap_or_default(),
+    };
+    let mut output = ciso::split::SplitOutput::new(split_fs, image_path);
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
-- 
2.43.0


From e8120d96276402977194cdd424596029e98c644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 26/65] fix: recognise every spelling of an output path that is
 or lies inside the source to compress

---
 xdvdfs-cli/src/cmd_compress.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index c23abc7..923facf 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -54,7 +54,7 @@ fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
 
 #[maybe_async]
 pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
-    let source_path = PathBuf::from(&args.source_path);
+    let source_path = absolute_path(Path::new(&args.source_path))?;
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
@@ -66,11 +66,12 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
 
     // This is unlikely to happen, since compressed input is unsupported
     // and this will fail anyway, but we check to avoid truncating the input accidentally
-    if image_path.exists() && absolute_path(&image_path)? == source_path {
+    let first_part = image_path.with_extension("1.cso");
+    if first_part.exists() && absolute_path(&first_part)? == source_path {
         return Err(anyhow::anyhow!("Source and destination paths are the same"));
     }
 
-    if image_path.starts_with(&source_path) {
+    if absolute_path(&first_part)?.starts_with(&source_path) {
         return Err(anyhow::anyhow!(
             "Destination path is contained by source path"
         ));
-- 
2.43.0


From 775d90ad71fc0c7c66337296377c7ae945f3d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 27/65] fix: respect the output option of build-image

---
 xdvdfs-cli/src/cmd_build_image.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index d53091f..f55fbeb 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -199,6 +199,7 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
             .as_ref()
             .and_then(|spec| spec.metadata.as_ref())
             .and_then(|meta| meta.output.as_ref());
+        let output_path = args.meta_output.as_ref().or(output_path);
 
         if let Some(output) = output_path {
             source_path.join(output)
-- 
2.43.0


From d63a8201f6f1044247ead60f1bae49b948f9ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 28/65] fix: refuse to overwrite a file that build-image is
 about to pack

---
 xdvdfs-cli/src/cmd_build_image.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index f55fbeb..c4dbf82 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -9,7 +9,7 @@ use xdvdfs::write::{
     img::ProgressInfo,
 };
 
-use crate::img::with_extension;
+use crate::img::{absolute_path, with_extension};
 
 #[derive(Args)]
 #[command(
@@ -220,6 +220,14 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         return Ok(());
     }
 
+    // The output may be inside of the source directory, but must not be packed into itself
+    let absolute_image_path = absolute_path(&image_path)?;
+    for (host, _) in remapfs.dump() {
+        if absolute_path(&host.as_path_buf(&source_path))? == absolute_image_path {
+            return Err(anyhow!("Output image is one of the files to pack"));
+        }
+    }
+
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
-- 
2.43.0


From e0d1cfd6b50cf9d6ac84c2f959ab10653c040bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 29/65] fix: read compressed images in whole sectors and check
 for short reads and the end of the image

---
 xdvdfs-cli/src/img.rs | 61 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index 82860f4..f27c7fb 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -2,11 +2,31 @@ use ciso::read::CSOReader;
 use maybe_async::maybe_async;
 use std::{
     fs::File,
-    io::BufReader,
+    io::{BufReader, Read, Seek, SeekFrom},
     path::{Path, PathBuf},
 };
 use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper};
 
+const CSO_SECTOR_SIZE: u64 = 2048;
+
+/// Input file of a CSO image, which always reads the requested
+/// number of bytes or fails
+struct CSOFile(BufReader<File>);
+
+#[maybe_async]
+impl ciso::read::Read for CSOFile {
+    type ReadError = std::io::Error;
+
+    async fn size(&mut self) -> Result<u64, std::io::Error> {
+        self.0.seek(SeekFrom::End(0))
+    }
+
+    async fn read(&mut self, pos: u64, buf: &mut [u8]) -> Result<(), std::io::Error> {
+        self.0.seek(SeekFrom::Start(pos))?;
+        self.0.read_exact(buf)
+    }
+}
+
 pub struct CSOBlockDevice<R: ciso::read::Read<ReadError = std::io::Error>> {
     inner: CSOReader<std::io::Error, R>,
 }
@@ -19,13 +39,34 @@ where
     type ReadError = std::io::Error;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), std::io::Error> {
-        self.inner
-            .read_offset(offset, buffer)
-            .await
-            .map_err(|e| match e {
-                ciso::layout::Error::Other(e) => e,
-                e => std::io::Error::new(std::io::ErrorKind::Other, e),
-            })
+        let end = offset.checked_add(buffer.len() as u64);
+        if !end.is_some_and(|end| end <= self.inner.file_size()) {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+
+        // The reader only handles requests for whole sectors
+        let mut sector = [0u8; CSO_SECTOR_SIZE as usize];
+        let mut position = offset;
+        let mut buffer = buffer;
+        while !buffer.is_empty() {
+            let sector_offset = (position % CSO_SECTOR_SIZE) as usize;
+            let len = std::cmp::min(buffer.len(), sector.len() - sector_offset);
+
+            self.inner
+                .read_offset(position - sector_offset as u64, &mut sector)
+                .await
+                .map_err(|e| match e {
+                    ciso::layout::Error::Other(e) => e,
+                    e => std::io::Error::new(std::io::ErrorKind::Other, e),
+                })?;
+
+            let (dest, rest) = buffer.split_at_mut(len);
+            dest.copy_from_slice(&sector[sector_offset..(sector_offset + len)]);
+            buffer = rest;
+            position += len as u64;
+        }
+
+        Ok(())
     }
 }
 
@@ -53,7 +94,7 @@ pub async fn open_image(
                 }
 
                 let part = std::io::BufReader::new(std::fs::File::open(part)?);
-                files.push(part);
+                files.push(CSOFile(part));
             }
 
             if files.is_empty() {
@@ -63,7 +104,7 @@ pub async fn open_image(
             Box::from(ciso::split::SplitFileReader::new(files).await?)
         } else {
             let file = std::io::BufReader::new(std::fs::File::open(path)?);
-            Box::from(file)
+            Box::from(CSOFile(file))
         };
 
         let reader = ciso::read::CSOReader::new(reader).await?;
-- 
2.43.0


From 9b241d2a655cd580c32627cf11faaa4b6a2a4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 30/65] fix: report names that do not exist in a mounted image
 as missing, not as I/O errors

---
 xdvdfs-fsd/src/img_fs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 6112fc9..d7f28b9 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -212,6 +212,10 @@ impl fuser::Filesystem for FuseFilesystem {
         let dirent = self.rt.block_on(dirtab.walk_path(&mut self.device, name));
         let dirent = match dirent {
             Ok(dirent) => dirent,
+            Err(xdvdfs::util::Error::DoesNotExist | xdvdfs::util::Error::DirectoryEmpty) => {
+                reply.error(libc::ENOENT);
+                return;
+            }
             Err(_) => {
                 reply.error(libc::EIO);
                 return;
-- 
2.43.0


From 43255ff51c27c51ec6cc98de74ff81dc96a170df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 31/65] fix: refuse to read directories of a mounted image as
 files

---
 xdvdfs-fsd/src/img_fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index d7f28b9..0f3ce2d 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -299,6 +299,11 @@ impl fuser::Filesystem for FuseFilesystem {
             }
         };
 
+        if dirent.node.dirent.is_directory() {
+            reply.error(libc::EISDIR);
+            return;
+        }
+
         if offset < 0 {
             reply.error(libc::EINVAL);
             return;
-- 
2.43.0


From 6ac3d021578cd7dffea201f9a2523c0ca0359c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 32/65] fix: send the entries that fit when a directory reply
 has no room for . or ..

---
 xdvdfs-fsd/src/img_fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 0f3ce2d..da9c592 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -369,11 +369,13 @@ impl fuser::Filesystem for FuseFilesystem {
 
         // Increment idx + 1 because 0 is special in FUSE
         if offset == 0 && reply.add(ino, idx + 1, fuser::FileType::Directory, ".") {
+            reply.ok();
             return;
         }
         idx += 1;
 
         if offset <= 1 && reply.add(ino, idx + 1, fuser::FileType::Directory, "..") {
+            reply.ok();
             return;
         }
         idx += 1;
-- 
2.43.0


From bac5586b5e1b31cae79095a44d22ec7c814cf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:50 +0000
Subject: [PATCH 33/65] fix: report success from the mount launcher only once
 the filesystem is mounted

---
 xdvdfs-fsd/src/daemonize.rs | 22 ++++++++++------------
 xdvdfs-fsd/src/img_fs.rs    | 24 +++++++++++++++++++++++-
 xdvdfs-fsd/src/main.rs      |  4 ++--
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/xdvdfs-fsd/src/daemonize.rs b/xdvdfs-fsd/src/daemonize.rs
index cb6b7a8..bc459b4 100644
--- a/xdvdfs-fsd/src/daemonize.rs
+++ b/xdvdfs-fsd/src/daemonize.rs
@@ -8,14 +8,6 @@ type Inner = ();
 
 pub struct Daemonize(Inner, bool);
 
-impl Drop for Daemonize {
-    fn drop(&mut self) {
-        if !self.1 {
-            self.finish_impl().unwrap();
-        }
-    }
-}
-
 impl Daemonize {
     pub fn finish(mut self) -> anyhow::Result<()> {
         if self.1 {
@@ -33,8 +25,9 @@ impl Daemonize {
     /// Fork the daemon off of the parent
     /// This function will never return in the parent,
     /// and will return a Daemonize handle to the child.
-    /// The parent will wait for the child to drop, or
-    /// to call `finish()` before exiting.
+    /// The parent will wait for the child to call `finish()`
+    /// before exiting successfully. If the child drops the handle
+    /// or exits without doing so, the parent exits with an error.
     /// Safety: Unsafe when called in multithreaded context.
     pub unsafe fn fork() -> anyhow::Result<Daemonize> {
         use nix::unistd;
@@ -48,9 +41,14 @@ impl Daemonize {
                 // Wait for message on pipe, then exit
                 std::mem::drop(w);
                 let mut buf = [0];
-                unistd::read(r.as_raw_fd(), &mut buf)?;
+                let len = loop {
+                    match unistd::read(r.as_raw_fd(), &mut buf) {
+                        Err(nix::errno::Errno::EINTR) => continue,
+                        res => break res?,
+                    }
+                };
                 std::mem::drop(r);
-                std::process::exit(0);
+                std::process::exit(if len == 0 { 1 } else { 0 });
             }
             unistd::ForkResult::Child => {
                 std::mem::drop(r);
diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index da9c592..32c96e9 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -1,4 +1,4 @@
-use log::{info, log_enabled, Level};
+use log::{info, log_enabled, warn, Level};
 use std::{
     collections::HashMap,
     convert::Infallible,
@@ -9,6 +9,7 @@ use std::{
     time::{Duration, SystemTime},
 };
 
+use crate::daemonize::Daemonize;
 use tokio::runtime::Runtime;
 use xdvdfs::{
     blockdev::OffsetWrapper,
@@ -30,6 +31,7 @@ pub struct FuseFilesystem {
     volume: VolumeDescriptor,
     rt: Runtime,
     cache: FuseFilesystemCache,
+    daemonize: Option<Daemonize>,
 }
 
 // An INode can resolve to either a non-root entry,
@@ -120,9 +122,15 @@ impl FuseFilesystem {
             src_crtime,
             volume,
             cache: FuseFilesystemCache::new(),
+            daemonize: None,
         })
     }
 
+    /// Release the parent process once the filesystem is mounted
+    pub fn finish_daemonize_on_mount(&mut self, daemonize: Daemonize) {
+        self.daemonize = Some(daemonize);
+    }
+
     pub fn lookup_dirent_by_inode(&self, inode: u64) -> INodeLookupResult {
         if inode == 1 {
             return INodeLookupResult::RootEntry;
@@ -185,6 +193,20 @@ impl FuseFilesystem {
 }
 
 impl fuser::Filesystem for FuseFilesystem {
+    fn init(
+        &mut self,
+        _req: &fuser::Request<'_>,
+        _config: &mut fuser::KernelConfig,
+    ) -> Result<(), libc::c_int> {
+        if let Some(daemonize) = self.daemonize.take() {
+            if let Err(err) = daemonize.finish() {
+                warn!("Failed to notify parent process: {err}");
+            }
+        }
+
+        Ok(())
+    }
+
     fn lookup(
         &mut self,
         req: &fuser::Request<'_>,
diff --git a/xdvdfs-fsd/src/main.rs b/xdvdfs-fsd/src/main.rs
index ab849fb..366ec8d 100644
--- a/xdvdfs-fsd/src/main.rs
+++ b/xdvdfs-fsd/src/main.rs
@@ -111,9 +111,9 @@ fn mount_image_file(
         .transpose()?;
 
     let rt = Runtime::new()?;
-    let fs = FuseFilesystem::new(src, metadata, rt)?;
+    let mut fs = FuseFilesystem::new(src, metadata, rt)?;
     if let Some(dm) = dm {
-        dm.finish()?;
+        fs.finish_daemonize_on_mount(dm);
     }
     fuser::mount2(fs, mount_point, &mount_opts)?;
     Ok(())
-- 
2.43.0


From 9fef06591b40ecb1bbf0b743d723f7875bc6e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:32 +0000
Subject: [PATCH 34/65] fix: do not take an unreadable source directory for a
 spec file in build-image

---
 xdvdfs-cli/src/cmd_build_image.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index c4dbf82..adb648f 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -142,7 +142,13 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         std::env::current_dir()?
     };
 
-    let (spec_path, source_path) = if source_path.is_dir() {
+    let is_dir = match std::fs::metadata(&source_path) {
+        Ok(meta) => meta.is_dir(),
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => false,
+        Err(err) => return Err(err.into()),
+    };
+
+    let (spec_path, source_path) = if is_dir {
         (source_path.join("xdvdfs.toml"), source_path)
     } else {
         let source = source_path
-- 
2.43.0


From 6264c7e6c8989787c36abedd8e1c9adbfd1e966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:14 +0000
Subject: [PATCH 35/65] fix: recognise a cyclic directory lookup early,
 whatever the size of the table

---
 xdvdfs-core/src/read.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 4a33f28..3351f64 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -185,9 +185,13 @@ impl DirectoryEntryTable {
 
         let mut offset = self.offset(0)?;
 
-        // The table has at most one entry per four bytes, any longer search
-        // is going around in circles
-        for _ in 0..self.region.size.div_ceil(4) {
+        // Coming back to an earlier entry means that the search is going around
+        // in circles. It is enough to remember one entry, at intervals that double.
+        let mut checkpoint = offset;
+        let mut steps = 0u32;
+        let mut interval = 1;
+
+        loop {
             let dirent = read_dirent(dev, offset).await?;
             let dirent = dirent.ok_or(util::Error::DoesNotExist)?;
             let dirent_name = dirent.name_str()?;
@@ -208,9 +212,17 @@ impl DirectoryEntryTable {
             }
 
             offset = self.offset(4 * next_offset as u64)?;
-        }
+            if offset == checkpoint {
+                return Err(util::Error::InvalidDirectoryTable);
+            }
 
-        Err(util::Error::InvalidDirectoryTable)
+            steps += 1;
+            if steps == interval {
+                checkpoint = offset;
+                steps = 0;
+                interval *= 2;
+            }
+        }
     }
 
     /// Retrieves the directory entry node corresponding to the provided path,
-- 
2.43.0


From 65ef498de54c349d7d47ea0d69ee8d66b78d8096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 36/65] fix: do not take another volume for the right one when
 a read fails while locating the partition

---
 xdvdfs-core/src/blockdev.rs | 21 ++++++++++++++++-----
 xdvdfs-core/src/read.rs     |  3 +--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 858e2fb..79b00d9 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -5,11 +5,12 @@ use maybe_async::maybe_async;
 
 use core::error::Error;
 
+// In ascending order, see OffsetWrapper::new
 const XDVD_OFFSETS: &[u64] = &[
     0,         // RAW XISO
-    405798912, // XGD1
-    265879552, // XGD2
     34078720,  // XGD3
+    265879552, // XGD2
+    405798912, // XGD1
 ];
 
 /// Trait for read operations on some block device containing an XDVDFS filesystem
@@ -154,12 +155,22 @@ where
             offset: 0,
         };
 
+        // A device that is too short for one offset is also too short for the
+        // offsets after it, so finding a volume after a read has failed means that
+        // the failure was a real error and may have hidden the right volume.
+        let mut read_error = None;
         for offset in XDVD_OFFSETS {
             s.offset = *offset;
 
-            let vol = crate::read::read_volume(&mut s).await;
-            if vol.is_ok() {
-                return Ok(s);
+            match crate::read::read_volume(&mut s).await {
+                Ok(_) => {
+                    return match read_error {
+                        Some(e) => Err(crate::util::Error::IOError(e)),
+                        None => Ok(s),
+                    }
+                }
+                Err(crate::util::Error::IOError(e)) => read_error = read_error.or(Some(e)),
+                Err(_) => {}
             }
         }
 
diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3351f64..40a6602 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -100,8 +100,7 @@ pub async fn read_volume<BDR: BlockDeviceRead>(
 ) -> Result<VolumeDescriptor, util::Error<BDR::ReadError>> {
     let mut buffer = [0; core::mem::size_of::<VolumeDescriptor>()];
     dev.read(layout::SECTOR_SIZE as u64 * 32, &mut buffer)
-        .await
-        .map_err(|_| util::Error::InvalidVolume)?;
+        .await?;
 
     let volume =
         VolumeDescriptor::deserialize(&buffer).map_err(util::Error::SerializationFailed)?;
-- 
2.43.0


From 046e7ff2480d0cc4d5dc1f5627d8bfe30bdaee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:36 +0000
Subject: [PATCH 37/65] fix: do not substitute captures in the names that map
 rules have already inserted

---
 xdvdfs-core/src/write/fs/remap.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 8305b05..8134070 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -229,12 +229,20 @@ where
                     continue;
                 }
 
-                let mut rewrite = cfg.map_rules[idx].1.clone();
-                let match_indices = Self::find_match_indices(&rewrite)?;
+                // Only the rule itself is searched for substitutions, matched host
+                // names may contain anything
+                let mut rule = cfg.map_rules[idx].1.as_str();
+                let match_indices = Self::find_match_indices(rule)?;
+                let mut rewrite = String::new();
                 for index in match_indices {
                     let replace = matched.get(index).unwrap_or("");
-                    rewrite = rewrite.replace(&alloc::format!("{{{index}}}"), replace);
+                    if let Some((before, after)) = rule.split_once(&alloc::format!("{{{index}}}")) {
+                        rewrite.push_str(before);
+                        rewrite.push_str(replace);
+                        rule = after;
+                    }
                 }
+                rewrite.push_str(rule);
 
                 // If this path matched a prefix (e.g. the rule "bin") and has a suffix (e.g.
                 // "/default.xbe"), then we need to re-add the suffix to the rewritten prefix
-- 
2.43.0


From ec905c660ef9edb152c349424926a60854235d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 38/65] fix: keep leading dots of names in the image paths of
 map rules

---
 xdvdfs-core/src/write/fs/remap.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 8134070..90c6305 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -253,9 +253,8 @@ where
 
                 let rewrite = PathVec::from_iter(
                     rewrite
-                        .trim_start_matches('.')
-                        .trim_start_matches('/')
-                        .split('/'),
+                        .split('/')
+                        .skip_while(|component| matches!(*component, "" | "." | "..")),
                 );
                 rewritten_path = Some(rewrite);
             }
-- 
2.43.0


From 5f72fd36a089b489ad7b14dd5cc8dec1a11a1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:32 +0000
Subject: [PATCH 39/65] fix: refuse to generate an image spec from several map
 rules with one host path

---
 xdvdfs-cli/src/cmd_build_image.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index adb648f..b9d6301 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -280,10 +280,15 @@ pub async fn cmd_image_spec(args: &ImageSpecArgs) -> Result<(), anyhow::Error> {
                 return Err(anyhow!("Map rule \"{host}\" must have an image path unless it is an exclusion rule (starting with '!')"));
             }
 
-            map_rules.insert(
+            let replaced = map_rules.insert(
                 host.to_owned(),
                 toml::Value::String(image.map(|s| s.to_owned()).unwrap_or_default()),
             );
+            if replaced.is_some() {
+                return Err(anyhow!(
+                    "Map rule \"{host}\" is given more than once, which an image spec cannot represent"
+                ));
+            }
         }
 
         Some(map_rules)
-- 
2.43.0


From 11c453b050146437cae8336e634367461416dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 40/65] fix: keep the text after a second colon in map rules
 given on the command line

---
 xdvdfs-cli/src/cmd_build_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index b9d6301..687c637 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -169,7 +169,7 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     if let Some(rules) = &args.map_rules {
         for rule in rules.iter() {
-            let mut split = rule.split(":");
+            let mut split = rule.splitn(2, ':');
             let Some(host) = split.next() else {
                 return Err(anyhow!("Map rule cannot be empty"));
             };
@@ -271,7 +271,7 @@ pub async fn cmd_image_spec(args: &ImageSpecArgs) -> Result<(), anyhow::Error> {
     let map_rules = if let Some(rules) = &from_args.map_rules {
         let mut map_rules = toml::Table::default();
         for rule in rules.iter() {
-            let mut split = rule.split(":");
+            let mut split = rule.splitn(2, ':');
             let Some(host) = split.next() else {
                 return Err(anyhow!("Map rule cannot be empty"));
             };
-- 
2.43.0


From ed9c133afdd1e42db4b2e195c1eab12079b765df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:05 +0000
Subject: [PATCH 41/65] fix: accept `-c DIR -c DIR` without file names in
 extract-xiso create mode

---
 xdvdfs-cli/src/exiso_compat.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 5d3ab80..af80905 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -20,6 +20,8 @@ pub enum EXMode {
     )]
     C {
         dir: String,
+
+        #[arg(allow_hyphen_values = true)]
         file: Option<String>,
 
         #[arg(allow_hyphen_values = true, trailing_var_arg = true)]
@@ -97,9 +99,22 @@ async fn exiso_create_single(dir: &String, file: &Option<String>) -> anyhow::Res
 #[maybe_async]
 async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> anyhow::Result<()> {
     let mut tasks = Vec::new();
-    tasks.push((dir, file.clone()));
-
     let mut i = 0;
+
+    // Without a file name, the next `-c` is found in its place
+    let args: Vec<String> = file.iter().chain(rest).cloned().collect();
+    let rest = &args;
+    if rest.first().is_some_and(|arg| arg != "-c") {
+        if rest[0].starts_with('-') {
+            bail!("Unexpected argument `{}`", rest[0]);
+        }
+
+        tasks.push((dir, rest.first().cloned()));
+        i += 1;
+    } else {
+        tasks.push((dir, None));
+    }
+
     while i < rest.len() {
         if rest[i] != "-c" {
             bail!(
-- 
2.43.0


From 3b61b08ec515ad77dcc34670ebc7e6583be322cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:24 +0000
Subject: [PATCH 42/65] fix: do not overwrite one image while rewriting another
 in extract-xiso mode

---
 xdvdfs-cli/src/exiso_compat.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index af80905..0855016 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -181,6 +181,7 @@ async fn exiso_repack(
 ) -> anyhow::Result<()> {
     use crate::cmd_pack::cmd_pack_path;
 
+    let mut tasks = Vec::new();
     for xiso in xiso_list {
         let source_path = absolute_path(Path::new(&xiso))?;
         let metadata = std::fs::metadata(&source_path)?;
@@ -188,16 +189,34 @@ async fn exiso_repack(
             bail!("Repack input must be a file");
         }
 
-        // Move input to `input.old`
         let renamed_input_path = with_extension(&source_path, "old", false);
-        std::fs::rename(&source_path, &renamed_input_path)?;
-
-        // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
-            None => source_path,
+            Some(d) => absolute_path(&Path::new(d).join(source_path.file_name().unwrap()))?,
+            None => source_path.clone(),
         };
 
+        tasks.push((source_path, renamed_input_path, dest_path));
+    }
+
+    // None of the images may be overwritten by what is done to another one
+    for (i, (source_path, renamed_input_path, dest_path)) in tasks.iter().enumerate() {
+        for (j, (other_source, other_renamed, other_dest)) in tasks.iter().enumerate() {
+            let other = [other_source, other_renamed, other_dest];
+            if i != j && (other.contains(&renamed_input_path) || other.contains(&dest_path)) {
+                bail!(
+                    "Rewriting {} would overwrite {}",
+                    source_path.display(),
+                    other_source.display()
+                );
+            }
+        }
+    }
+
+    for (source_path, renamed_input_path, dest_path) in tasks {
+        // Move input to `input.old`
+        std::fs::rename(&source_path, &renamed_input_path)?;
+
+        // Pack using `input.old` as input, and source path as output
         cmd_pack_path(&renamed_input_path, &dest_path).await?;
 
         if delete {
-- 
2.43.0


From 37c54370fe1f14bb325dcd692c86c5e6c87d696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:43 +0000
Subject: [PATCH 43/65] fix: do not overwrite an image that is still to be
 extracted in extract-xiso mode

---
 xdvdfs-cli/src/cmd_unpack.rs   | 49 +++++++++++++++++++++++-----------
 xdvdfs-cli/src/exiso_compat.rs |  9 +++----
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 7fd428d..4a055f8 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -20,10 +20,18 @@ fn is_plain_file_name(name: &str) -> bool {
     )
 }
 
-/// Creates or replaces a file, unless it is the image that is being read
-fn create_output_file(image_path: &Path, file_path: &Path) -> Result<File, anyhow::Error> {
-    if file_path.exists() && absolute_path(file_path)? == absolute_path(image_path)? {
-        bail!("Extracting {} would overwrite the image", file_path.display());
+/// Creates or replaces a file, unless it is one of the images that are being read
+fn create_output_file(images: &[PathBuf], file_path: &Path) -> Result<File, anyhow::Error> {
+    if file_path.exists() {
+        let absolute_file_path = absolute_path(file_path)?;
+        for image in images {
+            if absolute_file_path == absolute_path(image)? {
+                bail!(
+                    "Extracting {} would overwrite the image",
+                    file_path.display()
+                );
+            }
+        }
     }
 
     let file = File::options()
@@ -37,7 +45,7 @@ fn create_output_file(image_path: &Path, file_path: &Path) -> Result<File, anyho
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
-    image_path: &Path,
+    images: &[PathBuf],
     dest_dir: &Path,
     dirtab: &DirectoryEntryTable,
 ) -> Result<(), anyhow::Error> {
@@ -75,7 +83,7 @@ async fn copyout_directory(
             continue;
         }
 
-        let mut file = create_output_file(image_path, &file_path)?;
+        let mut file = create_output_file(images, &file_path)?;
 
         if dirent.node.dirent.is_empty() {
             continue;
@@ -114,19 +122,29 @@ pub struct UnpackArgs {
 
 #[maybe_async]
 pub async fn cmd_unpack(args: &UnpackArgs) -> Result<(), anyhow::Error> {
-    let target_dir = match &args.path {
+    let images = [PathBuf::from(&args.image_path)];
+    unpack_image(&args.image_path, &args.path, &images).await
+}
+
+/// Unpacks an image without overwriting any of `images`
+#[maybe_async]
+pub async fn unpack_image(
+    image_path: &str,
+    path: &Option<String>,
+    images: &[PathBuf],
+) -> Result<(), anyhow::Error> {
+    let target_dir = match path {
         Some(path) => PathBuf::from_str(path).unwrap(),
         None => {
-            let os_path = PathBuf::from_str(&args.image_path).unwrap();
+            let os_path = PathBuf::from_str(image_path).unwrap();
             PathBuf::from(os_path.file_name().unwrap()).with_extension("")
         }
     };
 
-    let mut img = open_image_raw(Path::new(&args.image_path)).await?;
+    let mut img = open_image_raw(Path::new(image_path)).await?;
     let volume = xdvdfs::read::read_volume(&mut img).await?;
 
-    let image_path = Path::new(&args.image_path);
-    copyout_directory(&mut img, image_path, &target_dir, &volume.root_table).await
+    copyout_directory(&mut img, images, &target_dir, &volume.root_table).await
 }
 
 #[derive(Args)]
@@ -145,12 +163,12 @@ pub struct CopyOutArgs {
 #[maybe_async]
 pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
     let mut img = open_image_raw(Path::new(&args.image)).await?;
+    let images = [PathBuf::from(&args.image)];
     let dest_path = Path::new(&args.dest_path);
 
     let volume = xdvdfs::read::read_volume(&mut img).await?;
     if args.src_path.trim_matches('/').is_empty() {
-        let image_path = Path::new(&args.image);
-        return copyout_directory(&mut img, image_path, dest_path, &volume.root_table).await;
+        return copyout_directory(&mut img, &images, dest_path, &volume.root_table).await;
     }
 
     let dirent = volume
@@ -158,11 +176,10 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
         .walk_path(&mut img, &args.src_path)
         .await?;
     if let Some(table) = dirent.node.dirent.dirent_table() {
-        let image_path = Path::new(&args.image);
-        return copyout_directory(&mut img, image_path, dest_path, &table).await;
+        return copyout_directory(&mut img, &images, dest_path, &table).await;
     }
 
-    let mut file = create_output_file(Path::new(&args.image), dest_path)?;
+    let mut file = create_output_file(&images, dest_path)?;
 
     if dirent.node.dirent.is_empty() {
         return Ok(());
diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 0855016..cf34dfd 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -161,13 +161,10 @@ async fn exiso_list(xiso_list: &Vec<String>) -> anyhow::Result<()> {
 
 #[maybe_async]
 async fn exiso_extract(xiso_list: &Vec<String>, directory: &Option<String>) -> anyhow::Result<()> {
-    use crate::cmd_unpack::{cmd_unpack, UnpackArgs};
+    use crate::cmd_unpack::unpack_image;
+    let images: Vec<PathBuf> = xiso_list.iter().map(PathBuf::from).collect();
     for xiso in xiso_list {
-        cmd_unpack(&UnpackArgs {
-            image_path: xiso.clone(),
-            path: directory.clone(),
-        })
-        .await?;
+        unpack_image(xiso, directory, &images).await?;
     }
 
     Ok(())
-- 
2.43.0


From 696342e1a569a6f7ba4e5d094c710fc46c5e65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:23 +0000
Subject: [PATCH 44/65] fix: accept `.` and a bare spec file name as the source
 of build-image

---
 xdvdfs-cli/src/cmd_build_image.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 687c637..e059f75 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -155,6 +155,12 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
             .parent()
             .ok_or(anyhow!("Invalid source path"))?
             .to_path_buf();
+        // The parent of a bare file name is the current directory
+        let source = if source.as_os_str().is_empty() {
+            PathBuf::from(".")
+        } else {
+            source
+        };
         (source_path, source)
     };
 
@@ -209,8 +215,11 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
         if let Some(output) = output_path {
             source_path.join(output)
-        } else {
+        } else if source_path.file_name().is_some() {
             with_extension(&source_path, "xiso.iso", true)
+        } else {
+            // Paths such as `.` do not end in the name of the directory
+            with_extension(&absolute_path(&source_path)?, "xiso.iso", true)
         }
     };
 
-- 
2.43.0


From 68bac408d00cc4de1ab91eecb25f01f6d0450e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 45/65] fix: report errors of the desktop app's operations
 instead of success

---
 xdvdfs-desktop/src/compress.rs | 28 +++++++++++++++++-----------
 xdvdfs-desktop/src/pack.rs     | 29 ++++++++++++++++-------------
 xdvdfs-desktop/src/unpack.rs   | 33 ++++++++++++++++++++-------------
 3 files changed, 53 insertions(+), 37 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index bcfdc58..4b27c5a 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -45,6 +45,10 @@ pub async fn compress_image(
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    compress(window, source_path, dest_path).await.err()
+}
+
+async fn compress(window: Window, source_path: String, dest_path: String) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -80,7 +84,7 @@ pub async fn compress_image(
             .expect("should be able to send event")
     };
 
-    let meta = std::fs::metadata(&source_path).ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = write::fs::StdFilesystem::create(&source_path);
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
@@ -89,34 +93,36 @@ pub async fn compress_image(
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await?;
         let mut fs = write::fs::XDVDFSFilesystem::new(source)
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
         let mut slbfs: BufFileSectorLinearFs = write::fs::SectorLinearBlockFilesystem::new(&mut fs);
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 5ab8a01..0eac826 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -3,6 +3,10 @@ use tauri::Window;
 
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
+    pack(window, source_path, dest_path).await.err()
+}
+
+async fn pack(window: Window, source_path: String, dest_path: String) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -11,8 +15,7 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
         .truncate(true)
         .create(true)
         .open(dest_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+        .map_err(|e| e.to_string())?;
     let mut image = std::io::BufWriter::with_capacity(1024 * 1024, image);
 
     let progress_callback = |pi| {
@@ -21,31 +24,31 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
             .expect("should be able to send event");
     };
 
-    let meta = std::fs::metadata(&source_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = xdvdfs::write::fs::StdFilesystem::create(&source_path);
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await?;
         let mut fs =
             xdvdfs::write::fs::XDVDFSFilesystem::<_, _, xdvdfs::write::fs::StdIOCopier<_, _>>::new(
                 source,
             )
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index caee664..3082f28 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -10,15 +10,22 @@ pub async fn unpack_image(
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    unpack(window, source_path, dest_path).await.err()
+}
+
+async fn unpack(window: Window, source_path: String, dest_path: String) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let img = std::fs::File::options().read(true).open(source_path).ok()?;
+    let img = std::fs::File::options()
+        .read(true)
+        .open(source_path)
+        .map_err(|e| e.to_string())?;
     let img = std::io::BufReader::new(img);
-    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img).await.ok()?;
+    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img).await?;
 
-    let volume = xdvdfs::read::read_volume(&mut img).await.ok()?;
-    let tree = volume.root_table.file_tree(&mut img).await.ok()?;
+    let volume = xdvdfs::read::read_volume(&mut img).await?;
+    let tree = volume.root_table.file_tree(&mut img).await?;
 
     window
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
@@ -27,7 +34,7 @@ pub async fn unpack_image(
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_path.join(dir);
-        let file_name = dirent.name_str::<std::io::Error>().ok()?;
+        let file_name = dirent.name_str::<std::io::Error>()?;
         let file_path = dirname.join(&*file_name);
 
         window
@@ -37,9 +44,9 @@ pub async fn unpack_image(
             )
             .expect("should be able to send event");
 
-        std::fs::create_dir_all(dirname).ok()?;
+        std::fs::create_dir_all(dirname).map_err(|e| e.to_string())?;
         if dirent.node.dirent.is_directory() {
-            std::fs::create_dir(file_path).ok()?;
+            std::fs::create_dir(file_path).map_err(|e| e.to_string())?;
             continue;
         }
 
@@ -52,27 +59,27 @@ pub async fn unpack_image(
             .truncate(true)
             .create(true)
             .open(file_path)
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         if dirent.node.dirent.is_empty() {
             continue;
         }
 
-        dirent.node.dirent.seek_to(&mut img).ok()?;
+        dirent.node.dirent.seek_to(&mut img)?;
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
                 let data = data.take(dirent.node.dirent.data.size as u64);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).ok()?;
+                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-                let data = dirent.node.dirent.read_data_all(&mut img).await.ok()?;
-                file.write_all(&data).ok()?;
+                let data = dirent.node.dirent.read_data_all(&mut img).await?;
+                file.write_all(&data).map_err(|e| e.to_string())?;
             }
         }
     }
 
-    None
+    Ok(())
 }
-- 
2.43.0


From a6e23c4e91476239442b4a1026d09b508492240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:29 +0000
Subject: [PATCH 46/65] fix: report errors in writing the last data of an image
 in the desktop app

---
 xdvdfs-desktop/src/compress.rs | 14 +++++++-------
 xdvdfs-desktop/src/pack.rs     |  4 +++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 4b27c5a..38bba49 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -18,7 +18,9 @@ pub enum CisoProgressInfo {
 
 struct SplitStdFs;
 
-type BufFile = std::io::BufWriter<std::fs::File>;
+// The output seeks before every write, so that a buffer would not save any
+// system call, but would delay errors until after the last chance to report them
+type OutputFile = std::fs::File;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -29,14 +31,12 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, OutputFile> for SplitStdFs {
+    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutputFile, std::io::Error> {
+        std::fs::File::create(name)
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: OutputFile) {}
 }
 
 #[tauri::command]
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 0eac826..678fcdf 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::PathBuf;
 use tauri::Window;
 
@@ -50,5 +51,6 @@ async fn pack(window: Window, source_path: String, dest_path: String) -> Result<
         return Err("Symlink image sources are not supported".to_string());
     }
 
-    Ok(())
+    // Dropping the writer would ignore an error in writing the last buffered data
+    image.flush().map_err(|e| e.to_string())
 }
-- 
2.43.0


From 9f54abdbb95d9c58c261f8b33a247a10d42bbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:29 +0000
Subject: [PATCH 47/65] fix: write compressed images to the selected directory
 in the desktop app

---
 xdvdfs-desktop/src/compress.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 38bba49..9ccf7d7 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -16,7 +16,9 @@ pub enum CisoProgressInfo {
     Finished,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    directory: PathBuf,
+}
 
 // The output seeks before every write, so that a buffer would not save any
 // system call, but would delay errors until after the last chance to report them
@@ -33,7 +35,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, OutputFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutputFile, std::io::Error> {
-        std::fs::File::create(name)
+        std::fs::File::create(self.directory.join(name))
     }
 
     async fn close(&mut self, _: OutputFile) {}
@@ -52,7 +54,14 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, dest_path);
+    let name = source_path
+        .file_name()
+        .map(PathBuf::from)
+        .ok_or("Failed to get file name from source path")?;
+    let split_fs = SplitStdFs {
+        directory: dest_path,
+    };
+    let mut output = ciso::split::SplitOutput::new(split_fs, name);
 
     let progress_callback = |pi: ProgressInfo| {
         window
-- 
2.43.0


From 163cae062c6be2228e4f8a612d09642d7dbf0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 48/65] fix: refuse to extract file names that lead out of the
 destination in the desktop app

---
 xdvdfs-desktop/src/unpack.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 3082f28..80ad772 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -1,9 +1,19 @@
 use std::io::Read;
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use tauri::Window;
 use xdvdfs::write::img::ProgressInfo;
 
+/// Returns whether `name` names an entry of the directory it is joined to,
+/// and does not lead anywhere else (such as `..`, or an absolute path)
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(
+        (components.next(), components.next()),
+        (Some(Component::Normal(component)), None) if component == name
+    )
+}
+
 #[tauri::command]
 pub async fn unpack_image(
     window: Window,
@@ -27,6 +37,17 @@ async fn unpack(window: Window, source_path: String, dest_path: String) -> Resul
     let volume = xdvdfs::read::read_volume(&mut img).await?;
     let tree = volume.root_table.file_tree(&mut img).await?;
 
+    for (_, dirent) in &tree {
+        let file_name = dirent.name_str::<std::io::Error>()?;
+        let is_dir = dirent.node.dirent.is_directory();
+        if !is_plain_file_name(&file_name) && (is_dir || !file_name.is_empty()) {
+            return Err(format!(
+                "Image contains an invalid file name: {:?}",
+                file_name
+            ));
+        }
+    }
+
     window
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
         .expect("should be able to send event");
-- 
2.43.0


From 13bc9261e5ec932025d2a4a10089b5acefa73984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 49/65] fix: fail to unpack files that a truncated image does
 not contain completely in the desktop app

---
 xdvdfs-desktop/src/unpack.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 80ad772..2282cd2 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -90,9 +90,12 @@ async fn unpack(window: Window, source_path: String, dest_path: String) -> Resul
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
-                let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
+                let size = dirent.node.dirent.data.size as u64;
+                let mut data = std::io::BufReader::new(data.take(size));
+                let copied = std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
+                if copied != size {
+                    return Err(format!("Image ends before the end of {}", file_name));
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From f6e63519ed59e01783b2f751c079985b08f88ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:51 +0000
Subject: [PATCH 50/65] fix: do not overwrite the source of an operation in the
 desktop app

---
 xdvdfs-desktop/src/compress.rs |  5 +++++
 xdvdfs-desktop/src/pack.rs     | 22 +++++++++++++++++++++-
 xdvdfs-desktop/src/unpack.rs   | 11 +++++++++--
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 9ccf7d7..8314043 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -58,6 +58,11 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
         .file_name()
         .map(PathBuf::from)
         .ok_or("Failed to get file name from source path")?;
+    let first_part = dest_path.join(name.with_extension("1.cso"));
+    if crate::pack::overwrites_source(&source_path, &first_part).map_err(|e| e.to_string())? {
+        return Err("Destination path is the source path, or inside of it".to_string());
+    }
+
     let split_fs = SplitStdFs {
         directory: dest_path,
     };
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 678fcdf..71f222c 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -1,7 +1,23 @@
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use tauri::Window;
 
+/// Returns whether writing to `dest_path` would overwrite `source_path`,
+/// or a file inside of it
+pub(crate) fn overwrites_source(source_path: &Path, dest_path: &Path) -> std::io::Result<bool> {
+    // std::fs::canonicalize seems to error on some filesystems on Windows
+    let resolve = |path: &Path| std::fs::canonicalize(path).or_else(|_| std::path::absolute(path));
+
+    let source_path = resolve(source_path)?;
+    let dest_path = std::path::absolute(dest_path)?;
+    let dest_path = match (dest_path.parent(), dest_path.file_name()) {
+        (Some(parent), Some(file_name)) if !dest_path.exists() => resolve(parent)?.join(file_name),
+        _ => resolve(&dest_path)?,
+    };
+
+    Ok(dest_path.starts_with(source_path))
+}
+
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
     pack(window, source_path, dest_path).await.err()
@@ -11,6 +27,10 @@ async fn pack(window: Window, source_path: String, dest_path: String) -> Result<
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
+    if overwrites_source(&source_path, &dest_path).map_err(|e| e.to_string())? {
+        return Err("Destination path is the source path, or inside of it".to_string());
+    }
+
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 2282cd2..ad97df3 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -24,12 +24,12 @@ pub async fn unpack_image(
 }
 
 async fn unpack(window: Window, source_path: String, dest_path: String) -> Result<(), String> {
-    let source_path = PathBuf::from(source_path);
+    let image_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
     let img = std::fs::File::options()
         .read(true)
-        .open(source_path)
+        .open(&image_path)
         .map_err(|e| e.to_string())?;
     let img = std::io::BufReader::new(img);
     let mut img = xdvdfs::blockdev::OffsetWrapper::new(img).await?;
@@ -75,6 +75,13 @@ async fn unpack(window: Window, source_path: String, dest_path: String) -> Resul
             continue;
         }
 
+        if crate::pack::overwrites_source(&image_path, &file_path).map_err(|e| e.to_string())? {
+            return Err(format!(
+                "Extracting {} would overwrite the image",
+                file_path.display()
+            ));
+        }
+
         let mut file = std::fs::File::options()
             .write(true)
             .truncate(true)
-- 
2.43.0


From a8c45e22b23e1bcd01421595cfff042b897d0900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 51/65] fix: create empty files when unpacking in the web app

---
 xdvdfs-web/src/ops/browser.rs | 38 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 6ce0341..ce074b4 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -151,27 +151,25 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                     .create_file(file_name.clone())
                     .await
                     .map_err(|_| "failed to create file")?;
-                if node.node.dirent.data.size == 0 {
-                    continue;
-                }
-
-                let offset = node.node.dirent.data.offset::<String>(0)? as f64;
-                let size = node.node.dirent.data.size as f64;
-                let data = src_file
-                    .slice_with_f64_and_f64_and_content_type(
-                        img_offset + offset,
-                        img_offset + offset + size,
-                        "application/octet-stream",
-                    )
-                    .map_err(|_| "Failed to slice")?;
-                let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
-                    .await
-                    .map_err(|_| "Failed to obtain array buffer")?;
-                let data = js_sys::Uint8Array::new(&data);
                 let writeable_stream = file.writable_stream().await?;
-                wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
-                    .await
-                    .map_err(|_| "Failed to write file")?;
+                if node.node.dirent.data.size != 0 {
+                    let offset = node.node.dirent.data.offset::<String>(0)? as f64;
+                    let size = node.node.dirent.data.size as f64;
+                    let data = src_file
+                        .slice_with_f64_and_f64_and_content_type(
+                            img_offset + offset,
+                            img_offset + offset + size,
+                            "application/octet-stream",
+                        )
+                        .map_err(|_| "Failed to slice")?;
+                    let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
+                        .await
+                        .map_err(|_| "Failed to obtain array buffer")?;
+                    let data = js_sys::Uint8Array::new(&data);
+                    wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
+                        .await
+                        .map_err(|_| "Failed to write file")?;
+                }
                 wasm_bindgen_futures::JsFuture::from(writeable_stream.close())
                     .await
                     .map_err(|_| "Failed to flush file")?;
-- 
2.43.0


From 9f3c81d5536155e04eacbd45cc961c94c6e80ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:06 +0000
Subject: [PATCH 52/65] fix: report errors in opening and closing output files
 in the web app

---
 xdvdfs-web/src/fs/ciso.rs     | 19 +++++++++++++++----
 xdvdfs-web/src/fs/mod.rs      | 13 ++++++++-----
 xdvdfs-web/src/ops/browser.rs | 10 +++++-----
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/xdvdfs-web/src/fs/ciso.rs b/xdvdfs-web/src/fs/ciso.rs
index b42c8e9..260d26c 100644
--- a/xdvdfs-web/src/fs/ciso.rs
+++ b/xdvdfs-web/src/fs/ciso.rs
@@ -1,4 +1,5 @@
 use std::ffi::OsStr;
+use std::sync::{Arc, Mutex};
 
 use async_trait::async_trait;
 use ciso::{split::SplitFilesystem, write::AsyncWriter};
@@ -8,11 +9,20 @@ use super::{FSWriteWrapper, FileSystemDirectoryHandle};
 
 pub struct CisoOutputDirectory {
     dir: FileSystemDirectoryHandle,
+    close_result: Arc<Mutex<Result<(), String>>>,
 }
 
 impl CisoOutputDirectory {
     pub fn new(dir: FileSystemDirectoryHandle) -> Self {
-        Self { dir }
+        Self {
+            dir,
+            close_result: Arc::new(Mutex::new(Ok(()))),
+        }
+    }
+
+    /// Outcome of closing the output files, which `SplitFilesystem::close` cannot return
+    pub fn close_result(&self) -> Arc<Mutex<Result<(), String>>> {
+        self.close_result.clone()
     }
 }
 
@@ -25,12 +35,13 @@ impl SplitFilesystem<String, FSWriteWrapper> for CisoOutputDirectory {
             .create_file(name.to_owned())
             .await
             .map_err(|_| "Failed to create file")?;
-        let file = FSWriteWrapper::new(&file).await;
-        Ok(file)
+        FSWriteWrapper::new(&file).await
     }
 
     async fn close(&mut self, f: FSWriteWrapper) {
-        f.close().await;
+        if let Err(e) = f.close().await {
+            *self.close_result.lock().unwrap() = Err(e);
+        }
     }
 }
 
diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index da06c30..3b44087 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -21,13 +21,16 @@ unsafe impl Send for FSWriteWrapper {}
 unsafe impl Sync for FSWriteWrapper {}
 
 impl FSWriteWrapper {
-    pub async fn new(fh: &FileSystemFileHandle) -> Self {
-        let stream = fh.writable_stream().await.unwrap();
-        Self { stream, len: 0 }
+    pub async fn new(fh: &FileSystemFileHandle) -> Result<Self, String> {
+        let stream = fh.writable_stream().await?;
+        Ok(Self { stream, len: 0 })
     }
 
-    pub async fn close(self) {
-        UnsafeJSFuture::from(self.stream.close()).await.unwrap();
+    pub async fn close(self) -> Result<(), String> {
+        UnsafeJSFuture::from(self.stream.close())
+            .await
+            .map_err(|_| "Failed to flush file")?;
+        Ok(())
     }
 }
 
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index ce074b4..09a1e8d 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -28,16 +28,14 @@ async fn pack_image_impl<T: Display, V: Display>(
     use crate::packing::{ImageCreationState, WorkflowState};
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::PackingImage));
-    let mut dest = fs::FSWriteWrapper::new(&dest).await;
+    let mut dest = fs::FSWriteWrapper::new(&dest).await?;
 
     xdvdfs::write::img::create_xdvdfs_image(fs, &mut dest, |pi| progress_callback.emit(pi))
         .await
         .map_err(|e| e.to_string())?;
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::WaitingForFlush));
-    dest.close().await;
-
-    Ok(())
+    dest.close().await
 }
 
 async fn compress_image_impl<
@@ -65,6 +63,7 @@ async fn compress_image_impl<
     state_change_callback.emit(WorkflowState::Compressing);
 
     let output = crate::fs::ciso::CisoOutputDirectory::new(dest);
+    let close_result = output.close_result();
     let mut output = ciso::split::SplitOutput::new(output, PathBuf::from(name));
     let mut input = xdvdfs::write::fs::CisoSectorInput::new(slbd, slbfs);
     ciso::write::write_ciso_image(&mut input, &mut output, |pi| {
@@ -87,7 +86,8 @@ async fn compress_image_impl<
 
     output.close().await;
 
-    Ok(())
+    let result = close_result.lock().unwrap().clone();
+    result
 }
 
 #[async_trait(?Send)]
-- 
2.43.0


From e97983469b33cc137597c15528a27f53dcd538df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 53/65] fix: fail to compress files that became shorter in the
 web app

---
 xdvdfs-web/src/fs/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index 3b44087..9b505b8 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -222,7 +222,6 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
         size: u64,
     ) -> Result<u64, String> {
         let src_node = self.walk(src).ok_or("Failed to find src")?;
-        let size = core::cmp::min(size, dest.len() as u64);
         let util::HandleType::File(ref src_fh) = src_node.handle else {
             return Err(String::from("Not a file"));
         };
@@ -232,8 +231,6 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
             .await
             .map_err(|_| "Failed to get file from handle")
             .and_then(|file| {
-                let file_size = file.size() as u64;
-                let size = core::cmp::min(file_size, size);
                 file.slice_with_f64_and_f64_and_content_type(
                     input_offset as f64,
                     input_offset as f64 + size as f64,
@@ -248,16 +245,17 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
             .map_err(|_| "failed to obtain array buffer")?;
         let slice_buf = js_sys::Uint8Array::new(&slice_buf);
 
-        // Now that we have the slice, readjust expected copy size
         let output_offset = output_offset as usize;
-        let size = core::cmp::min(dest.len() - output_offset, slice_buf.byte_length() as usize);
-        slice_buf.copy_to(&mut dest[output_offset..(output_offset + size)]);
-
-        if size != dest.len() - output_offset {
-            dest[(output_offset + size)..].fill(0);
+        let dest = dest
+            .get_mut(output_offset..)
+            .and_then(|dest| dest.get_mut(..(size as usize)))
+            .ok_or("Output is out of bounds")?;
+        if slice_buf.byte_length() as usize != dest.len() {
+            return Err(String::from("Not the right length"));
         }
 
-        Ok(dest.len() as u64)
+        slice_buf.copy_to(dest);
+        Ok(size)
     }
 }
 
-- 
2.43.0


From 7c7040af0d20d204fa612f5817ba16649be7bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:41 +0000
Subject: [PATCH 54/65] fix: fail instead of panicking when a file changes
 while it is packed in the web app

---
 xdvdfs-web/src/fs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index 9b505b8..5b13e43 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -198,7 +198,9 @@ impl xdvdfs::write::fs::FilesystemCopier<FSWriteWrapper> for WebFileSystem {
                 .map_err(|_| "Failed to slice file handle")
             })
             .map(|blob| (blob.size() as u64, dest.stream.write_blob(blob)))?;
-        assert_eq!(file_size, size);
+        if file_size != size {
+            return Err(String::from("Not the right length"));
+        }
 
         UnsafeJSFuture::from(write_promise)
             .await
-- 
2.43.0


From 6f9443c0e92ad57610cc760f05b7801c24d1fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:02 +0000
Subject: [PATCH 55/65] fix: report a source directory that cannot be listed in
 the web app

---
 xdvdfs-web/src/fs/mod.rs      | 6 +++---
 xdvdfs-web/src/ops/browser.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index 5b13e43..468b180 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -262,14 +262,14 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
 }
 
 impl WebFileSystem {
-    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Self {
+    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Result<Self, String> {
         let mut root = FSTree {
             subtree: BTreeMap::new(),
             handle: util::HandleType::Directory(root_handle),
         };
 
-        root.populate().await.unwrap();
-        Self(root)
+        root.populate().await?;
+        Ok(Self(root))
     }
 
     fn walk(&self, path: &PathVec) -> Option<&FSTree> {
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 09a1e8d..3b77579 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -100,7 +100,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
     ) -> Result<(), String> {
         match src {
             PickerResult::DirectoryHandle(dh) => {
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 pack_image_impl(&mut fs, dest, progress_callback, state_change_callback).await
             }
             PickerResult::FileHandle(fh) => {
@@ -194,7 +194,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
         match src {
             PickerResult::DirectoryHandle(dh) => {
                 let name = dh.name();
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 compress_image_impl(
                     &mut fs,
                     name,
-- 
2.43.0


From 2ee50c210d5a44f634c12731c3f3a03af925b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 56/65] fix: fail to unpack files that a truncated image does
 not contain completely in the web app

---
 xdvdfs-web/src/ops/browser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 3b77579..0046b40 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -166,6 +166,9 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                         .await
                         .map_err(|_| "Failed to obtain array buffer")?;
                     let data = js_sys::Uint8Array::new(&data);
+                    if data.byte_length() != node.node.dirent.data.size {
+                        return Err(format!("Image does not contain all of {file_name}"));
+                    }
                     wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
                         .await
                         .map_err(|_| "Failed to write file")?;
-- 
2.43.0


From e5e901de025a63a44420bca5da72245327592ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 57/65] fix: count buffered data in the length of a buffered
 file

---
 xdvdfs-core/src/blockdev.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 79b00d9..1f16202 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -281,6 +281,8 @@ impl BlockDeviceWrite for std::io::BufWriter<std::fs::File> {
     }
 
     async fn len(&mut self) -> Result<u64, std::io::Error> {
+        // Data that is still buffered counts, too
+        std::io::Write::flush(self)?;
         Ok(self.get_mut().metadata()?.len())
     }
 }
-- 
2.43.0


From 1090a6f93a12b2c3dbd9c8fb23db489a02760fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 58/65] fix: compress: fail if the destination names no file

'compress /' panicked on the missing default name, and destinations such
as '..' or '' would panic once the names of the parts are derived.
---
 xdvdfs-cli/src/cmd_compress.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 923facf..6ec71c4 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -58,11 +58,17 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
-    let image_path = args
-        .image_path
-        .as_ref()
-        .map(PathBuf::from)
-        .unwrap_or_else(|| get_default_image_path(&source_path, is_dir).unwrap());
+    let image_path = match &args.image_path {
+        Some(path) => PathBuf::from(path),
+        None => get_default_image_path(&source_path, is_dir).ok_or(anyhow::anyhow!(
+            "Failed to get file name from source path"
+        ))?,
+    };
+
+    // The names of the output files are derived from it
+    if image_path.file_name().is_none() {
+        return Err(anyhow::anyhow!("Destination path does not name a file"));
+    }
 
     // This is unlikely to happen, since compressed input is unsupported
     // and this will fail anyway, but we check to avoid truncating the input accidentally
-- 
2.43.0


From 5b3a5079cf44ec25624403daf893f7da1cb1159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 59/65] fix: unpack: fail if the image path names no file

'unpack ..' without a destination panicked.
---
 xdvdfs-cli/src/cmd_unpack.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 4a055f8..982807c 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -136,8 +136,10 @@ pub async fn unpack_image(
     let target_dir = match path {
         Some(path) => PathBuf::from_str(path).unwrap(),
         None => {
-            let os_path = PathBuf::from_str(image_path).unwrap();
-            PathBuf::from(os_path.file_name().unwrap()).with_extension("")
+            let file_name = Path::new(image_path)
+                .file_name()
+                .ok_or(anyhow::anyhow!("Failed to get file name from image path"))?;
+            PathBuf::from(file_name).with_extension("")
         }
     };
 
-- 
2.43.0


From ba80f80856418d778a593907def1d05feb2c9baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 60/65] fix: fsd: report that directories cannot be mounted

Mounting a directory panicked instead of ending with an error.
---
 xdvdfs-fsd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-fsd/src/main.rs b/xdvdfs-fsd/src/main.rs
index 366ec8d..3d1cf32 100644
--- a/xdvdfs-fsd/src/main.rs
+++ b/xdvdfs-fsd/src/main.rs
@@ -120,7 +120,7 @@ fn mount_image_file(
 }
 
 fn mount_pack_overlay(_mount_point: &Path, _src: &Path, _opts: &[String]) -> anyhow::Result<()> {
-    unimplemented!("Overlay filesystem is not yet implemented!")
+    bail!("Overlay filesystem is not yet implemented!")
 }
 
 pub fn run_mount_program(args: &MountArgs) -> anyhow::Result<()> {
-- 
2.43.0


From 292467c84ec2ee448bb96f7da54bbfaab27e5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 61/65] fix: remap: refuse substitution indices that overflow

A huge index in a map rule panicked.
---
 xdvdfs-core/src/write/fs/remap.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 90c6305..43bd2c6 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -28,6 +28,7 @@ struct MapEntry {
 #[derive(Debug)]
 pub enum InvalidRewriteSubstitutionKind {
     NonDigitCharacter,
+    IndexTooLarge,
     UnclosedBrace,
 }
 
@@ -49,6 +50,7 @@ impl<E: Display> RemapOverlayFilesystemBuildingError<E> {
                 idx,
                 match kind {
                     InvalidRewriteSubstitutionKind::NonDigitCharacter => "expected digit character",
+                    InvalidRewriteSubstitutionKind::IndexTooLarge => "index is too large",
                     InvalidRewriteSubstitutionKind::UnclosedBrace => "unclosed brace",
                 }
             ),
@@ -109,7 +111,7 @@ where
         rewrite: &str,
     ) -> Result<Vec<usize>, RemapOverlayFilesystemBuildingError<E>> {
         let mut match_indices: Vec<usize> = Vec::new();
-        let mut match_index = 0;
+        let mut match_index: usize = 0;
         let mut matching = false;
 
         for (idx, c) in rewrite.chars().enumerate() {
@@ -131,8 +133,16 @@ where
             }
 
             if let Some(digit) = c.to_digit(10) {
-                match_index *= 10;
-                match_index += digit as usize;
+                match_index = match_index
+                    .checked_mul(10)
+                    .and_then(|index| index.checked_add(digit as usize))
+                    .ok_or_else(|| {
+                        RemapOverlayFilesystemBuildingError::InvalidRewriteSubstitution(
+                            idx,
+                            rewrite.to_owned(),
+                            InvalidRewriteSubstitutionKind::IndexTooLarge,
+                        )
+                    })?;
                 continue;
             }
 
-- 
2.43.0


From e88b4ccbf6ed0ac218c68ea8ef4aab59b44cb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 62/65] fix: remap: resolve . and .. inside of rewritten paths

Map rules such as 'a/../b' created entries named '.' or '..' in the image.
---
 xdvdfs-core/src/write/fs/remap.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 43bd2c6..e34a372 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -261,12 +261,18 @@ where
                         alloc::format!("{}{}", rewrite.trim_end_matches('/'), suffix.as_string());
                 }
 
-                let rewrite = PathVec::from_iter(
-                    rewrite
-                        .split('/')
-                        .skip_while(|component| matches!(*component, "" | "." | "..")),
-                );
-                rewritten_path = Some(rewrite);
+                // An image cannot have entries named `.` or `..`
+                let mut components: Vec<&str> = Vec::new();
+                for component in rewrite.split('/') {
+                    match component {
+                        "" | "." => {}
+                        ".." => {
+                            components.pop();
+                        }
+                        component => components.push(component),
+                    }
+                }
+                rewritten_path = Some(PathVec::from_iter(components));
             }
 
             // If we have a valid rewritten path, we can insert it into the new filesystem
-- 
2.43.0


From 9ac16dd3c2c6282b397de1c9d557c94963a97725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 63/65] fix: web: keep the input of the unpacking page

The page gave its input away when an output was chosen, so choosing an output a second time (after the first image was unpacked, or an error) panicked.
---
 xdvdfs-web/src/unpacking.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/unpacking.rs b/xdvdfs-web/src/unpacking.rs
index 9d6a4f9..b8cc85a 100644
--- a/xdvdfs-web/src/unpacking.rs
+++ b/xdvdfs-web/src/unpacking.rs
@@ -195,7 +195,7 @@ where
                 self.workflow_state = WorkflowState::Unpacking;
 
                 wasm_bindgen_futures::spawn_local(unpack_image::<FPB, XO>(
-                    self.input_handle.take().unwrap(),
+                    FPB::clone_file_handle(self.input_handle.as_ref().unwrap()),
                     dh,
                     ctx.link().callback(WorkflowMessage::UpdateProgress),
                     ctx.link().callback(WorkflowMessage::ChangeState),
-- 
2.43.0


From 92fdc4a52e713a518bf28f06d37f3a4b2ca0522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 64/65] fix: web: no other choices while the compression page
 compresses

The buttons of the page were enabled again as soon as the compression proper began, so that a second operation could be started while the first one ran.
---
 xdvdfs-web/src/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/compress.rs b/xdvdfs-web/src/compress.rs
index 4703f7d..09cb9c7 100644
--- a/xdvdfs-web/src/compress.rs
+++ b/xdvdfs-web/src/compress.rs
@@ -190,7 +190,8 @@ where
     type Properties = ();
 
     fn view(&self, ctx: &Context<Self>) -> Html {
-        let is_packing = self.workflow_state.is_packing_and(|_| true);
+        let is_packing = self.workflow_state.is_packing_and(|_| true)
+            || self.workflow_state == WorkflowState::Compressing;
         let progress = if self.packing_file_count != 0 {
             (100 * self.packing_file_progress) / self.packing_file_count
         } else {
-- 
2.43.0


From bac84bbaa6737dd5b5858e8f181650e2e5e83693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 65/65] fix: web: inputs without a name have no suggested
 output name

The packing page panicked when the root directory was chosen as its input.
---
 xdvdfs-web/src/packing.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xdvdfs-web/src/packing.rs b/xdvdfs-web/src/packing.rs
index e5725ee..eb959f7 100644
--- a/xdvdfs-web/src/packing.rs
+++ b/xdvdfs-web/src/packing.rs
@@ -253,7 +253,7 @@ where
                         <div>
                             <FilePickerButton<FPB>
                                 kind={PickerKind::SaveFile(
-                                    self.input_name().map(|name|
+                                    self.input_name().and_then(|name|
                                         with_extension(
                                             Path::new(&name),
                                             "xiso.iso",
@@ -262,7 +262,6 @@ where
                                         .file_name()
                                         .and_then(|name| name.to_str())
                                         .map(|name| name.to_owned())
-                                        .expect("file name should be defined")
                                         ))}
                                 button_text={"Save image"}
                                 disabled={is_packing}
-- 
2.43.0

