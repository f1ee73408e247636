From 62b390da6c6020448ec881efe2ae967588d56893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:29 +0000
Subject: [PATCH 01/53] fix: allow any character in prefix tree paths

PathPrefixTree indexed a 256 entry array by character, panicking for names with
characters above U+00FF such as the euro sign.
---
 xdvdfs-core/src/write/fs/mod.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/mod.rs b/xdvdfs-core/src/write/fs/mod.rs
index aef75a2..44ed081 100644
--- a/xdvdfs-core/src/write/fs/mod.rs
+++ b/xdvdfs-core/src/write/fs/mod.rs
@@ -5,6 +5,7 @@ use std::format;
 use std::path::{Path, PathBuf};
 
 use alloc::boxed::Box;
+use alloc::collections::BTreeMap;
 use alloc::string::String;
 use alloc::vec::Vec;
 
@@ -187,7 +188,7 @@ impl<E, BDW: BlockDeviceWrite> FilesystemCopier<BDW> for Box<dyn FilesystemCopie
 
 #[derive(Clone, Debug)]
 struct PathPrefixTree<T> {
-    children: [Option<Box<PathPrefixTree<T>>>; 256],
+    children: BTreeMap<char, Box<PathPrefixTree<T>>>,
     pub record: Option<(T, Box<PathPrefixTree<T>>)>,
 }
 
@@ -204,12 +205,10 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
         // Expand until we find a node with a record
         while let Some(subtree) = self.queue.pop() {
             let (name, node) = &subtree;
-            for (ch, child) in node.children.iter().enumerate() {
-                if let Some(child) = child {
-                    let mut name = name.to_owned();
-                    name.push(ch as u8 as char);
-                    self.queue.push((name, child));
-                }
+            for (ch, child) in node.children.iter() {
+                let mut name = name.to_owned();
+                name.push(*ch);
+                self.queue.push((name, child));
             }
 
             if let Some(record) = &node.record {
@@ -224,7 +223,7 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
 impl<T> Default for PathPrefixTree<T> {
     fn default() -> Self {
         Self {
-            children: [const { None }; 256],
+            children: BTreeMap::new(),
             record: None,
         }
     }
@@ -238,8 +237,7 @@ impl<T> PathPrefixTree<T> {
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
             for ch in component.chars() {
-                let next = &node.children[ch as usize];
-                node = next.as_ref()?;
+                node = node.children.get(&ch)?;
             }
 
             if component_iter.peek().is_some() {
@@ -259,8 +257,7 @@ impl<T> PathPrefixTree<T> {
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
             for ch in component.chars() {
-                let next = &mut node.children[ch as usize];
-                node = next.as_mut()?;
+                node = node.children.get_mut(&ch)?;
             }
 
             if component_iter.peek().is_some() {
@@ -279,8 +276,7 @@ impl<T> PathPrefixTree<T> {
 
         for component in path.iter() {
             for ch in component.chars() {
-                let next = &node.children[ch as usize];
-                node = next.as_ref()?;
+                node = node.children.get(&ch)?;
             }
 
             let record = &node.record;
@@ -295,8 +291,7 @@ impl<T> PathPrefixTree<T> {
         let mut node = self;
 
         for ch in tail.chars() {
-            let next = &mut node.children[ch as usize];
-            node = next.get_or_insert_with(|| Box::new(Self::default()));
+            node = node.children.entry(ch).or_default();
         }
 
         node.record
-- 
2.43.0


From b7e400d3e79593adbb66fcbd9478f659d8a964b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:30 +0000
Subject: [PATCH 02/53] fix: clamp ranged copies from an image to the end of
 the file

XDVDFSFilesystem::copy_file_in only clamped the size to the file size, so a
copy starting inside the file returned bytes belonging to whatever follows it.
The sector input of the compressor relied on every copy being a full sector.
---
 xdvdfs-core/src/write/fs/sector_linear.rs | 4 +++-
 xdvdfs-core/src/write/fs/xdvdfs.rs        | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index 24af142..9d5e370 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -206,7 +206,9 @@ where
                         sector_size as u64,
                     )
                     .await?;
-                assert_eq!(bytes_read, sector_size as u64);
+                // The last sector of a file may only be partially filled,
+                // in which case the remainder of the buffer is left zeroed
+                assert!(bytes_read <= sector_size as u64);
             }
         };
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 3de5119..d769bb8 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -306,7 +306,8 @@ where
                 util::Error::NoDirent,
             ))?;
 
-        let size_to_copy = core::cmp::min(size, dirent.node.dirent.data.size as u64);
+        let available = (dirent.node.dirent.data.size as u64).saturating_sub(input_offset);
+        let size_to_copy = core::cmp::min(size, available);
         if size_to_copy == 0 {
             return Ok(0);
         }
-- 
2.43.0


From 875bf67fdd22552cbc4a9c73071783be45f94796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:48 +0000
Subject: [PATCH 03/53] fix: copy host files into slices at the requested
 offset

The slice destinations indexed the already offset slice by the output offset
again (panicking for non-zero offsets), issued a single read that may be short,
underflowed when the offset is past the end, and reported the buffer length
instead of the bytes copied.
---
 xdvdfs-core/src/write/fs/stdfs.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index f41179a..16043e1 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -121,12 +121,17 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         file.seek(SeekFrom::Start(input_offset))?;
 
         let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
+        let available = <[u8]>::len(dest).saturating_sub(output_offset);
+        let size = core::cmp::min(size, available as u64) as usize;
+        if size == 0 {
+            return Ok(0);
+        }
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
-        Ok(<[u8]>::len(dest) as u64)
+        let mut unfilled = &mut *dest;
+        let bytes_read = std::io::copy(&mut file.take(size as u64), &mut unfilled)?;
+        dest[(bytes_read as usize)..].fill(0);
+        Ok(bytes_read)
     }
 }
 
@@ -150,11 +155,16 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         file.seek(SeekFrom::Start(input_offset))?;
 
         let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
+        let available = <[u8]>::len(dest).saturating_sub(output_offset);
+        let size = core::cmp::min(size, available as u64) as usize;
+        if size == 0 {
+            return Ok(0);
+        }
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
-        Ok(<[u8]>::len(dest) as u64)
+        let mut unfilled = &mut *dest;
+        let bytes_read = std::io::copy(&mut file.take(size as u64), &mut unfilled)?;
+        dest[(bytes_read as usize)..].fill(0);
+        Ok(bytes_read)
     }
 }
-- 
2.43.0


From f12729c778f4d0e6255d144620a7a846dabd0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:48 +0000
Subject: [PATCH 04/53] fix: refuse slice reads that extend past the end

A read starting inside the slice but ending past it panicked in
copy_from_slice instead of returning OutOfBounds.
---
 xdvdfs-core/src/blockdev.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 722cf3c..b527b54 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -57,14 +57,13 @@ impl BlockDeviceRead for [u8] {
     type ReadError = OutOfBounds;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), OutOfBounds> {
-        let offset = offset as usize;
-        if offset >= self.as_ref().len() {
+        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
+        let size = <[u8]>::len(buffer);
+        if offset >= self.as_ref().len() || self.as_ref().len() - offset < size {
             return Err(OutOfBounds);
         }
 
-        let size = core::cmp::min(self.as_ref().len() - offset, <[u8]>::len(buffer));
-        let range = offset..(offset + size);
-        buffer.copy_from_slice(&self[range]);
+        buffer.copy_from_slice(&self[offset..(offset + size)]);
         Ok(())
     }
 }
-- 
2.43.0


From d84a1c04cf42013a1d62c5bce59527aee9bad16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:48 +0000
Subject: [PATCH 05/53] fix: clamp ranged file reads to the end of the file

read_data_offset returned bytes past the end of the file for reads that start
inside it, and read_data filled the whole buffer from beyond the file.
---
 xdvdfs-core/src/layout.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 6aaac26..64434c0 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -239,8 +239,11 @@ impl DirectoryEntryDiskData {
             return Ok(());
         }
 
+        let len = core::cmp::min(buf.len(), self.data.size as usize);
         let offset = self.data.offset(0)?;
-        dev.read(offset, buf).await.map_err(util::Error::IOError)?;
+        dev.read(offset, &mut buf[0..len])
+            .await
+            .map_err(util::Error::IOError)?;
         Ok(())
     }
 
@@ -273,11 +276,12 @@ impl DirectoryEntryDiskData {
         size: u64,
         offset: u64,
     ) -> Result<alloc::boxed::Box<[u8]>, util::Error<BDR::ReadError>> {
-        let size = core::cmp::min(size, self.data.size as u64);
+        let available = (self.data.size as u64).saturating_sub(offset);
+        let size = core::cmp::min(size, available);
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-        if self.data.size == 0 {
+        if size == 0 {
             return Ok(buf);
         }
 
-- 
2.43.0


From 54d7bbbd3cdb8eae2904d04f8649ea26811d7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:48 +0000
Subject: [PATCH 06/53] fix: treat any run of slashes as the root path

walk_path reached unreachable!() for paths such as "//".
---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3c827a5..b176bd0 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -217,7 +217,7 @@ impl DirectoryEntryTable {
         path: &str,
     ) -> Result<DirectoryEntryNode, util::Error<BDR::ReadError>> {
         debugln!("[walk_path] Called on {}", path);
-        if path.is_empty() || path == "/" {
+        if path.trim_start_matches('/').is_empty() {
             return Err(util::Error::NoDirent);
         }
 
-- 
2.43.0


From 6595a729ca8165a5b0ea4714719a84a09b169f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:38 +0000
Subject: [PATCH 07/53] fix: reject malformed directory structures instead of
 looping or panicking

Cycles between the entries of a table made lookup and tree walks loop forever,
cycles between directories made recursive listings and repacking unbounded, an
0xffff child offset was followed by lookups only, and an entry whose name
crosses its sector panicked in the table scan.
---
 xdvdfs-core/src/read.rs            | 27 +++++++++++++++++++++++++--
 xdvdfs-core/src/util.rs            |  2 ++
 xdvdfs-core/src/write/fs/xdvdfs.rs | 18 ++++++++++++++++++
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index b176bd0..7eeef05 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -63,7 +63,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
 
             let name_len = dirent.node.dirent.filename_length as usize;
             let name_buf = &mut dirent.name[0..name_len];
-            assert!(name_offset + name_len <= layout::SECTOR_SIZE as usize);
+            if name_offset + name_len > layout::SECTOR_SIZE as usize {
+                return Err(util::Error::InvalidDirectoryStructure);
+            }
             name_buf.copy_from_slice(&self.sector_buf[name_offset..(name_offset + name_len)]);
 
             // Dirent is valid, advance cursor before returning
@@ -180,8 +182,14 @@ impl DirectoryEntryTable {
         }
 
         let mut offset = self.offset(0)?;
+        let mut visited = alloc::collections::BTreeSet::new();
 
         loop {
+            // Malformed tables may contain cycles
+            if !visited.insert(offset) {
+                return Err(util::Error::InvalidDirectoryStructure);
+            }
+
             let dirent = read_dirent(dev, offset).await?;
             let dirent = dirent.ok_or(util::Error::DoesNotExist)?;
             let dirent_name = dirent.name_str()?;
@@ -197,7 +205,7 @@ impl DirectoryEntryTable {
                 core::cmp::Ordering::Greater => dirent.node.right_entry_offset,
             };
 
-            if next_offset == 0 {
+            if next_offset == 0 || next_offset == 0xffff {
                 return Err(util::Error::DoesNotExist);
             }
 
@@ -296,7 +304,13 @@ impl DirectoryEntryTable {
         }
 
         let mut stack = vec![0];
+        let mut visited = alloc::collections::BTreeSet::new();
         while let Some(top) = stack.pop() {
+            // Malformed tables may contain cycles
+            if !visited.insert(top) {
+                return Err(util::Error::InvalidDirectoryStructure);
+            }
+
             let offset = self.offset(top)?;
             let dirent = read_dirent(dev, offset).await?;
 
@@ -336,9 +350,18 @@ impl DirectoryEntryTable {
         let mut dirents = vec![];
 
         let mut stack = vec![(String::from(""), *self)];
+        let mut visited = alloc::collections::BTreeSet::new();
         while let Some((parent, tree)) = stack.pop() {
             debugln!("[file_tree] Descending through {}", parent);
             let children = tree.walk_dirent_tree(dev).await?;
+
+            // Only empty directories may share a table, anything
+            // else is potentially a cycle in the directory structure
+            let sector = tree.region.sector;
+            if !children.is_empty() && !visited.insert(sector) {
+                return Err(util::Error::InvalidDirectoryStructure);
+            }
+
             for child in children.iter() {
                 if let Some(dirent_table) = child.node.dirent.dirent_table() {
                     let child_name = child.name_str()?;
diff --git a/xdvdfs-core/src/util.rs b/xdvdfs-core/src/util.rs
index ef107e7..4dce83e 100644
--- a/xdvdfs-core/src/util.rs
+++ b/xdvdfs-core/src/util.rs
@@ -16,6 +16,7 @@ pub enum Error<E> {
     InvalidFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    InvalidDirectoryStructure,
 }
 
 impl<E> Error<E> {
@@ -34,6 +35,7 @@ impl<E> Error<E> {
             Self::InvalidFileName => "Invalid file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::InvalidDirectoryStructure => "Directory structure is malformed",
         }
     }
 }
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index d769bb8..38fff89 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -1,3 +1,4 @@
+use alloc::collections::BTreeMap;
 use alloc::vec::Vec;
 use core::error::Error;
 use core::fmt::Debug;
@@ -193,6 +194,9 @@ where
     volume: crate::layout::VolumeDescriptor,
     dirent_cache: PathPrefixTree<DirectoryEntryNode>,
 
+    // Maps the sectors of non-empty dirent tables to the path they were found at
+    visited_tables: BTreeMap<u32, PathVec>,
+
     w_type: core::marker::PhantomData<W>,
     copier_type: core::marker::PhantomData<Copier>,
 }
@@ -212,6 +216,7 @@ where
                 dev,
                 volume,
                 dirent_cache: PathPrefixTree::default(),
+                visited_tables: BTreeMap::new(),
                 w_type: core::marker::PhantomData,
                 copier_type: core::marker::PhantomData,
             })
@@ -278,6 +283,19 @@ where
             });
         }
 
+        // Only empty directories may share a table, anything
+        // else is potentially a cycle in the directory structure
+        if !entries.is_empty() {
+            let sector = dirtab.region.sector;
+            let visited = self
+                .visited_tables
+                .entry(sector)
+                .or_insert_with(|| dir.clone());
+            if visited != dir {
+                return Err(util::Error::InvalidDirectoryStructure);
+            }
+        }
+
         Ok(entries)
     }
 }
-- 
2.43.0


From e8e1a49349f4ccb6aa2a3c22d8251a263267941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:38 +0000
Subject: [PATCH 08/53] fix: report the position of scanned entries like tree
 walks do

DirentScanIter set the offset relative to the current sector, while every other
way of reading an entry sets its offset in the volume. Distinct entries in
different sectors could compare equal, and the same entry different.
---
 xdvdfs-core/src/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 7eeef05..9e7d8c2 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -49,7 +49,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let mut buf = [0; 0xe];
             let name_offset = self.offset + 0xe;
             buf.copy_from_slice(&self.sector_buf[self.offset..name_offset]);
-            let dirent = deserialize_dirent_node(&buf, self.offset as u64)?;
+            let dirent_offset =
+                self.sector as u64 * layout::SECTOR_SIZE as u64 + self.offset as u64;
+            let dirent = deserialize_dirent_node(&buf, dirent_offset)?;
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-- 
2.43.0


From 77df057d9ab79bbe2b90a6b318525578fa3947f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:49 +0000
Subject: [PATCH 09/53] fix: report truncated sources instead of leaving holes
 in the output

Packing ignored how many bytes were copied for each file, and extraction ignored
short copies, so a truncated image or a shrinking host file produced a
successful result with missing contents.
---
 xdvdfs-cli/src/cmd_unpack.rs | 17 +++++++++++------
 xdvdfs-core/src/write/img.rs | 22 +++++++++++++---------
 xdvdfs-core/src/write/mod.rs |  2 ++
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 23e6a85..cff5d46 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,4 +1,5 @@
 use crate::img::open_image_raw;
+use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
@@ -55,9 +56,11 @@ async fn copyout_directory(
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
-                let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file)?;
+                let size = dirent.node.dirent.data.size as u64;
+                let mut data = std::io::BufReader::new(data.take(size));
+                if std::io::copy(&mut data, &mut file)? != size {
+                    bail!("Image is truncated, failed to extract {}", file_name);
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
@@ -141,9 +144,11 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
     let data = img.get_ref().get_ref().try_clone();
     match data {
         Ok(data) => {
-            let data = data.take(dirent.node.dirent.data.size as u64);
-            let mut data = std::io::BufReader::new(data);
-            std::io::copy(&mut data, &mut file)?;
+            let size = dirent.node.dirent.data.size as u64;
+            let mut data = std::io::BufReader::new(data.take(size));
+            if std::io::copy(&mut data, &mut file)? != size {
+                bail!("Image is truncated, failed to extract {}", args.src_path);
+            }
         }
         Err(err) => {
             eprintln!("Error in fast path, falling back to slow path: {:?}", err);
diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index 4e3499e..d07a1f4 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -169,15 +169,19 @@ pub async fn create_xdvdfs_image<
             if entry.is_dir {
                 dir_sectors.insert(file_path.clone(), entry.sector);
             } else {
-                fs.copy_file_in(
-                    &file_path,
-                    image,
-                    0,
-                    entry.sector * layout::SECTOR_SIZE as u64,
-                    entry.size,
-                )
-                .await
-                .map_err(WriteError::FilesystemCopierError)?;
+                let copied = fs
+                    .copy_file_in(
+                        &file_path,
+                        image,
+                        0,
+                        entry.sector * layout::SECTOR_SIZE as u64,
+                        entry.size,
+                    )
+                    .await
+                    .map_err(WriteError::FilesystemCopierError)?;
+                if copied != entry.size {
+                    return Err(FileStructureError::UnexpectedFileSize.into());
+                }
             }
         }
     }
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index d269ecb..4441040 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -18,6 +18,7 @@ pub enum FileStructureError {
     DuplicateFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    UnexpectedFileSize,
 }
 
 #[derive(Debug)]
@@ -43,6 +44,7 @@ impl FileStructureError {
             Self::DuplicateFileName => "Duplicate file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::UnexpectedFileSize => "File contents do not match the expected file size",
         }
     }
 }
-- 
2.43.0


From d71d7105adb51ef7f528262937a23f3020e2ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 10/53] fix: refuse to extract entries outside of the
 destination

Names from the image were joined to the destination as is, so an absolute name
or one containing .. components wrote anywhere on the host.
---
 xdvdfs-cli/src/cmd_unpack.rs | 16 +++++++++++++++-
 xdvdfs-desktop/src/unpack.rs | 19 ++++++++++++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index cff5d46..97a206d 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -5,11 +5,21 @@ use maybe_async::maybe_async;
 use std::{
     fs::File,
     io::{BufReader, Read, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
     str::FromStr,
 };
 use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
 
+/// Returns true if joining `name` to a directory always
+/// yields a direct child of that directory
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(component)), None) => component == name,
+        _ => false,
+    }
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
@@ -22,6 +32,10 @@ async fn copyout_directory(
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
         let file_name = dirent.name_str::<std::io::Error>()?;
+        if !file_name.is_empty() && !is_plain_file_name(&file_name) {
+            bail!("Refusing to extract entry with invalid name {:?}", file_name);
+        }
+
         let file_path = dirname.join(&*file_name);
         let is_dir = dirent.node.dirent.is_directory();
 
diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index caee664..8391dee 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -1,9 +1,19 @@
 use std::io::Read;
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use tauri::Window;
 use xdvdfs::write::img::ProgressInfo;
 
+/// Returns true if joining `name` to a directory always
+/// yields a direct child of that directory
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(component)), None) => component == name,
+        _ => false,
+    }
+}
+
 #[tauri::command]
 pub async fn unpack_image(
     window: Window,
@@ -28,6 +38,13 @@ pub async fn unpack_image(
         let dir = dir.trim_start_matches('/');
         let dirname = dest_path.join(dir);
         let file_name = dirent.name_str::<std::io::Error>().ok()?;
+        if !file_name.is_empty() && !is_plain_file_name(&file_name) {
+            return Some(format!(
+                "Refusing to extract entry with invalid name {:?}",
+                file_name
+            ));
+        }
+
         let file_path = dirname.join(&*file_name);
 
         window
-- 
2.43.0


From 3885aafc93dc28eae473e588895102ec4d52c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 11/53] fix: create the destination when extracting an empty
 directory

Copying out an empty directory, or unpacking an empty image, reported success
without creating anything.
---
 xdvdfs-cli/src/cmd_unpack.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 97a206d..be25dae 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -28,6 +28,7 @@ async fn copyout_directory(
 ) -> Result<(), anyhow::Error> {
     let tree = dirtab.file_tree(img).await?;
 
+    std::fs::create_dir_all(dest_dir)?;
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
-- 
2.43.0


From afb12adbce13aa4ea19e3be777371735869f9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 12/53] fix: account for buffered data in the length of
 buffered files

---
 xdvdfs-core/src/blockdev.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index b527b54..4264baa 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -271,6 +271,8 @@ impl BlockDeviceWrite for std::io::BufWriter<std::fs::File> {
     }
 
     async fn len(&mut self) -> Result<u64, std::io::Error> {
+        // Buffered writes may not have been accounted for by the file yet
+        std::io::Write::flush(self)?;
         Ok(self.get_mut().metadata()?.len())
     }
 }
-- 
2.43.0


From 1c7e5fd233ec6e4d65dcd15d0746b4faf3594cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 13/53] fix: report the length of an offset device relative to
 its offset

---
 xdvdfs-core/src/blockdev.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 4264baa..d52f04a 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -205,7 +205,8 @@ where
     }
 
     async fn len(&mut self) -> Result<u64, Self::WriteError> {
-        self.inner.len().await
+        let len = self.inner.len().await?;
+        Ok(len.saturating_sub(self.offset))
     }
 }
 
-- 
2.43.0


From 86d20d96e6d86d3345860f8395ef8aa11e37d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:31 +0000
Subject: [PATCH 14/53] fix: report errors from the last buffered writes

The output of pack, build-image and compress was only flushed on drop, where
errors (such as a full disk) are ignored.
---
 xdvdfs-cli/src/cmd_build_image.rs |  2 ++
 xdvdfs-cli/src/cmd_compress.rs    | 14 +++++++-------
 xdvdfs-cli/src/cmd_pack.rs        |  3 +++
 xdvdfs-desktop/src/compress.rs    | 14 +++++++-------
 4 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 90dddbc..13a1055 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -244,6 +244,8 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     write::img::create_xdvdfs_image(&mut remapfs, &mut image, progress_callback).await?;
 
+    // Errors are ignored if the buffer is flushed on drop
+    image.flush()?;
     Ok(())
 }
 
diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 68b55da..9e221e3 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -22,7 +22,9 @@ pub struct CompressArgs {
 
 struct SplitStdFs;
 
-type BufFile = std::io::BufWriter<std::fs::File>;
+// Every write seeks first, so buffering has no effect other than
+// hiding errors when the last write is flushed on drop
+type OutFile = std::fs::File;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -33,14 +35,12 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, OutFile> for SplitStdFs {
+    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutFile, std::io::Error> {
+        std::fs::File::create(name)
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: OutFile) {}
 }
 
 fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
diff --git a/xdvdfs-cli/src/cmd_pack.rs b/xdvdfs-cli/src/cmd_pack.rs
index 2605c8e..1ffaf38 100644
--- a/xdvdfs-cli/src/cmd_pack.rs
+++ b/xdvdfs-cli/src/cmd_pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 use anyhow::bail;
@@ -99,5 +100,7 @@ pub async fn cmd_pack_path(source_path: &Path, image_path: &Path) -> Result<(),
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    // Errors are ignored if the buffer is flushed on drop
+    image.flush()?;
     Ok(())
 }
diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index bcfdc58..d364c86 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -18,7 +18,9 @@ pub enum CisoProgressInfo {
 
 struct SplitStdFs;
 
-type BufFile = std::io::BufWriter<std::fs::File>;
+// Every write seeks first, so buffering has no effect other than
+// hiding errors when the last write is flushed on drop
+type OutFile = std::fs::File;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -29,14 +31,12 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, OutFile> for SplitStdFs {
+    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutFile, std::io::Error> {
+        std::fs::File::create(name)
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: OutFile) {}
 }
 
 #[tauri::command]
-- 
2.43.0


From 3dbe9c5f8fe12022177189ba979ec7a343fce5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 15/53] fix: report failures from the desktop commands

---
 xdvdfs-desktop/src/compress.rs | 36 +++++++++++++-------
 xdvdfs-desktop/src/pack.rs     | 35 ++++++++++++--------
 xdvdfs-desktop/src/unpack.rs   | 60 ++++++++++++++++++++++++++--------
 3 files changed, 93 insertions(+), 38 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index d364c86..f6cfe0e 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -45,6 +45,16 @@ pub async fn compress_image(
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    compress_image_impl(window, source_path, dest_path)
+        .await
+        .err()
+}
+
+async fn compress_image_impl(
+    window: Window,
+    source_path: String,
+    dest_path: String,
+) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -80,7 +90,7 @@ pub async fn compress_image(
             .expect("should be able to send event")
     };
 
-    let meta = std::fs::metadata(&source_path).ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = write::fs::StdFilesystem::create(&source_path);
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
@@ -89,34 +99,38 @@ pub async fn compress_image(
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source)
+            .await
+            .map_err(|e| e.to_string())?;
         let mut fs = write::fs::XDVDFSFilesystem::new(source)
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
         let mut slbfs: BufFileSectorLinearFs = write::fs::SectorLinearBlockFilesystem::new(&mut fs);
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 5ab8a01..86552a5 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -3,6 +3,14 @@ use tauri::Window;
 
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
+    pack_image_impl(window, source_path, dest_path).await.err()
+}
+
+async fn pack_image_impl(
+    window: Window,
+    source_path: String,
+    dest_path: String,
+) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -11,8 +19,7 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
         .truncate(true)
         .create(true)
         .open(dest_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+        .map_err(|e| e.to_string())?;
     let mut image = std::io::BufWriter::with_capacity(1024 * 1024, image);
 
     let progress_callback = |pi| {
@@ -21,31 +28,33 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
             .expect("should be able to send event");
     };
 
-    let meta = std::fs::metadata(&source_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = xdvdfs::write::fs::StdFilesystem::create(&source_path);
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source)
+            .await
+            .map_err(|e| e.to_string())?;
         let mut fs =
             xdvdfs::write::fs::XDVDFSFilesystem::<_, _, xdvdfs::write::fs::StdIOCopier<_, _>>::new(
                 source,
             )
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 8391dee..f1f23c2 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -20,15 +20,36 @@ pub async fn unpack_image(
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    unpack_image_impl(window, source_path, dest_path)
+        .await
+        .err()
+}
+
+async fn unpack_image_impl(
+    window: Window,
+    source_path: String,
+    dest_path: String,
+) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let img = std::fs::File::options().read(true).open(source_path).ok()?;
+    let img = std::fs::File::options()
+        .read(true)
+        .open(source_path)
+        .map_err(|e| e.to_string())?;
     let img = std::io::BufReader::new(img);
-    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img).await.ok()?;
+    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img)
+        .await
+        .map_err(|e| e.to_string())?;
 
-    let volume = xdvdfs::read::read_volume(&mut img).await.ok()?;
-    let tree = volume.root_table.file_tree(&mut img).await.ok()?;
+    let volume = xdvdfs::read::read_volume(&mut img)
+        .await
+        .map_err(|e| e.to_string())?;
+    let tree = volume
+        .root_table
+        .file_tree(&mut img)
+        .await
+        .map_err(|e| e.to_string())?;
 
     window
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
@@ -37,9 +58,11 @@ pub async fn unpack_image(
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_path.join(dir);
-        let file_name = dirent.name_str::<std::io::Error>().ok()?;
+        let file_name = dirent
+            .name_str::<std::io::Error>()
+            .map_err(|e| e.to_string())?;
         if !file_name.is_empty() && !is_plain_file_name(&file_name) {
-            return Some(format!(
+            return Err(format!(
                 "Refusing to extract entry with invalid name {:?}",
                 file_name
             ));
@@ -54,9 +77,9 @@ pub async fn unpack_image(
             )
             .expect("should be able to send event");
 
-        std::fs::create_dir_all(dirname).ok()?;
+        std::fs::create_dir_all(dirname).map_err(|e| e.to_string())?;
         if dirent.node.dirent.is_directory() {
-            std::fs::create_dir(file_path).ok()?;
+            std::fs::create_dir(file_path).map_err(|e| e.to_string())?;
             continue;
         }
 
@@ -69,27 +92,36 @@ pub async fn unpack_image(
             .truncate(true)
             .create(true)
             .open(file_path)
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         if dirent.node.dirent.is_empty() {
             continue;
         }
 
-        dirent.node.dirent.seek_to(&mut img).ok()?;
+        dirent
+            .node
+            .dirent
+            .seek_to(&mut img)
+            .map_err(|e| e.to_string())?;
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
                 let data = data.take(dirent.node.dirent.data.size as u64);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).ok()?;
+                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-                let data = dirent.node.dirent.read_data_all(&mut img).await.ok()?;
-                file.write_all(&data).ok()?;
+                let data = dirent
+                    .node
+                    .dirent
+                    .read_data_all(&mut img)
+                    .await
+                    .map_err(|e| e.to_string())?;
+                file.write_all(&data).map_err(|e| e.to_string())?;
             }
         }
     }
 
-    None
+    Ok(())
 }
-- 
2.43.0


From 602d23853f41c4abac3bd45627157b69aaa3ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:42 +0000
Subject: [PATCH 16/53] fix: limit file names by their encoded length

---
 xdvdfs-core/src/layout.rs       | 12 +++++++-----
 xdvdfs-core/src/write/dirtab.rs |  9 +++------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 64434c0..861bc88 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -109,7 +109,8 @@ pub struct DirectoryEntryNode {
 #[cfg(feature = "write")]
 pub struct DirectoryEntryData {
     pub node: DirectoryEntryDiskData,
-    pub name: arrayvec::ArrayString<256>,
+    // Encoded names are up to 255 bytes, each taking up to 3 bytes in UTF-8
+    pub name: arrayvec::ArrayString<768>,
 }
 
 impl DiskRegion {
@@ -325,8 +326,7 @@ impl DirectoryEntryNode {
 #[cfg(feature = "write")]
 impl DirectoryEntryData {
     pub fn name_slice(&self) -> &[u8] {
-        let name_len = self.node.filename_length as usize;
-        &self.name.as_str().as_bytes()[0..name_len]
+        self.name.as_str().as_bytes()
     }
 
     pub fn name_str(&self) -> &str {
@@ -340,13 +340,15 @@ impl DirectoryEntryData {
             encoder.encode_from_utf8_without_replacement(self.name_str(), buffer, true);
         match result {
             encoding_rs::EncoderResult::InputEmpty => {}
+            encoding_rs::EncoderResult::OutputFull => {
+                return Err(FileStructureError::FileNameTooLong)
+            }
             _ => return Err(FileStructureError::StringEncodingError),
         }
         if bytes_read != self.name.len() {
             Err(FileStructureError::StringEncodingError)
         } else {
-            TryInto::<u8>::try_into(bytes_written)
-                .map_err(|_| FileStructureError::StringEncodingError)
+            TryInto::<u8>::try_into(bytes_written).map_err(|_| FileStructureError::FileNameTooLong)
         }
     }
 
diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index 22edf31..e7ac3c3 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -49,19 +49,16 @@ impl DirectoryEntryTableWriter {
     ) -> Result<(), FileStructureError> {
         let name =
             arrayvec::ArrayString::from(name).map_err(|_| FileStructureError::FileNameTooLong)?;
-        let filename_length = name
-            .len()
-            .try_into()
-            .map_err(|_| FileStructureError::FileNameTooLong)?;
 
-        let dirent = DirectoryEntryData {
+        let mut dirent = DirectoryEntryData {
             node: DirectoryEntryDiskData {
                 data: DiskRegion { sector: 0, size },
                 attributes,
-                filename_length,
+                filename_length: 0,
             },
             name,
         };
+        dirent.node.filename_length = dirent.encode_name(&mut [0; 256])?;
 
         self.size = None;
         self.table
-- 
2.43.0


From b1106478abda770f4be940aef48e70f1fc28a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 17/53] fix: report images that exceed the addressable number
 of sectors

---
 xdvdfs-core/src/write/dirtab.rs | 2 +-
 xdvdfs-core/src/write/img.rs    | 2 +-
 xdvdfs-core/src/write/mod.rs    | 2 ++
 xdvdfs-core/src/write/sector.rs | 9 ++++++---
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index e7ac3c3..9d4b158 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -186,7 +186,7 @@ impl DirectoryEntryTableWriter {
                 dirent,
             };
 
-            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64);
+            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64)?;
             dirent.dirent.data.sector = sector;
 
             file_listing.push(FileListingEntry {
diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index d07a1f4..6f1f5ce 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -137,7 +137,7 @@ pub async fn create_xdvdfs_image<
         .first_key_value()
         .expect("should always have one dirent at minimum (root)");
     let root_dirtab_size = root_dirtab.1.dirtab_size();
-    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64);
+    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64)?;
     let root_table = layout::DirectoryEntryTable::new(root_dirtab_size, root_sector);
     dir_sectors.insert((*root_dirtab.0).clone(), root_sector as u64);
 
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index 4441040..e0c05e4 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -19,6 +19,7 @@ pub enum FileStructureError {
     TooManyDirectoryEntries,
     FileTooLarge,
     UnexpectedFileSize,
+    ImageTooLarge,
 }
 
 #[derive(Debug)]
@@ -45,6 +46,7 @@ impl FileStructureError {
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
             Self::UnexpectedFileSize => "File contents do not match the expected file size",
+            Self::ImageTooLarge => "Image is too large",
         }
     }
 }
diff --git a/xdvdfs-core/src/write/sector.rs b/xdvdfs-core/src/write/sector.rs
index 85715d9..d28b372 100644
--- a/xdvdfs-core/src/write/sector.rs
+++ b/xdvdfs-core/src/write/sector.rs
@@ -1,4 +1,5 @@
 use crate::layout::SECTOR_SIZE;
+use crate::write::FileStructureError;
 
 pub struct SectorAllocator {
     next_free: u32,
@@ -30,10 +31,12 @@ pub fn required_sectors(len: u64) -> u32 {
 impl SectorAllocator {
     /// Allocates a contiguous set of sectors, big enough to fit `bytes`.
     /// Returns the number of the first sector in the allocation
-    pub fn allocate_contiguous(&mut self, bytes: u64) -> u32 {
+    pub fn allocate_contiguous(&mut self, bytes: u64) -> Result<u32, FileStructureError> {
         let sectors = required_sectors(bytes);
         let allocation = self.next_free;
-        self.next_free += sectors;
-        allocation
+        self.next_free = allocation
+            .checked_add(sectors)
+            .ok_or(FileStructureError::ImageTooLarge)?;
+        Ok(allocation)
     }
 }
-- 
2.43.0


From 11adcaa61706803f3e0d1f50ef8ea1d203ff8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 18/53] fix: avoid overflow when printing child offsets

---
 xdvdfs-cli/src/cmd_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 4c7c796..34e2c91 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -42,7 +42,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Left Child Offset:",
         if dirent.node.left_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.left_entry_offset)
+            format!("{} bytes", 4 * u32::from(dirent.node.left_entry_offset))
         } else {
             String::from("None")
         }
@@ -51,7 +51,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Right Child Offset:",
         if dirent.node.right_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.right_entry_offset)
+            format!("{} bytes", 4 * u32::from(dirent.node.right_entry_offset))
         } else {
             String::from("None")
         }
-- 
2.43.0


From 1dcd2835df7f111bea32f8ffa9449a7f2f7ca3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 19/53] fix: honour the output option of build-image

---
 xdvdfs-cli/src/cmd_build_image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 13a1055..f0b68b1 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -195,10 +195,11 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
     let image_path = if let Some(path) = &args.image_path {
         PathBuf::from_str(path)?
     } else {
-        let output_path = image_spec
+        let spec_output = image_spec
             .as_ref()
             .and_then(|spec| spec.metadata.as_ref())
             .and_then(|meta| meta.output.as_ref());
+        let output_path = args.meta_output.as_ref().or(spec_output);
 
         if let Some(output) = output_path {
             source_path.join(output)
-- 
2.43.0


From 9e6e535ed234ca980f2d63c890e8764e7593f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 20/53] fix: refuse image specs that would drop a map rule

---
 xdvdfs-cli/src/cmd_build_image.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index f0b68b1..4428703 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -266,10 +266,13 @@ pub async fn cmd_image_spec(args: &ImageSpecArgs) -> Result<(), anyhow::Error> {
                 return Err(anyhow!("Map rule \"{host}\" must have an image path unless it is an exclusion rule (starting with '!')"));
             }
 
-            map_rules.insert(
+            let previous = map_rules.insert(
                 host.to_owned(),
                 toml::Value::String(image.map(|s| s.to_owned()).unwrap_or_default()),
             );
+            if previous.is_some() {
+                return Err(anyhow!("Host path \"{host}\" has more than one map rule, which cannot be represented in an image spec"));
+            }
         }
 
         Some(map_rules)
-- 
2.43.0


From 9f593a3369d574e1288adf1ff63c5e489adfec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 21/53] fix: rewrite images into the directory given in
 extract-xiso mode

---
 xdvdfs-cli/src/exiso_compat.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 45d2fec..e5c8556 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -179,9 +179,7 @@ async fn exiso_repack(
 
         // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => {
-                absolute_path(Path::new(d))?.with_file_name(source_path.file_name().unwrap())
-            }
+            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
             None => source_path,
         };
 
-- 
2.43.0


From cca32f1e9df470c04ea4c795dde20a2baab7d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 22/53] fix: skip the file name of repeated create arguments

---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index e5c8556..5d3ab80 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -117,7 +117,7 @@ async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> a
 
         if i + 2 < rest.len() && rest[i + 2] != "-c" {
             tasks.push((&rest[i + 1], Some(rest[i + 2].clone())));
-            i += 2;
+            i += 3;
         } else {
             tasks.push((&rest[i + 1], None));
             i += 2;
-- 
2.43.0


From 4b4aa12482f00e0760cbc80f2b57286594b57ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 23/53] fix: keep dots of directory names in extract-xiso
 create mode

---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 5d3ab80..14db68a 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -88,7 +88,7 @@ async fn exiso_create_single(dir: &String, file: &Option<String>) -> anyhow::Res
     let image_path = file
         .as_ref()
         .map(PathBuf::from)
-        .unwrap_or_else(|| dir.with_extension("iso"));
+        .unwrap_or_else(|| with_extension(&dir, "iso", true));
 
     use crate::cmd_pack::*;
     cmd_pack_path(&dir, &image_path).await
-- 
2.43.0


From 3c5f325d5f70cf9930eb48d6e34dcb50b799c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 24/53] fix: do not overwrite existing files when moving
 rewritten images

---
 xdvdfs-cli/src/exiso_compat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 14db68a..f3791fd 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -175,6 +175,9 @@ async fn exiso_repack(
 
         // Move input to `input.old`
         let renamed_input_path = with_extension(&source_path, "old", false);
+        if renamed_input_path.exists() {
+            bail!("{} already exists", renamed_input_path.display());
+        }
         std::fs::rename(&source_path, &renamed_input_path)?;
 
         // Pack using `input.old` as input, and source path as output
-- 
2.43.0


From c5032c4e1ae49843033328d4d1c2441c72c4ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 25/53] fix: follow symlinks in the parents of output paths

---
 xdvdfs-cli/src/img.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index f570ff6..dff14b2 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -77,14 +77,23 @@ pub async fn open_image(
 }
 
 /// Returns the result of std::fs::canonicalize, if it returned without error,
-/// otherwise returns the result of std::path::absolute
+/// otherwise returns the result of std::path::absolute. If the path itself does not
+/// exist, its parent is still canonicalized if possible.
 /// std::fs::canonicalize will follow symlinks, but seems to error on some filesystems
 /// on Windows. Following symlinks is desirable, so it is attempted first
 pub fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
-    match std::fs::canonicalize(path) {
-        Err(_) => std::path::absolute(path),
-        ok => ok,
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
     }
+
+    let path = std::path::absolute(path)?;
+    if let (Some(parent), Some(name)) = (path.parent(), path.file_name()) {
+        if let Ok(parent) = std::fs::canonicalize(parent) {
+            return Ok(parent.join(name));
+        }
+    }
+
+    Ok(path)
 }
 
 /// Similar to Path::with_extension, but will not overwrite the extension for
-- 
2.43.0


From 12e526e3b8404e7112b573bc28690465be358e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:50 +0000
Subject: [PATCH 26/53] fix: read compressed images by whole sectors

---
 xdvdfs-cli/src/img.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index dff14b2..ea2a2a2 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -5,7 +5,10 @@ use std::{
     io::BufReader,
     path::{Path, PathBuf},
 };
-use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper};
+use xdvdfs::{
+    blockdev::{BlockDeviceRead, OffsetWrapper},
+    layout::SECTOR_SIZE,
+};
 
 pub struct CSOBlockDevice<R: ciso::read::Read<ReadError = std::io::Error>> {
     inner: CSOReader<std::io::Error, R>,
@@ -19,13 +22,32 @@ where
     type ReadError = std::io::Error;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), std::io::Error> {
-        self.inner
-            .read_offset(offset, buffer)
-            .await
-            .map_err(|e| match e {
-                ciso::layout::Error::Other(e) => e,
-                e => std::io::Error::new(std::io::ErrorKind::Other, e),
-            })
+        let end = offset.checked_add(buffer.len() as u64);
+        if !end.is_some_and(|end| end <= self.inner.file_size()) {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+
+        // The CSO reader only supports reads of whole sectors
+        let mut sector = [0; SECTOR_SIZE as usize];
+        let mut position = 0;
+        while position < buffer.len() {
+            let sector_offset = (offset + position as u64) % SECTOR_SIZE as u64;
+            let sector_start = offset + position as u64 - sector_offset;
+            self.inner
+                .read_offset(sector_start, &mut sector)
+                .await
+                .map_err(|e| match e {
+                    ciso::layout::Error::Other(e) => e,
+                    e => std::io::Error::new(std::io::ErrorKind::Other, e),
+                })?;
+
+            let data = &sector[sector_offset as usize..];
+            let len = std::cmp::min(data.len(), buffer.len() - position);
+            buffer[position..position + len].copy_from_slice(&data[..len]);
+            position += len;
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From e48398af7cd6e8c5fd44d5735acd1757b7ae6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:52 +0000
Subject: [PATCH 27/53] fix: write compressed images to the requested directory

---
 xdvdfs-cli/src/cmd_compress.rs | 13 ++++++++++---
 xdvdfs-desktop/src/compress.rs | 15 +++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 9e221e3..10e5cdb 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -20,7 +20,10 @@ pub struct CompressArgs {
     image_path: Option<String>,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    /// Directory for the output files, which are created by file name
+    dir: PathBuf,
+}
 
 // Every write seeks first, so buffering has no effect other than
 // hiding errors when the last write is flushed on drop
@@ -37,7 +40,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, OutFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutFile, std::io::Error> {
-        std::fs::File::create(name)
+        std::fs::File::create(self.dir.join(name))
     }
 
     async fn close(&mut self, _: OutFile) {}
@@ -74,7 +77,11 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         ));
     }
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, image_path);
+    let dir = image_path
+        .parent()
+        .map(Path::to_path_buf)
+        .unwrap_or_default();
+    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, image_path);
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index f6cfe0e..0c658f0 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -1,5 +1,5 @@
 use serde::{Deserialize, Serialize};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use tauri::Window;
 
 use maybe_async::maybe_async;
@@ -16,7 +16,10 @@ pub enum CisoProgressInfo {
     Finished,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    /// Directory for the output files, which are created by file name
+    dir: PathBuf,
+}
 
 // Every write seeks first, so buffering has no effect other than
 // hiding errors when the last write is flushed on drop
@@ -33,7 +36,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, OutFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<OutFile, std::io::Error> {
-        std::fs::File::create(name)
+        std::fs::File::create(self.dir.join(name))
     }
 
     async fn close(&mut self, _: OutFile) {}
@@ -58,7 +61,11 @@ async fn compress_image_impl(
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, dest_path);
+    let dir = dest_path
+        .parent()
+        .map(Path::to_path_buf)
+        .unwrap_or_default();
+    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, dest_path);
 
     let progress_callback = |pi: ProgressInfo| {
         window
-- 
2.43.0


From e9b50436de27d8bbb2a27354feb4477d1d17d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:53 +0000
Subject: [PATCH 28/53] fix: detect compressed outputs that overwrite their
 source

---
 xdvdfs-cli/src/cmd_compress.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 10e5cdb..0528a32 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -55,7 +55,7 @@ fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
 
 #[maybe_async]
 pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
-    let source_path = PathBuf::from(&args.source_path);
+    let source_path = absolute_path(Path::new(&args.source_path))?;
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
@@ -65,16 +65,19 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         .map(PathBuf::from)
         .unwrap_or_else(|| get_default_image_path(&source_path, is_dir).unwrap());
 
-    // This is unlikely to happen, since compressed input is unsupported
-    // and this will fail anyway, but we check to avoid truncating the input accidentally
-    if image_path.exists() && absolute_path(&image_path)? == source_path {
-        return Err(anyhow::anyhow!("Source and destination paths are the same"));
-    }
+    // The output is always split, so `image.cso` is written to `image.1.cso`
+    for output_path in [&image_path, &image_path.with_extension("1.cso")] {
+        // This is unlikely to happen, since compressed input is unsupported
+        // and this will fail anyway, but we check to avoid truncating the input accidentally
+        if output_path.exists() && absolute_path(output_path)? == source_path {
+            return Err(anyhow::anyhow!("Source and destination paths are the same"));
+        }
 
-    if image_path.starts_with(&source_path) {
-        return Err(anyhow::anyhow!(
-            "Destination path is contained by source path"
-        ));
+        if absolute_path(output_path)?.starts_with(&source_path) {
+            return Err(anyhow::anyhow!(
+                "Destination path is contained by source path"
+            ));
+        }
     }
 
     let dir = image_path
-- 
2.43.0


From adfcf6d8a0229d8742eff6f7ccc693143fabbfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 29/53] fix: report errors from the last buffered write in
 desktop pack

---
 xdvdfs-desktop/src/pack.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 86552a5..1d0efc4 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::PathBuf;
 use tauri::Window;
 
@@ -56,5 +57,7 @@ async fn pack_image_impl(
         return Err("Symlink image sources are not supported".to_string());
     }
 
+    // Errors are ignored if the buffer is flushed on drop
+    image.flush().map_err(|e| e.to_string())?;
     Ok(())
 }
-- 
2.43.0


From df54bb2467866ceca0dc67fe60526481ffa40ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 30/53] fix: report truncated images in desktop unpack

---
 xdvdfs-desktop/src/unpack.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index f1f23c2..2afcbcb 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -106,9 +106,12 @@ async fn unpack_image_impl(
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
-                let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
+                let size = dirent.node.dirent.data.size as u64;
+                let mut data = std::io::BufReader::new(data.take(size));
+                let copied = std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
+                if copied != size {
+                    return Err(format!("Image is truncated, failed to extract {file_name}"));
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From d22e68352f50b3b91be3d4088689eb6c30fdddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 31/53] fix: create the destination of empty images in desktop
 unpack

---
 xdvdfs-desktop/src/unpack.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 2afcbcb..b4afd6e 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -55,6 +55,7 @@ async fn unpack_image_impl(
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
         .expect("should be able to send event");
 
+    std::fs::create_dir_all(&dest_path).map_err(|e| e.to_string())?;
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_path.join(dir);
-- 
2.43.0


From d628efbffff497d8d0ef7bcd191040b4b9edc3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:39 +0000
Subject: [PATCH 32/53] fix: substitute matches in rewritten paths only once

---
 xdvdfs-core/src/write/fs/remap.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 8305b05..aa70d91 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -105,11 +105,14 @@ where
     E: Into<RemapOverlayError<E>> + Send + Sync,
     FS: FilesystemHierarchy<Error = E>,
 {
-    fn find_match_indices(
+    /// Replaces each `{index}` in `rewrite` with the given match.
+    /// Matches are inserted as-is, and not searched for further substitutions
+    fn substitute_matches<'m>(
         rewrite: &str,
-    ) -> Result<Vec<usize>, RemapOverlayFilesystemBuildingError<E>> {
-        let mut match_indices: Vec<usize> = Vec::new();
-        let mut match_index = 0;
+        get_match: impl Fn(usize) -> Option<&'m str>,
+    ) -> Result<String, RemapOverlayFilesystemBuildingError<E>> {
+        let mut output = String::new();
+        let mut match_index: usize = 0;
         let mut matching = false;
 
         for (idx, c) in rewrite.chars().enumerate() {
@@ -120,19 +123,21 @@ where
             }
 
             if !matching {
+                output.push(c);
                 continue;
             }
 
             if c == '}' {
                 matching = false;
-                match_indices.push(match_index);
+                output.push_str(get_match(match_index).unwrap_or(""));
                 match_index = 0;
                 continue;
             }
 
             if let Some(digit) = c.to_digit(10) {
-                match_index *= 10;
-                match_index += digit as usize;
+                match_index = match_index
+                    .saturating_mul(10)
+                    .saturating_add(digit as usize);
                 continue;
             }
 
@@ -155,7 +160,7 @@ where
             );
         }
 
-        Ok(match_indices)
+        Ok(output)
     }
 
     #[maybe_async]
@@ -229,12 +234,8 @@ where
                     continue;
                 }
 
-                let mut rewrite = cfg.map_rules[idx].1.clone();
-                let match_indices = Self::find_match_indices(&rewrite)?;
-                for index in match_indices {
-                    let replace = matched.get(index).unwrap_or("");
-                    rewrite = rewrite.replace(&alloc::format!("{{{index}}}"), replace);
-                }
+                let mut rewrite =
+                    Self::substitute_matches(&cfg.map_rules[idx].1, |index| matched.get(index))?;
 
                 // If this path matched a prefix (e.g. the rule "bin") and has a suffix (e.g.
                 // "/default.xbe"), then we need to re-add the suffix to the rewritten prefix
-- 
2.43.0


From 6992d7da62ff2772f4078af549c6008be0638b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:41 +0000
Subject: [PATCH 33/53] fix: keep leading dots of names in rewritten paths

---
 xdvdfs-core/src/write/fs/remap.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index aa70d91..1a6e69b 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -246,9 +246,8 @@ where
 
                 let rewrite = PathVec::from_iter(
                     rewrite
-                        .trim_start_matches('.')
-                        .trim_start_matches('/')
-                        .split('/'),
+                        .split('/')
+                        .skip_while(|component| matches!(*component, "" | "." | "..")),
                 );
                 rewritten_path = Some(rewrite);
             }
-- 
2.43.0


From 1008f97159bcbf96cc2d86e27ee9d5aa27577c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:52 +0000
Subject: [PATCH 34/53] fix: report missing files as such in mounted images

---
 xdvdfs-fsd/src/img_fs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 6112fc9..72e3dfe 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -212,6 +212,14 @@ impl fuser::Filesystem for FuseFilesystem {
         let dirent = self.rt.block_on(dirtab.walk_path(&mut self.device, name));
         let dirent = match dirent {
             Ok(dirent) => dirent,
+            Err(
+                xdvdfs::util::Error::DoesNotExist
+                | xdvdfs::util::Error::DirectoryEmpty
+                | xdvdfs::util::Error::NoDirent,
+            ) => {
+                reply.error(libc::ENOENT);
+                return;
+            }
             Err(_) => {
                 reply.error(libc::EIO);
                 return;
-- 
2.43.0


From 09c1ef0e67b236783b57768c5d22e6de177eda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 35/53] fix: reply to directory listings with small buffers

---
 xdvdfs-fsd/src/img_fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 72e3dfe..6f7846a 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -368,11 +368,13 @@ impl fuser::Filesystem for FuseFilesystem {
 
         // Increment idx + 1 because 0 is special in FUSE
         if offset == 0 && reply.add(ino, idx + 1, fuser::FileType::Directory, ".") {
+            reply.ok();
             return;
         }
         idx += 1;
 
         if offset <= 1 && reply.add(ino, idx + 1, fuser::FileType::Directory, "..") {
+            reply.ok();
             return;
         }
         idx += 1;
-- 
2.43.0


From be5657cba518bda9e1b6808c65f2800c334e7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:36 +0000
Subject: [PATCH 36/53] fix: don't extract onto the source image

---
 xdvdfs-cli/src/cmd_unpack.rs | 41 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index be25dae..ff5c13d 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,4 +1,4 @@
-use crate::img::open_image_raw;
+use crate::img::{absolute_path, open_image_raw};
 use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
@@ -20,9 +20,24 @@ fn is_plain_file_name(name: &str) -> bool {
     }
 }
 
+/// Opens a file to extract to, unless it is the image being extracted
+fn create_output(path: &Path, image_path: &Path) -> Result<File, anyhow::Error> {
+    if path.exists() && absolute_path(path)? == absolute_path(image_path)? {
+        bail!("Refusing to overwrite source image {}", path.display());
+    }
+
+    let file = File::options()
+        .write(true)
+        .truncate(true)
+        .create(true)
+        .open(path)?;
+    Ok(file)
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
+    image_path: &Path,
     dest_dir: &Path,
     dirtab: &DirectoryEntryTable,
 ) -> Result<(), anyhow::Error> {
@@ -57,11 +72,7 @@ async fn copyout_directory(
             continue;
         }
 
-        let mut file = File::options()
-            .write(true)
-            .truncate(true)
-            .create(true)
-            .open(file_path)?;
+        let mut file = create_output(&file_path, image_path)?;
 
         if dirent.node.dirent.is_empty() {
             continue;
@@ -108,10 +119,11 @@ pub async fn cmd_unpack(args: &UnpackArgs) -> Result<(), anyhow::Error> {
         }
     };
 
-    let mut img = open_image_raw(Path::new(&args.image_path)).await?;
+    let image_path = Path::new(&args.image_path);
+    let mut img = open_image_raw(image_path).await?;
     let volume = xdvdfs::read::read_volume(&mut img).await?;
 
-    copyout_directory(&mut img, &target_dir, &volume.root_table).await
+    copyout_directory(&mut img, image_path, &target_dir, &volume.root_table).await
 }
 
 #[derive(Args)]
@@ -129,12 +141,13 @@ pub struct CopyOutArgs {
 
 #[maybe_async]
 pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
-    let mut img = open_image_raw(Path::new(&args.image)).await?;
+    let image_path = Path::new(&args.image);
+    let mut img = open_image_raw(image_path).await?;
     let dest_path = Path::new(&args.dest_path);
 
     let volume = xdvdfs::read::read_volume(&mut img).await?;
     if args.src_path == "/" {
-        return copyout_directory(&mut img, dest_path, &volume.root_table).await;
+        return copyout_directory(&mut img, image_path, dest_path, &volume.root_table).await;
     }
 
     let dirent = volume
@@ -142,14 +155,10 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
         .walk_path(&mut img, &args.src_path)
         .await?;
     if let Some(table) = dirent.node.dirent.dirent_table() {
-        return copyout_directory(&mut img, dest_path, &table).await;
+        return copyout_directory(&mut img, image_path, dest_path, &table).await;
     }
 
-    let mut file = File::options()
-        .write(true)
-        .truncate(true)
-        .create(true)
-        .open(&args.dest_path)?;
+    let mut file = create_output(dest_path, image_path)?;
 
     if dirent.node.dirent.is_empty() {
         return Ok(());
-- 
2.43.0


From d4346521732554db9e974ec81d93e497072f6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:03 +0000
Subject: [PATCH 37/53] fix: don't build an image onto one of its own files

---
 xdvdfs-cli/src/cmd_build_image.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 4428703..b48602e 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -1,6 +1,6 @@
 use std::{io::Write, path::PathBuf, str::FromStr};
 
-use anyhow::anyhow;
+use anyhow::{anyhow, bail};
 use clap::{Args, Subcommand};
 use maybe_async::maybe_async;
 use xdvdfs::write::{
@@ -9,7 +9,7 @@ use xdvdfs::write::{
     img::ProgressInfo,
 };
 
-use crate::img::with_extension;
+use crate::img::{absolute_path, with_extension};
 
 #[derive(Args)]
 #[command(
@@ -220,6 +220,15 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         return Ok(());
     }
 
+    if image_path.exists() {
+        let output = absolute_path(&image_path)?;
+        for (host, _) in remapfs.dump() {
+            if absolute_path(&host.as_path_buf(&source_path))? == output {
+                bail!("Output path {} is mapped into the image", output.display());
+            }
+        }
+    }
+
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
-- 
2.43.0


From 3b34ebe71d3f2ead77ff39b321e1d0cab49a94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:34 +0000
Subject: [PATCH 38/53] fix: refuse to overwrite sources in the desktop app

---
 xdvdfs-desktop/src/compress.rs |  6 ++++++
 xdvdfs-desktop/src/main.rs     |  1 +
 xdvdfs-desktop/src/pack.rs     |  4 ++++
 xdvdfs-desktop/src/path.rs     | 35 ++++++++++++++++++++++++++++++++++
 xdvdfs-desktop/src/unpack.rs   |  6 +++++-
 5 files changed, 51 insertions(+), 1 deletion(-)
 create mode 100644 xdvdfs-desktop/src/path.rs

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 0c658f0..75ca2de 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -9,6 +9,8 @@ use xdvdfs::{
     write::{self, img::ProgressInfo},
 };
 
+use crate::path::check_output;
+
 #[derive(Serialize, Deserialize, Debug, Clone, Copy)]
 pub enum CisoProgressInfo {
     SectorCount(usize),
@@ -61,6 +63,10 @@ async fn compress_image_impl(
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
+    // The output is always split, so `image.cso` is written to `image.1.cso`
+    check_output(&source_path, &dest_path)?;
+    check_output(&source_path, &dest_path.with_extension("1.cso"))?;
+
     let dir = dest_path
         .parent()
         .map(Path::to_path_buf)
diff --git a/xdvdfs-desktop/src/main.rs b/xdvdfs-desktop/src/main.rs
index f70e8e6..a83ae31 100644
--- a/xdvdfs-desktop/src/main.rs
+++ b/xdvdfs-desktop/src/main.rs
@@ -3,6 +3,7 @@
 
 mod compress;
 mod pack;
+mod path;
 mod unpack;
 
 fn main() {
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 1d0efc4..439f1ec 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -2,6 +2,8 @@ use std::io::Write;
 use std::path::PathBuf;
 use tauri::Window;
 
+use crate::path::check_output;
+
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
     pack_image_impl(window, source_path, dest_path).await.err()
@@ -15,6 +17,8 @@ async fn pack_image_impl(
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
+    check_output(&source_path, &dest_path)?;
+
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
diff --git a/xdvdfs-desktop/src/path.rs b/xdvdfs-desktop/src/path.rs
new file mode 100644
index 0000000..e6a136d
--- /dev/null
+++ b/xdvdfs-desktop/src/path.rs
@@ -0,0 +1,35 @@
+use std::path::{Path, PathBuf};
+
+/// Resolves symlinks in a path. If the path does not exist, its
+/// parent directory is still resolved if possible.
+pub fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
+    }
+
+    let path = std::path::absolute(path)?;
+    if let (Some(parent), Some(name)) = (path.parent(), path.file_name()) {
+        if let Ok(parent) = std::fs::canonicalize(parent) {
+            return Ok(parent.join(name));
+        }
+    }
+
+    Ok(path)
+}
+
+/// Returns an error if writing to `output` would overwrite `source`,
+/// or create a file inside of it
+pub fn check_output(source: &Path, output: &Path) -> Result<(), String> {
+    let source = absolute_path(source).map_err(|e| e.to_string())?;
+    let output = absolute_path(output).map_err(|e| e.to_string())?;
+
+    if output == source {
+        return Err("Source and destination paths are the same".to_string());
+    }
+
+    if output.starts_with(source) {
+        return Err("Destination path is contained by source path".to_string());
+    }
+
+    Ok(())
+}
diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index b4afd6e..56a6c4f 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -4,6 +4,8 @@ use std::path::{Component, Path, PathBuf};
 use tauri::Window;
 use xdvdfs::write::img::ProgressInfo;
 
+use crate::path::check_output;
+
 /// Returns true if joining `name` to a directory always
 /// yields a direct child of that directory
 fn is_plain_file_name(name: &str) -> bool {
@@ -35,7 +37,7 @@ async fn unpack_image_impl(
 
     let img = std::fs::File::options()
         .read(true)
-        .open(source_path)
+        .open(&source_path)
         .map_err(|e| e.to_string())?;
     let img = std::io::BufReader::new(img);
     let mut img = xdvdfs::blockdev::OffsetWrapper::new(img)
@@ -88,6 +90,8 @@ async fn unpack_image_impl(
             continue;
         }
 
+        check_output(&source_path, &file_path)?;
+
         let mut file = std::fs::File::options()
             .write(true)
             .truncate(true)
-- 
2.43.0


From 6ad4b79f0f64bd7256df5752900ac5556ae51221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:31 +0000
Subject: [PATCH 39/53] fix: accept -c without a file before another -c

---
 xdvdfs-cli/src/exiso_compat.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index f3791fd..614046b 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -20,6 +20,9 @@ pub enum EXMode {
     )]
     C {
         dir: String,
+
+        // Without a file, this is the `-c` of the next image
+        #[arg(allow_hyphen_values = true)]
         file: Option<String>,
 
         #[arg(allow_hyphen_values = true, trailing_var_arg = true)]
@@ -96,9 +99,17 @@ async fn exiso_create_single(dir: &String, file: &Option<String>) -> anyhow::Res
 
 #[maybe_async]
 async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> anyhow::Result<()> {
-    let mut tasks = Vec::new();
-    tasks.push((dir, file.clone()));
+    if file
+        .as_ref()
+        .is_some_and(|f| f.starts_with('-') && f != "-c")
+    {
+        bail!("Unexpected argument in place of file name");
+    }
+
+    let flag = String::from("-c");
+    let rest: Vec<&String> = [&flag, dir].into_iter().chain(file).chain(rest).collect();
 
+    let mut tasks = Vec::new();
     let mut i = 0;
     while i < rest.len() {
         if rest[i] != "-c" {
@@ -116,10 +127,10 @@ async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> a
         }
 
         if i + 2 < rest.len() && rest[i + 2] != "-c" {
-            tasks.push((&rest[i + 1], Some(rest[i + 2].clone())));
+            tasks.push((rest[i + 1], Some(rest[i + 2].clone())));
             i += 3;
         } else {
-            tasks.push((&rest[i + 1], None));
+            tasks.push((rest[i + 1], None));
             i += 2;
         }
     }
-- 
2.43.0


From 34ebe8d245699e93b208058650352cfa2f3fbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 40/53] fix: unpack empty files in the web app

Empty files were never counted as unpacked, and kept their contents
if they existed already.
---
 xdvdfs-web/src/ops/browser.rs | 39 ++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 6ce0341..0c77d9c 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -151,27 +151,28 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                     .create_file(file_name.clone())
                     .await
                     .map_err(|_| "failed to create file")?;
-                if node.node.dirent.data.size == 0 {
-                    continue;
+                let writeable_stream = file.writable_stream().await?;
+
+                if node.node.dirent.data.size != 0 {
+                    let offset = node.node.dirent.data.offset::<String>(0)? as f64;
+                    let size = node.node.dirent.data.size as f64;
+                    let data = src_file
+                        .slice_with_f64_and_f64_and_content_type(
+                            img_offset + offset,
+                            img_offset + offset + size,
+                            "application/octet-stream",
+                        )
+                        .map_err(|_| "Failed to slice")?;
+                    let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
+                        .await
+                        .map_err(|_| "Failed to obtain array buffer")?;
+                    let data = js_sys::Uint8Array::new(&data);
+                    wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
+                        .await
+                        .map_err(|_| "Failed to write file")?;
                 }
 
-                let offset = node.node.dirent.data.offset::<String>(0)? as f64;
-                let size = node.node.dirent.data.size as f64;
-                let data = src_file
-                    .slice_with_f64_and_f64_and_content_type(
-                        img_offset + offset,
-                        img_offset + offset + size,
-                        "application/octet-stream",
-                    )
-                    .map_err(|_| "Failed to slice")?;
-                let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
-                    .await
-                    .map_err(|_| "Failed to obtain array buffer")?;
-                let data = js_sys::Uint8Array::new(&data);
-                let writeable_stream = file.writable_stream().await?;
-                wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
-                    .await
-                    .map_err(|_| "Failed to write file")?;
+                // Closing the stream also empties files that existed before
                 wasm_bindgen_futures::JsFuture::from(writeable_stream.close())
                     .await
                     .map_err(|_| "Failed to flush file")?;
-- 
2.43.0


From ded3d0010524b80afed88224cd5ca6e9d819bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 41/53] fix: report truncated images when unpacking in the web
 app

Slicing a blob clamps to its end, so the files were silently shortened.
---
 xdvdfs-web/src/ops/browser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 0c77d9c..0f5bb98 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -167,6 +167,10 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                         .await
                         .map_err(|_| "Failed to obtain array buffer")?;
                     let data = js_sys::Uint8Array::new(&data);
+                    if data.byte_length() != node.node.dirent.data.size {
+                        return Err(String::from("Image is truncated"));
+                    }
+
                     wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
                         .await
                         .map_err(|_| "Failed to write file")?;
-- 
2.43.0


From 3382d42eb2c05d10d5a6d5ffebd0d9ffac601c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 42/53] fix: reject cyclic directories when unpacking in the
 web app

---
 xdvdfs-web/src/ops/browser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 0f5bb98..3e25ff2 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -125,6 +125,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
         let img_offset = img.get_offset() as f64;
 
         let mut stack: Vec<(FileSystemDirectoryHandle, DirectoryEntryNode)> = Vec::new();
+        let mut visited = std::collections::BTreeSet::from([volume.root_table.region.sector]);
         for entry in volume.root_table.walk_dirent_tree(&mut img).await? {
             stack.push((dest.clone(), entry));
         }
@@ -140,6 +141,14 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                     .await
                     .map_err(|_| "failed to create directory")?;
                 let entries = dirtab.walk_dirent_tree(&mut img).await?;
+
+                // Only empty directories may share a table, anything
+                // else is potentially a cycle in the directory structure
+                let sector = dirtab.region.sector;
+                if !entries.is_empty() && !visited.insert(sector) {
+                    return Err(String::from("Directory structure is malformed"));
+                }
+
                 file_count += entries.len();
                 progress_callback.emit(ProgressInfo::FileCount(file_count));
 
-- 
2.43.0


From 22abd22d873ff141958415d068a9256a4de76866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 43/53] fix: report failures to open and close output files in
 the web app

These panicked, which leaves the page waiting forever.
---
 xdvdfs-web/src/fs/ciso.rs     | 26 +++++++++++++++++++++-----
 xdvdfs-web/src/fs/mod.rs      | 13 ++++++++-----
 xdvdfs-web/src/ops/browser.rs | 10 +++++-----
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/xdvdfs-web/src/fs/ciso.rs b/xdvdfs-web/src/fs/ciso.rs
index b42c8e9..8a75fe5 100644
--- a/xdvdfs-web/src/fs/ciso.rs
+++ b/xdvdfs-web/src/fs/ciso.rs
@@ -1,4 +1,7 @@
-use std::ffi::OsStr;
+use std::{
+    ffi::OsStr,
+    sync::{Arc, Mutex},
+};
 
 use async_trait::async_trait;
 use ciso::{split::SplitFilesystem, write::AsyncWriter};
@@ -8,11 +11,21 @@ use super::{FSWriteWrapper, FileSystemDirectoryHandle};
 
 pub struct CisoOutputDirectory {
     dir: FileSystemDirectoryHandle,
+    close_result: Arc<Mutex<Result<(), String>>>,
 }
 
 impl CisoOutputDirectory {
     pub fn new(dir: FileSystemDirectoryHandle) -> Self {
-        Self { dir }
+        Self {
+            dir,
+            close_result: Arc::new(Mutex::new(Ok(()))),
+        }
+    }
+
+    /// `SplitFilesystem` can't report errors while closing its
+    /// files, so the first one is stored here instead
+    pub fn close_result(&self) -> Arc<Mutex<Result<(), String>>> {
+        self.close_result.clone()
     }
 }
 
@@ -25,12 +38,15 @@ impl SplitFilesystem<String, FSWriteWrapper> for CisoOutputDirectory {
             .create_file(name.to_owned())
             .await
             .map_err(|_| "Failed to create file")?;
-        let file = FSWriteWrapper::new(&file).await;
-        Ok(file)
+        FSWriteWrapper::new(&file).await
     }
 
     async fn close(&mut self, f: FSWriteWrapper) {
-        f.close().await;
+        let result = f.close().await;
+        let mut close_result = self.close_result.lock().unwrap();
+        if close_result.is_ok() {
+            *close_result = result;
+        }
     }
 }
 
diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index da06c30..f1b74c7 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -21,13 +21,16 @@ unsafe impl Send for FSWriteWrapper {}
 unsafe impl Sync for FSWriteWrapper {}
 
 impl FSWriteWrapper {
-    pub async fn new(fh: &FileSystemFileHandle) -> Self {
-        let stream = fh.writable_stream().await.unwrap();
-        Self { stream, len: 0 }
+    pub async fn new(fh: &FileSystemFileHandle) -> Result<Self, String> {
+        let stream = fh.writable_stream().await?;
+        Ok(Self { stream, len: 0 })
     }
 
-    pub async fn close(self) {
-        UnsafeJSFuture::from(self.stream.close()).await.unwrap();
+    pub async fn close(self) -> Result<(), String> {
+        UnsafeJSFuture::from(self.stream.close())
+            .await
+            .map_err(|_| "Failed to close file")?;
+        Ok(())
     }
 }
 
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 3e25ff2..b9dda6f 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -28,16 +28,14 @@ async fn pack_image_impl<T: Display, V: Display>(
     use crate::packing::{ImageCreationState, WorkflowState};
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::PackingImage));
-    let mut dest = fs::FSWriteWrapper::new(&dest).await;
+    let mut dest = fs::FSWriteWrapper::new(&dest).await?;
 
     xdvdfs::write::img::create_xdvdfs_image(fs, &mut dest, |pi| progress_callback.emit(pi))
         .await
         .map_err(|e| e.to_string())?;
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::WaitingForFlush));
-    dest.close().await;
-
-    Ok(())
+    dest.close().await
 }
 
 async fn compress_image_impl<
@@ -65,6 +63,7 @@ async fn compress_image_impl<
     state_change_callback.emit(WorkflowState::Compressing);
 
     let output = crate::fs::ciso::CisoOutputDirectory::new(dest);
+    let close_result = output.close_result();
     let mut output = ciso::split::SplitOutput::new(output, PathBuf::from(name));
     let mut input = xdvdfs::write::fs::CisoSectorInput::new(slbd, slbfs);
     ciso::write::write_ciso_image(&mut input, &mut output, |pi| {
@@ -87,7 +86,8 @@ async fn compress_image_impl<
 
     output.close().await;
 
-    Ok(())
+    let close_result = close_result.lock().unwrap();
+    close_result.clone()
 }
 
 #[async_trait(?Send)]
-- 
2.43.0


From d00441d7e383d4a33f569c44eb2ca90da7505af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 44/53] fix: report unreadable source folders in the web app

---
 xdvdfs-web/src/fs/mod.rs      | 10 ++++++----
 xdvdfs-web/src/ops/browser.rs |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index f1b74c7..c80d101 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -262,14 +262,14 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
 }
 
 impl WebFileSystem {
-    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Self {
+    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Result<Self, String> {
         let mut root = FSTree {
             subtree: BTreeMap::new(),
             handle: util::HandleType::Directory(root_handle),
         };
 
-        root.populate().await.unwrap();
-        Self(root)
+        root.populate().await?;
+        Ok(Self(root))
     }
 
     fn walk(&self, path: &PathVec) -> Option<&FSTree> {
@@ -283,7 +283,9 @@ impl WebFileSystem {
     }
 
     async fn entries(&self, path: &PathVec) -> Result<Vec<(String, util::HandleType)>, JsValue> {
-        let node = &self.walk(path).unwrap();
+        let node = self
+            .walk(path)
+            .ok_or(JsValue::from("Failed to find directory"))?;
         if let util::HandleType::Directory(_) = node.handle {
             Ok(node
                 .subtree
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index b9dda6f..630628f 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -100,7 +100,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
     ) -> Result<(), String> {
         match src {
             PickerResult::DirectoryHandle(dh) => {
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 pack_image_impl(&mut fs, dest, progress_callback, state_change_callback).await
             }
             PickerResult::FileHandle(fh) => {
@@ -210,7 +210,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
         match src {
             PickerResult::DirectoryHandle(dh) => {
                 let name = dh.name();
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 compress_image_impl(
                     &mut fs,
                     name,
-- 
2.43.0


From 038ce980b92b895c7f4e07374a28f4b825ac9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 45/53] fix: report source files that changed while packing in
 the web app

---
 xdvdfs-web/src/fs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index c80d101..8264a82 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -198,7 +198,9 @@ impl xdvdfs::write::fs::FilesystemCopier<FSWriteWrapper> for WebFileSystem {
                 .map_err(|_| "Failed to slice file handle")
             })
             .map(|blob| (blob.size() as u64, dest.stream.write_blob(blob)))?;
-        assert_eq!(file_size, size);
+        if file_size != size {
+            return Err(String::from("Not the right length"));
+        }
 
         UnsafeJSFuture::from(write_promise)
             .await
-- 
2.43.0


From 8dc0d27ddc1b7f2233b7608b38eb3edfef0d4686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 46/53] fix: allow unpacking an image again in the web app

Picking another output folder after unpacking panicked.
---
 xdvdfs-web/src/unpacking.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/unpacking.rs b/xdvdfs-web/src/unpacking.rs
index 9d6a4f9..0f4f787 100644
--- a/xdvdfs-web/src/unpacking.rs
+++ b/xdvdfs-web/src/unpacking.rs
@@ -190,12 +190,17 @@ where
                 }
             }
             WorkflowMessage::SetOutputFile(dh) => {
+                let Some(input_handle) = self.input_handle.as_ref().map(FPB::clone_file_handle)
+                else {
+                    return false;
+                };
+
                 self.reset_state(2);
                 self.output_handle = Some(FPB::clone_dir_handle(&dh));
                 self.workflow_state = WorkflowState::Unpacking;
 
                 wasm_bindgen_futures::spawn_local(unpack_image::<FPB, XO>(
-                    self.input_handle.take().unwrap(),
+                    input_handle,
                     dh,
                     ctx.link().callback(WorkflowMessage::UpdateProgress),
                     ctx.link().callback(WorkflowMessage::ChangeState),
-- 
2.43.0


From d63567f45c86b85983f5a3ac168410abe5554dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:57 +0000
Subject: [PATCH 47/53] fix: report daemon startup failures through the exit
 status

The parent of a daemon in the background exited with status 0 in all
cases, also if the image was invalid or the mount failed. It now waits
until the filesystem is mounted, and fails if the daemon ends before.
---
 xdvdfs-fsd/src/daemonize.rs | 17 +++++------------
 xdvdfs-fsd/src/img_fs.rs    | 26 +++++++++++++++++++++++++-
 xdvdfs-fsd/src/main.rs      |  5 +----
 3 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/xdvdfs-fsd/src/daemonize.rs b/xdvdfs-fsd/src/daemonize.rs
index cb6b7a8..556b574 100644
--- a/xdvdfs-fsd/src/daemonize.rs
+++ b/xdvdfs-fsd/src/daemonize.rs
@@ -8,14 +8,6 @@ type Inner = ();
 
 pub struct Daemonize(Inner, bool);
 
-impl Drop for Daemonize {
-    fn drop(&mut self) {
-        if !self.1 {
-            self.finish_impl().unwrap();
-        }
-    }
-}
-
 impl Daemonize {
     pub fn finish(mut self) -> anyhow::Result<()> {
         if self.1 {
@@ -33,8 +25,9 @@ impl Daemonize {
     /// Fork the daemon off of the parent
     /// This function will never return in the parent,
     /// and will return a Daemonize handle to the child.
-    /// The parent will wait for the child to drop, or
-    /// to call `finish()` before exiting.
+    /// The parent will wait for the child to call `finish()`
+    /// before exiting, and fails if the child drops its handle
+    /// or exits without doing so.
     /// Safety: Unsafe when called in multithreaded context.
     pub unsafe fn fork() -> anyhow::Result<Daemonize> {
         use nix::unistd;
@@ -48,9 +41,9 @@ impl Daemonize {
                 // Wait for message on pipe, then exit
                 std::mem::drop(w);
                 let mut buf = [0];
-                unistd::read(r.as_raw_fd(), &mut buf)?;
+                let bytes_read = unistd::read(r.as_raw_fd(), &mut buf)?;
                 std::mem::drop(r);
-                std::process::exit(0);
+                std::process::exit(if bytes_read == 0 { 1 } else { 0 });
             }
             unistd::ForkResult::Child => {
                 std::mem::drop(r);
diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 6f7846a..d0d7e85 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -9,6 +9,7 @@ use std::{
     time::{Duration, SystemTime},
 };
 
+use crate::daemonize::Daemonize;
 use tokio::runtime::Runtime;
 use xdvdfs::{
     blockdev::OffsetWrapper,
@@ -30,6 +31,9 @@ pub struct FuseFilesystem {
     volume: VolumeDescriptor,
     rt: Runtime,
     cache: FuseFilesystemCache,
+
+    // Handle to the waiting parent process, until the filesystem is mounted
+    daemon: Option<Daemonize>,
 }
 
 // An INode can resolve to either a non-root entry,
@@ -97,7 +101,12 @@ impl FuseFilesystemCache {
 }
 
 impl FuseFilesystem {
-    pub fn new(img_path: &Path, metadata: Metadata, rt: Runtime) -> anyhow::Result<FuseFilesystem> {
+    pub fn new(
+        img_path: &Path,
+        metadata: Metadata,
+        rt: Runtime,
+        daemon: Option<Daemonize>,
+    ) -> anyhow::Result<FuseFilesystem> {
         let img = File::open(img_path)?;
         let img = BufReader::new(img);
         let mut device = rt.block_on(OffsetWrapper::new(img))?;
@@ -120,6 +129,7 @@ impl FuseFilesystem {
             src_crtime,
             volume,
             cache: FuseFilesystemCache::new(),
+            daemon,
         })
     }
 
@@ -185,6 +195,20 @@ impl FuseFilesystem {
 }
 
 impl fuser::Filesystem for FuseFilesystem {
+    fn init(
+        &mut self,
+        _req: &fuser::Request<'_>,
+        _config: &mut fuser::KernelConfig,
+    ) -> Result<(), libc::c_int> {
+        info!("[init]");
+
+        if let Some(daemon) = self.daemon.take() {
+            daemon.finish().map_err(|_| libc::EIO)?;
+        }
+
+        Ok(())
+    }
+
     fn lookup(
         &mut self,
         req: &fuser::Request<'_>,
diff --git a/xdvdfs-fsd/src/main.rs b/xdvdfs-fsd/src/main.rs
index ab849fb..a2bc32f 100644
--- a/xdvdfs-fsd/src/main.rs
+++ b/xdvdfs-fsd/src/main.rs
@@ -111,10 +111,7 @@ fn mount_image_file(
         .transpose()?;
 
     let rt = Runtime::new()?;
-    let fs = FuseFilesystem::new(src, metadata, rt)?;
-    if let Some(dm) = dm {
-        dm.finish()?;
-    }
+    let fs = FuseFilesystem::new(src, metadata, rt, dm)?;
     fuser::mount2(fs, mount_point, &mount_opts)?;
     Ok(())
 }
-- 
2.43.0


From d765ab2e37bf6f37f7d35b182189fc3adbd8dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 48/53] fix: build an image from an image spec in the current
 directory

---
 xdvdfs-cli/src/cmd_build_image.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index b48602e..f92a3fa 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -145,10 +145,14 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
     let (spec_path, source_path) = if source_path.is_dir() {
         (source_path.join("xdvdfs.toml"), source_path)
     } else {
-        let source = source_path
-            .parent()
-            .ok_or(anyhow!("Invalid source path"))?
-            .to_path_buf();
+        let source = source_path.parent().ok_or(anyhow!("Invalid source path"))?;
+
+        // The parent of a bare file name is an empty path
+        let source = if source.as_os_str().is_empty() {
+            PathBuf::from(".")
+        } else {
+            source.to_path_buf()
+        };
         (source_path, source)
     };
 
-- 
2.43.0


From 1aad80da94e941cd1ae70054c69110f3e1f2200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 49/53] fix: infer the output image path for source paths
 without a file name

---
 xdvdfs-cli/src/cmd_build_image.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index f92a3fa..a9c008e 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -207,8 +207,11 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
         if let Some(output) = output_path {
             source_path.join(output)
-        } else {
+        } else if source_path.file_name().is_some() {
             with_extension(&source_path, "xiso.iso", true)
+        } else {
+            // Paths such as `.` or `..` don't include the name of the directory
+            with_extension(&absolute_path(&source_path)?, "xiso.iso", true)
         }
     };
 
-- 
2.43.0


From a7c46c717726901aeddd14304acacbcea32b02f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 50/53] fix: reject missing source paths when building an image

---
 xdvdfs-cli/src/cmd_build_image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index a9c008e..07d6ff5 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -142,6 +142,10 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         std::env::current_dir()?
     };
 
+    if !source_path.exists() {
+        bail!("Source path {} does not exist", source_path.display());
+    }
+
     let (spec_path, source_path) = if source_path.is_dir() {
         (source_path.join("xdvdfs.toml"), source_path)
     } else {
-- 
2.43.0


From d7193cb08456ee37211ea648ac45fbc0522a462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 51/53] fix: report paths without a file name instead of
 panicking

---
 xdvdfs-cli/src/cmd_compress.rs | 3 ++-
 xdvdfs-cli/src/cmd_unpack.rs   | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 0528a32..2152a43 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -63,7 +63,8 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         .image_path
         .as_ref()
         .map(PathBuf::from)
-        .unwrap_or_else(|| get_default_image_path(&source_path, is_dir).unwrap());
+        .or_else(|| get_default_image_path(&source_path, is_dir))
+        .ok_or(anyhow::anyhow!("Failed to get file name from source path"))?;
 
     // The output is always split, so `image.cso` is written to `image.1.cso`
     for output_path in [&image_path, &image_path.with_extension("1.cso")] {
diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index ff5c13d..c358f5b 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,5 +1,5 @@
 use crate::img::{absolute_path, open_image_raw};
-use anyhow::bail;
+use anyhow::{anyhow, bail};
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
@@ -115,7 +115,10 @@ pub async fn cmd_unpack(args: &UnpackArgs) -> Result<(), anyhow::Error> {
         Some(path) => PathBuf::from_str(path).unwrap(),
         None => {
             let os_path = PathBuf::from_str(&args.image_path).unwrap();
-            PathBuf::from(os_path.file_name().unwrap()).with_extension("")
+            let file_name = os_path
+                .file_name()
+                .ok_or(anyhow!("Failed to get file name from image path"))?;
+            PathBuf::from(file_name).with_extension("")
         }
     };
 
-- 
2.43.0


From 279942d160eeaaada321da347d8b7f1f96d60f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 52/53] fix: report compressed images without their tail as
 errors

---
 xdvdfs-cli/src/img.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index ea2a2a2..db30af7 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -51,6 +51,31 @@ where
     }
 }
 
+/// Reports reads beyond the end of the file as errors. The CSO reader
+/// expects its source to be complete, and does not check for short reads
+struct BoundedReader {
+    inner: Box<dyn ciso::read::Read<ReadError = std::io::Error>>,
+    size: u64,
+}
+
+#[maybe_async]
+impl ciso::read::Read for BoundedReader {
+    type ReadError = std::io::Error;
+
+    async fn size(&mut self) -> Result<u64, std::io::Error> {
+        Ok(self.size)
+    }
+
+    async fn read(&mut self, pos: u64, buf: &mut [u8]) -> Result<(), std::io::Error> {
+        let end = pos.checked_add(buf.len() as u64);
+        if !end.is_some_and(|end| end <= self.size) {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+
+        self.inner.read(pos, buf).await
+    }
+}
+
 #[maybe_async]
 pub async fn open_image_raw(path: &Path) -> Result<OffsetWrapper<BufReader<File>>, anyhow::Error> {
     let img = File::options().read(true).open(path)?;
@@ -66,7 +91,7 @@ pub async fn open_image(
         let file_base = path.with_extension("");
         let split = file_base.extension().is_some_and(|e| e == "1");
 
-        let reader: Box<dyn ciso::read::Read<ReadError = std::io::Error>> = if split {
+        let mut reader: Box<dyn ciso::read::Read<ReadError = std::io::Error>> = if split {
             let mut files = Vec::new();
             for i in 1.. {
                 let part = file_base.with_extension(format!("{}.cso", i));
@@ -88,6 +113,11 @@ pub async fn open_image(
             Box::from(file)
         };
 
+        let size = reader.size().await?;
+        let reader = BoundedReader {
+            inner: reader,
+            size,
+        };
         let reader = ciso::read::CSOReader::new(reader).await?;
         let reader = Box::from(CSOBlockDevice { inner: reader });
         Ok(reader)
-- 
2.43.0


From 24973701ee39e5423ae77c732c67ce429e85a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 53/53] fix: give dialog filter extensions without dots

---
 xdvdfs-web/src/picker/tauri.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/picker/tauri.js b/xdvdfs-web/src/picker/tauri.js
index 8a3e27c..f439438 100644
--- a/xdvdfs-web/src/picker/tauri.js
+++ b/xdvdfs-web/src/picker/tauri.js
@@ -12,7 +12,7 @@ export function showSaveFilePicker(callback, suggestedName) {
     const opts = {
         filters: [{
             name: "Xbox ISO File",
-            extensions: [".iso", ".xiso"],
+            extensions: ["iso", "xiso"],
         }],
     };
 
-- 
2.43.0

