From 660be0bed139f26910820555e94c675b481f84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 01/49] Verification hooks behind --cfg vse_hooks

---
 src/bcj/mod.rs          | 15 +++++++++++++++
 src/lib.rs              |  5 +++++
 src/writer.rs           |  2 ++
 src/writer/vse_hooks.rs | 38 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 60 insertions(+)
 create mode 100644 src/writer/vse_hooks.rs

diff --git a/src/bcj/mod.rs b/src/bcj/mod.rs
index de9ec22..ac67298 100644
--- a/src/bcj/mod.rs
+++ b/src/bcj/mod.rs
@@ -144,3 +144,18 @@ impl<R: Read> Read for SimpleReader<R> {
         }
     }
 }
+
+#[cfg(vse_hooks)]
+impl<R> SimpleReader<R> {
+    /// Verification hook: a filter whose stream starts at `start_pos`.
+    pub fn vse_new(which: usize, inner: R, start_pos: usize) -> Self {
+        let filter = match which {
+            0 => BCJFilter::new_x86(start_pos, false),
+            1 => BCJFilter::new_arm(start_pos, false),
+            2 => BCJFilter::new_arm_thumb(start_pos, false),
+            3 => BCJFilter::new_power_pc(start_pos, false),
+            _ => BCJFilter::new_sparc(start_pos, false),
+        };
+        Self::new(inner, filter)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 4cb8ddf..0606944 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,3 +43,8 @@ pub use reader::BlockDecoder;
 pub use reader::SevenZReader;
 #[cfg(feature = "compress")]
 pub use writer::*;
+#[cfg(vse_hooks)]
+#[doc(hidden)]
+pub mod vse_hooks {
+    pub use crate::bcj::SimpleReader;
+}
diff --git a/src/writer.rs b/src/writer.rs
index c727b30..d75ce7d 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -1,6 +1,8 @@
 mod pack_info;
 mod seq_reader;
 mod unpack_info;
+#[cfg(vse_hooks)]
+mod vse_hooks;
 
 use crate::{archive::*, encoders, lzma::*, reader::CRC32, Error, SevenZArchiveEntry};
 use bit_set::BitSet;
diff --git a/src/writer/vse_hooks.rs b/src/writer/vse_hooks.rs
new file mode 100644
index 0000000..d3ff150
--- /dev/null
+++ b/src/writer/vse_hooks.rs
@@ -0,0 +1,38 @@
+//! Verification hooks, compiled only with `--cfg vse_hooks`: build a header from given stream facts without
+//! running the compressors.
+use super::*;
+
+impl<W: Write + Seek> SevenZWriter<W> {
+    /// Records one packed folder, the way `push_archive_entry` / `push_archive_entries` do.
+    pub fn vse_add_folder(
+        &mut self,
+        methods: Vec<SevenZMethodConfiguration>,
+        pack_size: u64,
+        pack_crc: u32,
+        sizes: Vec<u64>,
+        crc: u32,
+        subs: Option<(Vec<u64>, Vec<u32>)>,
+    ) {
+        self.pack_info.add_stream(pack_size, pack_crc);
+        match subs {
+            None => self.unpack_info.add(Arc::new(methods), sizes, crc),
+            Some((s, c)) => {
+                let n = s.len() as u64;
+                self.unpack_info
+                    .add_multiple(Arc::new(methods), sizes, crc, n, s, c)
+            }
+        }
+    }
+
+    /// Records an entry as it is.
+    pub fn vse_add_file(&mut self, entry: SevenZArchiveEntry) {
+        self.files.push(entry);
+    }
+
+    /// The plain (not encoded) header for everything recorded so far.
+    pub fn vse_header(&mut self) -> std::io::Result<Vec<u8>> {
+        let mut header = Vec::with_capacity(1024);
+        self.write_header(&mut header)?;
+        Ok(header)
+    }
+}
-- 
2.43.0


From 1a66fdeaee4b5d901429aed5c1584d34e4cd1204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 02/49] fix: write the anti-item bits of anti items, not of the
 other entries

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index d75ce7d..8bc17fc 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -548,8 +548,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-                has_anti |= !is_anti;
-                if !is_anti {
+                has_anti |= is_anti;
+                if is_anti {
                     bitset.insert(counter);
                 }
                 counter += 1;
-- 
2.43.0


From 8e46ae5c800e6809bceaf2281b8ae12b30805420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 03/49] fix: size the empty-file and anti-item bit vectors by
 the number of empty streams

---
 src/writer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 8bc17fc..ef999cf 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -516,10 +516,17 @@ impl<W: Write + Seek> SevenZWriter<W> {
         }
         Ok(())
     }
+
+    /// Number of entries without a stream: the length of the empty-file and
+    /// anti-item bit vectors.
+    fn empty_stream_count(&self) -> usize {
+        self.files.iter().filter(|entry| !entry.has_stream).count()
+    }
+
     fn write_file_empty_files<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_empty = false;
         let mut empty_stream_counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = BitSet::with_capacity(self.empty_stream_count());
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_dir = entry.is_directory();
@@ -544,7 +551,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     fn write_file_anti_items<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_anti = false;
         let mut counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = BitSet::with_capacity(self.empty_stream_count());
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-- 
2.43.0


From f71818f447ec0c0b17ef604aa811e4349511bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 04/49] fix: write the defined pack stream CRCs when one of
 them is zero

---
 src/writer/pack_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/pack_info.rs b/src/writer/pack_info.rs
index 48a0d0c..c832042 100644
--- a/src/writer/pack_info.rs
+++ b/src/writer/pack_info.rs
@@ -35,6 +35,9 @@ impl PackInfo {
             let mut temp = Vec::with_capacity(self.len());
             write_bit_set(&mut temp, &crc_define_bits)?;
             header.write_all(&temp)?;
+            for crc in self.crcs.iter().filter(|crc| **crc != 0) {
+                header.write_u32::<LittleEndian>(*crc)?;
+            }
         }
 
         header.write_u8(K_END)?;
-- 
2.43.0


From 3a59c1d158c047f7c5e1f5aedb8a60cfb61b961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 05/49] fix: do not write a substream CRC for a folder with a
 single stream

---
 src/writer/unpack_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/unpack_info.rs b/src/writer/unpack_info.rs
index 9a327f6..61ff1ba 100644
--- a/src/writer/unpack_info.rs
+++ b/src/writer/unpack_info.rs
@@ -81,7 +81,8 @@ impl UnpackInfo {
         header.write_u8(K_CRC)?;
         header.write_u8(1)?; // all crc defined
         for f in &self.folders {
-            if f.sub_stream_crcs.len() <= 1 && f.crc != 0 {
+            // the crc of a folder with a single stream is the folder crc, which is always defined
+            if f.num_sub_unpack_streams == 1 {
                 continue;
             }
             for i in 0..f.sub_stream_crcs.len() {
-- 
2.43.0


From 8801072b2e4248c41e99d72f8d537ee6d750290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 06/49] fix: entries pushed as a solid block have a stream

---
 src/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/writer.rs b/src/writer.rs
index ef999cf..aeedf3f 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -319,6 +319,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             sub_stream_crcs.push(entry.crc as u32);
             sub_stream_sizes.push(entry.size);
             entry.has_crc = true;
+            entry.has_stream = true;
         }
 
         self.pack_info
-- 
2.43.0


From 8074d6eb645327228b0bbdec1520292ccc658d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:30 +0000
Subject: [PATCH 07/49] fix: keep the CRC of single-stream folders when the
 sub-stream section has no digests

---
 src/reader.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 78fc81f..50a5fa1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -844,36 +844,39 @@ impl Archive {
             }
         }
 
+        let mut has_missing_crc = BitSet::new();
+        let mut missing_crcs = vec![0; num_digests];
         if nid == K_CRC {
-            let has_missing_crc = read_all_or_bits(header, num_digests)?;
-            let mut missing_crcs = vec![0; num_digests];
+            has_missing_crc = read_all_or_bits(header, num_digests)?;
             for i in 0..num_digests {
                 if has_missing_crc.contains(i) {
                     missing_crcs[i] = read_u32(header)? as u64;
                 }
             }
-            let mut next_crc = 0;
-            let mut next_missing_crc = 0;
-            for folder in archive.folders.iter() {
-                if folder.num_unpack_sub_streams == 1 && folder.has_crc {
-                    sub_streams_info.has_crc.insert(next_crc);
-                    sub_streams_info.crcs[next_crc] = folder.crc;
-                    next_crc += 1;
-                } else {
-                    for _i in 0..folder.num_unpack_sub_streams {
-                        if has_missing_crc.contains(next_missing_crc) {
-                            sub_streams_info.has_crc.insert(next_crc);
-                        } else {
-                            sub_streams_info.has_crc.remove(next_crc);
-                        }
-                        sub_streams_info.crcs[next_crc] = missing_crcs[next_missing_crc];
-                        next_crc += 1;
-                        next_missing_crc += 1;
+
+            nid = read_u8(header)?;
+        }
+
+        // a folder with a single stream and a crc carries the crc of that stream
+        let mut next_crc = 0;
+        let mut next_missing_crc = 0;
+        for folder in archive.folders.iter() {
+            if folder.num_unpack_sub_streams == 1 && folder.has_crc {
+                sub_streams_info.has_crc.insert(next_crc);
+                sub_streams_info.crcs[next_crc] = folder.crc;
+                next_crc += 1;
+            } else {
+                for _i in 0..folder.num_unpack_sub_streams {
+                    if has_missing_crc.contains(next_missing_crc) {
+                        sub_streams_info.has_crc.insert(next_crc);
+                    } else {
+                        sub_streams_info.has_crc.remove(next_crc);
                     }
+                    sub_streams_info.crcs[next_crc] = missing_crcs[next_missing_crc];
+                    next_crc += 1;
+                    next_missing_crc += 1;
                 }
             }
-
-            nid = read_u8(header)?;
         }
 
         if nid != K_END {
-- 
2.43.0


From adae1cd890df872d2dbdb8e049d8c6ab1f42bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 08/49] fix: report data that ends before its checksum could be
 verified

---
 src/reader.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 50a5fa1..bac0fc6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -109,7 +109,7 @@ struct Crc32VerifyingReader<R> {
     inner: R,
     crc_digest: crc::Digest<'static, u32>,
     expected_value: u64,
-    remaining: i64,
+    remaining: usize,
 }
 
 impl<R: Read> Crc32VerifyingReader<R> {
@@ -118,22 +118,24 @@ impl<R: Read> Crc32VerifyingReader<R> {
             inner,
             crc_digest: CRC32.digest(),
             expected_value,
-            remaining: remaining as i64,
+            remaining,
         }
     }
 }
 
 impl<R: Read> Read for Crc32VerifyingReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        if self.remaining <= 0 {
+        if self.remaining == 0 || buf.is_empty() {
             return Ok(0);
         }
         let size = self.inner.read(buf)?;
-        if size > 0 {
-            self.remaining -= size as i64;
-            self.crc_digest.update(&buf[..size]);
+        if size == 0 {
+            // the data ends before the checksum could be verified
+            return Err(std::io::Error::from(ErrorKind::UnexpectedEof));
         }
-        if self.remaining <= 0 {
+        self.remaining = self.remaining.saturating_sub(size);
+        self.crc_digest.update(&buf[..size]);
+        if self.remaining == 0 {
             let d = std::mem::replace(&mut self.crc_digest, CRC32.digest()).finalize();
             if d as u64 != self.expected_value {
                 return Err(std::io::Error::new(
-- 
2.43.0


From d83abb6a79e635122f8ce08b8406daeda0303f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 09/49] fix: visit all entries of a block when entries without
 a stream lie between them

---
 src/reader.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index bac0fc6..ced954f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1417,13 +1417,21 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
     }
 
     pub fn entries(&self) -> &[SevenZArchiveEntry] {
-        let start = self.archive.stream_map.folder_first_file_index[self.folder_index];
-        let file_count = self.archive.folders[self.folder_index].num_unpack_sub_streams;
-        &self.archive.files[start..(file_count + start)]
+        &self.archive.files[Self::entry_range(self.archive, self.folder_index)]
     }
 
     pub fn entry_count(&self) -> usize {
-        self.archive.folders[self.folder_index].num_unpack_sub_streams
+        Self::entry_range(self.archive, self.folder_index).len()
+    }
+
+    /// The entries of a block, including the ones without a stream in between.
+    fn entry_range(archive: &Archive, folder_index: usize) -> std::ops::Range<usize> {
+        let start = archive.stream_map.folder_first_file_index[folder_index];
+        let count = archive.stream_map.file_folder_index[start..]
+            .iter()
+            .take_while(|index| **index == Some(folder_index))
+            .count();
+        start..(start + count)
     }
 
     /// Takes a closure to decode each files in this block.
@@ -1448,10 +1456,8 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
         } = self;
         let (mut folder_reader, _size) =
             SevenZReader::build_decode_stack(source, archive, folder_index, password)?;
-        let start = archive.stream_map.folder_first_file_index[folder_index];
-        let file_count = archive.folders[folder_index].num_unpack_sub_streams;
 
-        for file_index in start..(file_count + start) {
+        for file_index in Self::entry_range(archive, folder_index) {
             let file = &archive.files[file_index];
             if file.has_stream && file.size > 0 {
                 let mut decoder: Box<dyn Read> =
-- 
2.43.0


From aa25b307fd9626db6bf5f866dbf27701ea74c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 10/49] fix: stop iterating over the blocks when the closure
 asks to stop

---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index ced954f..424e3c7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1372,7 +1372,9 @@ impl<R: Read + Seek> SevenZReader<R> {
                 &self.password,
                 &mut self.source,
             );
-            forder_dec.for_each_entries(&mut each)?;
+            if !forder_dec.for_each_entries(&mut each)? {
+                return Ok(());
+            }
         }
         // decode empty files
         for file_index in 0..self.archive.files.len() {
-- 
2.43.0


From 722cadc288d26f28e1a232939856c662fc101ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 11/49] fix: refuse to extract entries whose names point
 outside of the destination

---
 src/de_funcs.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 468cce7..705083f 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -99,6 +99,12 @@ fn decompress_impl<R: Read + Seek>(
         std::fs::create_dir_all(&dest).map_err(Error::io)?;
     }
     seven.for_each_entries(|entry, reader| {
+        if !stays_inside(entry.name()) {
+            return Err(Error::other(format!(
+                "Entry name points outside of the destination: {}",
+                entry.name()
+            )));
+        }
         let dest_path = dest.join(entry.name());
         extract_fn(entry, reader, &dest_path)
     })?;
@@ -106,6 +112,23 @@ fn decompress_impl<R: Read + Seek>(
     Ok(())
 }
 
+/// Whether a path of this name below a directory stays below that directory.
+#[cfg(not(target_arch = "wasm32"))]
+fn stays_inside(name: &str) -> bool {
+    use std::path::Component;
+
+    let mut depth = 0usize;
+    for component in Path::new(name).components() {
+        match component {
+            Component::Normal(_) => depth += 1,
+            Component::CurDir => {}
+            Component::ParentDir if depth > 0 => depth -= 1,
+            _ => return false,
+        }
+    }
+    true
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub fn default_entry_extract_fn(
     entry: &SevenZArchiveEntry,
-- 
2.43.0


From 082162d3e85fe42ba1db0bd815e2aa98674c3f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 12/49] fix: read uncompressed LZMA2 chunks of 64 KiB

---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index 8fd1daa..db827c7 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -119,7 +119,7 @@ impl<R: Read> LZMA2Reader<R> {
             ));
         } else {
             self.is_lzma_chunk = false;
-            self.uncompressed_size = (self.inner.read_u16::<BigEndian>()? + 1) as _;
+            self.uncompressed_size = self.inner.read_u16::<BigEndian>()? as usize + 1;
         }
         Ok(())
     }
-- 
2.43.0


From 98d7d55cd595ac10d5bad98ffed68564f4373ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 13/49] fix: read LZMA streams of 4 GiB and more

---
 lzma-rust/src/lzma_reader.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 653dd97..1961ac4 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -204,14 +204,14 @@ impl<R: Read> LZMAReader<R> {
             return Ok(0);
         }
         let mut size = 0;
-        let mut len = buf.len() as u32;
-        let mut off = 0u32;
+        let mut len = buf.len();
+        let mut off = 0;
         while len > 0 {
-            let mut copy_size_max = len as u32;
-            if self.remaining_size <= u64::MAX / 2 && (self.remaining_size as u32) < len {
-                copy_size_max = self.remaining_size as u32;
+            let mut copy_size_max = len;
+            if self.remaining_size <= u64::MAX / 2 && self.remaining_size < len as u64 {
+                copy_size_max = self.remaining_size as usize;
             }
-            self.lz.set_limit(copy_size_max as usize);
+            self.lz.set_limit(copy_size_max);
 
             match self.lzma.decode(&mut self.lz, &mut self.rc) {
                 Ok(_) => {}
@@ -224,7 +224,7 @@ impl<R: Read> LZMAReader<R> {
                 }
             }
 
-            let copied_size = self.lz.flush(buf, off as _) as u32;
+            let copied_size = self.lz.flush(buf, off);
             off += copied_size;
             len -= copied_size;
             size += copied_size;
@@ -244,10 +244,10 @@ impl<R: Read> LZMAReader<R> {
                         "end reached but not decoder finished",
                     ));
                 }
-                return Ok(size as _);
+                return Ok(size);
             }
         }
-        Ok(size as _)
+        Ok(size)
     }
 }
 
-- 
2.43.0


From ae757ba73350e6dd4f38b0a660f85fd36b5490d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 14/49] fix: report LZMA2 chunks that need more data than they
 hold

---
 lzma-rust/src/range_dec.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lzma-rust/src/range_dec.rs b/lzma-rust/src/range_dec.rs
index 47a312c..4c33a1a 100644
--- a/lzma-rust/src/range_dec.rs
+++ b/lzma-rust/src/range_dec.rs
@@ -177,19 +177,14 @@ impl RangeDecoderBuffer {
 }
 impl RangeSource for RangeDecoderBuffer {
     fn next_byte(&mut self) -> Result<u8> {
-        let b = self.buf[self.pos];
+        let b = *self.buf.get(self.pos).ok_or(ErrorKind::UnexpectedEof)?;
         self.pos += 1;
         Ok(b)
     }
 
     fn next_u32(&mut self) -> Result<u32> {
-        let buf = [
-            self.buf[self.pos],
-            self.buf[self.pos + 1],
-            self.buf[self.pos + 2],
-            self.buf[self.pos + 3],
-        ];
-        let b = u32::from_be_bytes(buf);
+        let mut rest = self.buf.get(self.pos..).unwrap_or_default();
+        let b = rest.read_u32::<BigEndian>()?;
         self.pos += 4;
         Ok(b)
     }
-- 
2.43.0


From 997007d3a5526363f615532b857778e434826a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 15/49] fix: accept the largest LZMA2 dictionary size

---
 lzma-rust/src/lzma2_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index db827c7..05095be 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -39,7 +39,8 @@ pub fn get_memery_usage(dict_size: u32) -> u32 {
 
 #[inline]
 fn get_dict_size(dict_size: u32) -> u32 {
-    dict_size + 15 & !15
+    // the multiple of 16 above would be 4 GiB for the largest sizes
+    dict_size.checked_add(15).unwrap_or(u32::MAX) & !15
 }
 
 impl<R> LZMA2Reader<R> {
-- 
2.43.0


From 828f0ec7f7ce185600859d23779db99d3874dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 16/49] fix: report LZMA properties that are too short

---
 src/decoders.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 8c6a31b..14676f4 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -171,6 +171,9 @@ fn get_lzma2_dic_size(coder: &Coder) -> Result<u32, Error> {
 
 #[inline]
 fn get_lzma_dic_size(coder: &Coder) -> Result<u32, Error> {
-    let mut props = &coder.properties[1..5];
+    let mut props = coder
+        .properties
+        .get(1..5)
+        .ok_or_else(|| Error::other("LZMA properties too short"))?;
     props.read_u32::<LittleEndian>().map_err(Error::io)
 }
-- 
2.43.0


From 828c35a8723600d048ab40d56f483264a36f3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 17/49] fix: decrypt data that arrives in pieces smaller than a
 block

---
 src/aes256sha256.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9f44bcb..1a7c863 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -181,6 +181,10 @@ impl Cipher {
         if !self.buf.is_empty() {
             assert!(self.buf.len() < 16);
             let end = 16 - self.buf.len();
+            if data.len() < end {
+                self.buf.extend_from_slice(data);
+                return Ok(0);
+            }
             self.buf.extend_from_slice(&data[..end]);
             data = &mut data[end..];
             let block = GenericArray::from_mut_slice(&mut self.buf);
-- 
2.43.0


From 9a8044fa9682d5ed6f469b1bb4496aafdda85200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 18/49] fix: refuse AES key derivation cycles that cannot be
 counted

---
 src/aes256sha256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 1a7c863..4aead39 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -139,6 +139,11 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
         let n = password.len().min(aes_key.len() - salt_size);
         aes_key[salt_size..n + salt_size].copy_from_slice(&password[0..n]);
         aes_key
+    } else if num_cycles_power >= 32 {
+        return Err(crate::Error::unsupported(format!(
+            "AES256 with 2^{} key derivation cycles",
+            num_cycles_power
+        )));
     } else {
         let mut sha = sha2::Sha256::default();
         let mut extra = [0u8; 8];
-- 
2.43.0


From 4de155f2592c5667cd537bac674276fcbeeca9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 19/49] fix: let branch targets wrap around at 2 GiB instead of
 panicking

---
 src/bcj/arm.rs   | 10 +++++++---
 src/bcj/ppc.rs   |  6 +++++-
 src/bcj/sparc.rs |  6 +++++-
 src/bcj/x86.rs   |  4 ++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bcj/arm.rs b/src/bcj/arm.rs
index 861e683..74a36a7 100644
--- a/src/bcj/arm.rs
+++ b/src/bcj/arm.rs
@@ -36,7 +36,11 @@ impl BCJFilter {
 
                 let src = ((b2 << 16) | (b1 << 8) | (b0)) << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 buf[i + 2] = ((dest >> 16) & 0xff) as u8;
                 buf[i + 1] = ((dest >> 8) & 0xff) as u8;
@@ -70,9 +74,9 @@ impl BCJFilter {
                 let src = src << 1;
 
                 let dest = if self.is_encoder {
-                    src + (self.pos + i) as i32
+                    src.wrapping_add((self.pos + i) as i32)
                 } else {
-                    src - (self.pos + i) as i32
+                    src.wrapping_sub((self.pos + i) as i32)
                 };
                 let dest = dest >> 1;
                 buf[i + 1] = (0xF0 | ((dest >> 19) & 0x07)) as u8;
diff --git a/src/bcj/ppc.rs b/src/bcj/ppc.rs
index 4ab002f..6fc8a89 100644
--- a/src/bcj/ppc.rs
+++ b/src/bcj/ppc.rs
@@ -29,7 +29,11 @@ impl BCJFilter {
                     ((b0 & 0x03) << 24) | ((b1 & 0xff) << 16) | ((b2 & 0xff) << 8) | (b3 & 0xFC);
 
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
 
                 buf[i] = (0x48 | ((dest >> 24) & 0x03)) as u8;
                 buf[i + 1] = (dest >> 16) as u8;
diff --git a/src/bcj/sparc.rs b/src/bcj/sparc.rs
index 11bc78c..1f0fda0 100644
--- a/src/bcj/sparc.rs
+++ b/src/bcj/sparc.rs
@@ -28,7 +28,11 @@ impl BCJFilter {
                     ((b0 & 0xFF) << 24) | ((b1 & 0xFF) << 16) | ((b2 & 0xFF) << 8) | (b3 & 0xFF);
                 let src = src << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 let dest = (((0 - ((dest >> 22) & 1)) << 22) & 0x3FFFFFFF)
                     | (dest & 0x3FFFFF)
diff --git a/src/bcj/x86.rs b/src/bcj/x86.rs
index 9e47b03..9d9a7ba 100644
--- a/src/bcj/x86.rs
+++ b/src/bcj/x86.rs
@@ -56,9 +56,9 @@ impl BCJFilter {
                 let mut dest: i32;
                 loop {
                     if self.is_encoder {
-                        dest = src + (self.pos + i) as i32;
+                        dest = src.wrapping_add((self.pos + i) as i32);
                     } else {
-                        dest = src - (self.pos + i) as i32;
+                        dest = src.wrapping_sub((self.pos + i) as i32);
                     }
 
                     if prev_mask == 0 {
-- 
2.43.0


From 5649d7e23f8abca126d9bb0d90cdbda0d2cddc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 20/49] fix: let the BCJ2 position wrap around at 4 GiB instead
 of panicking

---
 src/bcj2/bcj2_decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bcj2/bcj2_decode.rs b/src/bcj2/bcj2_decode.rs
index 4c58bfa..4046501 100644
--- a/src/bcj2/bcj2_decode.rs
+++ b/src/bcj2/bcj2_decode.rs
@@ -158,7 +158,7 @@ impl Bcj2Decoder {
                     if src == src_lim {
                         self.temp[3] = src_bufs[src - 1];
                         self.bufs[BCJ2_STREAM_MAIN] = src;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
                         self.state = if self.bufs[BCJ2_STREAM_MAIN] == self.lims[BCJ2_STREAM_MAIN] {
                             BCJ2_STREAM_MAIN
@@ -179,7 +179,7 @@ impl Bcj2Decoder {
                         self.temp[3] = b;
                         self.bufs[BCJ2_STREAM_MAIN] = src + 1;
                         num += 1;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
 
                         let prob = &mut self.probs[if b == 0xE8 {
@@ -227,7 +227,7 @@ impl Bcj2Decoder {
                 };
                 self.bufs[cj] = cur + 4;
 
-                self.ip += 4;
+                self.ip = self.ip.wrapping_add(4);
                 val = val.wrapping_sub(self.ip);
                 let dest = self.dest;
                 let rem = dest_lim - dest;
-- 
2.43.0


From e61bb0a9fbfeffb0d4cf27ea8dc66bc441e76d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 21/49] fix: keep looking for the end header when a candidate
 is none

---
 src/reader.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 424e3c7..ba8c814 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -294,12 +294,8 @@ impl Archive {
         let search_limit = 1024 * 1024;
         let prev_data_size = reader.stream_position().map_err(Error::io)? + 20;
         let size = reader_len;
-        let min_pos = if reader.stream_position().map_err(Error::io)? + search_limit > size {
-            reader.stream_position().map_err(Error::io)?
-        } else {
-            size - search_limit
-        };
-        let mut pos = reader_len - 1;
+        let min_pos = size.saturating_sub(search_limit).max(prev_data_size);
+        let mut pos = reader_len.saturating_sub(1);
         while pos > min_pos {
             pos -= 1;
 
@@ -313,10 +309,10 @@ impl Archive {
                     next_header_size: reader_len - pos,
                     next_header_crc: 0,
                 };
-                let result = Self::init_archive(reader, start_header, password, false)?;
-
-                if !result.files.is_empty() {
-                    return Ok(result);
+                // most of these bytes are not the start of a header, the search goes on then
+                match Self::init_archive(reader, start_header, password, false) {
+                    Ok(result) if !result.files.is_empty() => return Ok(result),
+                    _ => {}
                 }
             }
         }
-- 
2.43.0


From 1335768b089963865f75c77af60b4f51498f4c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 22/49] fix: open archives without any entries

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index ba8c814..1a110f8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -334,6 +334,10 @@ impl Archive {
             )));
         }
 
+        if start_header.next_header_size == 0 {
+            // an archive without any entries has no header
+            return Ok(Archive::default());
+        }
         let next_header_size_int = start_header.next_header_size as usize;
 
         reader
-- 
2.43.0


From 174d10295862e4cddb6887c2f28a6f89783a7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 23/49] fix: read archives without a sub-stream section

---
 src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 1a110f8..af52d4f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -448,6 +448,9 @@ impl Archive {
         if nid == K_SUB_STREAMS_INFO {
             Self::read_sub_streams_info(header, archive)?;
             nid = read_u8(header)?;
+        } else {
+            // the section is optional, each folder holds a single stream without it
+            Self::read_sub_streams_info(&mut [K_END].as_slice(), archive)?;
         }
         if nid != K_END {
             return Err(Error::BadTerminatedStreamsInfo(nid));
-- 
2.43.0


From 07b4bb482bdd6b685a7e55e9b39a1e1928fac703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 24/49] fix: do not trust the size and position of the header
 before reading it

---
 src/reader.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index af52d4f..4abd340 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -338,16 +338,12 @@ impl Archive {
             // an archive without any entries has no header
             return Ok(Archive::default());
         }
-        let next_header_size_int = start_header.next_header_size as usize;
-
+        let header_pos = checked_pos(SIGNATURE_HEADER_SIZE, start_header.next_header_offset)?;
         reader
-            .seek(SeekFrom::Start(
-                SIGNATURE_HEADER_SIZE + start_header.next_header_offset,
-            ))
+            .seek(SeekFrom::Start(header_pos))
             .map_err(Error::io)?;
 
-        let mut buf = vec![0; next_header_size_int];
-        reader.read_exact(&mut buf).map_err(Error::io)?;
+        let mut buf = read_vec(reader, start_header.next_header_size).map_err(Error::io)?;
         if verify_crc && crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
@@ -358,10 +354,7 @@ impl Archive {
         let mut header = if nid == K_ENCODED_HEADER {
             let (mut out_reader, buf_size) =
                 Self::read_encoded_header(&mut buf_reader, reader, &mut archive, password)?;
-            buf.clear();
-            buf.resize(buf_size, 0);
-            out_reader
-                .read_exact(&mut buf)
+            buf = read_vec(&mut out_reader, buf_size as u64)
                 .map_err(|e| Error::bad_password(e, !password.is_empty()))?;
             archive = Archive::default();
             buf_reader = buf.as_slice();
@@ -1009,6 +1002,22 @@ fn read_u64le<R: Read>(reader: &mut R) -> Result<u64, Error> {
     Ok(u64::from_le_bytes(buf))
 }
 
+/// Reads `size` bytes; a size that the reader does not have does not allocate that much.
+fn read_vec<R: Read>(reader: &mut R, size: u64) -> std::io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.take(size).read_to_end(&mut data)?;
+    if data.len() as u64 != size {
+        return Err(std::io::Error::from(ErrorKind::UnexpectedEof));
+    }
+    Ok(data)
+}
+
+#[inline]
+fn checked_pos(pos: u64, offset: u64) -> Result<u64, Error> {
+    pos.checked_add(offset)
+        .ok_or_else(|| Error::other(format!("Cannot handle position {} + {}", pos, offset)))
+}
+
 fn read_u64<R: Read>(reader: &mut R) -> Result<u64, Error> {
     let first = read_u8(reader)? as u64;
     let mut mask = 0x80_u64;
-- 
2.43.0


From f154eba5e805dbd365f9ef58fa7f604cd0d6767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 25/49] fix: do not trust the stream counts of a header before
 reading the streams

---
 src/reader.rs | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4abd340..896c403 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -706,11 +706,13 @@ impl Archive {
         let num_pack_streams = read_usize(header, "num pack streams")?;
         let mut nid = read_u8(header)?;
         if nid == K_SIZE {
-            archive.pack_sizes = vec![0u64; num_pack_streams];
-            for i in 0..archive.pack_sizes.len() {
-                archive.pack_sizes[i] = read_u64(header)?;
+            archive.pack_sizes = Vec::new();
+            for _ in 0..num_pack_streams {
+                archive.pack_sizes.push(read_u64(header)?);
             }
             nid = read_u8(header)?;
+        } else if num_pack_streams > 0 {
+            return Err(Error::other(format!("Expected kSize, got {}", nid)));
         }
 
         if nid == K_CRC {
@@ -737,7 +739,6 @@ impl Archive {
         }
         let num_folders = read_usize(header, "num folders")?;
 
-        archive.folders.reserve_exact(num_folders);
         let external = read_u8(header)?;
         if external != 0 {
             return Err(Error::ExternalUnsupported);
@@ -795,42 +796,38 @@ impl Archive {
             for folder in archive.folders.iter_mut() {
                 let num_streams = read_usize(header, "numStreams")?;
                 folder.num_unpack_sub_streams = num_streams;
-                total_unpack_streams += num_streams;
+                total_unpack_streams = total_unpack_streams
+                    .checked_add(num_streams)
+                    .ok_or(Error::other("Too many streams in archive"))?;
             }
             nid = read_u8(header)?;
         }
 
         let mut sub_streams_info = SubStreamsInfo::default();
-        sub_streams_info
-            .unpack_sizes
-            .resize(total_unpack_streams, Default::default());
-        sub_streams_info
-            .has_crc
-            .reserve_len_exact(total_unpack_streams);
-        sub_streams_info.crcs = vec![0; total_unpack_streams];
 
-        let mut next_unpack_stream = 0;
         for folder in archive.folders.iter() {
             if folder.num_unpack_sub_streams == 0 {
                 continue;
             }
-            let mut sum = 0;
+            let mut rest = folder.get_unpack_size();
             if nid == K_SIZE {
                 for _i in 0..folder.num_unpack_sub_streams - 1 {
                     let size = read_u64(header)?;
-                    sub_streams_info.unpack_sizes[next_unpack_stream] = size;
-                    next_unpack_stream += 1;
-                    sum += size;
+                    sub_streams_info.unpack_sizes.push(size);
+                    rest = rest.checked_sub(size).ok_or(Error::other(
+                        "sum of unpack sizes of folder exceeds total unpack size",
+                    ))?;
                 }
+            } else if folder.num_unpack_sub_streams > 1 {
+                return Err(Error::other("Sizes of the streams of a folder are missing"));
             }
-            if sum > folder.get_unpack_size() {
-                return Err(Error::other(
-                    "sum of unpack sizes of folder exceeds total unpack size",
-                ));
-            }
-            sub_streams_info.unpack_sizes[next_unpack_stream] = folder.get_unpack_size() - sum;
-            next_unpack_stream += 1;
+            sub_streams_info.unpack_sizes.push(rest);
         }
+        sub_streams_info
+            .has_crc
+            .reserve_len_exact(total_unpack_streams);
+        sub_streams_info.crcs = vec![0; total_unpack_streams];
+
         if nid == K_SIZE {
             nid = read_u8(header)?;
         }
-- 
2.43.0


From d776ff5c5249133b4c3a7cad89d80e47ca4b59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 26/49] fix: do not trust the counts of a folder before reading
 its parts

---
 src/reader.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 896c403..cf7809a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -886,9 +886,9 @@ impl Archive {
         let mut folder = Folder::default();
 
         let num_coders = read_usize(header, "num coders")?;
-        let mut coders = Vec::with_capacity(num_coders);
-        let mut total_in_streams = 0;
-        let mut total_out_streams = 0;
+        let mut coders = Vec::new();
+        let mut total_in_streams = 0u64;
+        let mut total_out_streams = 0u64;
         for _i in 0..num_coders {
             let mut coder = Coder::default();
             let bits = read_u8(header)?;
@@ -900,7 +900,7 @@ impl Archive {
             coder.id_size = id_size as usize;
 
             header
-                .read(coder.decompression_method_id_mut())
+                .read_exact(coder.decompression_method_id_mut())
                 .map_err(Error::io)?;
             if is_simple {
                 coder.num_in_streams = 1;
@@ -909,13 +909,11 @@ impl Archive {
                 coder.num_in_streams = read_u64(header)?;
                 coder.num_out_streams = read_u64(header)?;
             }
-            total_in_streams += coder.num_in_streams;
-            total_out_streams += coder.num_out_streams;
+            total_in_streams = checked_count(total_in_streams, coder.num_in_streams)?;
+            total_out_streams = checked_count(total_out_streams, coder.num_out_streams)?;
             if has_attributes {
-                let properties_size = read_usize(header, "properties size")?;
-                let mut props = vec![0u8; properties_size];
-                header.read(&mut props).map_err(Error::io)?;
-                coder.properties = props;
+                let properties_size = read_u64(header)?;
+                coder.properties = read_vec(header, properties_size).map_err(Error::io)?;
             }
             coders.push(coder);
             // would need to keep looping as above:
@@ -933,7 +931,7 @@ impl Archive {
             return Err(Error::other("Total output streams can't be 0"));
         }
         let num_bind_pairs = total_out_streams - 1;
-        let mut bind_pairs = Vec::with_capacity(num_bind_pairs);
+        let mut bind_pairs = Vec::new();
         for _ in 0..num_bind_pairs {
             let bp = BindPair {
                 in_index: read_u64(header)?,
@@ -949,7 +947,7 @@ impl Archive {
             ));
         }
         let num_packed_streams = total_in_streams - num_bind_pairs;
-        let mut packed_streams = vec![0; num_packed_streams];
+        let mut packed_streams = Vec::new();
         if num_packed_streams == 1 {
             let mut index = u64::MAX;
             for i in 0..total_in_streams {
@@ -961,10 +959,10 @@ impl Archive {
             if index == u64::MAX {
                 return Err(Error::other("Couldn't find stream's bind pair index"));
             }
-            packed_streams[0] = index;
+            packed_streams.push(index);
         } else {
-            for i in 0..num_packed_streams {
-                packed_streams[i] = read_u64(header)?;
+            for _ in 0..num_packed_streams {
+                packed_streams.push(read_u64(header)?);
             }
         }
         folder.packed_streams = packed_streams;
@@ -1009,6 +1007,13 @@ fn read_vec<R: Read>(reader: &mut R, size: u64) -> std::io::Result<Vec<u8>> {
     Ok(data)
 }
 
+#[inline]
+fn checked_count(total: u64, count: u64) -> Result<u64, Error> {
+    total
+        .checked_add(count)
+        .ok_or_else(|| Error::other("Too many streams in folder"))
+}
+
 #[inline]
 fn checked_pos(pos: u64, offset: u64) -> Result<u64, Error> {
     pos.checked_add(offset)
-- 
2.43.0


From 0459bab9f43d12e918a5b56fbd422afda206c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 27/49] fix: refuse bind pairs that do not connect the coders
 of a folder

---
 src/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index cf7809a..8926962 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -937,6 +937,14 @@ impl Archive {
                 in_index: read_u64(header)?,
                 out_index: read_u64(header)?,
             };
+            let valid = bp.in_index < total_in_streams as u64
+                && bp.out_index < total_out_streams as u64
+                && bind_pairs.iter().all(|other: &BindPair| {
+                    other.in_index != bp.in_index && other.out_index != bp.out_index
+                });
+            if !valid {
+                return Err(Error::other("Invalid bind pair"));
+            }
             bind_pairs.push(bp);
         }
         folder.bind_pairs = bind_pairs;
-- 
2.43.0


From 4c2a19db18f885ed86eaf96904217fbdffba3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 28/49] fix: report malformed file records instead of panicking

---
 src/reader.rs | 57 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8926962..d6ed88d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -277,10 +277,8 @@ impl Archive {
     fn read_archive_properties<R: Read + Seek>(header: &mut R) -> Result<(), Error> {
         let mut nid = read_u8(header)?;
         while nid != K_END {
-            let property_size = read_usize(header, "propertySize")?;
-            header
-                .seek(SeekFrom::Current(property_size as i64))
-                .map_err(Error::io)?;
+            let property_size = read_u64(header)?;
+            skip(header, property_size)?;
             nid = read_u8(header)?;
         }
         Ok(())
@@ -454,6 +452,14 @@ impl Archive {
 
     fn read_files_info<R: Read + Seek>(header: &mut R, archive: &mut Archive) -> Result<(), Error> {
         let num_files = read_usize(header, "num files")?;
+        // all entries have a stream, unless there is a bit vector with a bit for each of them
+        let num_streams = archive
+            .sub_streams_info
+            .as_ref()
+            .map_or(0, |s| s.unpack_sizes.len());
+        if num_files > num_streams && num_files as u64 / 8 > remaining(header)? {
+            return Err(Error::other("Too many files in archive"));
+        }
         let mut files: Vec<SevenZArchiveEntry> = vec![Default::default(); num_files];
 
         let mut is_empty_stream: Option<BitSet> = None;
@@ -494,7 +500,7 @@ impl Archive {
                     if external != 0 {
                         return Err(Error::other("Not implemented:external != 0"));
                     }
-                    if (size - 1) & 1 != 0 {
+                    if size & 1 == 0 {
                         return Err(Error::other("file names length invalid"));
                     }
 
@@ -505,7 +511,10 @@ impl Archive {
 
                     let mut next_file = 0;
                     for s in names_reader {
-                        files[next_file].name = s?;
+                        let file = files
+                            .get_mut(next_file)
+                            .ok_or(Error::other("Error parsing file names"))?;
+                        file.name = s?;
                         next_file += 1;
                     }
 
@@ -578,16 +587,8 @@ impl Archive {
                     }
                 }
                 K_START_POS => return Err(Error::other("kStartPos is unsupported, please report")),
-                K_DUMMY => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
-                }
-                _ => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
-                }
+                K_DUMMY => skip(header, size)?,
+                _ => skip(header, size)?,
             };
         }
 
@@ -610,8 +611,11 @@ impl Archive {
                 file.is_directory = false;
                 file.is_anti_item = false;
                 file.has_crc = sub_stream_info.has_crc.contains(non_empty_file_counter);
+                file.size = *sub_stream_info
+                    .unpack_sizes
+                    .get(non_empty_file_counter)
+                    .ok_or(Error::other("Too few streams in archive"))?;
                 file.crc = sub_stream_info.crcs[non_empty_file_counter];
-                file.size = sub_stream_info.unpack_sizes[non_empty_file_counter];
                 non_empty_file_counter += 1;
             } else {
                 file.is_directory = if let Some(s) = &is_empty_file {
@@ -1015,6 +1019,25 @@ fn read_vec<R: Read>(reader: &mut R, size: u64) -> std::io::Result<Vec<u8>> {
     Ok(data)
 }
 
+/// Skips `size` bytes of the header, which has to have them.
+fn skip<R: Read + Seek>(header: &mut R, size: u64) -> Result<(), Error> {
+    if size > remaining(header)? {
+        return Err(Error::io(std::io::Error::from(ErrorKind::UnexpectedEof)));
+    }
+    header
+        .seek(SeekFrom::Current(size as i64))
+        .map_err(Error::io)?;
+    Ok(())
+}
+
+/// The bytes left in the header.
+fn remaining<R: Seek>(header: &mut R) -> Result<u64, Error> {
+    let pos = header.stream_position().map_err(Error::io)?;
+    let end = header.seek(SeekFrom::End(0)).map_err(Error::io)?;
+    header.seek(SeekFrom::Start(pos)).map_err(Error::io)?;
+    Ok(end.saturating_sub(pos))
+}
+
 #[inline]
 fn checked_count(total: u64, count: u64) -> Result<u64, Error> {
     total
-- 
2.43.0


From 900dd9275506258973853ab5f94c4a99b7da754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 29/49] fix: check the packed streams of the folders when the
 header is read

---
 src/reader.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d6ed88d..472489c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -271,7 +271,7 @@ impl Archive {
             return Err(Error::BadTerminatedheader(nid));
         }
 
-        Ok(())
+        Self::calculate_stream_map(archive)
     }
 
     fn read_archive_properties<R: Read + Seek>(header: &mut R) -> Result<(), Error> {
@@ -633,8 +633,6 @@ impl Archive {
             }
         }
         archive.files = files;
-
-        Self::calculate_stream_map(archive)?;
         Ok(())
     }
 
@@ -648,14 +646,22 @@ impl Archive {
             stream_map.folder_first_pack_stream_index[i] = next_folder_pack_stream_index;
             next_folder_pack_stream_index += archive.folders[i].packed_streams.len();
         }
+        if next_folder_pack_stream_index > archive.pack_sizes.len() {
+            return Err(Error::other("Too few packed streams in archive"));
+        }
 
-        let mut next_pack_stream_offset = 0;
+        let mut next_pack_stream_offset = 0u64;
         let num_pack_sizes = archive.pack_sizes.len();
         stream_map.pack_stream_offsets = vec![0; num_pack_sizes];
         for i in 0..num_pack_sizes {
             stream_map.pack_stream_offsets[i] = next_pack_stream_offset;
-            next_pack_stream_offset += archive.pack_sizes[i];
+            next_pack_stream_offset = checked_pos(next_pack_stream_offset, archive.pack_sizes[i])?;
         }
+        // the end of the last packed stream, seen from the start of the archive
+        checked_pos(
+            next_pack_stream_offset,
+            checked_pos(SIGNATURE_HEADER_SIZE, archive.pack_pos)?,
+        )?;
 
         stream_map.folder_first_file_index = vec![0; num_folders];
         stream_map.file_folder_index = vec![None; archive.files.len()];
@@ -687,9 +693,9 @@ impl Archive {
             if stream_map.folder_first_file_index[next_folder_index] == i {
                 let first_pack_stream_index =
                     stream_map.folder_first_pack_stream_index[next_folder_index];
-                let pack_size = archive.pack_sizes[first_pack_stream_index];
-
-                archive.files[i].compressed_size = pack_size;
+                if let Some(pack_size) = archive.pack_sizes.get(first_pack_stream_index) {
+                    archive.files[i].compressed_size = *pack_size;
+                }
             }
 
             next_folder_unpack_stream_index += 1;
-- 
2.43.0


From 87faa11cf9265f7d2008d81ada88d4c097472c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 30/49] fix: report coder graphs that cannot be decoded instead
 of panicking

---
 src/bcj2/mod.rs |  1 +
 src/reader.rs   | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/bcj2/mod.rs b/src/bcj2/mod.rs
index 9247ae7..7f9f423 100644
--- a/src/bcj2/mod.rs
+++ b/src/bcj2/mod.rs
@@ -2,6 +2,7 @@ mod bcj2_decode;
 use std::io::Read;
 
 use bcj2_decode::*;
+pub(crate) use bcj2_decode::BCJ2_NUM_STREAMS;
 const BUF_SIZE: usize = 1 << 18;
 
 pub struct Bcj2Coder {
diff --git a/src/reader.rs b/src/reader.rs
index 472489c..7836b2a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -382,7 +382,7 @@ impl Archive {
             .first()
             .ok_or(Error::other("no folders, can't read encoded header"))?;
         let first_pack_stream_index = 0;
-        let folder_offset = SIGNATURE_HEADER_SIZE + archive.pack_pos;
+        let folder_offset = checked_pos(SIGNATURE_HEADER_SIZE, archive.pack_pos)?;
         if archive.pack_sizes.is_empty() {
             return Err(Error::other("no packed streams, can't read encoded header"));
         }
@@ -392,9 +392,8 @@ impl Archive {
             .map_err(Error::io)?;
         let coder_len = folder.coders.len();
         let unpack_size = folder.get_unpack_size() as usize;
-        let pack_size = archive.pack_sizes[first_pack_stream_index] as usize;
-        let input_reader =
-            SeekableBoundedReader::new(reader, (folder_offset, folder_offset + pack_size as u64));
+        let folder_end = checked_pos(folder_offset, archive.pack_sizes[first_pack_stream_index])?;
+        let input_reader = SeekableBoundedReader::new(reader, (folder_offset, folder_end));
         let mut decoder: Box<dyn Read> = Box::new(input_reader);
         let mut decoder = if coder_len > 0 {
             for (index, coder) in folder.ordered_coder_iter() {
@@ -1215,6 +1214,11 @@ impl<R: Read + Seek> SevenZReader<R> {
         }
         let first_pack_stream_index =
             archive.stream_map.folder_first_pack_stream_index[folder_index];
+        if folder.packed_streams.len() != 1 {
+            return Err(Error::unsupported(
+                "Folders without a packed stream are not supported",
+            ));
+        }
         let folder_offset = SIGNATURE_HEADER_SIZE
             + archive.pack_pos
             + archive.stream_map.pack_stream_offsets[first_pack_stream_index];
@@ -1268,6 +1272,11 @@ impl<R: Read + Seek> SevenZReader<R> {
         }
 
         assert!(folder.total_input_streams > folder.total_output_streams);
+        if folder.coders.iter().any(|c| c.num_out_streams != 1) {
+            return Err(Error::unsupported(
+                "Multi output stream coders are not supported",
+            ));
+        }
         let source = ReaderPtr::new(source);
         let first_pack_stream_index =
             archive.stream_map.folder_first_pack_stream_index[folder_index];
@@ -1312,6 +1321,12 @@ impl<R: Read + Seek> SevenZReader<R> {
         }
 
         let num_in_streams = folder.coders[main_coder_index].num_in_streams as usize;
+        if num_in_streams != crate::bcj2::BCJ2_NUM_STREAMS {
+            return Err(Error::unsupported(format!(
+                "BCJ2 with {} streams",
+                num_in_streams
+            )));
+        }
         let mut inputs: Vec<Box<dyn Read>> = Vec::with_capacity(num_in_streams);
         let start_i = coder_to_stream_map[main_coder_index];
         for i in start_i..num_in_streams + start_i {
-- 
2.43.0


From e6c142927e83214f5e20d6b6561484f5f6626581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 31/49] fix: refuse packed streams that are no free inputs of
 the coders of a folder

---
 src/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7836b2a..da20cd8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -979,7 +979,14 @@ impl Archive {
             packed_streams.push(index);
         } else {
             for _ in 0..num_packed_streams {
-                packed_streams.push(read_u64(header)?);
+                let index = read_u64(header)?;
+                if index >= total_in_streams as u64
+                    || packed_streams.contains(&index)
+                    || folder.find_bind_pair_for_in_stream(index as usize).is_some()
+                {
+                    return Err(Error::other("Invalid packed stream index"));
+                }
+                packed_streams.push(index);
             }
         }
         folder.packed_streams = packed_streams;
-- 
2.43.0


From 7f9de0a07a5e49647ec814aa3a92c107ddc40ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 32/49] Format

---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index da20cd8..f5de0af 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -982,7 +982,9 @@ impl Archive {
                 let index = read_u64(header)?;
                 if index >= total_in_streams as u64
                     || packed_streams.contains(&index)
-                    || folder.find_bind_pair_for_in_stream(index as usize).is_some()
+                    || folder
+                        .find_bind_pair_for_in_stream(index as usize)
+                        .is_some()
                 {
                     return Err(Error::other("Invalid packed stream index"));
                 }
-- 
2.43.0


From be06d78f258ccff213dba04b1d2f4533c20e3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 33/49] fix: never announce an LZMA2 dictionary smaller than
 the one used

---
 src/encoders.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index fc20119..0e56f92 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -79,13 +79,9 @@ pub(crate) fn get_options_as_properties<'a>(
 ) -> &'a [u8] {
     match method.id() {
         SevenZMethod::ID_LZMA2 => {
-            let dict_size = options
-                .map(|o| o.get_lzma2_dict_size())
-                .unwrap_or(LZMA2Options::DICT_SIZE_DEFAULT);
-            let lead = dict_size.leading_zeros();
-            let second_bit = (dict_size >> (30u32.wrapping_sub(lead))).wrapping_sub(2);
-            let prop = (19u32.wrapping_sub(lead) * 2 + second_bit) as u8;
-            out[0] = prop;
+            let mut def_opts = LZMA2Options::default();
+            let dict_size = get_lzma2_options(options, &mut def_opts).dict_size;
+            out[0] = lzma2_dict_size_property(dict_size);
             &out[0..1]
         }
         SevenZMethod::ID_LZMA => {
@@ -109,6 +105,16 @@ pub(crate) fn get_options_as_properties<'a>(
     }
 }
 
+/// The smallest LZMA2 dictionary size property that covers `dict_size`: the
+/// format only knows sizes of the form 2^n and 2^n + 2^(n-1).
+fn lzma2_dict_size_property(dict_size: u32) -> u8 {
+    let mut prop = 0;
+    while prop < 40 && ((2 | (prop as u32 & 1)) << (prop / 2 + 11)) < dict_size {
+        prop += 1;
+    }
+    prop
+}
+
 #[inline]
 pub(crate) fn get_lzma2_options<'a>(
     options: Option<&'a MethodOptions>,
-- 
2.43.0


From 770b55fc401ac51e77506315494bbb3333a24bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 34/49] fix: do not overflow the unused byte counts of streams
 of 4 GiB and more

---
 lzma-rust/src/enc/encoder.rs | 3 ++-
 src/aes256sha256.rs          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 4b97e6d..b012e14 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -318,7 +318,8 @@ impl LZMAEncoder {
             }
         }
         self.data.read_ahead -= len as i32;
-        self.data.uncompressed_size += len;
+        // only LZMA2 uses this, and resets it with every chunk
+        self.data.uncompressed_size = self.data.uncompressed_size.wrapping_add(len);
         Ok(true)
     }
 
diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 4aead39..6cd63b5 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -235,7 +235,7 @@ mod enc {
         enc: Aes256CbcEnc,
         buffer: Vec<u8>,
         done: bool,
-        write_size: u32,
+        write_size: u64,
     }
     #[derive(Debug, Clone)]
     pub struct AesEncoderOptions {
@@ -303,7 +303,7 @@ mod enc {
             let block2 = GenericArray::from_mut_slice(block);
             self.enc.encrypt_block_mut(block2);
             self.output.write_all(block)?;
-            self.write_size += block.len() as u32;
+            self.write_size += block.len() as u64;
             Ok(())
         }
     }
-- 
2.43.0


From 64a7627e8865ffdfbae572b024823862201e894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 35/49] fix: do not leave the data of a failed push between the
 packed streams

---
 src/writer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index aeedf3f..33d2db5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -73,6 +73,8 @@ pub struct SevenZWriter<W: Write> {
     pack_info: PackInfo,
     unpack_info: UnpackInfo,
     encrypt_header: bool,
+    /// where the data of the next entry begins: behind the entries pushed so far
+    pack_end: u64,
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -100,6 +102,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             pack_info: Default::default(),
             unpack_info: Default::default(),
             encrypt_header: true,
+            pack_end: SIGNATURE_HEADER_SIZE,
         })
     }
 
@@ -148,6 +151,14 @@ impl<W: Write + Seek> SevenZWriter<W> {
         entry
     }
 
+    /// Goes back to where the data of the next entry begins, in case a failed
+    /// push left a part of an entry behind.
+    fn seek_pack_end(&mut self) -> std::io::Result<()> {
+        self.output
+            .seek(std::io::SeekFrom::Start(self.pack_end))
+            .map(|_| ())
+    }
+
     /// Adds an archive `entry` with data from `reader`
     /// # Examples
     /// ```no_run
@@ -172,6 +183,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&SevenZArchiveEntry> {
         if !entry.is_directory {
             if let Some(mut r) = reader {
+                self.seek_pack_end().map_err(Error::io)?;
                 let mut compressed_len = 0;
                 let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
                 let content_methods = if entry.content_methods.is_empty() {
@@ -222,6 +234,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
                 entry.compressed_size = compressed_len as u64;
                 self.pack_info
                     .add_stream(compressed_len as u64, compressed_crc);
+                self.pack_end += compressed_len as u64;
 
                 let mut sizes = Vec::with_capacity(more_sizes.len() + 1);
                 sizes.extend(more_sizes.iter().map(|s| s.get() as u64));
@@ -252,6 +265,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&mut Self> {
         let mut r = reader;
         assert_eq!(r.reader_len(), entries.len());
+        self.seek_pack_end().map_err(Error::io)?;
         let mut compressed_len = 0;
         let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
         let content_methods = &self.content_methods;
@@ -324,6 +338,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
         self.pack_info
             .add_stream(compressed_len as u64, compressed_crc);
+        self.pack_end += compressed_len as u64;
 
         let mut sizes = Vec::with_capacity(more_sizes.len() + 1);
         sizes.extend(more_sizes.iter().map(|s| s.get() as u64));
@@ -366,6 +381,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     /// Finishes the compression.
     pub fn finish(mut self) -> std::io::Result<W> {
         let mut header: Vec<u8> = Vec::with_capacity(64 * 1024);
+        self.seek_pack_end()?;
         self.write_encoded_header(&mut header)?;
         let header_pos = self.output.stream_position()?;
         self.output.write_all(&header)?;
-- 
2.43.0


From 1ef7eba2741b5b059788cd6122b4a6d1d002b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 36/49] fix: encrypt small headers too

---
 src/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 33d2db5..075bd8a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -458,7 +458,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
         let compress_crc = compressed.crc_value();
         let compress_size = *compressed.bytes_written;
-        if compress_size as u64 + 20 >= size {
+        let encrypted = more_sizes.len() > 0;
+        if !encrypted && compress_size as u64 + 20 >= size {
             // compression made it worse. Write raw data
             header.write_all(&raw_header)?;
             return Ok(());
-- 
2.43.0


From 8132ede80a9cae118c7227b5e04807c6e4c4bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 37/49] fix: report entries without a checksum whose data ends
 early

---
 src/reader.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f5de0af..7a46bfb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -108,16 +108,16 @@ impl<R: Read + Seek> SeekableBoundedReader<R> {
 struct Crc32VerifyingReader<R> {
     inner: R,
     crc_digest: crc::Digest<'static, u32>,
-    expected_value: u64,
+    expected_value: Option<u64>,
     remaining: usize,
 }
 
 impl<R: Read> Crc32VerifyingReader<R> {
-    fn new(inner: R, remaining: usize, expected_value: u64) -> Self {
+    fn new(inner: R, remaining: usize, expected_value: impl Into<Option<u64>>) -> Self {
         Self {
             inner,
             crc_digest: CRC32.digest(),
-            expected_value,
+            expected_value: expected_value.into(),
             remaining,
         }
     }
@@ -130,14 +130,14 @@ impl<R: Read> Read for Crc32VerifyingReader<R> {
         }
         let size = self.inner.read(buf)?;
         if size == 0 {
-            // the data ends before the checksum could be verified
+            // the data ends early
             return Err(std::io::Error::from(ErrorKind::UnexpectedEof));
         }
         self.remaining = self.remaining.saturating_sub(size);
         self.crc_digest.update(&buf[..size]);
         if self.remaining == 0 {
             let d = std::mem::replace(&mut self.crc_digest, CRC32.digest()).finalize();
-            if d as u64 != self.expected_value {
+            if self.expected_value.map_or(false, |v| v != d as u64) {
                 return Err(std::io::Error::new(
                     ErrorKind::Other,
                     Error::ChecksumVerificationFailed,
@@ -1539,13 +1539,11 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
             if file.has_stream && file.size > 0 {
                 let mut decoder: Box<dyn Read> =
                     Box::new(BoundedReader::new(&mut folder_reader, file.size as usize));
-                if file.has_crc {
-                    decoder = Box::new(Crc32VerifyingReader::new(
-                        decoder,
-                        file.size as usize,
-                        file.crc,
-                    ));
-                }
+                decoder = Box::new(Crc32VerifyingReader::new(
+                    decoder,
+                    file.size as usize,
+                    file.has_crc.then_some(file.crc),
+                ));
                 if !each(file, &mut decoder)
                     .map_err(|e| e.maybe_bad_password(!self.password.is_empty()))?
                 {
-- 
2.43.0


From 09ef41ece08b324585676ccc956e3e4794e6e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 38/49] fix: leave times alone that an archive does not record

---
 src/de_funcs.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 705083f..aafb21a 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -156,13 +156,15 @@ pub fn default_entry_extract_fn(
         if entry.size() > 0 {
             let mut writer = BufWriter::new(file);
             std::io::copy(reader, &mut writer).map_err(Error::io)?;
+            // a time that is not recorded is not 1601 but unknown
+            let time = |recorded: bool, date: nt_time::FileTime| {
+                recorded.then(|| ft::FileTime::from_system_time(date.into()))
+            };
             ft::set_file_handle_times(
                 writer.get_ref(),
-                Some(ft::FileTime::from_system_time(entry.access_date().into())),
-                Some(ft::FileTime::from_system_time(
-                    entry.last_modified_date().into(),
-                )),
-                Some(ft::FileTime::from_system_time(entry.creation_date().into())),
+                time(entry.has_access_date, entry.access_date()),
+                time(entry.has_last_modified_date, entry.last_modified_date()),
+                time(entry.has_creation_date, entry.creation_date()),
             )
             .unwrap_or_default();
         }
-- 
2.43.0


From 2c39dd55796d1a76b5348be75c05f27ec4947d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 39/49] fix: name a file that is pushed by its path

---
 src/en_funcs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/en_funcs.rs b/src/en_funcs.rs
index 24ac8c5..fa2a85b 100644
--- a/src/en_funcs.rs
+++ b/src/en_funcs.rs
@@ -183,10 +183,17 @@ fn encode_path<W: Write + Seek>(
             format!("Failed to collect entries from path:{:?}", src.as_ref()),
         )
     })?;
+    // a single file keeps its own name
+    let src = src.as_ref();
+    let root = if src.is_dir() {
+        src
+    } else {
+        src.parent().unwrap_or(src)
+    };
     if !solid {
         for ele in paths.into_iter() {
             let name = ele
-                .strip_prefix(&src)
+                .strip_prefix(root)
                 .unwrap()
                 .to_string_lossy()
                 .to_string();
@@ -202,7 +209,7 @@ fn encode_path<W: Write + Seek>(
     for ele in paths.into_iter() {
         let size = ele.metadata()?.len();
         let name = ele
-            .strip_prefix(&src)
+            .strip_prefix(root)
             .unwrap()
             .to_string_lossy()
             .to_string();
-- 
2.43.0


From 19977f15db6a999f3140bba29592fcc82e167d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 40/49] fix: do not panic on AES keys without key derivation

---
 src/aes256sha256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 6cd63b5..f5849f3 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -135,7 +135,7 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
     }
     let aes_key = if num_cycles_power == 0x3f {
         let mut aes_key = [0u8; 32];
-        aes_key.copy_from_slice(&salt[..salt_size]);
+        aes_key[..salt_size].copy_from_slice(&salt);
         let n = password.len().min(aes_key.len() - salt_size);
         aes_key[salt_size..n + salt_size].copy_from_slice(&password[0..n]);
         aes_key
-- 
2.43.0


From 34387c6860d20d36b654161d33f4c5f3b86b1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 41/49] fix: keep what an uncompressed LZMA2 chunk may still
 need in the window

---
 lzma-rust/src/enc/encoder.rs      | 5 +++--
 lzma-rust/src/enc/lzma2_writer.rs | 1 +
 lzma-rust/src/enc/lzma_writer.rs  | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index b012e14..01fe7bc 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -133,6 +133,7 @@ impl LZMAEncoder {
         depth_limit: i32,
         dict_size: u32,
         nice_len: usize,
+        extra_size_before: u32,
     ) -> (Self, LZMAEncoderModes) {
         let fast_mode = mode == EncodeMode::Fast;
         let mut mode: LZMAEncoderModes = if fast_mode {
@@ -142,12 +143,12 @@ impl LZMAEncoder {
         };
         let (extra_size_before, extra_size_after) = if fast_mode {
             (
-                FashEncoderMode::EXTRA_SIZE_BEFORE,
+                extra_size_before.max(FashEncoderMode::EXTRA_SIZE_BEFORE),
                 FashEncoderMode::EXTRA_SIZE_AFTER,
             )
         } else {
             (
-                NormalEncoderMode::EXTRA_SIZE_BEFORE,
+                extra_size_before.max(NormalEncoderMode::EXTRA_SIZE_BEFORE),
                 NormalEncoderMode::EXTRA_SIZE_AFTER,
             )
         };
diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index 2121da8..28c2b4b 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -174,6 +174,7 @@ impl<W: Write> LZMA2Writer<W> {
             options.depth_limit,
             options.dict_size,
             options.nice_len as usize,
+            get_extra_size_before(options.dict_size),
         );
 
         let props = options.get_props();
diff --git a/lzma-rust/src/enc/lzma_writer.rs b/lzma-rust/src/enc/lzma_writer.rs
index 9aa7aa5..b03f155 100644
--- a/lzma-rust/src/enc/lzma_writer.rs
+++ b/lzma-rust/src/enc/lzma_writer.rs
@@ -50,6 +50,7 @@ impl<W: Write> LZMAWriter<W> {
             options.depth_limit,
             options.dict_size,
             options.nice_len as usize,
+            0,
         );
         if let Some(preset_dict) = &options.preset_dict {
             if use_header {
-- 
2.43.0


From 8ad5425fbf25096cd6b55d1a18a14b69935d465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 42/49] fix: decode LZMA distances of 2 GiB and more

---
 lzma-rust/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/decoder.rs b/lzma-rust/src/decoder.rs
index 55828d4..23e8458 100644
--- a/lzma-rust/src/decoder.rs
+++ b/lzma-rust/src/decoder.rs
@@ -78,7 +78,7 @@ impl LZMADecoder {
                 } else {
                     self.decode_rep_match(pos_state, rc)?
                 };
-                lz.repeat(self.reps[0] as _, len as _)?;
+                lz.repeat(self.reps[0] as u32 as usize, len as _)?;
             }
         }
         rc.normalize()?;
@@ -213,7 +213,7 @@ impl LiteralSubdecoder {
             }
         } else {
             let r = coder.reps[0];
-            let mut match_byte = lz.get_byte(r as usize) as u32;
+            let mut match_byte = lz.get_byte(r as u32 as usize) as u32;
             let mut offset = 0x100;
             let mut match_bit;
             let mut bit;
-- 
2.43.0


From dba8659ee8ebcebdbad7ad4831a0ee789438c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 43/49] fix: do not panic on LZMA2 dictionaries of size zero

---
 lzma-rust/src/lzma2_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index 05095be..6585b11 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -2,6 +2,7 @@ use super::{
     decoder::LZMADecoder,
     lz::LZDecoder,
     range_dec::{RangeDecoder, RangeDecoderBuffer},
+    DICT_SIZE_MIN,
 };
 use byteorder::{self, BigEndian, ReadBytesExt};
 use std::io::{ErrorKind, Read, Result};
@@ -40,7 +41,11 @@ pub fn get_memery_usage(dict_size: u32) -> u32 {
 #[inline]
 fn get_dict_size(dict_size: u32) -> u32 {
     // the multiple of 16 above would be 4 GiB for the largest sizes
-    dict_size.checked_add(15).unwrap_or(u32::MAX) & !15
+    dict_size
+        .max(DICT_SIZE_MIN)
+        .checked_add(15)
+        .unwrap_or(u32::MAX)
+        & !15
 }
 
 impl<R> LZMA2Reader<R> {
-- 
2.43.0


From 5b5ba9366baf7c32261a5e35b6af9b04fd3df84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 44/49] fix: reset the LZMA2 dictionary when the preset one is
 empty

---
 lzma-rust/src/enc/lzma2_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index 28c2b4b..e0a862b 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -179,7 +179,7 @@ impl<W: Write> LZMA2Writer<W> {
 
         let props = options.get_props();
         let mut dict_reset_needed = true;
-        if let Some(preset_dict) = &options.preset_dict {
+        if let Some(preset_dict) = options.preset_dict.as_ref().filter(|d| !d.is_empty()) {
             lzma.lz.set_preset_dict(dict_size, preset_dict);
             dict_reset_needed = false;
         }
-- 
2.43.0


From e54a4def5ef3872bb937c9817bcb7028642e6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 45/49] fix: do not decode on after an LZMA stream failed

---
 lzma-rust/src/lzma_reader.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 1961ac4..2b7a8b8 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -58,6 +58,7 @@ pub struct LZMAReader<R> {
     end_reached: bool,
     relaxed_end_cond: bool,
     remaining_size: u64,
+    error: Option<Error>,
 }
 
 impl<R> Drop for LZMAReader<R> {
@@ -131,6 +132,7 @@ impl<R: Read> LZMAReader<R> {
             end_reached: false,
             relaxed_end_cond: true,
             remaining_size: uncomp_size,
+            error: None,
         })
     }
 
@@ -200,6 +202,9 @@ impl<R: Read> LZMAReader<R> {
         if buf.is_empty() {
             return Ok(0);
         }
+        if let Some(e) = &self.error {
+            return Err(Error::new(e.kind(), e.to_string()));
+        }
         if self.end_reached {
             return Ok(0);
         }
@@ -253,6 +258,10 @@ impl<R: Read> LZMAReader<R> {
 
 impl<R: Read> Read for LZMAReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        self.read_decode(buf)
+        self.read_decode(buf).map_err(|e| {
+            let error = Error::new(e.kind(), e.to_string());
+            self.error = Some(e);
+            error
+        })
     }
 }
-- 
2.43.0


From b6de6bdc75852bfdf149d0289c67a8b5c08f3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 46/49] fix: keep the whole preset dictionary for short LZMA
 streams

---
 lzma-rust/src/lzma_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 2b7a8b8..6d78900 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -112,7 +112,9 @@ impl<R: Read> LZMAReader<R> {
             ));
         }
         let mut dict_size = get_dict_size(dict_size)?;
-        if uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size {
+        // the distances into a preset dictionary reach beyond the data itself
+        let has_preset = preset_dict.map_or(false, |d| !d.is_empty());
+        if !has_preset && uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size {
             dict_size = get_dict_size(uncomp_size as u32)?;
         }
         let rc = RangeDecoder::new_stream(reader);
-- 
2.43.0


From f9515fd6f6b63f6c70fe5d735a91a8b3bef0024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 47/49] fix: flushing an LZMA2 writer again after little data
 panicked

Pending bytes stay pending while the match finder still has too little
data to process any of them.
---
 lzma-rust/src/lz/lz_encoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index 93d410c..698ebc5 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -287,7 +287,6 @@ impl LZEncoderData {
             let old_pending = self.pending_size;
             self.pending_size = 0;
             match_finder.skip(self, old_pending as _);
-            assert!(self.pending_size < old_pending)
         }
     }
 
-- 
2.43.0


From e710188222c0993a6f0c666898a0c065f2896437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 48/49] fix: an LZMA dictionary below 128 bytes made the normal
 mode encoder panic

---
 lzma-rust/src/enc/encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 01fe7bc..868974a 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -174,7 +174,8 @@ impl LZMAEncoder {
         let literal_encoder = LiteralEncoder::new(lc, lp);
         let match_len_encoder = LengthEncoder::new(pb, nice_len as usize);
         let rep_len_encoder = LengthEncoder::new(pb, nice_len as usize);
-        let dist_slot_price_size = LZMAEncoder::get_dist_slot(dict_size - 1) + 1;
+        let dist_slot_price_size =
+            (LZMAEncoder::get_dist_slot(dict_size - 1) + 1).max(DIST_MODEL_END as u32);
         let mut e = Self {
             coder: LZMACoder::new(pb as usize),
             lz,
-- 
2.43.0


From 005762b62b5fa2df6e619385b903c707b640fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 49/49] Verification hooks of the LZMA coders and BCJ2 (cfg
 vse_hooks_lz)

---
 lzma-rust/src/enc/lzma2_writer.rs |  8 ++++++++
 lzma-rust/src/enc/mod.rs          |  6 ++++++
 lzma-rust/src/enc/range_enc.rs    | 19 +++++++++++++++++++
 lzma-rust/src/lib.rs              |  7 +++++++
 lzma-rust/src/lz/bt4.rs           |  8 ++++++++
 lzma-rust/src/lz/hc4.rs           |  8 ++++++++
 lzma-rust/src/lz/lz_encoder.rs    | 11 +++++++++++
 lzma-rust/src/range_dec.rs        | 13 +++++++++++++
 src/bcj2/bcj2_decode.rs           |  8 ++++++++
 src/bcj2/mod.rs                   |  8 ++++++++
 src/decoders.rs                   | 12 ++++++++++++
 src/lib.rs                        |  6 ++++++
 12 files changed, 114 insertions(+)

diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index e0a862b..b823271 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -340,3 +340,11 @@ impl<W: Write> Write for LZMA2Writer<W> {
         self.inner.flush()
     }
 }
+
+#[cfg(vse_hooks_lz)]
+impl<W: Write> LZMA2Writer<W> {
+    /// Verification hook: the match finder counts from the given position on.
+    pub fn vse_set_pos(&mut self, pos: i32) {
+        self.lzma.lz.vse_set_pos(pos)
+    }
+}
diff --git a/lzma-rust/src/enc/mod.rs b/lzma-rust/src/enc/mod.rs
index 3e1a92d..4170903 100644
--- a/lzma-rust/src/enc/mod.rs
+++ b/lzma-rust/src/enc/mod.rs
@@ -9,3 +9,9 @@ pub use counting::*;
 pub use lzma2_writer::*;
 mod counting;
 pub use lzma_writer::*;
+
+#[cfg(vse_hooks_lz)]
+#[doc(hidden)]
+pub mod vse_hooks {
+    pub use super::range_enc::RangeEncoder;
+}
diff --git a/lzma-rust/src/enc/range_enc.rs b/lzma-rust/src/enc/range_enc.rs
index b6db770..ee57237 100644
--- a/lzma-rust/src/enc/range_enc.rs
+++ b/lzma-rust/src/enc/range_enc.rs
@@ -255,3 +255,22 @@ impl Write for RangeEncoderBuffer {
         Ok(())
     }
 }
+
+#[cfg(vse_hooks_lz)]
+impl<W: Write> RangeEncoder<W> {
+    /// Verification hook: a coder in the given state.
+    pub fn vse_new(inner: W, low: u64, range: u32, cache: u8, cache_size: u32) -> Self {
+        Self {
+            low,
+            range,
+            cache_size,
+            cache,
+            inner,
+        }
+    }
+
+    /// Verification hook: low, range, cache, cache size.
+    pub fn vse_state(&self) -> (u64, u32, u8, u32) {
+        (self.low, self.range, self.cache, self.cache_size)
+    }
+}
diff --git a/lzma-rust/src/lib.rs b/lzma-rust/src/lib.rs
index 4457c93..bd55b3b 100644
--- a/lzma-rust/src/lib.rs
+++ b/lzma-rust/src/lib.rs
@@ -192,3 +192,10 @@ impl LengthCoder {
         init_probs(&mut self.high);
     }
 }
+
+#[cfg(vse_hooks_lz)]
+#[doc(hidden)]
+pub mod vse_hooks {
+    pub use crate::enc::vse_hooks::*;
+    pub use crate::range_dec::RangeDecoder;
+}
diff --git a/lzma-rust/src/lz/bt4.rs b/lzma-rust/src/lz/bt4.rs
index de49006..611c009 100644
--- a/lzma-rust/src/lz/bt4.rs
+++ b/lzma-rust/src/lz/bt4.rs
@@ -304,3 +304,11 @@ impl MatchFind for BT4 {
         }
     }
 }
+
+#[cfg(vse_hooks_lz)]
+impl BT4 {
+    /// Verification hook: count from the given position on.
+    pub fn vse_set_pos(&mut self, pos: i32) {
+        self.lz_pos = pos;
+    }
+}
diff --git a/lzma-rust/src/lz/hc4.rs b/lzma-rust/src/lz/hc4.rs
index 08dbb81..fcb0a77 100644
--- a/lzma-rust/src/lz/hc4.rs
+++ b/lzma-rust/src/lz/hc4.rs
@@ -195,3 +195,11 @@ impl MatchFind for HC4 {
     }
 
 }
+
+#[cfg(vse_hooks_lz)]
+impl HC4 {
+    /// Verification hook: count from the given position on.
+    pub fn vse_set_pos(&mut self, pos: i32) {
+        self.lz_pos = pos;
+    }
+}
diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index 698ebc5..eb65c10 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -407,3 +407,14 @@ fn get_buf_size(
     let reserve_size = (dict_size / 2 + (256 << 10)).min(512 << 20);
     keep_size_before + keep_size_after + reserve_size
 }
+
+#[cfg(vse_hooks_lz)]
+impl LZEncoder {
+    /// Verification hook: the match finder counts from the given position on.
+    pub fn vse_set_pos(&mut self, pos: i32) {
+        match &mut self.match_finder {
+            MatchFinders::HC4(m) => m.vse_set_pos(pos),
+            MatchFinders::BT4(m) => m.vse_set_pos(pos),
+        }
+    }
+}
diff --git a/lzma-rust/src/range_dec.rs b/lzma-rust/src/range_dec.rs
index 4c33a1a..605a8e4 100644
--- a/lzma-rust/src/range_dec.rs
+++ b/lzma-rust/src/range_dec.rs
@@ -189,3 +189,16 @@ impl RangeSource for RangeDecoderBuffer {
         Ok(b)
     }
 }
+
+#[cfg(vse_hooks_lz)]
+impl<R> RangeDecoder<R> {
+    /// Verification hook: a coder in the given state.
+    pub fn vse_new(inner: R, range: u32, code: u32) -> Self {
+        Self { inner, range, code }
+    }
+
+    /// Verification hook: range, code.
+    pub fn vse_state(&self) -> (u32, u32) {
+        (self.range, self.code)
+    }
+}
diff --git a/src/bcj2/bcj2_decode.rs b/src/bcj2/bcj2_decode.rs
index 4046501..6dcdce4 100644
--- a/src/bcj2/bcj2_decode.rs
+++ b/src/bcj2/bcj2_decode.rs
@@ -274,3 +274,11 @@ impl Bcj2Decoder {
 pub(crate) fn bcj2_is_32bit_stream(s: usize) -> bool {
     (s) == BCJ2_STREAM_CALL || (s) == BCJ2_STREAM_JUMP
 }
+
+#[cfg(vse_hooks_lz)]
+impl Bcj2Decoder {
+    /// Verification hook: count from the given position on.
+    pub fn vse_set_pos(&mut self, pos: u32) {
+        self.ip = pos;
+    }
+}
diff --git a/src/bcj2/mod.rs b/src/bcj2/mod.rs
index 7f9f423..358e435 100644
--- a/src/bcj2/mod.rs
+++ b/src/bcj2/mod.rs
@@ -162,3 +162,11 @@ impl<R: Read> Read for BCJ2Reader<R> {
         Ok(result_size)
     }
 }
+
+#[cfg(vse_hooks_lz)]
+impl<R> BCJ2Reader<R> {
+    /// Verification hook: a stream whose output starts at the given position.
+    pub fn vse_set_pos(&mut self, pos: u32) {
+        self.decoder.vse_set_pos(pos)
+    }
+}
diff --git a/src/decoders.rs b/src/decoders.rs
index 14676f4..2c88488 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -177,3 +177,15 @@ fn get_lzma_dic_size(coder: &Coder) -> Result<u32, Error> {
         .ok_or_else(|| Error::other("LZMA properties too short"))?;
     props.read_u32::<LittleEndian>().map_err(Error::io)
 }
+
+/// Verification hook: the dictionary size a coder's properties stand for.
+#[cfg(vse_hooks_lz)]
+pub fn vse_dictionary(lzma2: bool, properties: &[u8]) -> Result<u32, Error> {
+    let mut coder = Coder::default();
+    coder.properties = properties.to_vec();
+    if lzma2 {
+        get_lzma2_dic_size(&coder)
+    } else {
+        get_lzma_dic_size(&coder)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 0606944..4340dff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,3 +48,9 @@ pub use writer::*;
 pub mod vse_hooks {
     pub use crate::bcj::SimpleReader;
 }
+#[cfg(vse_hooks_lz)]
+#[doc(hidden)]
+pub mod vse_hooks_lz {
+    pub use crate::bcj2::BCJ2Reader;
+    pub use crate::decoders::vse_dictionary;
+}
-- 
2.43.0

