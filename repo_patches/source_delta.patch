From 26db34ae61377f56072d367b083930d42c377969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 01/12] hook: expose the encrypting stream to external
 harnesses under --cfg vp_hooks

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9718b8a..d8c7134 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -50,3 +50,11 @@ impl From<u64> for ShiftedU64 {
         ShiftedU64(v)
     }
 }
+
+/// Access to private items for external verification harnesses (`--cfg vp_hooks` only).
+#[allow(unexpected_cfgs)]
+#[cfg(vp_hooks)]
+#[doc(hidden)]
+pub mod vp_hooks {
+    pub use crate::reader_writer::WiiEncryptedReadWriteStream;
+}
-- 
2.43.0


From 440a075edf0cd5412e61ca1aa7757a6eade36a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 02/12] fix: read_exact on a bounded window rejected reads that
 fit and accepted those that do not

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From 9d9b28c1068eac96872b56015bef1586cfb354b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 03/12] fix: relative seek in a window must be relative to the
 window, not to where the source was left

---
 src/window.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..f0c92aa 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -113,7 +113,10 @@ where
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+            SeekFrom::Current(off) => SeekFrom::Start(
+                self.start
+                    .saturating_add(self.pos.saturating_add_signed(off)),
+            ),
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
                     SeekFrom::Start((self.start + length).saturating_add_signed(off))
-- 
2.43.0


From ad9745d5a62de2154cf39da28c47fcc7a7b50665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 04/12] fix: seeking a window to an extreme position overflowed
 instead of saturating

---
 src/window.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index f0c92aa..c0e9508 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -119,12 +119,15 @@ where
             ),
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
-                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
+                    SeekFrom::Start(
+                        self.start
+                            .saturating_add(length.saturating_add_signed(off)),
+                    )
                 } else {
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
+            SeekFrom::Start(off) => SeekFrom::Start(self.start.saturating_add(off)),
         })?;
         self.pos = position.saturating_sub(self.start);
         Ok(self.pos)
-- 
2.43.0


From 2821b18612edd4b588ea064536fbe86035d3b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 05/12] fix: seeking a partition past i64::MAX went to the
 start or overflowed

---
 src/new_reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..cfe0d76 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -174,12 +174,15 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
 impl<'a, RS: Read + Seek> Seek for CryptPartReader<'a, RS> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let new_pos = match pos {
-            SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,
-            SeekFrom::Start(off) => off as i64,
+            SeekFrom::Current(off) => self
+                .crypt_part_state
+                .current_position
+                .saturating_add_signed(off),
+            SeekFrom::Start(off) => off,
             // TODO: support seeking from the end when it's known?
             SeekFrom::End(_off) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
-        self.crypt_part_state.current_position = new_pos.max(0) as u64;
+        self.crypt_part_state.current_position = new_pos;
         Ok(self.crypt_part_state.current_position)
     }
 
-- 
2.43.0


From 1d9d5e2e8bcae992ad215696b443eccd91cd0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 06/12] fix: inconsistent directory ranges in a file table
 panicked instead of giving an error

Also stop reserving memory for entry counts taken from the table before any entry was read.
---
 src/fst.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..0cec70e 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -318,7 +318,7 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
+        let mut nodes = Vec::new();
         nodes.push(root_node);
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
@@ -337,12 +337,18 @@ impl Fst {
         children_end: u32,
         cur_idx: &mut u32,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
+                if node.length < *cur_idx || node.length > children_end {
+                    return Err(binrw::Error::Custom {
+                        pos: str_offset,
+                        err: Box::new(format!("invalid FST directory range: {:?}", node)),
+                    });
+                }
                 let files =
                     Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
                 nodes.push(FstNode::Directory { name, files });
@@ -354,7 +360,6 @@ impl Fst {
                 });
             }
         }
-        assert_eq!(*cur_idx, children_end);
         Ok(nodes)
     }
 
-- 
2.43.0


From 9f266e9cae58ab8d836a3554d22a5037c56de01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 07/12] fix: a ticket with an unknown common key index panicked
 instead of giving an error

---
 src/structs.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..1a5da79 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -98,24 +98,39 @@ pub struct TicketTimeLimit {
     pub time_limit: u32,
 }
 
-fn decrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn get_common_key(common_key_idx: u8) -> Result<[u8; 16], String> {
+    COMMON_KEYS
+        .get(common_key_idx as usize)
+        .copied()
+        .ok_or_else(|| format!("unknown common key index: {common_key_idx}"))
+}
+
+fn decrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut decrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcDec::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .decrypt_padded_b2b_mut::<NoPadding>(key, &mut decrypted)
         .unwrap();
-    decrypted
+    Ok(decrypted)
 }
 
-fn encrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn encrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut encrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcEnc::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcEnc::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .encrypt_padded_b2b_mut::<NoPadding>(key, &mut encrypted)
         .unwrap();
-    encrypted
+    Ok(encrypted)
 }
 
 #[binrw]
@@ -128,7 +143,7 @@ pub struct Ticket {
     pub ecdh: [u8; 0x3C],
     #[brw(pad_before = 3)]
     #[br(temp)]
-    #[bw(calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
+    #[bw(try_calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
     encrypted_key: [u8; 16],
     #[brw(pad_before = 1)]
     pub ticket_id: [u8; 8],
@@ -145,7 +160,7 @@ pub struct Ticket {
     pub unk2: u16,
     pub time_limits: [TicketTimeLimit; 8],
     #[bw(ignore)]
-    #[br(calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
+    #[br(try_calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
     pub title_key: [u8; 16],
 }
 
-- 
2.43.0


From c6386773fce2f495c3e75478ca5201a09d0c5681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 08/12] fix: apploader size computation overflowed 32 bits

---
 src/new_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index cfe0d76..e9a4a91 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -298,9 +298,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From f6528129478034886b2eef59ae6cccfab80ca2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 09/12] fix: executables with gaps between or reordered
 sections were read truncated

---
 src/new_reader.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index e9a4a91..f181a44 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -312,16 +312,18 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(dol_offset))?;
         let dol_header = crypt_part_reader.read_be::<DOLHeader>()?;
-        let mut dol_size = dol_header.text_off[0];
-        dol_size = dol_size.saturating_add(
-            dol_header
-                .text_sizes
-                .iter()
-                .chain(dol_header.data_sizes.iter())
-                .cloned()
-                .reduce(|accum, item| accum.saturating_add(item))
-                .unwrap(),
-        );
+        // the end of the last section, sections don't have to be contiguous or in order
+        let mut dol_size: u32 = 0x100;
+        for (off, size) in dol_header
+            .text_off
+            .iter()
+            .zip(dol_header.text_sizes.iter())
+            .chain(dol_header.data_off.iter().zip(dol_header.data_sizes.iter()))
+        {
+            if *size > 0 {
+                dol_size = dol_size.max(off.saturating_add(*size));
+            }
+        }
         if dol_size == u32::MAX {
             Err(binrw::Error::Custom {
                 pos: dol_offset,
-- 
2.43.0


From 4b0d3c5462517c834d316ae9447fb04c48f7db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 10/12] fix: adding a partition with a TMD without contents
 panicked instead of giving an error

---
 src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..c1830e1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -113,6 +113,9 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         C: FnMut(u8),
     {
         progress_cb(0);
+        if tmd.contents.is_empty() {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "TMD has no contents").into());
+        }
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
         self.partitions.push(WiiPartTableEntry {
-- 
2.43.0


From 440e23b880e8a21c6fb705a17682dba3b3447557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 11/12] fix: a partition that could not be added was still
 listed in the partition table

---
 src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index c1830e1..71e6e83 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -118,10 +118,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         }
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -292,6 +288,10 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From 7a4df57866df004bcd2043ef08f3448eee20a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 12/12] fix: file names were silently changed when Shift-JIS
 only has a similar character

---
 src/fst.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index 0cec70e..d55447d 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -531,7 +531,8 @@ fn rec_build_fst_bytes(
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
-        if error {
+        // some characters are mapped to similar ones instead of being reported
+        if error || SHIFT_JIS.decode_without_bom_handling(&bytes).0 != node.get_name().as_str() {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
-- 
2.43.0

