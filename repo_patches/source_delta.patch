From 34251566c966d0d14e8b09bafd7303450c93bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 01/56] fix: LZMA encoder panicked when flushed with only a few
 new bytes pending

---
 lzma-rust/src/lz/lz_encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index 93d410c..b0d032e 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -287,7 +287,8 @@ impl LZEncoderData {
             let old_pending = self.pending_size;
             self.pending_size = 0;
             match_finder.skip(self, old_pending as _);
-            assert!(self.pending_size < old_pending)
+            // Too little new data may leave all of them pending again.
+            assert!(self.pending_size <= old_pending)
         }
     }
 
-- 
2.43.0


From dd34e3cd22bfcb8fd97a83f9ae4886d053662527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 02/56] fix: LZMA2Writer left out the dictionary reset for an
 empty preset dictionary

---
 lzma-rust/src/enc/lzma2_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index 2121da8..e304084 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -180,7 +180,7 @@ impl<W: Write> LZMA2Writer<W> {
         let mut dict_reset_needed = true;
         if let Some(preset_dict) = &options.preset_dict {
             lzma.lz.set_preset_dict(dict_size, preset_dict);
-            dict_reset_needed = false;
+            dict_reset_needed = preset_dict.is_empty();
         }
         Self {
             inner,
-- 
2.43.0


From 34834ed29cda1cd6991f8205d25dde93489d6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 03/56] fix: LZMA2Writer lost uncompressible data with
 dictionaries smaller than a chunk

---
 lzma-rust/src/enc/encoder.rs      | 4 +++-
 lzma-rust/src/enc/lzma2_writer.rs | 1 +
 lzma-rust/src/enc/lzma_writer.rs  | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 4b97e6d..b6fa3c0 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -132,6 +132,7 @@ impl LZMAEncoder {
         mf: MFType,
         depth_limit: i32,
         dict_size: u32,
+        extra_size_before: u32,
         nice_len: usize,
     ) -> (Self, LZMAEncoderModes) {
         let fast_mode = mode == EncodeMode::Fast;
@@ -140,7 +141,7 @@ impl LZMAEncoder {
         } else {
             LZMAEncoderModes::Normal(NormalEncoderMode::new())
         };
-        let (extra_size_before, extra_size_after) = if fast_mode {
+        let (mode_size_before, extra_size_after) = if fast_mode {
             (
                 FashEncoderMode::EXTRA_SIZE_BEFORE,
                 FashEncoderMode::EXTRA_SIZE_AFTER,
@@ -151,6 +152,7 @@ impl LZMAEncoder {
                 NormalEncoderMode::EXTRA_SIZE_AFTER,
             )
         };
+        let extra_size_before = extra_size_before.max(mode_size_before);
         let lz = match mf {
             MFType::HC4 => LZEncoder::new_hc4(
                 dict_size,
diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index e304084..21ae8ae 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -173,6 +173,7 @@ impl<W: Write> LZMA2Writer<W> {
             options.mf,
             options.depth_limit,
             options.dict_size,
+            get_extra_size_before(options.dict_size),
             options.nice_len as usize,
         );
 
diff --git a/lzma-rust/src/enc/lzma_writer.rs b/lzma-rust/src/enc/lzma_writer.rs
index 9aa7aa5..4247f99 100644
--- a/lzma-rust/src/enc/lzma_writer.rs
+++ b/lzma-rust/src/enc/lzma_writer.rs
@@ -49,6 +49,7 @@ impl<W: Write> LZMAWriter<W> {
             options.mf,
             options.depth_limit,
             options.dict_size,
+            0,
             options.nice_len as usize,
         );
         if let Some(preset_dict) = &options.preset_dict {
-- 
2.43.0


From e811162e1931781f6b53003ef9d685b37db2952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 04/56] fix: LZMAReader cut off the preset dictionary when the
 content is smaller than it

---
 lzma-rust/src/lzma_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 653dd97..62efc42 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -111,7 +111,7 @@ impl<R: Read> LZMAReader<R> {
             ));
         }
         let mut dict_size = get_dict_size(dict_size)?;
-        if uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size {
+        if preset_dict.is_none() && uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size {
             dict_size = get_dict_size(uncomp_size as u32)?;
         }
         let rc = RangeDecoder::new_stream(reader);
-- 
2.43.0


From 6982d51f7756886e0076c562bcb33ad97bcb85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 05/56] fix: LZMAReader cut remaining and buffer sizes down to
 32 bits

---
 lzma-rust/src/lzma_reader.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 62efc42..91f6424 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -204,14 +204,14 @@ impl<R: Read> LZMAReader<R> {
             return Ok(0);
         }
         let mut size = 0;
-        let mut len = buf.len() as u32;
-        let mut off = 0u32;
+        let mut len = buf.len();
+        let mut off = 0;
         while len > 0 {
-            let mut copy_size_max = len as u32;
-            if self.remaining_size <= u64::MAX / 2 && (self.remaining_size as u32) < len {
-                copy_size_max = self.remaining_size as u32;
+            let mut copy_size_max = len;
+            if self.remaining_size <= u64::MAX / 2 && self.remaining_size < len as u64 {
+                copy_size_max = self.remaining_size as usize;
             }
-            self.lz.set_limit(copy_size_max as usize);
+            self.lz.set_limit(copy_size_max);
 
             match self.lzma.decode(&mut self.lz, &mut self.rc) {
                 Ok(_) => {}
@@ -224,7 +224,7 @@ impl<R: Read> LZMAReader<R> {
                 }
             }
 
-            let copied_size = self.lz.flush(buf, off as _) as u32;
+            let copied_size = self.lz.flush(buf, off);
             off += copied_size;
             len -= copied_size;
             size += copied_size;
@@ -244,10 +244,10 @@ impl<R: Read> LZMAReader<R> {
                         "end reached but not decoder finished",
                     ));
                 }
-                return Ok(size as _);
+                return Ok(size);
             }
         }
-        Ok(size as _)
+        Ok(size)
     }
 }
 
-- 
2.43.0


From c78ede3966e618ceebd456fb3cf1c2618e8e361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 06/56] fix: LZMA2Reader failed on stored chunks of the maximum
 size

---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index 8fd1daa..db827c7 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -119,7 +119,7 @@ impl<R: Read> LZMA2Reader<R> {
             ));
         } else {
             self.is_lzma_chunk = false;
-            self.uncompressed_size = (self.inner.read_u16::<BigEndian>()? + 1) as _;
+            self.uncompressed_size = self.inner.read_u16::<BigEndian>()? as usize + 1;
         }
         Ok(())
     }
-- 
2.43.0


From ed64a700ee966d5e2ccc8c9c079f9abe28cee73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 07/56] fix: archives without sub-streams info or stream
 digests lost sizes and folder checksums

---
 src/reader.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 78fc81f..9c1fbf4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -446,6 +446,18 @@ impl Archive {
         if nid == K_SUB_STREAMS_INFO {
             Self::read_sub_streams_info(header, archive)?;
             nid = read_u8(header)?;
+        } else {
+            // the default is one stream per folder, with the size and checksum of the folder
+            let mut sub_streams_info = SubStreamsInfo::default();
+            for (i, folder) in archive.folders.iter_mut().enumerate() {
+                folder.num_unpack_sub_streams = 1;
+                sub_streams_info.unpack_sizes.push(folder.get_unpack_size());
+                sub_streams_info.crcs.push(folder.crc);
+                if folder.has_crc {
+                    sub_streams_info.has_crc.insert(i);
+                }
+            }
+            archive.sub_streams_info = Some(sub_streams_info);
         }
         if nid != K_END {
             return Err(Error::BadTerminatedStreamsInfo(nid));
@@ -838,10 +850,15 @@ impl Archive {
         }
 
         let mut num_digests = 0;
+        let mut next_stream = 0;
         for folder in archive.folders.iter() {
             if folder.num_unpack_sub_streams != 1 || !folder.has_crc {
                 num_digests += folder.num_unpack_sub_streams;
+            } else {
+                sub_streams_info.has_crc.insert(next_stream);
+                sub_streams_info.crcs[next_stream] = folder.crc;
             }
+            next_stream += folder.num_unpack_sub_streams;
         }
 
         if nid == K_CRC {
@@ -856,8 +873,6 @@ impl Archive {
             let mut next_missing_crc = 0;
             for folder in archive.folders.iter() {
                 if folder.num_unpack_sub_streams == 1 && folder.has_crc {
-                    sub_streams_info.has_crc.insert(next_crc);
-                    sub_streams_info.crcs[next_crc] = folder.crc;
                     next_crc += 1;
                 } else {
                     for _i in 0..folder.num_unpack_sub_streams {
-- 
2.43.0


From 98bc45f24dcbeefd122b13020966f987adca9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 08/56] fix: for_each_entries went on with the next block after
 the callback asked to stop

---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9c1fbf4..28d5835 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1382,7 +1382,9 @@ impl<R: Read + Seek> SevenZReader<R> {
                 &self.password,
                 &mut self.source,
             );
-            forder_dec.for_each_entries(&mut each)?;
+            if !forder_dec.for_each_entries(&mut each)? {
+                return Ok(());
+            }
         }
         // decode empty files
         for file_index in 0..self.archive.files.len() {
-- 
2.43.0


From 4a53f478e7bad699764918828ee2dbd66527bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 09/56] fix: blocks with empty files between their streams, or
 without streams, were read wrongly

---
 src/reader.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 28d5835..6593c83 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1429,13 +1429,25 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
     }
 
     pub fn entries(&self) -> &[SevenZArchiveEntry] {
-        let start = self.archive.stream_map.folder_first_file_index[self.folder_index];
-        let file_count = self.archive.folders[self.folder_index].num_unpack_sub_streams;
-        &self.archive.files[start..(file_count + start)]
+        &self.archive.files[Self::file_range(self.archive, self.folder_index)]
     }
 
     pub fn entry_count(&self) -> usize {
-        self.archive.folders[self.folder_index].num_unpack_sub_streams
+        Self::file_range(self.archive, self.folder_index).len()
+    }
+
+    /// Indexes of the files of a block: those with its streams and the empty ones between them.
+    fn file_range(archive: &Archive, folder_index: usize) -> std::ops::Range<usize> {
+        let start = archive.stream_map.folder_first_file_index[folder_index];
+        let mut streams = archive.folders[folder_index].num_unpack_sub_streams;
+        let mut end = start;
+        while streams > 0 && end < archive.files.len() {
+            if archive.files[end].has_stream {
+                streams -= 1;
+            }
+            end += 1;
+        }
+        start..end
     }
 
     /// Takes a closure to decode each files in this block.
@@ -1458,12 +1470,14 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
             password,
             source,
         } = self;
+        let files = Self::file_range(archive, folder_index);
+        if files.is_empty() {
+            return Ok(true);
+        }
         let (mut folder_reader, _size) =
             SevenZReader::build_decode_stack(source, archive, folder_index, password)?;
-        let start = archive.stream_map.folder_first_file_index[folder_index];
-        let file_count = archive.folders[folder_index].num_unpack_sub_streams;
 
-        for file_index in start..(file_count + start) {
+        for file_index in files {
             let file = &archive.files[file_index];
             if file.has_stream && file.size > 0 {
                 let mut decoder: Box<dyn Read> =
-- 
2.43.0


From 31792b31906153852d042c62eebfb61d7d38f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 10/56] fix: AES properties without salt and IV were rejected

---
 src/aes256sha256.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9f44bcb..9bd5bb6 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -115,21 +115,23 @@ impl<R: Read + Seek> Seek for Aes256Sha256Decoder<R> {
 }
 
 fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]), crate::Error> {
-    if properties.len() < 2 {
+    // neither the byte with the sizes nor, without any cycles, the first one has to be there
+    let b0 = properties.first().copied().unwrap_or(0);
+    if b0 & 0xc0 != 0 && properties.len() < 2 {
         return Err(crate::Error::other("AES256 properties too shart"));
     }
-    let b0 = properties[0];
     let num_cycles_power = b0 & 63;
-    let b1 = properties[1];
+    let b1 = if b0 & 0xc0 != 0 { properties[1] } else { 0 };
+    let properties = properties.get(2..).unwrap_or(&[]);
     let iv_size = ((b0 >> 6 & 1) + (b1 & 15)) as usize;
     let salt_size = ((b0 >> 7 & 1) + (b1 >> 4)) as usize;
-    if 2 + salt_size + iv_size > properties.len() {
+    if salt_size + iv_size > properties.len() {
         return Err(crate::Error::other("Salt size + IV size too long"));
     }
     let mut salt = vec![0u8; salt_size];
-    salt.copy_from_slice(&properties[2..(2 + salt_size)]);
+    salt.copy_from_slice(&properties[..salt_size]);
     let mut iv = [0u8; 16];
-    iv[0..iv_size].copy_from_slice(&properties[(2 + salt_size)..(2 + salt_size + iv_size)]);
+    iv[0..iv_size].copy_from_slice(&properties[salt_size..(salt_size + iv_size)]);
     if password.is_empty() {
         return Err(crate::Error::PasswordRequired);
     }
-- 
2.43.0


From 4b695339e565504501cbdecea189ab76fe680f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 11/56] fix: AES keys without hashing panicked

---
 src/aes256sha256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9bd5bb6..915a068 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -137,7 +137,7 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
     }
     let aes_key = if num_cycles_power == 0x3f {
         let mut aes_key = [0u8; 32];
-        aes_key.copy_from_slice(&salt[..salt_size]);
+        aes_key[..salt_size].copy_from_slice(&salt);
         let n = password.len().min(aes_key.len() - salt_size);
         aes_key[salt_size..n + salt_size].copy_from_slice(&password[0..n]);
         aes_key
-- 
2.43.0


From 39fdca3e497c8829138153118cc5d65440935ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 12/56] fix: AES key derivation hung or panicked for huge cycle
 counts

---
 src/aes256sha256.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 915a068..ea0ae3e 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -114,6 +114,9 @@ impl<R: Read + Seek> Seek for Aes256Sha256Decoder<R> {
     }
 }
 
+/// More than the 2^24 cycles the reference implementation supports would take hours.
+const MAX_NUM_CYCLES_POWER: u8 = 24;
+
 fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]), crate::Error> {
     // neither the byte with the sizes nor, without any cycles, the first one has to be there
     let b0 = properties.first().copied().unwrap_or(0);
@@ -125,6 +128,12 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
     let properties = properties.get(2..).unwrap_or(&[]);
     let iv_size = ((b0 >> 6 & 1) + (b1 & 15)) as usize;
     let salt_size = ((b0 >> 7 & 1) + (b1 >> 4)) as usize;
+    if num_cycles_power > MAX_NUM_CYCLES_POWER && num_cycles_power != 0x3f {
+        return Err(crate::Error::unsupported(format!(
+            "AES256 key derivation with 2^{} cycles",
+            num_cycles_power
+        )));
+    }
     if salt_size + iv_size > properties.len() {
         return Err(crate::Error::other("Salt size + IV size too long"));
     }
-- 
2.43.0


From eded922b34df95a614ada04b65ba91ff6427e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 13/56] fix: AES decoder panicked when a block arrived in more
 than two reads

---
 src/aes256sha256.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index ea0ae3e..24b39ef 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -191,8 +191,11 @@ impl Cipher {
         let mut n = 0;
         if !self.buf.is_empty() {
             assert!(self.buf.len() < 16);
-            let end = 16 - self.buf.len();
+            let end = (16 - self.buf.len()).min(data.len());
             self.buf.extend_from_slice(&data[..end]);
+            if self.buf.len() < 16 {
+                return Ok(0);
+            }
             data = &mut data[end..];
             let block = GenericArray::from_mut_slice(&mut self.buf);
             self.dec.decrypt_block_mut(block);
-- 
2.43.0


From 2df4cc009a41fcf4bf14d99c016ec6c6f7bdb8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 14/56] fix: empty archives without a header were rejected

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 6593c83..996bed9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -351,6 +351,10 @@ impl Archive {
         }
 
         let mut archive = Archive::default();
+        if buf.is_empty() {
+            // an archive without any entries does not need a header
+            return Ok(archive);
+        }
         let mut buf_reader = buf.as_slice();
         let mut nid = read_u8(&mut buf_reader)?;
         let mut header = if nid == K_ENCODED_HEADER {
-- 
2.43.0


From a68a695fcc33a57ede073ab4ae373b807c955bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 15/56] fix: archives with blocks but no file records panicked
 when read

---
 src/reader.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 996bed9..9345400 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -269,7 +269,7 @@ impl Archive {
             return Err(Error::BadTerminatedheader(nid));
         }
 
-        Ok(())
+        Self::calculate_stream_map(archive)
     }
 
     fn read_archive_properties<R: Read + Seek>(header: &mut R) -> Result<(), Error> {
@@ -647,8 +647,6 @@ impl Archive {
             }
         }
         archive.files = files;
-
-        Self::calculate_stream_map(archive)?;
         Ok(())
     }
 
-- 
2.43.0


From fa1295d6b82c7d2d756ec7913b9b5dd60ef1e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 16/56] fix: decoded streams were not cut off at their size,
 and not reported when they ended early

---
 src/reader.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9345400..fc1dace 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -39,6 +39,7 @@ impl<R: Read> Read for BoundedReader<R> {
             &mut buf[..remain]
         };
         match self.inner.read(buf2) {
+            Ok(0) if !buf2.is_empty() => Err(ErrorKind::UnexpectedEof.into()),
             Ok(size) => {
                 if self.remain < size {
                     self.remain = 0;
@@ -414,14 +415,15 @@ impl Archive {
                         "Multi input/output stream coders are not yet supported",
                     ));
                 }
+                let size = folder.get_unpack_size_at_index(index) as usize;
                 let next = crate::decoders::add_decoder(
                     decoder,
-                    folder.get_unpack_size_at_index(index) as usize,
+                    size,
                     coder,
                     password,
                     MAX_MEM_LIMIT_KB,
                 )?;
-                decoder = Box::new(next);
+                decoder = Box::new(BoundedReader::new(next, size));
             }
             decoder
         } else {
@@ -1193,14 +1195,10 @@ impl<R: Read + Seek> SevenZReader<R> {
                     "Multi input/output stream coders are not yet supported",
                 ));
             }
-            let next = crate::decoders::add_decoder(
-                decoder,
-                folder.get_unpack_size_at_index(index) as usize,
-                coder,
-                password,
-                MAX_MEM_LIMIT_KB,
-            )?;
-            decoder = Box::new(next);
+            let size = folder.get_unpack_size_at_index(index) as usize;
+            let next =
+                crate::decoders::add_decoder(decoder, size, coder, password, MAX_MEM_LIMIT_KB)?;
+            decoder = Box::new(BoundedReader::new(next, size));
         }
         if folder.has_crc {
             decoder = Box::new(Crc32VerifyingReader::new(
@@ -1354,7 +1352,7 @@ impl<R: Read + Seek> SevenZReader<R> {
                 Self::get_in_stream(folder, sources, coder_to_stream_map, password, start_index)?;
 
             let decoder = add_decoder(input, uncompressed_len, coder, password, MAX_MEM_LIMIT_KB)?;
-            return Ok(Box::new(decoder));
+            return Ok(Box::new(BoundedReader::new(decoder, uncompressed_len)));
         }
         Err(Error::unsupported(
             "Multi input stream coders are not yet supported",
-- 
2.43.0


From 0f60f2f5956c8e49eee30d0f41c93199b313dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:35 +0000
Subject: [PATCH 17/56] fix: entries without content were written as anti items
 unless they were

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index c727b30..2c053de 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -546,8 +546,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-                has_anti |= !is_anti;
-                if !is_anti {
+                has_anti |= is_anti;
+                if is_anti {
                     bitset.insert(counter);
                 }
                 counter += 1;
-- 
2.43.0


From b80346dc7f302cbb2b03e5a738f91b6104f3f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 18/56] fix: bit vectors of entries without content were cut
 off after the last set bit

---
 src/writer.rs           | 13 +++++++------
 src/writer/pack_info.rs |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 2c053de..ad35247 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -42,7 +42,7 @@ macro_rules! write_times {
                             times.insert(i);
                         }
                     }
-                    write_bit_set(&mut out, &times)?;
+                    write_bit_set(&mut out, &times, self.files.len())?;
                 } else {
                     out.write_u8(1)?;
                 }
@@ -508,7 +508,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
                 }
             }
             let mut temp: Vec<u8> = Vec::with_capacity(bitset.len() / 8 + 1);
-            write_bit_set(&mut temp, &bitset)?;
+            write_bit_set(&mut temp, &bitset, self.files.len())?;
             write_u64(header, temp.len() as u64)?;
             header.write_all(temp.as_slice())?;
         }
@@ -532,7 +532,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             header.write_u8(K_EMPTY_FILE)?;
 
             let mut temp: Vec<u8> = Vec::with_capacity(bitset.len() / 8 + 1);
-            write_bit_set(&mut temp, &bitset)?;
+            write_bit_set(&mut temp, &bitset, empty_stream_counter)?;
             write_u64(header, temp.len() as u64)?;
             header.write_all(&temp)?;
         }
@@ -557,7 +557,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             header.write_u8(K_ANTI)?;
 
             let mut temp: Vec<u8> = Vec::with_capacity(bitset.len() / 8 + 1);
-            write_bit_set(&mut temp, &bitset)?;
+            write_bit_set(&mut temp, &bitset, counter)?;
             write_u64(header, temp.len() as u64)?;
             header.write_all(temp.as_slice())?;
         }
@@ -624,10 +624,11 @@ pub(crate) fn write_u64<W: Write>(header: &mut W, mut value: u64) -> std::io::Re
     Ok(())
 }
 
-fn write_bit_set<W: Write>(mut write: W, bs: &BitSet) -> std::io::Result<()> {
+/// Writes the bits of `len` items.
+fn write_bit_set<W: Write>(mut write: W, bs: &BitSet, len: usize) -> std::io::Result<()> {
     let mut cache = 0;
     let mut shift = 7;
-    for i in 0..bs.get_ref().len() {
+    for i in 0..len {
         let set = if bs.contains(i) { 1 } else { 0 };
         cache |= set << shift;
         shift -= 1;
diff --git a/src/writer/pack_info.rs b/src/writer/pack_info.rs
index 48a0d0c..26700c2 100644
--- a/src/writer/pack_info.rs
+++ b/src/writer/pack_info.rs
@@ -33,7 +33,7 @@ impl PackInfo {
                 }
             }
             let mut temp = Vec::with_capacity(self.len());
-            write_bit_set(&mut temp, &crc_define_bits)?;
+            write_bit_set(&mut temp, &crc_define_bits, self.crcs.len())?;
             header.write_all(&temp)?;
         }
 
-- 
2.43.0


From d2232cfd020af3ae5e91dbbe2e82f9225de5ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 19/56] fix: solid blocks of a single entry with checksum zero
 corrupted the header

---
 src/writer/unpack_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/unpack_info.rs b/src/writer/unpack_info.rs
index 9a327f6..0019695 100644
--- a/src/writer/unpack_info.rs
+++ b/src/writer/unpack_info.rs
@@ -81,7 +81,8 @@ impl UnpackInfo {
         header.write_u8(K_CRC)?;
         header.write_u8(1)?; // all crc defined
         for f in &self.folders {
-            if f.sub_stream_crcs.len() <= 1 && f.crc != 0 {
+            // the checksum of a single stream is that of its folder
+            if f.sub_stream_crcs.len() <= 1 {
                 continue;
             }
             for i in 0..f.sub_stream_crcs.len() {
-- 
2.43.0


From 41833ff25252c2e3414c80ef92d7e2a85d57cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 20/56] fix: checksums of all packed streams were left out of
 the header if one was zero

---
 src/writer/pack_info.rs | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/writer/pack_info.rs b/src/writer/pack_info.rs
index 26700c2..d44cd80 100644
--- a/src/writer/pack_info.rs
+++ b/src/writer/pack_info.rs
@@ -17,24 +17,9 @@ impl PackInfo {
             write_u64(header, *size)?;
         }
         header.write_u8(K_CRC)?;
-        let all_crc_defined = self.crcs.iter().all(|f| *f != 0);
-        if all_crc_defined {
-            header.write_u8(1)?; // all defined
-            for crc in self.crcs.iter() {
-                header.write_u32::<LittleEndian>(*crc)?;
-            }
-        } else {
-            header.write_u8(0)?; // not all defined
-            let mut crc_define_bits = BitSet::with_capacity(self.crcs.len());
-
-            for (i, crc) in self.crcs.iter().cloned().enumerate() {
-                if crc != 0 {
-                    crc_define_bits.insert(i);
-                }
-            }
-            let mut temp = Vec::with_capacity(self.len());
-            write_bit_set(&mut temp, &crc_define_bits, self.crcs.len())?;
-            header.write_all(&temp)?;
+        header.write_u8(1)?; // all defined
+        for crc in self.crcs.iter() {
+            header.write_u32::<LittleEndian>(*crc)?;
         }
 
         header.write_u8(K_END)?;
-- 
2.43.0


From 97a8c0fe8bcc95a6c803b4cfa6d02860aca58fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 21/56] fix: entries pushed as a solid block lost their content
 unless marked as having a stream

---
 src/writer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index ad35247..b59b8d5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -314,9 +314,16 @@ impl<W: Write + Seek> SevenZWriter<W> {
             let ri = &r[i];
             entry.crc = ri.crc_value() as u64;
             entry.size = ri.read_count() as u64;
-            sub_stream_crcs.push(entry.crc as u32);
-            sub_stream_sizes.push(entry.size);
-            entry.has_crc = true;
+            entry.compressed_crc = 0;
+            entry.compressed_size = 0;
+            // only a directory has no stream in the block
+            entry.has_stream = !entry.is_directory || entry.size > 0;
+            entry.has_crc = entry.has_stream;
+            if entry.has_stream {
+                entry.is_directory = false;
+                sub_stream_crcs.push(entry.crc as u32);
+                sub_stream_sizes.push(entry.size);
+            }
         }
 
         self.pack_info
@@ -330,7 +337,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             content_methods.clone(),
             sizes,
             crc,
-            entries.len() as u64,
+            sub_stream_sizes.len() as u64,
             sub_stream_sizes,
             sub_stream_crcs,
         );
-- 
2.43.0


From a298f09e50fa1b76af3572c5303efba327da2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 22/56] fix: recorded LZMA2 dictionary size was rounded down
 below what the stream uses

---
 src/encoders.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index fc20119..980a5dc 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -82,9 +82,10 @@ pub(crate) fn get_options_as_properties<'a>(
             let dict_size = options
                 .map(|o| o.get_lzma2_dict_size())
                 .unwrap_or(LZMA2Options::DICT_SIZE_DEFAULT);
-            let lead = dict_size.leading_zeros();
-            let second_bit = (dict_size >> (30u32.wrapping_sub(lead))).wrapping_sub(2);
-            let prop = (19u32.wrapping_sub(lead) * 2 + second_bit) as u8;
+            // the smallest size the property can express which is not smaller than the dictionary
+            let prop = (0..40u8)
+                .find(|p| (2 | (*p as u32 & 1)) << (*p / 2 + 11) >= dict_size)
+                .unwrap_or(40);
             out[0] = prop;
             &out[0..1]
         }
-- 
2.43.0


From 87a88cc4416d163143934ea59cec799fdeb54da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 23/56] fix: recorded LZMA2 dictionary size differed from the
 default when options are of another kind

---
 src/encoders.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index 980a5dc..b023845 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -79,9 +79,8 @@ pub(crate) fn get_options_as_properties<'a>(
 ) -> &'a [u8] {
     match method.id() {
         SevenZMethod::ID_LZMA2 => {
-            let dict_size = options
-                .map(|o| o.get_lzma2_dict_size())
-                .unwrap_or(LZMA2Options::DICT_SIZE_DEFAULT);
+            let mut def_opts = LZMA2Options::default();
+            let dict_size = get_lzma2_options(options, &mut def_opts).dict_size;
             // the smallest size the property can express which is not smaller than the dictionary
             let prop = (0..40u8)
                 .find(|p| (2 | (*p as u32 & 1)) << (*p / 2 + 11) >= dict_size)
-- 
2.43.0


From 7d5280ae64e3727bac9690e1cc101e9b2153c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 24/56] fix: small headers were written in clear in spite of
 header encryption

---
 src/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index b59b8d5..fd80e2d 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -446,8 +446,9 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
         let compress_crc = compressed.crc_value();
         let compress_size = *compressed.bytes_written;
-        if compress_size as u64 + 20 >= size {
+        if methods.len() == 1 && compress_size as u64 + 20 >= size {
             // compression made it worse. Write raw data
+            // (but never when the header has to be encrypted)
             header.write_all(&raw_header)?;
             return Ok(());
         }
-- 
2.43.0


From 87946db8a226dd721eff35c2865f92180f4c06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:16 +0000
Subject: [PATCH 25/56] fix: a failed push corrupted the archive, as what it
 had written stayed in place

---
 src/writer.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index fd80e2d..937948e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -71,6 +71,12 @@ pub struct SevenZWriter<W: Write> {
     pack_info: PackInfo,
     unpack_info: UnpackInfo,
     encrypt_header: bool,
+    /// where the streams of the pushed entries end
+    packed_end: u64,
+    /// where everything that was written ends, if a failed push left something behind
+    written_end: u64,
+    /// whether a push has begun and not been completed
+    pushing: bool,
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -98,9 +104,34 @@ impl<W: Write + Seek> SevenZWriter<W> {
             pack_info: Default::default(),
             unpack_info: Default::default(),
             encrypt_header: true,
+            packed_end: crate::archive::SIGNATURE_HEADER_SIZE,
+            written_end: 0,
+            pushing: false,
         })
     }
 
+    /// Returns to the end of the packed streams if the last push failed halfway.
+    fn drop_failed_push(&mut self) -> std::io::Result<()> {
+        if self.pushing {
+            let pos = self.output.stream_position()?;
+            self.written_end = self.written_end.max(pos);
+            self.output.seek(std::io::SeekFrom::Start(self.packed_end))?;
+            self.pushing = false;
+        }
+        Ok(())
+    }
+
+    fn begin_push(&mut self) -> Result<()> {
+        self.drop_failed_push().map_err(Error::io)?;
+        self.pushing = true;
+        Ok(())
+    }
+
+    fn end_push(&mut self, compressed_len: u64) {
+        self.packed_end += compressed_len;
+        self.pushing = false;
+    }
+
     /// Sets the default compression methods to use for entry contents.
     /// The default is LZMA2.
     /// And currently only support LZMA2
@@ -170,6 +201,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&SevenZArchiveEntry> {
         if !entry.is_directory {
             if let Some(mut r) = reader {
+                self.begin_push()?;
                 let mut compressed_len = 0;
                 let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
                 let content_methods = if entry.content_methods.is_empty() {
@@ -226,6 +258,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
                 sizes.push(size as u64);
 
                 self.unpack_info.add(content_methods.clone(), sizes, crc);
+                self.end_push(compressed_len as u64);
 
                 self.files.push(entry);
                 return Ok(self.files.last().unwrap());
@@ -250,6 +283,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&mut Self> {
         let mut r = reader;
         assert_eq!(r.reader_len(), entries.len());
+        self.begin_push()?;
         let mut compressed_len = 0;
         let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
         let content_methods = &self.content_methods;
@@ -341,6 +375,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             sub_stream_sizes,
             sub_stream_crcs,
         );
+        self.end_push(compressed_len as u64);
 
         self.files.extend(entries);
         Ok(self)
@@ -369,6 +404,12 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
     /// Finishes the compression.
     pub fn finish(mut self) -> std::io::Result<W> {
+        self.drop_failed_push()?;
+        if self.written_end > self.packed_end {
+            // the archive ends with the header, so it goes behind what a failed push left
+            self.output
+                .seek(std::io::SeekFrom::Start(self.written_end))?;
+        }
         let mut header: Vec<u8> = Vec::with_capacity(64 * 1024);
         self.write_encoded_header(&mut header)?;
         let header_pos = self.output.stream_position()?;
-- 
2.43.0


From 4d3e07fb47b537ac0c2681d3098eeb0319135200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 26/56] fix: SourceReader lost checksum and size around empty
 reads

---
 src/writer/seq_reader.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/writer/seq_reader.rs b/src/writer/seq_reader.rs
index 9e0f141..76f60c1 100644
--- a/src/writer/seq_reader.rs
+++ b/src/writer/seq_reader.rs
@@ -75,7 +75,6 @@ pub struct SourceReader<R> {
     reader: R,
     size: usize,
     crc: crc::Digest<'static, u32>,
-    crc_value: u32,
 }
 
 impl<R> From<R> for SourceReader<R> {
@@ -87,15 +86,8 @@ impl<R> From<R> for SourceReader<R> {
 impl<R: Read> Read for SourceReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let n = self.reader.read(buf)?;
-        if self.crc_value == 0 {
-            if n > 0 {
-                self.size += n;
-                self.crc.update(&buf[..n]);
-            } else {
-                let crc = std::mem::replace(&mut self.crc, crate::reader::CRC32.digest());
-                self.crc_value = crc.finalize();
-            }
-        }
+        self.size += n;
+        self.crc.update(&buf[..n]);
         Ok(n)
     }
 }
@@ -106,7 +98,6 @@ impl<R> SourceReader<R> {
             reader,
             size: 0,
             crc: crate::reader::CRC32.digest(),
-            crc_value: 0,
         }
     }
 
@@ -114,7 +105,7 @@ impl<R> SourceReader<R> {
         self.size
     }
     pub fn crc_value(&self) -> u32 {
-        self.crc_value
+        self.crc.clone().finalize()
     }
 }
 
-- 
2.43.0


From a0de73651ee73b81480efcf5a56e90f521c74be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 27/56] fix: SeqReader skipped a reader's content after a read
 into an empty buffer

---
 src/writer/seq_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer/seq_reader.rs b/src/writer/seq_reader.rs
index 76f60c1..fe77427 100644
--- a/src/writer/seq_reader.rs
+++ b/src/writer/seq_reader.rs
@@ -56,6 +56,10 @@ impl<R> SeqReader<R> {
 
 impl<R: Read> Read for SeqReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            // says nothing about the current reader's end
+            return Ok(0);
+        }
         let mut i = 0;
         while self.current < self.readers.len() {
             let r = &mut self.readers[self.current];
-- 
2.43.0


From 9afb1b7013124f960805935232d4e34b71ae0510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 28/56] fix: branch filters hung or lost data when a read was
 interrupted

---
 src/bcj/mod.rs  | 1 +
 src/bcj2/mod.rs | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bcj/mod.rs b/src/bcj/mod.rs
index de9ec22..78af97c 100644
--- a/src/bcj/mod.rs
+++ b/src/bcj/mod.rs
@@ -118,6 +118,7 @@ impl<R: Read> Read for SimpleReader<R> {
             let temp = &mut state.filter_buf[start..(start + in_size)];
             in_size = match self.inner.read(temp) {
                 Ok(s) => s,
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                 Err(e) => {
                     let err = std::io::Error::new(e.kind(), e.to_string());
                     self.err = Some(err);
diff --git a/src/bcj2/mod.rs b/src/bcj2/mod.rs
index 9247ae7..1faf22a 100644
--- a/src/bcj2/mod.rs
+++ b/src/bcj2/mod.rs
@@ -111,9 +111,12 @@ impl<R: Read> Read for BCJ2Reader<R> {
 
             loop {
                 let cur_size = BUF_SIZE - total_read;
-                let cur_size = self.inputs[self.decoder.state].read(
+                let cur_size = match self.inputs[self.decoder.state].read(
                     &mut self.base.buf_at(self.decoder.state)[total_read..total_read + cur_size],
-                )?;
+                ) {
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                    r => r?,
+                };
                 if cur_size == 0 {
                     break;
                 }
-- 
2.43.0


From 95a1757d10326d0b6f99067daae3769cd64148de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 29/56] fix: branch filters wrap around instead of overflowing
 beyond 2 GiB

The relative/absolute address arithmetic of the branch filters is modular. With
overflow checks on, decoding panicked once the position came near 2 GiB.
---
 src/bcj/arm.rs   | 10 +++++++---
 src/bcj/ppc.rs   |  6 +++++-
 src/bcj/sparc.rs |  6 +++++-
 src/bcj/x86.rs   |  4 ++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bcj/arm.rs b/src/bcj/arm.rs
index 861e683..74a36a7 100644
--- a/src/bcj/arm.rs
+++ b/src/bcj/arm.rs
@@ -36,7 +36,11 @@ impl BCJFilter {
 
                 let src = ((b2 << 16) | (b1 << 8) | (b0)) << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 buf[i + 2] = ((dest >> 16) & 0xff) as u8;
                 buf[i + 1] = ((dest >> 8) & 0xff) as u8;
@@ -70,9 +74,9 @@ impl BCJFilter {
                 let src = src << 1;
 
                 let dest = if self.is_encoder {
-                    src + (self.pos + i) as i32
+                    src.wrapping_add((self.pos + i) as i32)
                 } else {
-                    src - (self.pos + i) as i32
+                    src.wrapping_sub((self.pos + i) as i32)
                 };
                 let dest = dest >> 1;
                 buf[i + 1] = (0xF0 | ((dest >> 19) & 0x07)) as u8;
diff --git a/src/bcj/ppc.rs b/src/bcj/ppc.rs
index 4ab002f..6fc8a89 100644
--- a/src/bcj/ppc.rs
+++ b/src/bcj/ppc.rs
@@ -29,7 +29,11 @@ impl BCJFilter {
                     ((b0 & 0x03) << 24) | ((b1 & 0xff) << 16) | ((b2 & 0xff) << 8) | (b3 & 0xFC);
 
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
 
                 buf[i] = (0x48 | ((dest >> 24) & 0x03)) as u8;
                 buf[i + 1] = (dest >> 16) as u8;
diff --git a/src/bcj/sparc.rs b/src/bcj/sparc.rs
index 11bc78c..1f0fda0 100644
--- a/src/bcj/sparc.rs
+++ b/src/bcj/sparc.rs
@@ -28,7 +28,11 @@ impl BCJFilter {
                     ((b0 & 0xFF) << 24) | ((b1 & 0xFF) << 16) | ((b2 & 0xFF) << 8) | (b3 & 0xFF);
                 let src = src << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 let dest = (((0 - ((dest >> 22) & 1)) << 22) & 0x3FFFFFFF)
                     | (dest & 0x3FFFFF)
diff --git a/src/bcj/x86.rs b/src/bcj/x86.rs
index 9e47b03..9d9a7ba 100644
--- a/src/bcj/x86.rs
+++ b/src/bcj/x86.rs
@@ -56,9 +56,9 @@ impl BCJFilter {
                 let mut dest: i32;
                 loop {
                     if self.is_encoder {
-                        dest = src + (self.pos + i) as i32;
+                        dest = src.wrapping_add((self.pos + i) as i32);
                     } else {
-                        dest = src - (self.pos + i) as i32;
+                        dest = src.wrapping_sub((self.pos + i) as i32);
                     }
 
                     if prev_mask == 0 {
-- 
2.43.0


From 9e0e4a019ef110eb1abc07a9383f72bc0b65e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 30/56] fix: the BCJ2 position wraps around at 4 GiB

The instruction pointer is a 32-bit modular counter. With overflow checks on,
decoding panicked when a block's content reached 4 GiB.
---
 src/bcj2/bcj2_decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bcj2/bcj2_decode.rs b/src/bcj2/bcj2_decode.rs
index 4c58bfa..4046501 100644
--- a/src/bcj2/bcj2_decode.rs
+++ b/src/bcj2/bcj2_decode.rs
@@ -158,7 +158,7 @@ impl Bcj2Decoder {
                     if src == src_lim {
                         self.temp[3] = src_bufs[src - 1];
                         self.bufs[BCJ2_STREAM_MAIN] = src;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
                         self.state = if self.bufs[BCJ2_STREAM_MAIN] == self.lims[BCJ2_STREAM_MAIN] {
                             BCJ2_STREAM_MAIN
@@ -179,7 +179,7 @@ impl Bcj2Decoder {
                         self.temp[3] = b;
                         self.bufs[BCJ2_STREAM_MAIN] = src + 1;
                         num += 1;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
 
                         let prob = &mut self.probs[if b == 0xE8 {
@@ -227,7 +227,7 @@ impl Bcj2Decoder {
                 };
                 self.bufs[cj] = cur + 4;
 
-                self.ip += 4;
+                self.ip = self.ip.wrapping_add(4);
                 val = val.wrapping_sub(self.ip);
                 let dest = self.dest;
                 let rem = dest_lim - dest;
-- 
2.43.0


From 96f053c6627c7369c981977819258af20c880b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 31/56] fix: decoders accept reads into an empty buffer

The zstd decoder answers an empty buffer with an error, which surfaced when an
entry of a zstd block was read with an empty buffer.
---
 src/decoders.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders.rs b/src/decoders.rs
index 8c6a31b..a4a97ea 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -40,6 +40,10 @@ pub enum Decoder<R: Read> {
 
 impl<R: Read> Read for Decoder<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        // not every decoder accepts an empty buffer
+        if buf.is_empty() {
+            return Ok(0);
+        }
         match self {
             #[cfg(feature = "zstd")]
             Decoder::ZSTD(r) => r.read(buf),
-- 
2.43.0


From 77ef36dd4d821229790055df08dd56af4935ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:18 +0000
Subject: [PATCH 32/56] fix: header sizes and offsets from the file are not
 trusted

---
 src/reader.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index fc1dace..f2fc12f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -339,14 +339,14 @@ impl Archive {
 
         let next_header_size_int = start_header.next_header_size as usize;
 
+        let header_pos = SIGNATURE_HEADER_SIZE
+            .checked_add(start_header.next_header_offset)
+            .ok_or_else(|| Error::other("Header offset out of range"))?;
         reader
-            .seek(SeekFrom::Start(
-                SIGNATURE_HEADER_SIZE + start_header.next_header_offset,
-            ))
+            .seek(SeekFrom::Start(header_pos))
             .map_err(Error::io)?;
 
-        let mut buf = vec![0; next_header_size_int];
-        reader.read_exact(&mut buf).map_err(Error::io)?;
+        let mut buf = read_vec(reader, next_header_size_int).map_err(Error::io)?;
         if verify_crc && crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
@@ -361,10 +361,7 @@ impl Archive {
         let mut header = if nid == K_ENCODED_HEADER {
             let (mut out_reader, buf_size) =
                 Self::read_encoded_header(&mut buf_reader, reader, &mut archive, password)?;
-            buf.clear();
-            buf.resize(buf_size, 0);
-            out_reader
-                .read_exact(&mut buf)
+            buf = read_vec(&mut out_reader, buf_size)
                 .map_err(|e| Error::bad_password(e, !password.is_empty()))?;
             archive = Archive::default();
             buf_reader = buf.as_slice();
@@ -1035,6 +1032,16 @@ fn read_u64<R: Read>(reader: &mut R) -> Result<u64, Error> {
     Ok(value)
 }
 
+/// Reads exactly `size` bytes, growing the buffer with the data that is really there.
+fn read_vec<R: Read>(reader: &mut R, size: usize) -> std::io::Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(size as u64).read_to_end(&mut buf)?;
+    if buf.len() < size {
+        return Err(ErrorKind::UnexpectedEof.into());
+    }
+    Ok(buf)
+}
+
 #[inline(always)]
 fn read_u32<R: Read>(reader: &mut R) -> Result<u32, Error> {
     let mut buf = [0; 4];
-- 
2.43.0


From 068c3375691544a06cd9c59f9545fc2439b49688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 33/56] fix: number and sizes of packed streams are checked

---
 src/reader.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f2fc12f..8eb81ec 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -721,12 +721,23 @@ impl Archive {
         let num_pack_streams = read_usize(header, "num pack streams")?;
         let mut nid = read_u8(header)?;
         if nid == K_SIZE {
-            archive.pack_sizes = vec![0u64; num_pack_streams];
-            for i in 0..archive.pack_sizes.len() {
-                archive.pack_sizes[i] = read_u64(header)?;
+            archive.pack_sizes.clear();
+            for _ in 0..num_pack_streams {
+                archive.pack_sizes.push(read_u64(header)?);
             }
             nid = read_u8(header)?;
         }
+        if archive.pack_sizes.len() != num_pack_streams {
+            return Err(Error::other("Sizes of the packed streams are missing"));
+        }
+        // all packed streams have to end at a position that can be represented
+        archive
+            .pack_sizes
+            .iter()
+            .try_fold(SIGNATURE_HEADER_SIZE, |end, size| end.checked_add(*size))
+            .and_then(|end| end.checked_add(archive.pack_pos))
+            .filter(|end| *end <= i64::MAX as u64)
+            .ok_or_else(|| Error::other("Packed streams out of range"))?;
 
         if nid == K_CRC {
             archive.pack_crcs_defined = read_all_or_bits(header, num_pack_streams)?;
-- 
2.43.0


From 266565ae8c3ebd6ab02f28f0427ba92d7abfc0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 34/56] fix: no memory is reserved for the number of folders a
 header claims

---
 src/reader.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8eb81ec..c490aff 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -762,8 +762,6 @@ impl Archive {
             return Err(Error::other(format!("Expected kFolder, got {}", nid)));
         }
         let num_folders = read_usize(header, "num folders")?;
-
-        archive.folders.reserve_exact(num_folders);
         let external = read_u8(header)?;
         if external != 0 {
             return Err(Error::ExternalUnsupported);
-- 
2.43.0


From 189a58ace55869669ba932dce653e140535dcd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 35/56] fix: coders, bind pairs and packed streams of a folder
 are validated

---
 src/reader.rs | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c490aff..628d7a1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -10,6 +10,8 @@ use crc::Crc;
 use crate::{archive::*, decoders::add_decoder, error::Error, folder::*, password::Password};
 pub(crate) const CRC32: Crc<u32> = Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
 const MAX_MEM_LIMIT_KB: usize = usize::MAX / 1024;
+/// The most coders, and input or output streams of coders, a folder may have.
+const MAX_CODER_COUNT: usize = 32;
 
 pub(crate) trait SeedRead: Read + Seek {}
 
@@ -913,9 +915,12 @@ impl Archive {
         let mut folder = Folder::default();
 
         let num_coders = read_usize(header, "num coders")?;
+        if num_coders > MAX_CODER_COUNT {
+            return Err(Error::unsupported(format!("Too many coders: {num_coders}")));
+        }
         let mut coders = Vec::with_capacity(num_coders);
-        let mut total_in_streams = 0;
-        let mut total_out_streams = 0;
+        let mut total_in_streams = 0u64;
+        let mut total_out_streams = 0u64;
         for _i in 0..num_coders {
             let mut coder = Coder::default();
             let bits = read_u8(header)?;
@@ -927,7 +932,7 @@ impl Archive {
             coder.id_size = id_size as usize;
 
             header
-                .read(coder.decompression_method_id_mut())
+                .read_exact(coder.decompression_method_id_mut())
                 .map_err(Error::io)?;
             if is_simple {
                 coder.num_in_streams = 1;
@@ -936,13 +941,14 @@ impl Archive {
                 coder.num_in_streams = read_u64(header)?;
                 coder.num_out_streams = read_u64(header)?;
             }
-            total_in_streams += coder.num_in_streams;
-            total_out_streams += coder.num_out_streams;
+            total_in_streams = total_in_streams.saturating_add(coder.num_in_streams);
+            total_out_streams = total_out_streams.saturating_add(coder.num_out_streams);
+            if total_in_streams.max(total_out_streams) > MAX_CODER_COUNT as u64 {
+                return Err(Error::unsupported("Too many streams in a folder"));
+            }
             if has_attributes {
                 let properties_size = read_usize(header, "properties size")?;
-                let mut props = vec![0u8; properties_size];
-                header.read(&mut props).map_err(Error::io)?;
-                coder.properties = props;
+                coder.properties = read_vec(header, properties_size).map_err(Error::io)?;
             }
             coders.push(coder);
             // would need to keep looping as above:
@@ -966,13 +972,22 @@ impl Archive {
                 in_index: read_u64(header)?,
                 out_index: read_u64(header)?,
             };
+            if bp.in_index >= total_in_streams as u64 || bp.out_index >= total_out_streams as u64 {
+                return Err(Error::other("Bind pair index out of range"));
+            }
+            if bind_pairs
+                .iter()
+                .any(|p: &BindPair| p.in_index == bp.in_index || p.out_index == bp.out_index)
+            {
+                return Err(Error::other("Stream bound more than once"));
+            }
             bind_pairs.push(bp);
         }
         folder.bind_pairs = bind_pairs;
 
-        if total_in_streams < num_bind_pairs {
+        if total_in_streams <= num_bind_pairs {
             return Err(Error::other(
-                "Total input streams can't be less than the number of bind pairs",
+                "Total input streams must be more than the number of bind pairs",
             ));
         }
         let num_packed_streams = total_in_streams - num_bind_pairs;
@@ -991,7 +1006,14 @@ impl Archive {
             packed_streams[0] = index;
         } else {
             for i in 0..num_packed_streams {
-                packed_streams[i] = read_u64(header)?;
+                let index = read_u64(header)?;
+                if index >= total_in_streams as u64
+                    || folder.find_bind_pair_for_in_stream(index as usize).is_some()
+                    || packed_streams[..i].contains(&index)
+                {
+                    return Err(Error::other("Invalid index of a packed stream"));
+                }
+                packed_streams[i] = index;
             }
         }
         folder.packed_streams = packed_streams;
@@ -1233,7 +1255,6 @@ impl<R: Read + Seek> SevenZReader<R> {
         folder_index: usize,
         password: &[u8],
     ) -> Result<(Box<dyn Read + 'r>, usize), Error> {
-        const MAX_CODER_COUNT: usize = 32;
         let folder = &archive.folders[folder_index];
         if folder.coders.len() > MAX_CODER_COUNT {
             return Err(Error::unsupported(format!(
-- 
2.43.0


From fcc8a3b67cd41e879ac8e8fd99ecf0c50d572129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 36/56] fix: numbers and sizes of unpacked streams are checked

---
 src/reader.rs | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 628d7a1..18efa76 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -813,53 +813,42 @@ impl Archive {
         for folder in archive.folders.iter_mut() {
             folder.num_unpack_sub_streams = 1;
         }
-        let mut total_unpack_streams = archive.folders.len();
 
         let mut nid = read_u8(header)?;
         if nid == K_NUM_UNPACK_STREAM {
-            total_unpack_streams = 0;
             for folder in archive.folders.iter_mut() {
-                let num_streams = read_usize(header, "numStreams")?;
-                folder.num_unpack_sub_streams = num_streams;
-                total_unpack_streams += num_streams;
+                folder.num_unpack_sub_streams = read_usize(header, "numStreams")?;
             }
             nid = read_u8(header)?;
         }
 
         let mut sub_streams_info = SubStreamsInfo::default();
-        sub_streams_info
-            .unpack_sizes
-            .resize(total_unpack_streams, Default::default());
-        sub_streams_info
-            .has_crc
-            .reserve_len_exact(total_unpack_streams);
-        sub_streams_info.crcs = vec![0; total_unpack_streams];
-
-        let mut next_unpack_stream = 0;
         for folder in archive.folders.iter() {
             if folder.num_unpack_sub_streams == 0 {
                 continue;
             }
-            let mut sum = 0;
+            let mut rest = folder.get_unpack_size();
             if nid == K_SIZE {
                 for _i in 0..folder.num_unpack_sub_streams - 1 {
                     let size = read_u64(header)?;
-                    sub_streams_info.unpack_sizes[next_unpack_stream] = size;
-                    next_unpack_stream += 1;
-                    sum += size;
+                    sub_streams_info.unpack_sizes.push(size);
+                    rest = rest.checked_sub(size).ok_or_else(|| {
+                        Error::other("sum of unpack sizes of folder exceeds total unpack size")
+                    })?;
                 }
+            } else if folder.num_unpack_sub_streams > 1 {
+                return Err(Error::other("sizes of the unpacked streams are missing"));
             }
-            if sum > folder.get_unpack_size() {
-                return Err(Error::other(
-                    "sum of unpack sizes of folder exceeds total unpack size",
-                ));
-            }
-            sub_streams_info.unpack_sizes[next_unpack_stream] = folder.get_unpack_size() - sum;
-            next_unpack_stream += 1;
+            sub_streams_info.unpack_sizes.push(rest);
         }
         if nid == K_SIZE {
             nid = read_u8(header)?;
         }
+        let total_unpack_streams = sub_streams_info.unpack_sizes.len();
+        sub_streams_info
+            .has_crc
+            .reserve_len_exact(total_unpack_streams);
+        sub_streams_info.crcs = vec![0; total_unpack_streams];
 
         let mut num_digests = 0;
         let mut next_stream = 0;
-- 
2.43.0


From f2de0a0bbf3f9277420ac84d0c5a57cee9c8fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 37/56] fix: the file records of a header are read within its
 bounds

---
 src/reader.rs | 76 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 18efa76..8552c4c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -278,10 +278,8 @@ impl Archive {
     fn read_archive_properties<R: Read + Seek>(header: &mut R) -> Result<(), Error> {
         let mut nid = read_u8(header)?;
         while nid != K_END {
-            let property_size = read_usize(header, "propertySize")?;
-            header
-                .seek(SeekFrom::Current(property_size as i64))
-                .map_err(Error::io)?;
+            let property_size = read_u64(header)?;
+            skip_bytes(header, property_size)?;
             nid = read_u8(header)?;
         }
         Ok(())
@@ -473,9 +471,19 @@ impl Archive {
 
     fn read_files_info<R: Read + Seek>(header: &mut R, archive: &mut Archive) -> Result<(), Error> {
         let num_files = read_usize(header, "num files")?;
+        // Every file has at least one stream described before, or a bit in this header.
+        let streams = archive
+            .sub_streams_info
+            .as_ref()
+            .map_or(0, |s| s.unpack_sizes.len());
+        let max_files = (bytes_left(header)?.saturating_mul(8)).saturating_add(streams as u64);
+        if num_files as u64 > max_files {
+            return Err(Error::other(format!("Too many files: {num_files}")));
+        }
         let mut files: Vec<SevenZArchiveEntry> = vec![Default::default(); num_files];
 
         let mut is_empty_stream: Option<BitSet> = None;
+        let mut num_empty_streams = 0;
         let mut is_empty_file: Option<BitSet> = None;
         let mut is_anti: Option<BitSet> = None;
         loop {
@@ -486,34 +494,32 @@ impl Archive {
             let size = read_u64(header)?;
             match prop_type {
                 K_EMPTY_STREAM => {
-                    is_empty_stream = Some(read_bits(header, num_files)?);
+                    let bits = read_bits(header, num_files)?;
+                    num_empty_streams = bits.len();
+                    is_empty_stream = Some(bits);
                 }
                 K_EMPTY_FILE => {
-                    let n = if let Some(s) = &is_empty_stream {
-                        s.len()
-                    } else {
+                    if is_empty_stream.is_none() {
                         return Err(Error::other(
                             "Header format error: kEmptyStream must appear before kEmptyFile",
                         ));
-                    };
-                    is_empty_file = Some(read_bits(header, n)?);
+                    }
+                    is_empty_file = Some(read_bits(header, num_empty_streams)?);
                 }
                 K_ANTI => {
-                    let n = if let Some(s) = is_empty_stream.as_ref() {
-                        s.len()
-                    } else {
+                    if is_empty_stream.is_none() {
                         return Err(Error::other(
                             "Header format error: kEmptyStream must appear before kEmptyFile",
                         ));
-                    };
-                    is_anti = Some(read_bits(header, n)?);
+                    }
+                    is_anti = Some(read_bits(header, num_empty_streams)?);
                 }
                 K_NAME => {
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other("Not implemented:external != 0"));
                     }
-                    if (size - 1) & 1 != 0 {
+                    if size & 1 == 0 {
                         return Err(Error::other("file names length invalid"));
                     }
 
@@ -524,7 +530,10 @@ impl Archive {
 
                     let mut next_file = 0;
                     for s in names_reader {
-                        files[next_file].name = s?;
+                        let file = files
+                            .get_mut(next_file)
+                            .ok_or_else(|| Error::other("More names than files"))?;
+                        file.name = s?;
                         next_file += 1;
                     }
 
@@ -597,16 +606,8 @@ impl Archive {
                     }
                 }
                 K_START_POS => return Err(Error::other("kStartPos is unsupported, please report")),
-                K_DUMMY => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
-                }
-                _ => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
-                }
+                // kDummy and properties not known
+                _ => skip_bytes(header, size)?,
             };
         }
 
@@ -628,6 +629,9 @@ impl Archive {
                 };
                 file.is_directory = false;
                 file.is_anti_item = false;
+                if non_empty_file_counter >= sub_stream_info.unpack_sizes.len() {
+                    return Err(Error::other("More files with streams than streams"));
+                }
                 file.has_crc = sub_stream_info.has_crc.contains(non_empty_file_counter);
                 file.crc = sub_stream_info.crcs[non_empty_file_counter];
                 file.size = sub_stream_info.unpack_sizes[non_empty_file_counter];
@@ -1052,6 +1056,24 @@ fn read_u64<R: Read>(reader: &mut R) -> Result<u64, Error> {
     Ok(value)
 }
 
+/// Bytes from the current position to the end.
+fn bytes_left<R: Seek>(reader: &mut R) -> Result<u64, Error> {
+    let pos = reader.stream_position().map_err(Error::io)?;
+    let end = reader.seek(SeekFrom::End(0)).map_err(Error::io)?;
+    reader.seek(SeekFrom::Start(pos)).map_err(Error::io)?;
+    Ok(end.saturating_sub(pos))
+}
+
+fn skip_bytes<R: Seek>(reader: &mut R, size: u64) -> Result<(), Error> {
+    if size > bytes_left(reader)? {
+        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+    }
+    reader
+        .seek(SeekFrom::Current(size as i64))
+        .map_err(Error::io)?;
+    Ok(())
+}
+
 /// Reads exactly `size` bytes, growing the buffer with the data that is really there.
 fn read_vec<R: Read>(reader: &mut R, size: usize) -> std::io::Result<Vec<u8>> {
     let mut buf = Vec::new();
-- 
2.43.0


From 814ceea94176f01b830a8b5869463887360f4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 38/56] fix: records of files are created as data for them is
 read

---
 src/reader.rs | 99 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8552c4c..e2532d7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -471,16 +471,8 @@ impl Archive {
 
     fn read_files_info<R: Read + Seek>(header: &mut R, archive: &mut Archive) -> Result<(), Error> {
         let num_files = read_usize(header, "num files")?;
-        // Every file has at least one stream described before, or a bit in this header.
-        let streams = archive
-            .sub_streams_info
-            .as_ref()
-            .map_or(0, |s| s.unpack_sizes.len());
-        let max_files = (bytes_left(header)?.saturating_mul(8)).saturating_add(streams as u64);
-        if num_files as u64 > max_files {
-            return Err(Error::other(format!("Too many files: {num_files}")));
-        }
-        let mut files: Vec<SevenZArchiveEntry> = vec![Default::default(); num_files];
+        // the records are created as data for them is read
+        let mut files: Vec<SevenZArchiveEntry> = Vec::new();
 
         let mut is_empty_stream: Option<BitSet> = None;
         let mut num_empty_streams = 0;
@@ -494,6 +486,9 @@ impl Archive {
             let size = read_u64(header)?;
             match prop_type {
                 K_EMPTY_STREAM => {
+                    if num_files as u64 > bytes_left(header)?.saturating_mul(8) {
+                        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+                    }
                     let bits = read_bits(header, num_files)?;
                     num_empty_streams = bits.len();
                     is_empty_stream = Some(bits);
@@ -530,19 +525,19 @@ impl Archive {
 
                     let mut next_file = 0;
                     for s in names_reader {
-                        let file = files
-                            .get_mut(next_file)
-                            .ok_or_else(|| Error::other("More names than files"))?;
-                        file.name = s?;
+                        if next_file == num_files {
+                            return Err(Error::other("More names than files"));
+                        }
+                        file_at(&mut files, next_file).name = s?;
                         next_file += 1;
                     }
 
-                    if next_file != files.len() {
+                    if next_file != num_files {
                         return Err(Error::other("Error parsing file names"));
                     }
                 }
                 K_C_TIME => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 8)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -551,14 +546,15 @@ impl Archive {
                         )));
                     }
                     for i in 0..num_files {
-                        files[i].has_creation_date = times_defined.contains(i);
-                        if files[i].has_creation_date {
-                            files[i].creation_date = read_u64le(header)?.into();
+                        let file = file_at(&mut files, i);
+                        file.has_creation_date = times_defined.contains(i);
+                        if file.has_creation_date {
+                            file.creation_date = read_u64le(header)?.into();
                         }
                     }
                 }
                 K_A_TIME => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 8)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -567,14 +563,15 @@ impl Archive {
                         )));
                     }
                     for i in 0..num_files {
-                        files[i].has_access_date = times_defined.contains(i);
-                        if files[i].has_access_date {
-                            files[i].access_date = read_u64le(header)?.into();
+                        let file = file_at(&mut files, i);
+                        file.has_access_date = times_defined.contains(i);
+                        if file.has_access_date {
+                            file.access_date = read_u64le(header)?.into();
                         }
                     }
                 }
                 K_M_TIME => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 8)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -583,14 +580,15 @@ impl Archive {
                         )));
                     }
                     for i in 0..num_files {
-                        files[i].has_last_modified_date = times_defined.contains(i);
-                        if files[i].has_last_modified_date {
-                            files[i].last_modified_date = read_u64le(header)?.into();
+                        let file = file_at(&mut files, i);
+                        file.has_last_modified_date = times_defined.contains(i);
+                        if file.has_last_modified_date {
+                            file.last_modified_date = read_u64le(header)?.into();
                         }
                     }
                 }
                 K_WIN_ATTRIBUTES => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 4)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -599,9 +597,10 @@ impl Archive {
                         )));
                     }
                     for i in 0..num_files {
-                        files[i].has_windows_attributes = times_defined.contains(i);
-                        if files[i].has_windows_attributes {
-                            files[i].windows_attributes = read_u32(header)?;
+                        let file = file_at(&mut files, i);
+                        file.has_windows_attributes = times_defined.contains(i);
+                        if file.has_windows_attributes {
+                            file.windows_attributes = read_u32(header)?;
                         }
                     }
                 }
@@ -611,6 +610,15 @@ impl Archive {
             };
         }
 
+        let streams = archive
+            .sub_streams_info
+            .as_ref()
+            .map_or(0, |s| s.unpack_sizes.len());
+        if num_files - num_empty_streams > streams {
+            return Err(Error::other("More files with streams than streams"));
+        }
+        files.resize_with(num_files, Default::default);
+
         let mut non_empty_file_counter = 0;
         let mut empty_file_counter = 0;
         for i in 0..files.len() {
@@ -629,9 +637,6 @@ impl Archive {
                 };
                 file.is_directory = false;
                 file.is_anti_item = false;
-                if non_empty_file_counter >= sub_stream_info.unpack_sizes.len() {
-                    return Err(Error::other("More files with streams than streams"));
-                }
                 file.has_crc = sub_stream_info.has_crc.contains(non_empty_file_counter);
                 file.crc = sub_stream_info.crcs[non_empty_file_counter];
                 file.size = sub_stream_info.unpack_sizes[non_empty_file_counter];
@@ -1111,6 +1116,32 @@ fn read_all_or_bits<R: Read>(header: &mut R, size: usize) -> Result<BitSet, Erro
     }
 }
 
+/// Like [read_all_or_bits], for a list followed by one item of `item_size` bytes for each bit.
+fn read_defined<R: Read + Seek>(
+    header: &mut R,
+    size: usize,
+    item_size: u64,
+) -> Result<BitSet, Error> {
+    let bits = bytes_left(header)?.saturating_mul(8);
+    let all = read_u8(header)?;
+    let needed = (size as u64).saturating_mul(if all != 0 { 8 * item_size } else { 1 });
+    if needed > bits {
+        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+    }
+    if all != 0 {
+        Ok((0..size).collect())
+    } else {
+        read_bits(header, size)
+    }
+}
+
+fn file_at(files: &mut Vec<SevenZArchiveEntry>, index: usize) -> &mut SevenZArchiveEntry {
+    if files.len() <= index {
+        files.resize_with(index + 1, Default::default);
+    }
+    &mut files[index]
+}
+
 fn read_bits<R: Read>(header: &mut R, size: usize) -> Result<BitSet, Error> {
     let mut bits = BitSet::with_capacity(size);
     let mut mask = 0u32;
-- 
2.43.0


From 41296e45b0864f19d5f3b9d8765c35f3802361fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 39/56] fix: folders need their packed streams, and list no
 files that are not theirs

---
 src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index e2532d7..e172124 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -670,6 +670,9 @@ impl Archive {
             stream_map.folder_first_pack_stream_index[i] = next_folder_pack_stream_index;
             next_folder_pack_stream_index += archive.folders[i].packed_streams.len();
         }
+        if next_folder_pack_stream_index > archive.pack_sizes.len() {
+            return Err(Error::other("Too few packed streams in archive"));
+        }
 
         let mut next_pack_stream_offset = 0;
         let num_pack_sizes = archive.pack_sizes.len();
@@ -679,7 +682,8 @@ impl Archive {
             next_pack_stream_offset += archive.pack_sizes[i];
         }
 
-        stream_map.folder_first_file_index = vec![0; num_folders];
+        // no files for the folders which are not reached below
+        stream_map.folder_first_file_index = vec![archive.files.len(); num_folders];
         stream_map.file_folder_index = vec![None; archive.files.len()];
         let mut next_folder_index = 0;
         let mut next_folder_unpack_stream_index = 0;
-- 
2.43.0


From c4001abfb69ad281070874940f65dcf67cd0ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 40/56] fix: decoders are only built for coder graphs which are
 supported

---
 src/bcj2/mod.rs |  1 +
 src/folder.rs   | 14 +++++++++++++
 src/reader.rs   | 53 ++++++++++++++++++++++---------------------------
 3 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/bcj2/mod.rs b/src/bcj2/mod.rs
index 1faf22a..25d85df 100644
--- a/src/bcj2/mod.rs
+++ b/src/bcj2/mod.rs
@@ -2,6 +2,7 @@ mod bcj2_decode;
 use std::io::Read;
 
 use bcj2_decode::*;
+pub(crate) use bcj2_decode::BCJ2_NUM_STREAMS;
 const BUF_SIZE: usize = 1 << 18;
 
 pub struct Bcj2Coder {
diff --git a/src/folder.rs b/src/folder.rs
index 598c91c..aaa928c 100644
--- a/src/folder.rs
+++ b/src/folder.rs
@@ -49,6 +49,20 @@ impl Folder {
         self.unpack_sizes.get(index).cloned().unwrap_or_default()
     }
 
+    /// The coders of a folder which is a single chain, in the order in which they are applied
+    /// to the packed stream; `None` if the folder is anything else.
+    pub(crate) fn coder_chain(&self) -> Option<Vec<(usize, &Coder)>> {
+        let simple = |c: &Coder| c.num_in_streams == 1 && c.num_out_streams == 1;
+        if !self.coders.iter().all(simple) {
+            return None;
+        }
+        let chain: Vec<_> = self
+            .ordered_coder_iter()
+            .take(self.coders.len())
+            .collect();
+        (chain.len() == self.coders.len()).then_some(chain)
+    }
+
     pub fn ordered_coder_iter(&self) -> OrderedCoderIter {
         OrderedCoderIter::new(self)
     }
diff --git a/src/reader.rs b/src/reader.rs
index e172124..07a5d61 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -399,33 +399,20 @@ impl Archive {
         reader
             .seek(SeekFrom::Start(folder_offset))
             .map_err(Error::io)?;
-        let coder_len = folder.coders.len();
         let unpack_size = folder.get_unpack_size() as usize;
         let pack_size = archive.pack_sizes[first_pack_stream_index] as usize;
         let input_reader =
             SeekableBoundedReader::new(reader, (folder_offset, folder_offset + pack_size as u64));
         let mut decoder: Box<dyn Read> = Box::new(input_reader);
-        let mut decoder = if coder_len > 0 {
-            for (index, coder) in folder.ordered_coder_iter() {
-                if coder.num_in_streams != 1 || coder.num_out_streams != 1 {
-                    return Err(Error::other(
-                        "Multi input/output stream coders are not yet supported",
-                    ));
-                }
-                let size = folder.get_unpack_size_at_index(index) as usize;
-                let next = crate::decoders::add_decoder(
-                    decoder,
-                    size,
-                    coder,
-                    password,
-                    MAX_MEM_LIMIT_KB,
-                )?;
-                decoder = Box::new(BoundedReader::new(next, size));
-            }
-            decoder
-        } else {
-            decoder
-        };
+        let chain = folder.coder_chain().ok_or_else(|| {
+            Error::other("Multi input/output stream coders are not yet supported")
+        })?;
+        for (index, coder) in chain {
+            let size = folder.get_unpack_size_at_index(index) as usize;
+            let next =
+                crate::decoders::add_decoder(decoder, size, coder, password, MAX_MEM_LIMIT_KB)?;
+            decoder = Box::new(BoundedReader::new(next, size));
+        }
         if folder.has_crc {
             decoder = Box::new(Crc32VerifyingReader::new(decoder, unpack_size, folder.crc));
         }
@@ -1272,13 +1259,10 @@ impl<R: Read + Seek> SevenZReader<R> {
         let pack_size = archive.pack_sizes[first_pack_stream_index] as usize;
 
         let mut decoder: Box<dyn Read> = Box::new(BoundedReader::new(source, pack_size));
-        let folder = &archive.folders[folder_index];
-        for (index, coder) in folder.ordered_coder_iter() {
-            if coder.num_in_streams != 1 || coder.num_out_streams != 1 {
-                return Err(Error::unsupported(
-                    "Multi input/output stream coders are not yet supported",
-                ));
-            }
+        let chain = folder.coder_chain().ok_or_else(|| {
+            Error::unsupported("Multi input/output stream coders are not yet supported")
+        })?;
+        for (index, coder) in chain {
             let size = folder.get_unpack_size_at_index(index) as usize;
             let next =
                 crate::decoders::add_decoder(decoder, size, coder, password, MAX_MEM_LIMIT_KB)?;
@@ -1325,6 +1309,12 @@ impl<R: Read + Seek> SevenZReader<R> {
             sources.push(pack_reader);
         }
 
+        if folder.coders.iter().any(|c| c.num_out_streams != 1) {
+            return Err(Error::unsupported(
+                "Multi output stream coders are not yet supported",
+            ));
+        }
+
         let mut coder_to_stream_map = [usize::MAX; MAX_CODER_COUNT];
 
         let mut si = 0;
@@ -1354,6 +1344,11 @@ impl<R: Read + Seek> SevenZReader<R> {
         }
 
         let num_in_streams = folder.coders[main_coder_index].num_in_streams as usize;
+        if num_in_streams != crate::bcj2::BCJ2_NUM_STREAMS {
+            return Err(Error::unsupported(format!(
+                "BCJ2 with {num_in_streams} input streams"
+            )));
+        }
         let mut inputs: Vec<Box<dyn Read>> = Vec::with_capacity(num_in_streams);
         let start_i = coder_to_stream_map[main_coder_index];
         for i in start_i..num_in_streams + start_i {
-- 
2.43.0


From 5ef11ad899ad510374cd50621107e4256f601821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:11 +0000
Subject: [PATCH 41/56] fix: short LZMA properties are an error

---
 src/decoders.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index a4a97ea..2e167dd 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -80,14 +80,11 @@ pub fn add_decoder<I: Read>(
         SevenZMethod::ID_COPY => Ok(Decoder::COPY(input)),
         #[cfg(feature = "zstd")]
         SevenZMethod::ID_ZSTD => {
-            let zs = zstd::Decoder::new(input).unwrap();
+            let zs = zstd::Decoder::new(input).map_err(Error::io)?;
             Ok(Decoder::ZSTD(zs))
         }
         SevenZMethod::ID_LZMA => {
             let dict_size = get_lzma_dic_size(coder)?;
-            if coder.properties.is_empty() {
-                return Err(Error::Other("LZMA properties too short".into()));
-            }
             let props = coder.properties[0];
             let lz =
                 LZMAReader::new_with_props(input, uncompressed_len as _, props, dict_size, None)
@@ -175,6 +172,9 @@ fn get_lzma2_dic_size(coder: &Coder) -> Result<u32, Error> {
 
 #[inline]
 fn get_lzma_dic_size(coder: &Coder) -> Result<u32, Error> {
-    let mut props = &coder.properties[1..5];
+    let mut props = coder
+        .properties
+        .get(1..5)
+        .ok_or_else(|| Error::other("LZMA properties too short"))?;
     props.read_u32::<LittleEndian>().map_err(Error::io)
 }
-- 
2.43.0


From fde00b217a7633bf8b8690002c638bcd79b974cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 42/56] fix: a lost end header is found despite bytes which
 only look like one

---
 src/reader.rs | 141 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 86 insertions(+), 55 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 07a5d61..f5c2f75 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -222,7 +222,7 @@ impl Archive {
         };
         if header_valid {
             let start_header = Self::read_start_header(reader, start_header_crc)?;
-            Self::init_archive(reader, start_header, password, true)
+            Self::init_archive(reader, start_header, password)
         } else {
             Self::try_to_locale_end_header(reader, reader_len, password)
         }
@@ -291,31 +291,26 @@ impl Archive {
         password: &[u8],
     ) -> Result<Self, Error> {
         let search_limit = 1024 * 1024;
-        let prev_data_size = reader.stream_position().map_err(Error::io)? + 20;
-        let size = reader_len;
-        let min_pos = if reader.stream_position().map_err(Error::io)? + search_limit > size {
-            reader.stream_position().map_err(Error::io)?
-        } else {
-            size - search_limit
-        };
-        let mut pos = reader_len - 1;
-        while pos > min_pos {
-            pos -= 1;
-
-            reader
-                .seek(std::io::SeekFrom::Start(pos))
-                .map_err(Error::io)?;
-            let nid = read_u8(reader)?;
-            if nid == K_ENCODED_HEADER || nid == K_HEADER {
-                let start_header = StartHeader {
-                    next_header_offset: pos - prev_data_size,
-                    next_header_size: reader_len - pos,
-                    next_header_crc: 0,
-                };
-                let result = Self::init_archive(reader, start_header, password, false)?;
+        let min_pos = SIGNATURE_HEADER_SIZE.max(reader_len.saturating_sub(search_limit));
+        reader.seek(SeekFrom::Start(min_pos)).map_err(Error::io)?;
+        let mut tail = Vec::new();
+        reader
+            .by_ref()
+            .take(reader_len.saturating_sub(min_pos))
+            .read_to_end(&mut tail)
+            .map_err(Error::io)?;
 
-                if !result.files.is_empty() {
-                    return Ok(result);
+        // The header is what can be parsed up to the very end. Parsing what only looks like a
+        // header must not take forever.
+        let mut budget = 64 * search_limit as usize;
+        for pos in (0..tail.len()).rev() {
+            if tail[pos] == K_ENCODED_HEADER || tail[pos] == K_HEADER {
+                match Self::parse_header(&tail[pos..], reader, password, Some(&mut budget)) {
+                    Ok(result) if !result.files.is_empty() => return Ok(result),
+                    _ => {}
+                }
+                if budget == 0 {
+                    break;
                 }
             }
         }
@@ -328,7 +323,6 @@ impl Archive {
         reader: &mut R,
         start_header: StartHeader,
         password: &[u8],
-        verify_crc: bool,
     ) -> Result<Self, Error> {
         if start_header.next_header_size > usize::MAX as u64 {
             return Err(Error::other(format!(
@@ -346,46 +340,77 @@ impl Archive {
             .seek(SeekFrom::Start(header_pos))
             .map_err(Error::io)?;
 
-        let mut buf = read_vec(reader, next_header_size_int).map_err(Error::io)?;
-        if verify_crc && crc32_cksum(&buf) as u64 != start_header.next_header_crc {
+        let buf = read_vec(reader, next_header_size_int).map_err(Error::io)?;
+        if crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
-
-        let mut archive = Archive::default();
         if buf.is_empty() {
             // an archive without any entries does not need a header
-            return Ok(archive);
-        }
-        let mut buf_reader = buf.as_slice();
-        let mut nid = read_u8(&mut buf_reader)?;
-        let mut header = if nid == K_ENCODED_HEADER {
-            let (mut out_reader, buf_size) =
-                Self::read_encoded_header(&mut buf_reader, reader, &mut archive, password)?;
-            buf = read_vec(&mut out_reader, buf_size)
-                .map_err(|e| Error::bad_password(e, !password.is_empty()))?;
-            archive = Archive::default();
-            buf_reader = buf.as_slice();
-            nid = read_u8(&mut buf_reader)?;
-            buf_reader
-        } else {
-            buf_reader
-        };
-        let mut header = std::io::Cursor::new(&mut header);
-        if nid == K_HEADER {
-            Self::read_header(&mut header, &mut archive)?;
-        } else {
+            return Ok(Archive::default());
+        }
+        Self::parse_header(&buf, reader, password, None)
+    }
+
+    /// Parses a header, packed or not. With a `budget` the header is a guess: it has to extend
+    /// to the end of `buf`, and the bytes that were parsed are taken from the budget.
+    fn parse_header<R: Read + Seek>(
+        buf: &[u8],
+        reader: &mut R,
+        password: &[u8],
+        mut budget: Option<&mut usize>,
+    ) -> Result<Self, Error> {
+        let mut archive = Archive::default();
+        let mut header = std::io::Cursor::new(buf);
+        let mut nid = read_u8(&mut header)?;
+        if nid != K_ENCODED_HEADER {
+            return Self::parse_plain_header(nid, header, archive, budget);
+        }
+        let streams = Self::read_streams_info(&mut header, &mut archive);
+        charge(&mut budget, header.position());
+        streams?;
+        if budget.is_some() && header.position() < buf.len() as u64 {
+            return Err(Error::other("Bytes after the header"));
+        }
+        charge(&mut budget, 1 << 20);
+        let (out_reader, buf_size) = Self::open_encoded_header(reader, &archive, password)?;
+        let mut unpacked = Vec::new();
+        let result = out_reader
+            .take(buf_size as u64)
+            .read_to_end(&mut unpacked)
+            .and_then(|n| match n < buf_size {
+                true => Err(ErrorKind::UnexpectedEof.into()),
+                false => Ok(()),
+            });
+        charge(&mut budget, unpacked.len() as u64);
+        result.map_err(|e| Error::bad_password(e, !password.is_empty()))?;
+        let mut header = std::io::Cursor::new(unpacked.as_slice());
+        nid = read_u8(&mut header)?;
+        Self::parse_plain_header(nid, header, Archive::default(), budget)
+    }
+
+    fn parse_plain_header(
+        nid: u8,
+        mut header: std::io::Cursor<&[u8]>,
+        mut archive: Archive,
+        mut budget: Option<&mut usize>,
+    ) -> Result<Self, Error> {
+        if nid != K_HEADER {
             return Err(Error::other("Broken or unsupported archive: no Header"));
         }
+        let result = Self::read_header(&mut header, &mut archive);
+        charge(&mut budget, header.position());
+        result?;
+        if budget.is_some() && header.position() < header.get_ref().len() as u64 {
+            return Err(Error::other("Bytes after the header"));
+        }
         Ok(archive)
     }
 
-    fn read_encoded_header<'r, R: Read, RI: 'r + Read + Seek>(
-        header: &mut R,
-        reader: &'r mut RI,
-        archive: &mut Archive,
+    fn open_encoded_header<'r, R: 'r + Read + Seek>(
+        reader: &'r mut R,
+        archive: &Archive,
         password: &[u8],
     ) -> Result<(Box<dyn Read + 'r>, usize), Error> {
-        Self::read_streams_info(header, archive)?;
         let folder = archive
             .folders
             .first()
@@ -1052,6 +1077,12 @@ fn read_u64<R: Read>(reader: &mut R) -> Result<u64, Error> {
     Ok(value)
 }
 
+fn charge(budget: &mut Option<&mut usize>, bytes: u64) {
+    if let Some(budget) = budget {
+        **budget = budget.saturating_sub(usize::try_from(bytes).unwrap_or(usize::MAX));
+    }
+}
+
 /// Bytes from the current position to the end.
 fn bytes_left<R: Seek>(reader: &mut R) -> Result<u64, Error> {
     let pos = reader.stream_position().map_err(Error::io)?;
-- 
2.43.0


From 0c05a694d68bfb576ad2f8e8c0ee1bc8ffbdd904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 43/56] fix: an LZMA2 chunk that is too short is an error

---
 lzma-rust/src/range_dec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/range_dec.rs b/lzma-rust/src/range_dec.rs
index 47a312c..2254e98 100644
--- a/lzma-rust/src/range_dec.rs
+++ b/lzma-rust/src/range_dec.rs
@@ -177,7 +177,7 @@ impl RangeDecoderBuffer {
 }
 impl RangeSource for RangeDecoderBuffer {
     fn next_byte(&mut self) -> Result<u8> {
-        let b = self.buf[self.pos];
+        let b = *self.buf.get(self.pos).ok_or(ErrorKind::UnexpectedEof)?;
         self.pos += 1;
         Ok(b)
     }
-- 
2.43.0


From e6fe2aa996fc9cbcfe2d606f6148ff130d887279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:54 +0000
Subject: [PATCH 44/56] fix: the LZMA decoder does not go on after an error

---
 lzma-rust/src/lzma_reader.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 91f6424..b5408b0 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -58,6 +58,7 @@ pub struct LZMAReader<R> {
     end_reached: bool,
     relaxed_end_cond: bool,
     remaining_size: u64,
+    error: Option<Error>,
 }
 
 impl<R> Drop for LZMAReader<R> {
@@ -131,6 +132,7 @@ impl<R: Read> LZMAReader<R> {
             end_reached: false,
             relaxed_end_cond: true,
             remaining_size: uncomp_size,
+            error: None,
         })
     }
 
@@ -253,6 +255,14 @@ impl<R: Read> LZMAReader<R> {
 
 impl<R: Read> Read for LZMAReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        self.read_decode(buf)
+        // the state of the decoder means nothing after an error
+        if let Some(e) = &self.error {
+            return Err(Error::new(e.kind(), e.to_string()));
+        }
+        self.read_decode(buf).map_err(|e| {
+            let error = Error::new(e.kind(), e.to_string());
+            self.error = Some(e);
+            error
+        })
     }
 }
-- 
2.43.0


From 4baf6a760b48fb96d11449794dd60654206440ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 45/56] fix: LZMA2 dictionaries of 4 GiB - 1 and of no bytes

---
 lzma-rust/src/lzma2_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index db827c7..908da01 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -2,6 +2,7 @@ use super::{
     decoder::LZMADecoder,
     lz::LZDecoder,
     range_dec::{RangeDecoder, RangeDecoderBuffer},
+    DICT_SIZE_MIN,
 };
 use byteorder::{self, BigEndian, ReadBytesExt};
 use std::io::{ErrorKind, Read, Result};
@@ -34,12 +35,13 @@ pub struct LZMA2Reader<R> {
 }
 #[inline]
 pub fn get_memery_usage(dict_size: u32) -> u32 {
-    40 + COMPRESSED_SIZE_MAX / 1024 + get_dict_size(dict_size) / 1024
+    40 + COMPRESSED_SIZE_MAX / 1024 + (get_dict_size(dict_size) / 1024) as u32
 }
 
 #[inline]
-fn get_dict_size(dict_size: u32) -> u32 {
-    dict_size + 15 & !15
+fn get_dict_size(dict_size: u32) -> u64 {
+    // the largest dictionary size rounds up to 4 GiB
+    (dict_size.max(DICT_SIZE_MIN) as u64 + 15) & !15
 }
 
 impl<R> LZMA2Reader<R> {
-- 
2.43.0


From a58ce78fcac2e7d63029aafe7716384036f76f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:11 +0000
Subject: [PATCH 46/56] fix: match distances of 2 GiB and more

---
 lzma-rust/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/decoder.rs b/lzma-rust/src/decoder.rs
index 55828d4..23e8458 100644
--- a/lzma-rust/src/decoder.rs
+++ b/lzma-rust/src/decoder.rs
@@ -78,7 +78,7 @@ impl LZMADecoder {
                 } else {
                     self.decode_rep_match(pos_state, rc)?
                 };
-                lz.repeat(self.reps[0] as _, len as _)?;
+                lz.repeat(self.reps[0] as u32 as usize, len as _)?;
             }
         }
         rc.normalize()?;
@@ -213,7 +213,7 @@ impl LiteralSubdecoder {
             }
         } else {
             let r = coder.reps[0];
-            let mut match_byte = lz.get_byte(r as usize) as u32;
+            let mut match_byte = lz.get_byte(r as u32 as usize) as u32;
             let mut offset = 0x100;
             let mut match_bit;
             let mut bit;
-- 
2.43.0


From 78f36fa1411719b7600192f11dc648c62fd72315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 47/56] fix: decoders are not asked again after an error

---
 src/decoders.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/decoders.rs b/src/decoders.rs
index 2e167dd..820dc4a 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -60,7 +60,38 @@ impl<R: Read> Read for Decoder<R> {
     }
 }
 
+/// Repeats the error once reading has failed: the state of a decoder means nothing then.
+pub struct FusedReader<R> {
+    inner: R,
+    error: Option<std::io::Error>,
+}
+
+impl<R: Read> Read for FusedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if let Some(e) = &self.error {
+            return Err(std::io::Error::new(e.kind(), e.to_string()));
+        }
+        self.inner.read(buf).map_err(|e| {
+            if e.kind() != std::io::ErrorKind::Interrupted {
+                self.error = Some(std::io::Error::new(e.kind(), e.to_string()));
+            }
+            e
+        })
+    }
+}
+
 pub fn add_decoder<I: Read>(
+    input: I,
+    uncompressed_len: usize,
+    coder: &Coder,
+    password: &[u8],
+    max_mem_limit_kb: usize,
+) -> Result<FusedReader<Decoder<I>>, Error> {
+    let inner = new_decoder(input, uncompressed_len, coder, password, max_mem_limit_kb)?;
+    Ok(FusedReader { inner, error: None })
+}
+
+fn new_decoder<I: Read>(
     input: I,
     uncompressed_len: usize,
     coder: &Coder,
-- 
2.43.0


From 88878d023c5d37b9a4c996c5b43d280fbac3c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 48/56] fix: AES encryption of 4 GiB and more

---
 src/aes256sha256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 24b39ef..d4a70b5 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -240,7 +240,7 @@ mod enc {
         enc: Aes256CbcEnc,
         buffer: Vec<u8>,
         done: bool,
-        write_size: u32,
+        write_size: u64,
     }
     #[derive(Debug, Clone)]
     pub struct AesEncoderOptions {
@@ -308,7 +308,7 @@ mod enc {
             let block2 = GenericArray::from_mut_slice(block);
             self.enc.encrypt_block_mut(block2);
             self.output.write_all(block)?;
-            self.write_size += block.len() as u32;
+            self.write_size += block.len() as u64;
             Ok(())
         }
     }
-- 
2.43.0


From e3a49151420b162834ec73124e18932a45c111d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 49/56] fix: entries are not extracted outside of the
 destination directory

---
 src/de_funcs.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 468cce7..8e146b6 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -99,13 +99,34 @@ fn decompress_impl<R: Read + Seek>(
         std::fs::create_dir_all(&dest).map_err(Error::io)?;
     }
     seven.for_each_entries(|entry, reader| {
-        let dest_path = dest.join(entry.name());
+        let dest_path = entry_dest_path(&dest, entry.name())?;
         extract_fn(entry, reader, &dest_path)
     })?;
 
     Ok(())
 }
 
+/// The path below `dest` of an entry, which must not leave that directory.
+#[cfg(not(target_arch = "wasm32"))]
+fn entry_dest_path(dest: &Path, name: &str) -> Result<PathBuf, Error> {
+    use std::path::Component;
+
+    let mut path = dest.to_path_buf();
+    for component in Path::new(name).components() {
+        match component {
+            Component::Normal(c) => path.push(c),
+            Component::CurDir => {}
+            Component::ParentDir | Component::RootDir | Component::Prefix(_) => {
+                return Err(Error::other(format!(
+                    "Entry would be extracted outside of the destination:{:?}",
+                    name
+                )));
+            }
+        }
+    }
+    Ok(path)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub fn default_entry_extract_fn(
     entry: &SevenZArchiveEntry,
-- 
2.43.0


From b6c184f03a55586fcb47757f2659c83db8a99a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 50/56] fix: extracted files keep their modification times

---
 src/de_funcs.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 8e146b6..0a41ba9 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -142,28 +142,31 @@ pub fn default_entry_extract_fn(
         }
     } else {
         let path = dest;
-        path.parent().and_then(|p| {
+        if let Some(p) = path.parent() {
             if !p.exists() {
-                std::fs::create_dir_all(p).ok()
-            } else {
-                None
+                std::fs::create_dir_all(p).map_err(Error::io)?;
             }
-        });
+        }
         let file = File::create(path)
             .map_err(|e| Error::file_open(e, path.to_string_lossy().to_string()))?;
+        let mut writer = BufWriter::new(file);
         if entry.size() > 0 {
-            let mut writer = BufWriter::new(file);
             std::io::copy(reader, &mut writer).map_err(Error::io)?;
-            ft::set_file_handle_times(
-                writer.get_ref(),
-                Some(ft::FileTime::from_system_time(entry.access_date().into())),
-                Some(ft::FileTime::from_system_time(
-                    entry.last_modified_date().into(),
-                )),
-                Some(ft::FileTime::from_system_time(entry.creation_date().into())),
-            )
-            .unwrap_or_default();
         }
+        // only what is written before the time stamps are set leaves them alone
+        let file = writer
+            .into_inner()
+            .map_err(|e| Error::io(e.into_error()))?;
+        let time = |has: bool, date: nt_time::FileTime| {
+            has.then(|| ft::FileTime::from_system_time(date.into()))
+        };
+        ft::set_file_handle_times(
+            &file,
+            time(entry.has_access_date, entry.access_date()),
+            time(entry.has_last_modified_date, entry.last_modified_date()),
+            time(entry.has_creation_date, entry.creation_date()),
+        )
+        .unwrap_or_default();
     }
     Ok(true)
 }
-- 
2.43.0


From 20615ffca658ca60dbf8321bc85b829a4e8fe8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 51/56] fix: a single file pushed by path had no name

---
 src/en_funcs.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/en_funcs.rs b/src/en_funcs.rs
index 24ac8c5..aedddfc 100644
--- a/src/en_funcs.rs
+++ b/src/en_funcs.rs
@@ -168,6 +168,16 @@ fn collect_file_paths(
     Ok(())
 }
 
+/// The path of a file relative to `src`; its file name if it is `src` itself.
+fn entry_name(path: &Path, src: &Path) -> String {
+    match path.strip_prefix(src) {
+        Ok(p) if !p.as_os_str().is_empty() => p,
+        _ => path.file_name().map(Path::new).unwrap_or(path),
+    }
+    .to_string_lossy()
+    .to_string()
+}
+
 const MAX_BLOCK_SIZE: u64 = 4 * 1024 * 1024 * 1024; //4G
 fn encode_path<W: Write + Seek>(
     solid: bool,
@@ -185,11 +195,7 @@ fn encode_path<W: Write + Seek>(
     })?;
     if !solid {
         for ele in paths.into_iter() {
-            let name = ele
-                .strip_prefix(&src)
-                .unwrap()
-                .to_string_lossy()
-                .to_string();
+            let name = entry_name(&ele, src.as_ref());
             zip.push_archive_entry(
                 SevenZArchiveEntry::from_path(ele.as_path(), name),
                 Some(File::open(ele.as_path()).map_err(crate::Error::io)?),
@@ -201,11 +207,7 @@ fn encode_path<W: Write + Seek>(
     let mut file_size = 0;
     for ele in paths.into_iter() {
         let size = ele.metadata()?.len();
-        let name = ele
-            .strip_prefix(&src)
-            .unwrap()
-            .to_string_lossy()
-            .to_string();
+        let name = entry_name(&ele, src.as_ref());
         if size >= MAX_BLOCK_SIZE {
             zip.push_archive_entry(
                 SevenZArchiveEntry::from_path(ele.as_path(), name),
-- 
2.43.0


From 2646d861013c88bca60a8c300425e795b990af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 52/56] fix: prefer the header that follows the packed streams
 when the start header is lost

The last bytes of a plain header can look like a header of their own, for
instance the attributes 0x01050100 of the last entry.
---
 src/reader.rs | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f5c2f75..c957c0e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -300,13 +300,20 @@ impl Archive {
             .read_to_end(&mut tail)
             .map_err(Error::io)?;
 
-        // The header is what can be parsed up to the very end. Parsing what only looks like a
-        // header must not take forever.
+        // The header is what can be parsed up to the very end, preferably where the packed
+        // streams end: the last bytes of a header can look like a small header themselves.
+        // Parsing what only looks like a header must not take forever.
+        let mut guess = None;
         let mut budget = 64 * search_limit as usize;
         for pos in (0..tail.len()).rev() {
             if tail[pos] == K_ENCODED_HEADER || tail[pos] == K_HEADER {
                 match Self::parse_header(&tail[pos..], reader, password, Some(&mut budget)) {
-                    Ok(result) if !result.files.is_empty() => return Ok(result),
+                    Ok((result, streams_end)) if !result.files.is_empty() => {
+                        if streams_end == min_pos + pos as u64 {
+                            return Ok(result);
+                        }
+                        guess.get_or_insert(result);
+                    }
                     _ => {}
                 }
                 if budget == 0 {
@@ -314,9 +321,7 @@ impl Archive {
                 }
             }
         }
-        Err(Error::other(
-            "Start header corrupt and unable to guess end header",
-        ))
+        guess.ok_or_else(|| Error::other("Start header corrupt and unable to guess end header"))
     }
 
     fn init_archive<R: Read + Seek>(
@@ -348,22 +353,25 @@ impl Archive {
             // an archive without any entries does not need a header
             return Ok(Archive::default());
         }
-        Self::parse_header(&buf, reader, password, None)
+        Self::parse_header(&buf, reader, password, None).map(|(archive, _)| archive)
     }
 
-    /// Parses a header, packed or not. With a `budget` the header is a guess: it has to extend
-    /// to the end of `buf`, and the bytes that were parsed are taken from the budget.
+    /// Parses a header, packed or not, and also returns where the packed streams before it end.
+    /// With a `budget` the header is a guess: it has to extend to the end of `buf`, and the bytes
+    /// that were parsed are taken from the budget.
     fn parse_header<R: Read + Seek>(
         buf: &[u8],
         reader: &mut R,
         password: &[u8],
         mut budget: Option<&mut usize>,
-    ) -> Result<Self, Error> {
+    ) -> Result<(Self, u64), Error> {
         let mut archive = Archive::default();
         let mut header = std::io::Cursor::new(buf);
         let mut nid = read_u8(&mut header)?;
         if nid != K_ENCODED_HEADER {
-            return Self::parse_plain_header(nid, header, archive, budget);
+            let archive = Self::parse_plain_header(nid, header, archive, budget)?;
+            let streams_end = archive.streams_end();
+            return Ok((archive, streams_end));
         }
         let streams = Self::read_streams_info(&mut header, &mut archive);
         charge(&mut budget, header.position());
@@ -385,7 +393,18 @@ impl Archive {
         result.map_err(|e| Error::bad_password(e, !password.is_empty()))?;
         let mut header = std::io::Cursor::new(unpacked.as_slice());
         nid = read_u8(&mut header)?;
-        Self::parse_plain_header(nid, header, Archive::default(), budget)
+        let streams_end = archive.streams_end();
+        let archive = Self::parse_plain_header(nid, header, Archive::default(), budget)?;
+        Ok((archive, streams_end))
+    }
+
+    /// Offset in the file of the first byte after the packed streams.
+    fn streams_end(&self) -> u64 {
+        self.pack_sizes
+            .iter()
+            .fold(SIGNATURE_HEADER_SIZE.saturating_add(self.pack_pos), |end, &size| {
+                end.saturating_add(size)
+            })
     }
 
     fn parse_plain_header(
-- 
2.43.0


From 760dd386ad21cfb33c550f6c967e9d8de6097bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 53/56] fix: writing two gigabytes or more at once to an LZMA
 encoder

The length of the written slice was cast to i32, and a panic followed.
---
 lzma-rust/src/lz/lz_encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index b0d032e..968ba0b 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -265,11 +265,9 @@ impl LZEncoderData {
         if self.read_pos >= (self.buf_size as i32 - self.keep_size_after as i32) {
             self.move_window();
         }
-        let len = if input.len() as i32 > self.buf_size as i32 - self.write_pos {
-            (self.buf_size as i32 - self.write_pos) as usize
-        } else {
-            input.len()
-        };
+        let len = input
+            .len()
+            .min((self.buf_size as i32 - self.write_pos) as usize);
         let d_start = self.write_pos as usize;
         let d_end = d_start + len;
         self.buf[d_start..d_end].copy_from_slice(&input[..len]);
-- 
2.43.0


From c336adda6ec937b702a8812d3e516cd77080aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 54/56] fix: a file in the place of a directory passed for it
 when extracting

---
 src/de_funcs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 0a41ba9..9617115 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -95,7 +95,7 @@ fn decompress_impl<R: Read + Seek>(
     src_reader.seek(SeekFrom::Start(pos)).map_err(Error::io)?;
     let mut seven = SevenZReader::new(src_reader, len, password)?;
     let dest = PathBuf::from(dest.as_ref());
-    if !dest.exists() {
+    if !dest.is_dir() {
         std::fs::create_dir_all(&dest).map_err(Error::io)?;
     }
     seven.for_each_entries(|entry, reader| {
@@ -137,7 +137,7 @@ pub fn default_entry_extract_fn(
 
     if entry.is_directory() {
         let dir = dest;
-        if !dir.exists() {
+        if !dir.is_dir() {
             std::fs::create_dir_all(dir).map_err(Error::io)?;
         }
     } else {
-- 
2.43.0


From 9a72bb7965cb6469b215895246e3a53bacdb86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 55/56] fix: seeking in the AES decoder reported positions it
 was not at

---
 src/aes256sha256.rs | 46 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index d4a70b5..a2dda85 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -85,32 +85,28 @@ impl<R: Read> Read for Aes256Sha256Decoder<R> {
 
 impl<R: Read + Seek> Seek for Aes256Sha256Decoder<R> {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        let len = self.ofinish - self.ostart;
-        match pos {
-            std::io::SeekFrom::Start(p) => {
-                let n = (p as i64 - self.pos as i64).min(len as i64);
-
-                if n < 0 {
-                    Ok(0)
-                } else {
-                    self.ostart += n as usize;
-                    Ok(p)
-                }
+        let target = match pos {
+            std::io::SeekFrom::Start(p) => Some(p),
+            std::io::SeekFrom::End(_) => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::Unsupported,
+                    "Aes256 decoder unsupport seek from end",
+                ))
             }
-            std::io::SeekFrom::End(_) => Err(std::io::Error::new(
-                std::io::ErrorKind::Unsupported,
-                "Aes256 decoder unsupport seek from end",
-            )),
-            std::io::SeekFrom::Current(n) => {
-                let n = n.min(len as i64);
-                if n < 0 {
-                    Ok(0)
-                } else {
-                    self.ostart += n as usize;
-                    Ok(self.pos as u64 + n as u64)
-                }
-            }
-        }
+            std::io::SeekFrom::Current(n) => (self.pos as u64).checked_add_signed(n),
+        };
+        let target = target
+            .filter(|target| *target >= self.pos as u64)
+            .ok_or_else(|| {
+                std::io::Error::new(
+                    std::io::ErrorKind::Unsupported,
+                    "Aes256 decoder unsupport seek backwards",
+                )
+            })?;
+        // what is passed over has to be decrypted
+        let skip = target - self.pos as u64;
+        std::io::copy(&mut self.take(skip), &mut std::io::sink())?;
+        Ok(self.pos as u64)
     }
 }
 
-- 
2.43.0


From 16533103562df93db0114e7b0dc045ec0f05a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 56/56] fix: memory usage of the encoders in KiB, with all hash
 tables

LZMA2Options::get_memery_usage added the size of the window in bytes to
sizes in KiB (some 330 MB instead of 1 MB for preset 0), and counted the
2-byte hash table twice instead of the 3-byte one.
---
 lzma-rust/src/lz/hash234.rs    | 2 +-
 lzma-rust/src/lz/lz_encoder.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/lz/hash234.rs b/lzma-rust/src/lz/hash234.rs
index cc98df0..da307e2 100644
--- a/lzma-rust/src/lz/hash234.rs
+++ b/lzma-rust/src/lz/hash234.rs
@@ -32,7 +32,7 @@ impl Hash234 {
     }
 
     pub fn get_mem_usage(dict_size: u32) -> u32 {
-        (HASH2_MASK + HASH2_SIZE + Self::get_hash4_size(dict_size)) / (1024 / 4) + 4
+        (HASH2_SIZE + HASH3_SIZE + Self::get_hash4_size(dict_size)) / (1024 / 4) + 4
     }
 
     pub fn new(dict_size: u32) -> Self {
diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index 968ba0b..0c66960 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -97,7 +97,8 @@ impl LZEncoder {
             extra_size_before,
             extra_size_after,
             match_len_max,
-        ) + mf.get_memery_usage(dict_size);
+        ) / 1024
+            + mf.get_memery_usage(dict_size);
 
         m
     }
-- 
2.43.0

