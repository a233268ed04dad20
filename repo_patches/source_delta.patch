From d7063b1c8c9b942978224825f3745f11f4b3f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 01/16] hooks: expose storage internals under
 cfg(meerkat_verif)

---
 src/server/mod.rs           |  2 ++
 src/store/block_index.rs    |  9 +++++++++
 src/store/encoding/mod.rs   | 10 ++++++++++
 src/store/io/mod.rs         | 27 +++++++++++++++++++++++++++
 src/store/mod.rs            |  3 +++
 src/store/segment_writer.rs | 25 +++++++++++++++++++++++++
 src/store/verif.rs          | 27 +++++++++++++++++++++++++++
 7 files changed, 103 insertions(+)
 create mode 100644 src/store/verif.rs

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 1838e23..edd7996 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -34,6 +34,8 @@ impl Meerkat {
     }
 
     pub fn start(&mut self) {
+        #[cfg(meerkat_verif)]
+        println!("VERIF_CONFIG {:?}", self.conf);
         self.init_logging();
         let span = span!(Level::TRACE, "meerkat");
         let _guard = span.enter();
diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 267f1b6..72ba963 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -49,3 +49,12 @@ impl BlockIndex {
         })
     }
 }
+
+#[cfg(meerkat_verif)]
+impl BlockIndex {
+    /// Verification hook: the indexed (row_id, offset) pairs.
+    pub fn verif_entries(&self) -> Vec<(u32, u64)> {
+        let offsets = self.block_offset.iter().copied();
+        self.block_row_id.iter().copied().zip(offsets).collect()
+    }
+}
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index ca51f5f..7efe7f9 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -122,6 +122,16 @@ where
     }
 }
 
+/// Verification hooks, only compiled with `--cfg meerkat_verif`.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::bitmap_rle::{decode as rle_decode, Encoder as RleEncoder};
+    pub use super::offsets::OffsetEncoder;
+    pub use super::varint::{
+        decode_varint, encode_varint, encoded_len_varint, Encoder as PutVarint,
+    };
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index 4d76897..e7927d7 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -122,6 +122,33 @@ where
     }
 }
 
+/// Verification hooks, only compiled with `--cfg meerkat_verif`.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::default_block_writer::Writer;
+    pub use super::unix_disk_block_reader::Reader;
+    pub use super::{Block, BlockError, BlockRange, BlockReader, OpInfo, ReadOp};
+
+    pub fn block_range(start: u64, end: u64) -> BlockRange {
+        BlockRange { start, end }
+    }
+
+    pub fn read_op(start: u64, end: u64, op_info: OpInfo) -> ReadOp {
+        ReadOp {
+            block_range: block_range(start, end),
+            op_info,
+        }
+    }
+
+    pub fn block_parts<B: AsRef<[u8]>>(block: Block<B>) -> (B, OpInfo) {
+        (block.buf, block.op_info)
+    }
+
+    pub fn error_parts(error: BlockError) -> (std::io::Error, OpInfo) {
+        (error.error, error.op_info)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use futures::StreamExt;
diff --git a/src/store/mod.rs b/src/store/mod.rs
index 6dd47b7..16a45fd 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -19,3 +19,6 @@ mod indexing_buffer;
 mod io;
 mod segment_metadata;
 mod segment_writer;
+
+#[cfg(meerkat_verif)]
+pub mod verif;
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..d569be0 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -328,6 +328,31 @@ impl<'a, B> ColumnWriter<'a, B> {
     }
 }
 
+/// Verification hooks, only compiled with `--cfg meerkat_verif`.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::{ColumnInfo, ColumnWriter, SegmentInfo, SegmentWriter};
+    use anyhow::Result;
+
+    pub async fn close(segment: &mut SegmentWriter) -> Result<()> {
+        segment.close().await
+    }
+
+    pub async fn sync(segment: SegmentWriter) -> Result<()> {
+        segment.sync().await
+    }
+
+    /// (row_id, offset) pairs in the block index of the last column.
+    pub fn block_entries(segment: &SegmentWriter) -> Vec<(u32, u64)> {
+        segment.block_index.verif_entries()
+    }
+
+    /// Positions of the (data, index) writers.
+    pub fn positions(segment: &SegmentWriter) -> (u64, u64) {
+        (segment.data_writer.pos(), segment.index_writer.pos())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use tempfile::tempdir;
diff --git a/src/store/verif.rs b/src/store/verif.rs
new file mode 100644
index 0000000..d704825
--- /dev/null
+++ b/src/store/verif.rs
@@ -0,0 +1,27 @@
+// Copyright 2021 The Meerkat Authors
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Verification hooks. Only compiled with `--cfg meerkat_verif`; re-exports the
+//! storage engine internals to an external harness.
+
+pub use super::block_index::BlockIndex;
+pub use super::block_sink::BlockSinkImpl;
+pub use super::encoding::verif as codec;
+pub use super::encoding::{
+    new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
+};
+pub use super::encoding::{BlockEncoder, BlockSink};
+pub use super::indexing_buffer as buffers;
+pub use super::io::verif as io;
+pub use super::segment_metadata as metadata;
+pub use super::segment_writer::verif as segment;
-- 
2.43.0


From fd1cd4549500e769da2020301430468910781cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 02/16] hooks: re-export items of private modules

---
 src/store/verif.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/store/verif.rs b/src/store/verif.rs
index d704825..16dc576 100644
--- a/src/store/verif.rs
+++ b/src/store/verif.rs
@@ -21,7 +21,13 @@ pub use super::encoding::{
     new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
 };
 pub use super::encoding::{BlockEncoder, BlockSink};
-pub use super::indexing_buffer as buffers;
 pub use super::io::verif as io;
-pub use super::segment_metadata as metadata;
 pub use super::segment_writer::verif as segment;
+
+pub mod buffers {
+    pub use super::super::indexing_buffer::*;
+}
+
+pub mod metadata {
+    pub use super::super::segment_metadata::*;
+}
-- 
2.43.0


From 5c029d3bdbcecb8fb8609f4a942c5f9a4397fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 03/16] fix: Bitmap::clear left bits set by the previous
 contents

---
 src/store/indexing_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..550cb88 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,7 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From c206098a9a3a891ea518b3ecf2278ea469a88a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 04/16] fix: Bitmap::with_capacity(n < 8) panicked on the first
 append

---
 src/store/indexing_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 550cb88..634a5ab 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -53,7 +53,7 @@ impl Bitmap {
         let idx = self.len >> 3;
 
         if idx == self.values.len() {
-            self.values.resize(self.values.len() * 2, 0);
+            self.values.resize((self.values.len() * 2).max(1), 0);
         }
 
         if set {
-- 
2.43.0


From f5fd89ce90970d1d9c32b23bed2cc5a003b03e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 05/16] fix: OffsetEncoder panicked unless given between 1 and
 128 offsets

---
 src/store/encoding/offsets.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..60ff3a4 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -39,7 +39,11 @@ impl OffsetEncoder {
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        let num_bits = src
+            .chunks(BitPacker4x::BLOCK_LEN)
+            .map(|chunk| self.bitpacker.num_bits(chunk))
+            .max()
+            .unwrap_or(0);
 
         dst.push(num_bits);
 
-- 
2.43.0


From 41a68a5353bcd6fd5a0ad09835caaaed08f8514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 06/16] fix: OffsetEncoder trimmed packed offsets along with
 the padding

---
 src/store/encoding/offsets.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 60ff3a4..3d3382e 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -15,6 +15,9 @@ use bitpacking::{BitPacker, BitPacker4x};
 
 use crate::store::encoding::util::{ceil8, round_upto_power_of_2};
 
+/// Number of interleaved lanes in a BitPacker4x block.
+const LANES: usize = 4;
+
 pub struct OffsetEncoder {
     bitpacker: BitPacker4x,
 }
@@ -60,8 +63,15 @@ impl OffsetEncoder {
             chunk_start += compressed_len;
         }
 
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
+        // trim to remove the encoded padding. The values of a chunk are striped
+        // over four lanes of 32 bit words, so only whole rows of words beyond
+        // the last value can be dropped.
+        let num_bits = num_bits as usize;
+        let full_chunks_len =
+            num_values / BitPacker4x::BLOCK_LEN * num_bits * BitPacker4x::BLOCK_LEN / 8;
+        let lane_len = (num_values % BitPacker4x::BLOCK_LEN + LANES - 1) / LANES;
+        let lane_words = (lane_len * num_bits + 31) / 32;
+        let encoded_data_len = encoded_data_start + full_chunks_len + lane_words * LANES * 4;
 
         dst.resize(encoded_data_len, 0);
     }
-- 
2.43.0


From 769521aa9b2cfe745807c92143abd6caa427734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 07/16] fix: primitive encoder compared a number of items with
 a block size in bytes

---
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..f3e8c0f 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From 7a125c2fea5a5da818df94e4ddc2402263dc3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 08/16] fix: encoders wrote the pending rows again on every
 flush

---
 src/store/encoding/raw/binary_enc.rs    | 1 +
 src/store/encoding/raw/primitive_enc.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..d02fdbe 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -164,6 +164,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
         if self.remaining.len() > 0 {
             self.write_remaining(sink).await?;
+            self.remaining.clear();
         }
 
         Ok(EncoderLayout::Plain(NoLayout {}))
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index f3e8c0f..63fdd71 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -155,6 +155,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
         if self.remaining.len() > 0 {
             self.write_remaining(sink).await?;
+            self.remaining.clear();
         }
 
         Ok(EncoderLayout::Plain(NoLayout {}))
-- 
2.43.0


From 07a58a8923bcf2d88a3b33f920f0d877368f670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 09/16] fix: nullable columns got row ids relative to the batch
 instead of the segment

---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index d02fdbe..9bbbfef 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -209,7 +209,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 63fdd71..56d47e8 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -187,7 +187,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From c83a34e1012ee01359b33d9c842409d8a6a73409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 10/16] fix: binary encoder never advanced past the first block
 of a batch

---
 src/store/encoding/raw/binary_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 9bbbfef..7b7f4cf 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -238,7 +238,7 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From 18aef1f5215af683fa1a36401dd967307e35423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 11/16] fix: encoders lost the nulls that follow the last value
 of a batch

---
 src/store/encoding/raw/binary_enc.rs    | 38 +++++++++++++++++++++----
 src/store/encoding/raw/primitive_enc.rs | 33 +++++++++++++++++----
 2 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 7b7f4cf..70c4254 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -69,6 +69,7 @@ impl Encoder {
             buf,
             chunk,
             bit_pos,
+            false,
             &mut self.encoded_data,
             &mut self.offset_deltas,
             &mut self.bitmap_encoder,
@@ -97,6 +98,7 @@ impl Encoder {
             &self.remaining,
             &chunk,
             0,
+            true,
             &mut self.encoded_data,
             &mut self.offset_deltas,
             &mut self.bitmap_encoder,
@@ -111,6 +113,16 @@ impl Encoder {
         Ok(result)
     }
 
+    /// Keep the nulls that follow the last value of the buffer, they belong
+    /// to the next block.
+    fn append_trailing_nulls(&mut self, buffer: &BinaryBuffer, validity_pos: usize) {
+        if let Some(validity) = buffer.validity() {
+            for _ in validity_pos..validity.len() {
+                self.remaining.append_null();
+            }
+        }
+    }
+
     fn add_rows(&mut self, num_rows: usize) {
         self.num_rows = self
             .num_rows
@@ -125,7 +137,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -136,6 +148,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             buf_pos = chunk.end_pos;
 
             if self.remaining.data().len() < self.min_block_size as usize {
+                self.append_trailing_nulls(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -147,9 +160,13 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         while buf_pos < buffer.offsets().len() {
             let chunk = chunk(&buffer, buf_pos, self.min_block_size);
             if (chunk.size as u64) < self.min_block_size {
-                self.remaining
-                    .append_from(buffer, chunk.start_pos, chunk.end_pos, validity_pos);
-                return Ok(());
+                validity_pos = self.remaining.append_from(
+                    buffer,
+                    chunk.start_pos,
+                    chunk.end_pos,
+                    validity_pos,
+                );
+                break;
             }
 
             let result = self.write_block(buffer, &chunk, validity_pos, sink).await?;
@@ -158,11 +175,13 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             validity_pos = result.last_validity_pos;
         }
 
+        self.append_trailing_nulls(buffer, validity_pos);
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
             self.remaining.clear();
         }
@@ -181,6 +200,7 @@ fn encode_binary_buffer(
     buf: &BinaryBuffer,
     chunk: &BinaryChunk,
     bit_pos: usize,
+    trailing_nulls: bool,
     encoded_data: &mut Vec<u8>,
     offset_deltas: &mut Vec<u32>,
     bitmap_encoder: &mut bitmap_rle::Encoder,
@@ -204,7 +224,13 @@ fn encode_binary_buffer(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            if trailing_nulls {
+                for _ in last_bit_pos..validity.len() {
+                    bitmap_encoder.put(false);
+                }
+                last_bit_pos = validity.len();
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 56d47e8..3801f7b 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -65,6 +65,7 @@ impl<T: Send + Sync + Clone> Encoder<T> {
             start,
             end,
             bit_pos,
+            false,
             &mut self.encoded_data,
             &mut self.bitmap_encoder,
         );
@@ -83,6 +84,7 @@ impl<T: Send + Sync + Clone> Encoder<T> {
             0,
             self.remaining.len(),
             0,
+            true,
             &mut self.encoded_data,
             &mut self.bitmap_encoder,
         );
@@ -95,6 +97,16 @@ impl<T: Send + Sync + Clone> Encoder<T> {
         Ok(result)
     }
 
+    /// Keep the nulls that follow the last value of the buffer, they belong
+    /// to the next block.
+    fn append_trailing_nulls(&mut self, buffer: &PrimitiveBuffer<T>, validity_pos: usize) {
+        if let Some(validity) = buffer.validity() {
+            for _ in validity_pos..validity.len() {
+                self.remaining.append_null();
+            }
+        }
+    }
+
     fn add_rows(&mut self, num_rows: usize) {
         self.num_rows = self
             .num_rows
@@ -111,7 +123,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -121,6 +133,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             buf_pos = chunk_end;
 
             if self.remaining.len() * size_of::<T>() < self.min_block_size {
+                self.append_trailing_nulls(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -136,9 +149,10 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             let chunk_size = chunk_len * size_of::<T>();
 
             if chunk_size < self.min_block_size {
-                self.remaining
+                validity_pos = self
+                    .remaining
                     .append_from(buffer, buf_pos, chunk_end, validity_pos);
-                return Ok(());
+                break;
             }
 
             let result = self
@@ -149,11 +163,13 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             validity_pos = result.last_validity_pos;
         }
 
+        self.append_trailing_nulls(buffer, validity_pos);
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
             self.remaining.clear();
         }
@@ -167,6 +183,7 @@ fn encode_primitive_buffer<T: Clone>(
     start: usize,
     end: usize,
     bit_pos: usize,
+    trailing_nulls: bool,
     encoded_data: &mut Vec<u8>,
     bitmap_encoder: &mut bitmap_rle::Encoder,
 ) -> EncodeResult {
@@ -182,7 +199,13 @@ fn encode_primitive_buffer<T: Clone>(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            if trailing_nulls {
+                for _ in last_bit_pos..validity.len() {
+                    bitmap_encoder.put(false);
+                }
+                last_bit_pos = validity.len();
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
-- 
2.43.0


From f8569ba71a1c1189b1b52f663cb96446be1fbd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 12/16] fix: BlockWriter::sync reported success after a failed
 block write

---
 src/store/io/default_block_writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index c9b14f1..23315df 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -48,6 +48,8 @@ impl Writer {
     /// This function will attempt to ensure that all in-core data reaches
     /// the filesystem before returning.
     pub async fn sync(&mut self) -> std::io::Result<()> {
+        // sync_all() waits for the write in progress but drops its error.
+        self.file.flush().await?;
         self.file.sync_all().await
     }
 
-- 
2.43.0


From f17aef22fbb46fd49f8793d9c0758296be739034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 13/16] fix: segments were cut into 128 byte blocks instead of
 128 KiB ones

---
 src/store/segment_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index d569be0..a79f307 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -109,7 +109,7 @@ const DATA_FILE_SIGNATURE: [u8; 13] = *b"MEERKAT_DATA1";
 const INDEX_FILE_SIGNATURE: [u8; 12] = *b"MEERKAT_IDX1";
 const DATA_FILE_EXT: &str = "dat";
 const INDEX_FILE_EXT: &str = "idx";
-const BLOCK_SIZE: u32 = 1 << 7; // 128k block size
+const BLOCK_SIZE: u32 = 1 << 17; // 128k block size
 
 /// ColumnInfo provides details about the column to be indexed.
 pub struct ColumnInfo {
-- 
2.43.0


From 4154670b436209d4b4f3873ebcc2c643e58acf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 14/16] fix: an absent or empty seed list became a single empty
 seed

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 0e253ee..b51f9a1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -62,6 +62,7 @@ fn main() {
             .unwrap_or_default()
             .split(',')
             .map(|s| s.trim().to_string())
+            .filter(|s| !s.is_empty())
             .collect(),
     };
 
-- 
2.43.0


From b4db7f15aa9e262e153b9331cf26284bf5aa8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 15/16] hooks: enable the exposed internals group by group

---
 src/store/block_index.rs    | 2 +-
 src/store/encoding/mod.rs   | 3 +++
 src/store/io/mod.rs         | 4 ++--
 src/store/segment_writer.rs | 4 ++--
 src/store/verif.rs          | 9 ++++++---
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 72ba963..b985661 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -50,7 +50,7 @@ impl BlockIndex {
     }
 }
 
-#[cfg(meerkat_verif)]
+#[cfg(meerkat_verif = "index")]
 impl BlockIndex {
     /// Verification hook: the indexed (row_id, offset) pairs.
     pub fn verif_entries(&self) -> Vec<(u32, u64)> {
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index 7efe7f9..391899e 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -125,8 +125,11 @@ where
 /// Verification hooks, only compiled with `--cfg meerkat_verif`.
 #[cfg(meerkat_verif)]
 pub mod verif {
+    #[cfg(meerkat_verif = "rle")]
     pub use super::bitmap_rle::{decode as rle_decode, Encoder as RleEncoder};
+    #[cfg(meerkat_verif = "offsets")]
     pub use super::offsets::OffsetEncoder;
+    #[cfg(meerkat_verif = "varint")]
     pub use super::varint::{
         decode_varint, encode_varint, encoded_len_varint, Encoder as PutVarint,
     };
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index e7927d7..5be5606 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -122,8 +122,8 @@ where
     }
 }
 
-/// Verification hooks, only compiled with `--cfg meerkat_verif`.
-#[cfg(meerkat_verif)]
+/// Verification hooks, only compiled with `--cfg meerkat_verif="io"`.
+#[cfg(meerkat_verif = "io")]
 pub mod verif {
     pub use super::default_block_writer::Writer;
     pub use super::unix_disk_block_reader::Reader;
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index a79f307..80aec5e 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -328,8 +328,8 @@ impl<'a, B> ColumnWriter<'a, B> {
     }
 }
 
-/// Verification hooks, only compiled with `--cfg meerkat_verif`.
-#[cfg(meerkat_verif)]
+/// Verification hooks, only compiled with `--cfg meerkat_verif="seg"`.
+#[cfg(meerkat_verif = "seg")]
 pub mod verif {
     pub use super::{ColumnInfo, ColumnWriter, SegmentInfo, SegmentWriter};
     use anyhow::Result;
diff --git a/src/store/verif.rs b/src/store/verif.rs
index 16dc576..c53e16b 100644
--- a/src/store/verif.rs
+++ b/src/store/verif.rs
@@ -12,16 +12,19 @@
 // limitations under the License.
 
 //! Verification hooks. Only compiled with `--cfg meerkat_verif`; re-exports the
-//! storage engine internals to an external harness.
+//! storage engine internals to an external harness, in groups that are enabled one
+//! by one (`--cfg meerkat_verif="io"` and so on).
 
-pub use super::block_index::BlockIndex;
-pub use super::block_sink::BlockSinkImpl;
 pub use super::encoding::verif as codec;
+#[cfg(meerkat_verif = "enc")]
 pub use super::encoding::{
     new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
 };
+#[cfg(meerkat_verif = "enc")]
 pub use super::encoding::{BlockEncoder, BlockSink};
+#[cfg(meerkat_verif = "io")]
 pub use super::io::verif as io;
+#[cfg(meerkat_verif = "seg")]
 pub use super::segment_writer::verif as segment;
 
 pub mod buffers {
-- 
2.43.0


From 950d55d251e85fa77c6938af74b9503d2a197924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 16/16] fix: a synced segment could lose its files' names in a
 crash

---
 src/store/segment_writer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 80aec5e..c233751 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -92,6 +92,7 @@ use std::path::Path;
 
 use anyhow::{Context, Result};
 use prost::Message;
+use tokio::fs::File;
 use uuid::Uuid;
 
 use crate::store::block_index::BlockIndex;
@@ -131,6 +132,7 @@ pub struct SegmentInfo {
 
 /// Write segments to disk.
 pub struct SegmentWriter {
+    dir: File,
     data_writer: BlockWriter,
     index_writer: BlockWriter,
     block_index: BlockIndex,
@@ -159,7 +161,13 @@ impl SegmentWriter {
             .await
             .context("cannot create data writer")?;
 
+        // An empty path stands for the current directory.
+        let dir = File::open(Path::new(".").join(path.as_ref()))
+            .await
+            .context("cannot open segment dir")?;
+
         let mut segment_writer = Self {
+            dir: dir,
             data_writer: data_writer,
             index_writer: index_writer,
             block_index: BlockIndex::new(),
@@ -251,7 +259,10 @@ impl SegmentWriter {
         self.data_writer
             .sync()
             .await
-            .context("cannot sync data file")
+            .context("cannot sync data file")?;
+
+        // The names of new files survive a crash only once their directory is synced.
+        self.dir.sync_all().await.context("cannot sync segment dir")
     }
 }
 
-- 
2.43.0

