From 1f3b04b24d0a907a5210f981f33a8c6f12b82a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 01/11] fix: include the last row group in stripe and file
 statistics

The statistics were collected before the last, incomplete row group was merged into them.
---
 src/writer/stripe.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 15f51a3..5dad524 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -80,12 +80,14 @@ impl Stripe {
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
-        let mut statistics: Vec<Statistics> = Vec::new();
-        self.data.statistics(&mut statistics);
 
         let index_start_pos = out.pos();
         self.data.write_index_streams(out, &mut stream_infos)?;
 
+        // Writing the index closes the last row group, so the stripe statistics are complete only now.
+        let mut statistics: Vec<Statistics> = Vec::new();
+        self.data.statistics(&mut statistics);
+
         let data_start_pos = out.pos();
         self.data.write_data_streams(out, &mut stream_infos)?;
         
-- 
2.43.0


From f47b56957d7db25c7ef31996da652f141fffd4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 02/11] fix: do not lose high bits of timestamp nanoseconds

Shifting by 3 in 32 bits overflowed from 2^29 nanoseconds on.
---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 465b2b6..8063f10 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -127,7 +127,7 @@ impl TimestampData {
 
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
-        self.streams.nanos.write((nanos_val << 3 | trailing_zeros) as u64);
+        self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
-- 
2.43.0


From b2c092dfbc6516ce1cc07f4fee9edc4c16324cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 03/11] fix: write header and postscript length completely

A single write call may accept fewer bytes or be interrupted.
---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index bd7aa2d..5dc7ec5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -107,14 +107,14 @@ impl<W: Write> Writer<W> {
 
         let end_pos = self.inner.pos();
         let postscript_length = (end_pos - postscript_start_pos) as u8;
-        self.inner.write(slice::from_ref(&postscript_length))?;
+        self.inner.write_all(slice::from_ref(&postscript_length))?;
 
         self.inner.flush()?;
         Ok(self.inner.into_inner())
     }
 
     fn write_header(&mut self) -> Result<()> {
-        self.inner.write(b"ORC")?;
+        self.inner.write_all(b"ORC")?;
         Ok(())
     }
 
-- 
2.43.0


From 8ca320fab52b919e5aaad86f1b2716017d6e90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 04/11] fix: record timestamp statistics relative to the Unix
 epoch

The format defines them as milliseconds since 1970; they were relative to 2015.
---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 8063f10..0810559 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -128,7 +128,7 @@ impl TimestampData {
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
-        self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
+        self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
 }
-- 
2.43.0


From 2ef4ace3e0b426eaa654dfde66cfb723e3d54490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 05/11] fix: format the smallest decimal in statistics

Negating i128::MIN overflows.
---
 src/writer/statistics/decimal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/writer/statistics/decimal.rs b/src/writer/statistics/decimal.rs
index cda4aab..63973cd 100644
--- a/src/writer/statistics/decimal.rs
+++ b/src/writer/statistics/decimal.rs
@@ -67,13 +67,13 @@ impl DecimalStatistics {
         merge_sum(&mut self.sum, Some(x));
     }
 
-    pub fn format(&self, mut val: i128) -> String {
+    pub fn format(&self, val: i128) -> String {
         let mut out = String::new();
         if val < 0 {
             out.push_str("-");
-            val = -val;
         }
-        let modulus = 10i128.pow(self.scale);
+        let modulus = 10u128.pow(self.scale);
+        let val = val.unsigned_abs();
         let quo = val / modulus;
         let rem = val % modulus;
         write!(&mut out, "{}", quo).unwrap();
-- 
2.43.0


From 6e5210bf0bb397298caa772941a9c524dbe6bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 06/11] fix: refuse a union tag equal to the number of variants
 before writing it

The tag was written to the streams before the bounds check of child_counts failed.
---
 src/writer/data/union.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/union.rs b/src/writer/data/union.rs
index 9f66a7c..89128ad 100644
--- a/src/writer/data/union.rs
+++ b/src/writer/data/union.rs
@@ -115,7 +115,7 @@ impl UnionData {
     }
 
     pub fn write(&mut self, tag: usize) {
-        if tag > self.child_counts.len() {
+        if tag >= self.child_counts.len() {
             panic!("tag ({}) out of range", tag);
         }
         self.streams.present.write(true);
-- 
2.43.0


From d4164b3dd72f2c87d229b555bef3104c7f7f294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 07/11] fix: check row counts when a stripe is finished

Values written after the last write_batch were silently dropped or left columns out of step.
---
 src/writer/stripe.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 5dad524..fa23c82 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -78,6 +78,7 @@ impl Stripe {
     }
 
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
+        self.data.verify_row_count(self.num_rows);
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
 
-- 
2.43.0


From 2302d089c0c93e0257c09089edcb01a166d6656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 08/11] fix: split large writes into blocks of the declared
 size

A value longer than the block grew the block buffer beyond the block size declared in the
postscript, and beyond the three-byte chunk header for values over 8 MB. A block size of zero,
which cannot be honoured, is refused.
---
 src/writer/compression.rs        | 9 ++++-----
 src/writer/compression/snappy.rs | 2 +-
 src/writer/compression/zstd.rs   | 2 +-
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/writer/compression.rs b/src/writer/compression.rs
index bc52cf7..8ca3938 100644
--- a/src/writer/compression.rs
+++ b/src/writer/compression.rs
@@ -178,15 +178,14 @@ impl CompressionStream {
     #[inline(always)]
     pub fn write_bytes(&mut self, bytes: &[u8]) {
         if let Some(_) = &mut self.compressor {
-            if self.buf.len() + bytes.len() > self.buf.capacity() {
+            let mut bytes = bytes;
+            while self.buf.len() + bytes.len() > self.buf.capacity() {
                 let i = self.buf.capacity() - self.buf.len();
                 self.buf.write_bytes(&bytes[..i]);
                 self.finish_block();
-                self.buf.resize(0);
-                self.buf.write_bytes(&bytes[i..]);
-            } else {
-                self.buf.write_bytes(bytes);
+                bytes = &bytes[i..];
             }
+            self.buf.write_bytes(bytes);
         } else {
             self.buf.write_bytes(bytes);
         }
diff --git a/src/writer/compression/snappy.rs b/src/writer/compression/snappy.rs
index d7ed2c8..7df4da1 100644
--- a/src/writer/compression/snappy.rs
+++ b/src/writer/compression/snappy.rs
@@ -16,7 +16,7 @@ impl SnappyCompression {
     }
 
     pub fn with_block_size(mut self, block_size: usize) -> Self {
-        assert!(block_size <= MAX_BLOCK_SIZE);
+        assert!(block_size > 0 && block_size <= MAX_BLOCK_SIZE);
         self.block_size = block_size;
         self
     } 
diff --git a/src/writer/compression/zstd.rs b/src/writer/compression/zstd.rs
index 045cdeb..779c9f1 100644
--- a/src/writer/compression/zstd.rs
+++ b/src/writer/compression/zstd.rs
@@ -20,7 +20,7 @@ impl ZstdCompression {
     }
 
     pub fn with_block_size(mut self, block_size: usize) -> Self {
-        assert!(block_size <= MAX_BLOCK_SIZE);
+        assert!(block_size > 0 && block_size <= MAX_BLOCK_SIZE);
         self.block_size = block_size;
         self
     }
-- 
2.43.0


From 6fe37bf268585d05483114645d99dc3f1eb82385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 09/11] fix: do not finish a file after a stripe failed to be
 written

After write_batch had failed in the middle of a stripe, the encoders were left half drained and
a later write_batch or finish could succeed and leave a corrupt file.
---
 src/writer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5dc7ec5..3153c9a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -1,7 +1,7 @@
 use super::protos::orc_proto;
 use super::schema::Schema;
 use protobuf::{CodedOutputStream, Message, RepeatedField};
-use std::io::{Result, Write};
+use std::io::{Error, ErrorKind, Result, Write};
 use std::slice;
 
 use count_write::CountWrite;
@@ -57,6 +57,7 @@ pub struct Writer<W: Write> {
     config: Config,
     current_stripe: Stripe,
     stripe_infos: Vec<StripeInfo>,
+    failed: bool,
 }
 
 impl<W: Write> Writer<W> {
@@ -68,6 +69,7 @@ impl<W: Write> Writer<W> {
             current_stripe: Stripe::new(schema, &config),
             config,
             stripe_infos: Vec::new(),
+            failed: false,
         };
         writer.write_header()?;
         Ok(writer)
@@ -82,14 +84,26 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn write_batch(&mut self, num_rows: u64) -> Result<()> {
+        self.check_failed()?;
         self.current_stripe.write_batch(num_rows)?;
         if self.current_stripe.data.estimated_size() > self.config.stripe_size {
+            // If this fails, the stripe has been written partially and cannot be written again.
+            self.failed = true;
             self.current_stripe.finish(&mut self.inner, &mut self.stripe_infos)?;
+            self.failed = false;
+        }
+        Ok(())
+    }
+
+    fn check_failed(&self) -> Result<()> {
+        if self.failed {
+            return Err(Error::new(ErrorKind::Other, "an earlier write of a stripe failed"));
         }
         Ok(())
     }
 
     pub fn finish(mut self) -> Result<W> {
+        self.check_failed()?;
         self.current_stripe
             .finish(&mut self.inner, &mut self.stripe_infos)?;
         let content_length = self.current_stripe.offset - Self::HEADER_LENGTH;
-- 
2.43.0


From 6554032f9615d37c5e3f4ecaa3847cef7e6af5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 10/11] fix: write date statistics for date columns

The format defines dateStatistics for columns of type date; they were written as intStatistics.
---
 src/writer/data/long.rs  | 11 +++++++++--
 src/writer/statistics.rs | 17 +++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/long.rs b/src/writer/data/long.rs
index e9e37a4..ebed467 100644
--- a/src/writer/data/long.rs
+++ b/src/writer/data/long.rs
@@ -103,6 +103,13 @@ impl LongData {
     pub fn schema(&self) -> &Schema {
         &self.schema
     }
+
+    fn make_statistics(&self, stats: LongStatistics) -> Statistics {
+        match self.schema {
+            Schema::Date => Statistics::Date(stats),
+            _ => Statistics::Long(stats),
+        }
+    }
 }
 
 impl GenericData for LongData {
@@ -125,7 +132,7 @@ impl BaseData for LongData {
             let mut positions: Vec<u64> = Vec::new();
             entry.position.record(self.stripe_stats.has_null(), &mut positions);
             row_index_entry.set_positions(positions);
-            row_index_entry.set_statistics(Statistics::Long(entry.stats).to_proto());
+            row_index_entry.set_statistics(self.make_statistics(entry.stats).to_proto());
             row_index_entries.push(row_index_entry);
         }
         write_index(row_index_entries, self.column_id(), &self.config.compression, out, stream_infos_out)?;
@@ -163,7 +170,7 @@ impl BaseData for LongData {
     }
 
     fn statistics(&self, out: &mut Vec<Statistics>) {
-        out.push(Statistics::Long(self.stripe_stats));
+        out.push(self.make_statistics(self.stripe_stats));
     }
 
     fn estimated_size(&self) -> usize {
diff --git a/src/writer/statistics.rs b/src/writer/statistics.rs
index d3286ba..e824b14 100644
--- a/src/writer/statistics.rs
+++ b/src/writer/statistics.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use crate::protos::orc_proto;
 
 pub use common::BaseStatistics;
@@ -24,6 +26,7 @@ mod binary;
 pub enum Statistics {
     Boolean(BooleanStatistics),
     Long(LongStatistics),
+    Date(LongStatistics),
     Double(DoubleStatistics),
     Decimal(DecimalStatistics),
     Timestamp(TimestampStatistics),
@@ -41,6 +44,10 @@ impl Statistics {
         if let Statistics::Long(x) = self { x } else { panic!("invalid argument to unwrap_long"); }
     }
 
+    pub fn unwrap_date(&self) -> &LongStatistics { 
+        if let Statistics::Date(x) = self { x } else { panic!("invalid argument to unwrap_date"); }
+    }
+
     pub fn unwrap_decimal(&self) -> &DecimalStatistics { 
         if let Statistics::Decimal(x) = self { x } else { panic!("invalid argument to unwrap_decimal"); }
     }
@@ -82,6 +89,12 @@ impl Statistics {
                 if let Some(x) = long_statistics.sum { int_stat.set_sum(x); }
                 stat.set_intStatistics(int_stat);
             }
+            Statistics::Date(d) => {
+                let mut date_stat = orc_proto::DateStatistics::new();
+                if let Some(Ok(x)) = d.min.map(i32::try_from) { date_stat.set_minimum(x); }
+                if let Some(Ok(x)) = d.max.map(i32::try_from) { date_stat.set_maximum(x); }
+                stat.set_dateStatistics(date_stat);
+            }
             Statistics::Decimal(d) => {
                 let mut dec_stat = orc_proto::DecimalStatistics::new();
                 if let Some(x) = d.min { dec_stat.set_minimum(d.format(x)); }
@@ -125,6 +138,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.update_null(),
             Statistics::Long(x) => x.update_null(),
+            Statistics::Date(x) => x.update_null(),
             Statistics::Double(x) => x.update_null(),
             Statistics::Decimal(x) => x.update_null(),
             Statistics::Timestamp(x) => x.update_null(),
@@ -138,6 +152,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.num_values(),
             Statistics::Long(x) => x.num_values(),
+            Statistics::Date(x) => x.num_values(),
             Statistics::Double(x) => x.num_values(),
             Statistics::Decimal(x) => x.num_values(),
             Statistics::Timestamp(x) => x.num_values(),
@@ -151,6 +166,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.num_present(),
             Statistics::Long(x) => x.num_present(),
+            Statistics::Date(x) => x.num_present(),
             Statistics::Double(x) => x.num_present(),
             Statistics::Decimal(x) => x.num_present(),
             Statistics::Timestamp(x) => x.num_present(),
@@ -164,6 +180,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.merge(rhs.unwrap_boolean()),
             Statistics::Long(x) => x.merge(rhs.unwrap_long()),
+            Statistics::Date(x) => x.merge(rhs.unwrap_date()),
             Statistics::Double(x) => x.merge(rhs.unwrap_double()),
             Statistics::Decimal(x) => x.merge(rhs.unwrap_decimal()),
             Statistics::Timestamp(x) => x.merge(rhs.unwrap_timestamp()),
-- 
2.43.0


From 87e840e7f1b72c7851bd7096c9c0b0fa293f08dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 11/11] fix: refuse list and map lengths whose sum does not fit
 64 bits

---
 src/writer/data/list.rs | 5 ++++-
 src/writer/data/map.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/list.rs b/src/writer/data/list.rs
index c106356..a2c3851 100644
--- a/src/writer/data/list.rs
+++ b/src/writer/data/list.rs
@@ -102,9 +102,12 @@ impl ListData {
     }
 
     pub fn write(&mut self, len: u64) {
+        // A total that wrapped around could match the number of values in the child.
+        let num_child_values = self.num_child_values.checked_add(len)
+            .expect("the number of child values does not fit 64 bits");
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = num_child_values;
         self.row_group_stats.update();
         self.check_row_group();
     }
diff --git a/src/writer/data/map.rs b/src/writer/data/map.rs
index ca128fd..80da0e1 100644
--- a/src/writer/data/map.rs
+++ b/src/writer/data/map.rs
@@ -113,9 +113,12 @@ impl MapData {
     }
 
     pub fn write(&mut self, len: u64) {
+        // A total that wrapped around could match the number of values in the child.
+        let num_child_values = self.num_child_values.checked_add(len)
+            .expect("the number of child values does not fit 64 bits");
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = num_child_values;
         self.row_group_stats.update();
         self.check_row_group();
     }
-- 
2.43.0

