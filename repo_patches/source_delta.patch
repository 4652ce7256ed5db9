From 0f0dbde1c39d57d5cb4ce0a3ffeddbf7b41ebdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 01/22] fix: bloom filter byte count for bit set sizes that are
 not a multiple of 8

A filter of e.g. 275 bits was given 34 bytes, so closing a file with that many
series panicked.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..14aa55f 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -738,7 +738,7 @@ impl BloomFilter {
         let number_of_bytes = if self.bit_set.len() % 8 == 0 {
             self.bit_set.len() / 8
         } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
+            self.bit_set.len() / 8 + 1
         };
 
         let mut result = vec![0_u8; number_of_bytes];
-- 
2.43.0


From a60a5bf69d2673d03691681c252cf540c1afb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 02/22] fix: murmur hash arithmetic has to wrap

With overflow checks on, hashing a path of 16 bytes or more (and many shorter
ones) panicked when the file was closed.
---
 tsfile-writer/src/writer/murmur128.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..c9c5016 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -57,20 +57,20 @@ impl Murmur128 {
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From d5fbe3b45ad2b8d0475ed97c03eaa8a343a91481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 03/22] fix: bloom filter hash position for a murmur hash of
 i32::MIN

i32::MIN has no absolute value: abs() panics (or stays negative, which indexes
out of bounds).
---
 tsfile-writer/src/writer/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 14aa55f..825a808 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -669,7 +669,11 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        let res = match self._murmur_hash(value, self.seed) {
+            i32::MIN => 0, // has no absolute value
+            res => res,
+        };
+        (res.abs() % self.cap) as usize
     }
 }
 
-- 
2.43.0


From 8132a1aded995943d63cb7bfda950418bcd50bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 04/22] fix: write the device index in sorted order

Readers look a device up by binary search, but the entries were written in the
random iteration order of a HashMap.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 825a808..0e28b1a 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -507,7 +507,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From 0215e2e8a0645b246189e4f332a93d856ad83b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 05/22] fix: keep the last timestamps of all series across an
 automatic flush

flush_all_chunk_groups saves them but reset() started again with an empty map,
so out of order data was accepted after a flush.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..31ab61f 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -242,6 +242,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         self.record_count = 0;
         // Reset Group Writers
         let schema = self.schema.clone();
+        let last_time_map = &self.non_aligned_timeseries_last_time_map;
         self.group_writers = schema
             .measurement_groups
             .into_iter()
@@ -265,7 +266,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        last_time_map: last_time_map.get(path).cloned().unwrap_or_default(),
                     },
                 )
             })
-- 
2.43.0


From 2af408ec6c1ec59bd0f5abffdc2ce5908f3e3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 06/22] fix: reject a value of the wrong type with an error

It panicked instead (todo!() in the statistics), after the value had already been
appended to the page. A series whose type the encoding does not support also
panicked (unwrap) instead of returning the error.
---
 tsfile-writer/src/writer/chunk_writer.rs | 6 ++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..d7fa341 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -282,6 +282,12 @@ impl ChunkWriter {
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
         // self.statistics.update(timestamp, &value);
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_)) => {}
+            (TSDataType::INT64, IoTDBValue::LONG(_)) => {}
+            (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         match &mut self.current_page_writer {
             None => {
                 // Create a page
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From 6b8b362fae95ffd1b09966ec872e23789710c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 07/22] fix: TS2DIFF deltas have to wrap

The difference of two values (or deltas) need not be representable; decoding adds
it back with wrapping arithmetic. With overflow checks on this panicked.
---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..a6a45f7 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = value.wrapping_sub(self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From 5081b2e1c83fc98dbeb6c2fb0286b1b3d902ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 08/22] fix: do not guess the device of a series from its path

A measurement id may contain dots: its series was indexed under the wrong device,
and (a, b.c) and (a.b, c) were merged into one series.
---
 tsfile-writer/src/writer/mod.rs              |  5 +++--
 tsfile-writer/src/writer/tsfile_io_writer.rs | 16 +++++-----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 0e28b1a..60f158b 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -222,6 +222,7 @@ pub struct MeasurementSchema {
 
 #[derive(Clone, PartialEq, Eq, Hash)]
 struct Path {
+    device: String,
     path: String,
 }
 
@@ -233,13 +234,13 @@ impl Display for Path {
 
 impl Ord for Path {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.path.cmp(&other.path)
+        (&self.device, &self.path).cmp(&(&other.device, &other.path))
     }
 }
 
 impl PartialOrd<Self> for Path {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.path.partial_cmp(&other.path)
+        Some(self.cmp(other))
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..fce0912 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -149,6 +149,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
                     &group_metadata.device_id, &chunk_metadata.measurement_id
                 );
                 let path = Path {
+                    device: group_metadata.device_id.clone(),
                     path: device_path.clone(),
                 };
                 if !&chunk_metadata_map.contains_key(&path) {
@@ -195,15 +196,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
+        let mut last_path: Option<Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
             // ensure that paths are printed in alphabetical order
             match &last_path {
-                None => last_path = Some(path.path.clone()),
+                None => last_path = Some(path.clone()),
                 Some(p) => {
                     assert!(
-                        p < &path.path,
+                        p < path,
                         "Something went wrong.. footer was written in wrong order"
                     );
                 }
@@ -240,14 +241,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
+            let device_id = path.device.clone();
 
             if !self.timeseries_metadata_map.contains_key(&device_id) {
                 self.timeseries_metadata_map
-- 
2.43.0


From 6e5ef0f3d2c249f189becd808ed37d2b60f5e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 09/22] fix: write the whole metadata index when the sink
 writes short

write() may accept only a part of the buffer.
---
 tsfile-writer/src/writer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 60f158b..dd2e224 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -349,7 +349,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte]);
 
         Ok(())
     }
@@ -370,7 +370,7 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
         write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        file.write_all(&self.offset.to_be_bytes());
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -400,7 +400,7 @@ impl Serializable for MetadataIndexNode {
             metadata_index_entry.serialize(file);
         }
 
-        file.write(&self.end_offset.to_be_bytes());
+        file.write_all(&self.end_offset.to_be_bytes());
         self.node_type.serialize(file);
 
         Ok(())
-- 
2.43.0


From 7d9b80f0f8daf6f2a4513392218e23c556b407cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 10/22] fix: read_var_u32 stopped at a continuation byte of
 0xFF

e.g. 383 (FF 02) was read as 255.
---
 tsfile-writer/src/writer/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/utils.rs b/tsfile-writer/src/writer/utils.rs
index 3eeed38..87d4117 100644
--- a/tsfile-writer/src/writer/utils.rs
+++ b/tsfile-writer/src/writer/utils.rs
@@ -56,7 +56,7 @@ pub fn read_var_u32(buffer: &mut dyn Read) -> Result<u32, TsFileError> {
     let mut value: u32 = 0;
     let mut i: u8 = 0;
     let mut b = read_byte(buffer)?;
-    while b != u8::MAX && (b & 0x80) != 0 {
+    while (b & 0x80) != 0 {
         value |= ((b & 0x7F) as u32) << i;
         i += 7;
         b = read_byte(buffer)?;
-- 
2.43.0


From 7ec6b42529c3335893f750be1ab6448202793232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 11/22] fix: statistics take the first point as it is

The sentinels of the empty statistics survived a first point of i64::MAX (no first
value) and infinite or NaN floats (min f32::MAX / max f32::MIN, never written).
---
 tsfile-writer/src/writer/statistics.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..35999ab 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -136,18 +136,18 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
-                if statistics.ts_last > self.ts_last {
+                if self.count == 0 || statistics.ts_last > self.ts_last {
                     self.ts_last = statistics.ts_last;
                     self.last_value = statistics.last_value;
                 }
-                if statistics.max_value > self.max_value {
+                if self.count == 0 || statistics.max_value > self.max_value {
                     self.max_value = statistics.max_value;
                 }
-                if statistics.min_value < self.min_value {
+                if self.count == 0 || statistics.min_value < self.min_value {
                     self.min_value = statistics.min_value;
                 }
                 self.count += statistics.count;
@@ -155,18 +155,18 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
-                if timestamp > self.ts_last {
+                if self.count == 0 || timestamp > self.ts_last {
                     self.ts_last = timestamp;
                     self.last_value = value;
                 }
-                if value < self.min_value {
+                if self.count == 0 || value < self.min_value {
                     self.min_value = value;
                 }
-                if value > self.max_value {
+                if self.count == 0 || value > self.max_value {
                     self.max_value = value;
                 }
                 self.count += 1;
-- 
2.43.0


From 38f5ec6b10921167bebae5ba296a01812b09e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 12/22] fix: build the inner levels of the metadata index

The nodes were taken in reverse order, never written to the file, and a full inner
node kept growing, so a device with more than one leaf node of leaf nodes (65536
series) could not be read.
---
 tsfile-writer/src/writer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index dd2e224..aff064c 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -462,17 +462,17 @@ impl MetadataIndexNode {
 
         while queue_size != 1 {
             for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
+                metadata_index_node = measurement_metadata_index_queue.remove(0);
                 let device = match metadata_index_node.children.get(0) {
                     None => {
                         panic!("...")
                     }
                     Some(inner) => inner.name.clone(),
                 };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
                 if current_index_metadata.is_full(config) {
                     current_index_metadata.end_offset = file.get_position() as usize;
                     measurement_metadata_index_queue.push(current_index_metadata.clone());
+                    current_index_metadata = MetadataIndexNode::new(node_type.clone());
                 }
                 // ...
                 let name = match metadata_index_node.children.get(0) {
@@ -485,6 +485,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
+                metadata_index_node.serialize(file);
             }
             // ...
             Self::add_current_index_node_to_queue(
-- 
2.43.0


From 1d75e852a804af568e5b7ea60e93565e1c3c341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 13/22] fix: build the device levels of the metadata index

Closing a file with more than 256 devices panicked ("not yet implemented").
---
 tsfile-writer/src/writer/mod.rs | 37 ++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index aff064c..8f79309 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -326,6 +326,7 @@ impl ChunkGroupMetadata {
 
 #[derive(Clone)]
 enum MetadataIndexNodeType {
+    InternalDevice,
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
@@ -348,6 +349,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write_all(&[byte]);
 
@@ -574,7 +576,40 @@ impl MetadataIndexNode {
             return metadata_index_node;
         }
 
-        panic!("This is not yet implemented!");
+        // else, build level index for devices
+        let mut device_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (device, node) in device_metadata_index_map {
+            // when constructing from internal node, each node is related to an entry
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: device,
+                offset: file.get_position() as usize,
+            });
+            node.serialize(file);
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
+
+        let mut root_node = Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        );
+        root_node.end_offset = file.get_position() as usize;
+        root_node
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
-- 
2.43.0


From dee3a10cd9813501447608675d646937a105731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 14/22] fix: count the points accepted by a write_many that
 fails later

With no other point in the file, close() did not write them at all.
---
 tsfile-writer/src/writer/group_writer.rs  | 8 ++++----
 tsfile-writer/src/writer/tsfile_writer.rs | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..f58925a 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -16,12 +16,12 @@ impl<'a> GroupWriter<'a> {
         &mut self,
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
-        let mut records = 0;
+        record_count: &mut u32,
+    ) -> Result<(), TsFileError> {
         for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
+            *record_count += self.write(dp.measurement_id, timestamp, dp.value)?;
         }
-        Ok(records)
+        Ok(())
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 31ab61f..7ba121a 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -158,8 +158,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     ) -> Result<(), TsFileError> {
         match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
-                self.record_count += records_written;
+                group.write_many(timestamp, values, &mut self.record_count)?;
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-- 
2.43.0


From 36dbca0f71aec61387361099bc0198c4306c82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 15/22] fix: TsFileWriter::new returns the error when the file
 cannot be created

It panicked although it returns a Result.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 7ba121a..b1d6c75 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -289,7 +289,7 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
         };
         create_dir_all(folder);
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From 85545c8b72000d11193b6f4fee2365367202f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 16/22] fix: report I/O errors instead of dropping them

A failed write to the file (disk full, ...) while flushing or closing was ignored:
write() and close() looked successful and the file was truncated or had wrong
offsets. close() now returns the error.
---
 tsfile-writer-c/src/lib.rs                   |  2 +-
 tsfile-writer/src/writer/chunk_writer.rs     | 14 +++--
 tsfile-writer/src/writer/group_writer.rs     |  6 +-
 tsfile-writer/src/writer/mod.rs              | 66 ++++++++++----------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 28 +++++----
 tsfile-writer/src/writer/tsfile_writer.rs    | 14 ++---
 6 files changed, 67 insertions(+), 63 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 95b0108..66af4ed 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -131,6 +131,6 @@ pub extern "C" fn file_writer_write_int32(
 pub extern "C" fn file_writer_close(writer: *mut TsFileWriter<WriteWrapper<File>>) {
     if !writer.is_null() {
         let mut _b = unsafe { Box::from_raw(writer) };
-        _b.close();
+        _b.close().unwrap();
     }
 }
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index d7fa341..3a630e4 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -208,24 +208,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -236,13 +237,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -258,6 +259,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index f58925a..ee2e7b3 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -35,7 +35,7 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
         self.seal_all_chunks();
@@ -43,10 +43,10 @@ impl<'a> GroupWriter<'a> {
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 8f79309..a348b13 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -351,7 +351,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write_all(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -371,8 +371,8 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
-        file.write_all(&self.offset.to_be_bytes());
+        write_str(file, self.name.as_str())?;
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -396,14 +396,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
-        file.write_all(&self.end_offset.to_be_bytes());
-        self.node_type.serialize(file);
+        file.write_all(&self.end_offset.to_be_bytes())?;
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
@@ -436,7 +436,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -487,7 +487,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
-                metadata_index_node.serialize(file);
+                metadata_index_node.serialize(file)?;
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -502,7 +502,7 @@ impl MetadataIndexNode {
             };
             queue_size = measurement_metadata_index_queue.len();
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        return Ok(measurement_metadata_index_queue.get(0).unwrap().clone());
     }
 
     #[allow(unused_variables)]
@@ -510,7 +510,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
@@ -543,7 +543,7 @@ impl MetadataIndexNode {
                         offset: file.get_position() as usize,
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -558,7 +558,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
@@ -570,10 +570,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position() as usize,
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position() as usize;
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         // else, build level index for devices
@@ -594,7 +594,7 @@ impl MetadataIndexNode {
                 name: device,
                 offset: file.get_position() as usize,
             });
-            node.serialize(file);
+            node.serialize(file)?;
         }
         Self::add_current_index_node_to_queue(
             &mut current_index_node,
@@ -607,9 +607,9 @@ impl MetadataIndexNode {
             file,
             MetadataIndexNodeType::InternalDevice,
             config,
-        );
+        )?;
         root_node.end_offset = file.get_position() as usize;
-        root_node
+        Ok(root_node)
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
@@ -650,7 +650,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -658,13 +658,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -817,10 +817,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -844,15 +844,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index fce0912..7f3be80 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -166,15 +167,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -182,20 +183,21 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut last_path: Option<Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index b1d6c75..221451b 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -120,10 +120,10 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.flush_all_chunk_groups()?;
+        self.file_io_writer.end_file()
     }
 }
 
@@ -146,7 +146,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -162,7 +162,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -206,7 +206,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -214,7 +214,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
-- 
2.43.0


From feee013715f6e7e55b7dbb306e39fb2019be48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 17/22] verif_hooks: access to internals for the verification
 harness

Only compiled with --cfg verif_hooks.
---
 tsfile-writer/src/lib.rs                  |   2 +
 tsfile-writer/src/sync/mod.rs             |  35 ++++++
 tsfile-writer/src/writer/mod.rs           |   2 +
 tsfile-writer/src/writer/tsfile_writer.rs |  16 +++
 tsfile-writer/src/writer/verif_hooks.rs   | 135 ++++++++++++++++++++++
 5 files changed, 190 insertions(+)
 create mode 100644 tsfile-writer/src/writer/verif_hooks.rs

diff --git a/tsfile-writer/src/lib.rs b/tsfile-writer/src/lib.rs
index ab85dcf..f5e369b 100644
--- a/tsfile-writer/src/lib.rs
+++ b/tsfile-writer/src/lib.rs
@@ -80,6 +80,8 @@
 //! writer.write("d2", "s1", 1, IoTDBValue::LONG(14));
 //! writer.write("d2", "s2", 1, IoTDBValue::FLOAT(14.0 as f32));
 //! ```
+// cfg(verif_hooks) guards access for the verification harness
+#![allow(unexpected_cfgs)]
 #[cfg(feature = "sync_sender")]
 pub mod sync;
 pub mod writer;
diff --git a/tsfile-writer/src/sync/mod.rs b/tsfile-writer/src/sync/mod.rs
index 1daaf15..b951fc1 100644
--- a/tsfile-writer/src/sync/mod.rs
+++ b/tsfile-writer/src/sync/mod.rs
@@ -8,3 +8,38 @@ mod mlog;
 #[allow(clippy::module_inception)] // is not exported
 mod sync;
 pub mod sync_sender;
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    //! Access to internals for the verification harness.
+    use crate::sync::mlog::MLog;
+    use crate::writer::compression::CompressionType;
+    use crate::writer::encoding::TSEncoding;
+    use crate::writer::errors::TsFileError;
+    use crate::writer::TSDataType;
+
+    pub enum Plan<'a> {
+        StorageGroup(&'a str),
+        Timeseries(&'a str, TSDataType, TSEncoding, CompressionType),
+    }
+
+    /// Writes each frame, made of some plans, with one MLog.
+    pub fn mlog_bytes(
+        frames: &[Vec<Plan>],
+        writer: &mut dyn std::io::Write,
+    ) -> Result<(), TsFileError> {
+        let mut m_log = MLog::new();
+        for frame in frames {
+            for plan in frame {
+                match plan {
+                    Plan::StorageGroup(path) => m_log.set_storage_group_plan(path)?,
+                    Plan::Timeseries(path, data_type, encoding, compression) => {
+                        m_log.create_plan(path, *data_type, *encoding, *compression)?
+                    }
+                }
+            }
+            m_log.flush(writer)?;
+        }
+        Ok(())
+    }
+}
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index a348b13..4c9e552 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -105,6 +105,8 @@ pub mod ts_file_config;
 mod tsfile_io_writer;
 pub mod tsfile_writer;
 mod utils;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 use crate::writer::chunk_writer::ChunkMetadata;
 use crate::writer::compression::CompressionType;
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 221451b..6cda192 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -346,3 +346,19 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         })
     }
 }
+
+#[cfg(verif_hooks)]
+impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
+    /// What happens when the memory threshold is exceeded
+    pub fn verif_flush(&mut self) -> Result<bool, TsFileError> {
+        self.flush_all_chunk_groups()
+    }
+
+    pub fn verif_sink(&self) -> &T {
+        &self.file_io_writer.out
+    }
+
+    pub fn verif_into_sink(self) -> T {
+        self.file_io_writer.out
+    }
+}
diff --git a/tsfile-writer/src/writer/verif_hooks.rs b/tsfile-writer/src/writer/verif_hooks.rs
new file mode 100644
index 0000000..dedd773
--- /dev/null
+++ b/tsfile-writer/src/writer/verif_hooks.rs
@@ -0,0 +1,135 @@
+//! Access to internals for the verification harness.
+//! Only compiled with `--cfg verif_hooks`, never part of the library proper.
+#![allow(missing_docs)]
+use std::io::{Read, Write};
+
+use crate::writer::encoding::{Encoder, TSEncoding};
+use crate::writer::errors::TsFileError;
+use crate::writer::murmur128::Murmur128;
+use crate::writer::statistics::Statistics;
+use crate::writer::ts_file_config::TsFileConfig;
+use crate::writer::tsfile_writer::TsFileWriter;
+use crate::writer::{
+    utils, BloomFilter, HashFunction, IoTDBValue, Path, PositionedWrite, Schema, Serializable,
+    TSDataType, WriteWrapper,
+};
+
+/// A writer on any sink.
+pub fn writer_on<'a, W: Write>(
+    schema: Schema<'a>,
+    sink: W,
+    config: TsFileConfig,
+) -> Result<TsFileWriter<'a, WriteWrapper<W>>, TsFileError> {
+    TsFileWriter::new_from_writer(schema, WriteWrapper::new(sink), config)
+}
+
+/// The default configuration with another maximal number of children per index node.
+pub fn config_with_degree(max_degree_of_index_node: usize) -> TsFileConfig {
+    TsFileConfig {
+        max_degree_of_index_node,
+        ..Default::default()
+    }
+}
+
+pub fn wrap<W: Write>(sink: W) -> WriteWrapper<W> {
+    WriteWrapper::new(sink)
+}
+
+pub fn unwrap<W: Write>(wrapper: WriteWrapper<W>) -> W {
+    wrapper.writer
+}
+
+pub fn write_var_u32(num: u32, buffer: &mut dyn PositionedWrite) -> Result<u8, TsFileError> {
+    utils::write_var_u32(num, buffer)
+}
+
+pub fn write_var_i32(num: i32, buffer: &mut dyn PositionedWrite) -> Result<u8, TsFileError> {
+    utils::write_var_i32(num, buffer)
+}
+
+pub fn size_var_u32(num: u32) -> u8 {
+    utils::size_var_u32(num)
+}
+
+pub fn size_var_i32(num: i32) -> u8 {
+    utils::size_var_i32(num)
+}
+
+pub fn read_var_u32(buffer: &mut dyn Read) -> Result<u32, TsFileError> {
+    utils::read_var_u32(buffer)
+}
+
+pub fn murmur128(value: &str, seed: i32) -> i32 {
+    Murmur128::hash(value, seed)
+}
+
+pub fn bloom_position(value: &str, cap: i32, seed: i32) -> usize {
+    HashFunction::new(cap, seed).hash(value)
+}
+
+/// Serialized bloom filter over the given full paths.
+pub fn bloom_bytes(paths: &[&str]) -> Result<Vec<u8>, TsFileError> {
+    let paths = paths
+        .iter()
+        .map(|p| Path {
+            device: String::new(),
+            path: p.to_string(),
+        })
+        .collect();
+    let mut bytes = vec![];
+    BloomFilter::build(paths, &TsFileConfig::default()).serialize(&mut bytes)?;
+    Ok(bytes)
+}
+
+/// Serialized bloom filter of a given size over the given full paths.
+pub fn bloom_bytes_sized(
+    paths: &[&str],
+    size: i32,
+    hash_functions: i32,
+) -> Result<Vec<u8>, TsFileError> {
+    let mut filter = BloomFilter::new(size, hash_functions, &TsFileConfig::default());
+    for path in paths {
+        filter.add(path.to_string());
+    }
+    let mut bytes = vec![];
+    filter.serialize(&mut bytes)?;
+    Ok(bytes)
+}
+
+/// The bytes an encoder produces for each of some runs of values (reset in between).
+pub fn encode(
+    data_type: TSDataType,
+    encoding: TSEncoding,
+    runs: &[Vec<IoTDBValue>],
+) -> Result<Vec<Vec<u8>>, TsFileError> {
+    let mut encoder = <dyn Encoder>::new(data_type, encoding)?;
+    let mut result = vec![];
+    for run in runs {
+        for value in run {
+            encoder.write(value)?;
+        }
+        let mut bytes = vec![];
+        encoder.serialize(&mut bytes);
+        encoder.reset();
+        result.push(bytes);
+    }
+    Ok(result)
+}
+
+/// Serialized statistics of some runs of points, merged in order, and their predicted size.
+pub fn statistics_bytes(
+    data_type: TSDataType,
+    runs: &[Vec<(i64, IoTDBValue)>],
+) -> Result<(Vec<u8>, u32), TsFileError> {
+    let mut total = Statistics::new(data_type);
+    for run in runs {
+        let mut statistics = Statistics::new(data_type);
+        for (timestamp, value) in run {
+            statistics.update(*timestamp, value);
+        }
+        total.merge(&statistics);
+    }
+    let mut bytes = vec![];
+    total.serialize(&mut bytes)?;
+    Ok((bytes, total.get_serialized_size()))
+}
-- 
2.43.0


From bae6430a40620047723ca35971cf3925de8ec8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 18/22] fix: do not divide by zero when nothing is buffered at
 a memory check

After several flushes the number of records for the next check shrinks to zero;
writing an empty row right after the next flush then panicked.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 6cda192..cbc8ba1 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -170,6 +170,10 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         if self.record_count >= self.record_count_for_next_mem_check {
             let mem_size = self.calculate_mem_size_for_all_groups();
             log::trace!("Memcount calculated: {}", mem_size);
+            if mem_size == 0 {
+                // Nothing is buffered, e.g. an empty row right after a flush
+                return Ok(false);
+            }
             log::trace!(
                 "{:.2?}% - {} / {} for flushing",
                 mem_size as f64 / CHUNK_GROUP_SIZE_THRESHOLD_BYTE as f64 * 100.0,
-- 
2.43.0


From 1e6187f8ebc8936453fc39e289daa5027553e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:47 +0000
Subject: [PATCH 19/22] verif_hooks: positions that do not start at 0

---
 tsfile-writer/src/writer/verif_hooks.rs | 33 +++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/tsfile-writer/src/writer/verif_hooks.rs b/tsfile-writer/src/writer/verif_hooks.rs
index dedd773..a27ac41 100644
--- a/tsfile-writer/src/writer/verif_hooks.rs
+++ b/tsfile-writer/src/writer/verif_hooks.rs
@@ -23,6 +23,39 @@ pub fn writer_on<'a, W: Write>(
     TsFileWriter::new_from_writer(schema, WriteWrapper::new(sink), config)
 }
 
+/// A sink whose positions start somewhere else than at 0.
+pub struct Shifted<T: PositionedWrite> {
+    inner: T,
+    base: u64,
+}
+
+impl<T: PositionedWrite> Write for Shifted<T> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.inner.write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.inner.flush()
+    }
+}
+
+impl<T: PositionedWrite> PositionedWrite for Shifted<T> {
+    fn get_position(&self) -> u64 {
+        self.base + self.inner.get_position()
+    }
+}
+
+/// A writer on any sink, all positions counted from `base`.
+pub fn writer_from<'a, W: Write>(
+    schema: Schema<'a>,
+    sink: W,
+    config: TsFileConfig,
+    base: u64,
+) -> Result<TsFileWriter<'a, Shifted<WriteWrapper<W>>>, TsFileError> {
+    let inner = WriteWrapper::new(sink);
+    TsFileWriter::new_from_writer(schema, Shifted { inner, base }, config)
+}
+
 /// The default configuration with another maximal number of children per index node.
 pub fn config_with_degree(max_degree_of_index_node: usize) -> TsFileConfig {
     TsFileConfig {
-- 
2.43.0


From 6a0624d8bf9cedfaa000cb5d4625dc510c49b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:24 +0000
Subject: [PATCH 20/22] fix: report a file the receiver denied instead of
 succeeding

The answer to the second digest was only printed, so a transfer whose file
arrived damaged, or whose answer never arrived, was reported as successful.
---
 tsfile-writer/src/sync/sync_sender.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..86f847c 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -36,6 +36,7 @@ pub enum SyncSenderError {
     UnableGenerateUuid,
     ConnectionError,
     HandshakeError,
+    DigestMismatch,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -165,13 +166,10 @@ impl
         self.client.sync_data(bytes.clone()).expect("");
         let digest = Self::calculate_digest(&bytes);
         println!("Digest of Sender: {}", digest);
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-            }
-            _ => {
-                println!("Error on digest!")
-            }
+        let result = self.client.check_data_digest(digest)?;
+        println!("Result: {}, {}", result.code, result.msg);
+        if result.code == -1 {
+            return Err(SyncSenderError::DigestMismatch);
         }
         self.client.end_sync()?;
         Ok(())
-- 
2.43.0


From 70815aff92d0424dc1d2b3904951b9e332f43bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:24 +0000
Subject: [PATCH 21/22] fix: return errors of a transfer instead of panicking

A receiver that goes away, denies the schema, or a file that cannot be read
aborted the caller although sync() returns a Result.
---
 tsfile-writer/src/sync/sync_sender.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 86f847c..d6bfdc6 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -37,6 +37,7 @@ pub enum SyncSenderError {
     ConnectionError,
     HandshakeError,
     DigestMismatch,
+    FileNotReadable,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -131,7 +132,7 @@ impl
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        self.client.start_sync().expect("");
+        self.client.start_sync()?;
         self.client.init(std::string::String::from(storage_group))?;
 
         // First sync a schema
@@ -147,23 +148,17 @@ impl
         let digest = Self::calculate_digest(&mlog_bytes);
         println!("Digest of Sender: {}", digest);
 
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-                if result.code == -1 {
-                    panic!("Digest does not match!")
-                }
-            }
-            _ => {
-                panic!("Error on digest!")
-            }
+        let result = self.client.check_data_digest(digest)?;
+        println!("Result: {}, {}", result.code, result.msg);
+        if result.code == -1 {
+            return Err(SyncSenderError::DigestMismatch);
         }
 
         let filename = format!("0_0_{}", filename); // 1654074550252-1-0-0.tsfile";
 
-        self.client.init_sync_data(filename.to_string()).expect("");
-        let bytes = fs::read(filename).expect("");
-        self.client.sync_data(bytes.clone()).expect("");
+        self.client.init_sync_data(filename.to_string())?;
+        let bytes = fs::read(filename).map_err(|_| SyncSenderError::FileNotReadable)?;
+        self.client.sync_data(bytes.clone())?;
         let digest = Self::calculate_digest(&bytes);
         println!("Digest of Sender: {}", digest);
         let result = self.client.check_data_digest(digest)?;
-- 
2.43.0


From bb7baa38d350261020a92e3a41d7c762bf52fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:24 +0000
Subject: [PATCH 22/22] verif_hooks: run a transfer from the verification
 harness

---
 tsfile-writer/src/sync/sync_sender.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index d6bfdc6..6059e73 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -233,6 +233,24 @@ impl
     }
 }
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    //! Access to internals for the verification harness.
+    use super::{SyncSender, SyncSenderError};
+    use crate::writer::Schema;
+
+    /// Connects to a receiver and sends it one file.
+    pub fn send(
+        remote_addr: &str,
+        filename: &str,
+        storage_group: &str,
+        schema: Schema,
+    ) -> Result<(), SyncSenderError> {
+        SyncSender::new(remote_addr, Some("127.0.0.1"), Some("verif"))?
+            .sync(filename, storage_group, schema)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::sync::sync_sender::SyncSender;
-- 
2.43.0

