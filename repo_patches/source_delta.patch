From 5a264a09d84c1792732df2001c9f717f4f922cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 01/50] fix: pair each source with its own chain, in input
 order

---
 src/driver/driver.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..21143fa 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -62,8 +62,7 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
-            let source = self.sources.pop().unwrap();
+        for (i, source) in self.sources.drain(..).enumerate() {
             row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
         }
         Ok(row_buffers)
-- 
2.43.0


From cae26763731d01efd7bfb51612d60100fffae17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 02/50] fix: do not panic when a source has no rows to
 contribute

---
 src/driver/driver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 21143fa..c46a19d 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -35,6 +35,17 @@ impl Driver {
     fn drive(&mut self) -> CliResult<()> {
         let mut row_buffers = self.get_row_buffers()?;
 
+        // sources that have no rows to contribute only need their chains flushed
+        let mut i = 0;
+        while i < row_buffers.len() {
+            if row_buffers[i].row().is_some() {
+                i += 1;
+            } else {
+                let chain_id = row_buffers.remove(i).chain_id();
+                self.flush(chain_id, 0)?;
+            }
+        }
+
         // sort and output
         // all the sources are processed at the same time, but a row with min timestamp is output first
         let mut buffer_len = row_buffers.len();
-- 
2.43.0


From a0015d87db7f9bde42e612980a97ebfaf899fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 03/50] fix: csv rows shorter or longer than the header, and
 csv inputs without rows

---
 src/source/csv_source.rs | 61 ++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..07fa8d6 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,9 +5,9 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
-use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
+use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt, TimestampUnits};
 use crate::util::csv_util;
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
 use crate::util::tz::ChopperTz;
@@ -59,9 +59,11 @@ impl CSVSource {
             .flexible(true)
             .from_reader(reader);
 
-        // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
-        let field_count = first_row.len();
+        // get first row, if there is one
+        let first_row: Option<csv::StringRecord> = match reader.records().next() {
+            Some(r) => Some(r?),
+            None => None,
+        };
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -72,11 +74,13 @@ impl CSVSource {
             }
         } else {
             // if field name is not given, assign default name - "col_x"
-            for i in 0..field_count {
+            for i in 0..first_row.as_ref().map_or(0, |r| r.len()) {
                 field_names.push(format!("col_{}", i));
             }
         }
 
+        let field_count = field_names.len();
+
         // initialize next_row
         let timestamp: Nanos = 0;
         let field_values: Vec<FieldValue> = vec![FieldValue::None; field_count];
@@ -89,13 +93,20 @@ impl CSVSource {
 
         let timestamp_config = csv_config.timestamp_config();
         let timezone = timestamp_config.timezone();
-        let (timestamp_col, timestamp_fmt) = csv_timestamp::get_timestamp_col_and_fmt(
-            &header,
-            &first_row,
-            timestamp_config.timestamp_col(),
-            timestamp_config.timestamp_fmt(),
-            timezone,
-        )?;
+        let (timestamp_col, timestamp_fmt) = match &first_row {
+            Some(first_row) => csv_timestamp::get_timestamp_col_and_fmt(
+                &header,
+                first_row,
+                timestamp_config.timestamp_col(),
+                timestamp_config.timestamp_fmt(),
+                timezone,
+            )?,
+            // doesn't really matter, since there are no rows, just put something there
+            None => (
+                TimestampCol::Index(0),
+                TimestampFmt::Units(TimestampUnits::Nanos),
+            ),
+        };
 
         let mut csv_reader = CSVSource {
             reader,
@@ -104,19 +115,33 @@ impl CSVSource {
             timestamp_fmt,
             timezone: timezone.clone(),
             next_row,
-            has_next_row: true,
+            has_next_row: first_row.is_some(),
         };
 
         // update next_row with first row
-        csv_reader.update_row(first_row)?;
+        if let Some(first_row) = first_row {
+            csv_reader.update_row(first_row)?;
+        }
 
         Ok(csv_reader)
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
-        for i in 0..next_record.len() {
-            self.next_row.field_values[i] =
-                FieldValue::String(next_record.get(i).unwrap().to_string());
+        let field_values = &mut self.next_row.field_values;
+        if next_record.len() > field_values.len() {
+            return Err(Error::from(format!(
+                "CSVSource -- row has more cells than there are columns; \
+                expected columns: {}; found cells: {}",
+                field_values.len(),
+                next_record.len()
+            )));
+        }
+        for (i, field_value) in field_values.iter_mut().enumerate() {
+            // missing trailing cells are left empty
+            *field_value = match next_record.get(i) {
+                Some(cell) => FieldValue::String(cell.to_string()),
+                None => FieldValue::None,
+            };
         }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
-- 
2.43.0


From 6888d2d54800f61fea3bfae349c0f0bd060194dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 04/50] fix: csv rows without a timestamp cell are an error,
 not a panic

---
 src/source/csv_timestamp.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..0c73105 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -85,7 +85,7 @@ pub fn get_timestamp(
     timestamp_fmt: &TimestampFmt,
     timezone: &ChopperTz,
 ) -> CliResult<Nanos> {
-    let timestamp = get_timestamp_string(record, timestamp_col);
+    let timestamp = get_timestamp_string(record, timestamp_col)?;
 
     let timestamp = match timestamp_fmt {
         TimestampFmt::Units(units) => {
@@ -152,7 +152,7 @@ fn get_timestamp_fmt_from_user_spec(
     format: String,
     timezone: &ChopperTz,
 ) -> CliResult<TimestampFmt> {
-    let timestamp = get_timestamp_string(first_row, timestamp_col);
+    let timestamp = get_timestamp_string(first_row, timestamp_col)?;
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
@@ -172,19 +172,32 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
-fn get_timestamp_string(record: &csv::StringRecord, timestamp_col: &TimestampCol) -> String {
-    match timestamp_col {
-        TimestampCol::Index(i) => record.get(*i).unwrap().to_string(),
+fn get_timestamp_cell(record: &csv::StringRecord, index: usize) -> CliResult<&str> {
+    match record.get(index) {
+        Some(cell) => Ok(cell),
+        None => Err(Error::from(format!(
+            "Row has no value in the timestamp column {}.",
+            index
+        ))),
+    }
+}
+
+fn get_timestamp_string(
+    record: &csv::StringRecord,
+    timestamp_col: &TimestampCol,
+) -> CliResult<String> {
+    Ok(match timestamp_col {
+        TimestampCol::Index(i) => get_timestamp_cell(record, *i)?.to_string(),
         TimestampCol::DateTimeIndex(d, t) => {
-            let date = record.get(*d).unwrap();
-            let time = record.get(*t).unwrap();
+            let date = get_timestamp_cell(record, *d)?;
+            let time = get_timestamp_cell(record, *t)?;
             let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
             timestamp.push_str(date);
             timestamp.push('#');
             timestamp.push_str(time);
             timestamp
         }
-    }
+    })
 }
 
 fn get_timestamp_col(
@@ -332,7 +345,7 @@ fn get_timestamp_fmt_auto_with_index(
         return Ok(TimestampFmt::Units(units));
     }
 
-    let timestamp = first_row.get(time_idx).unwrap();
+    let timestamp = get_timestamp_cell(first_row, time_idx)?;
 
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
@@ -387,8 +400,8 @@ fn get_timestamp_fmt_auto_with_datetimeindex(
     timezone: &ChopperTz,
     first_row: &csv::StringRecord,
 ) -> CliResult<TimestampFmt> {
-    let date = first_row.get(date_idx).unwrap();
-    let time = first_row.get(time_idx).unwrap();
+    let date = get_timestamp_cell(first_row, date_idx)?;
+    let time = get_timestamp_cell(first_row, time_idx)?;
 
     let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
     timestamp.push_str(date);
-- 
2.43.0


From 05a146ed3e20d6c640fabc773938ccba6c22da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 05/50] fix: timestamps that do not fit into nanoseconds since
 1970 are errors

---
 src/source/csv_timestamp.rs | 30 ++++++++++++++++++------------
 src/util/timestamp_util.rs  | 17 ++++++++++++++---
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 0c73105..fffc644 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -5,6 +5,7 @@ use chrono::{DateTime, NaiveDate, NaiveDateTime};
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::{DateColIdx, TimeColIdx, TimestampColConfig, TimestampFmtConfig};
+use crate::util::timestamp_util;
 use crate::util::tz::ChopperTz;
 
 // https://docs.rs/chrono/0.4/chrono/format/strftime/index.html
@@ -93,28 +94,33 @@ pub fn get_timestamp(
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
-            match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
+            let nanos_per_unit: u64 = match units {
+                TimestampUnits::Seconds => 1_000_000_000,
+                TimestampUnits::Millis => 1_000_000,
+                TimestampUnits::Micros => 1_000,
+                TimestampUnits::Nanos => 1,
+            };
+            match timestamp.checked_mul(nanos_per_unit) {
+                Some(nanos) => nanos,
+                None => {
+                    return Err(Error::from(format!(
+                        "Timestamp {} cannot be represented in nanoseconds.",
+                        timestamp
+                    )))
+                }
             }
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            timestamp_util::to_nanos(&DateTime::parse_from_str(&timestamp, format)?)?
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            timestamp_util::to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            timestamp_util::to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
     };
     Ok(timestamp)
diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..9fce1b3 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -1,4 +1,4 @@
-use chrono::{DateTime, NaiveDateTime};
+use chrono::{DateTime, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
@@ -34,6 +34,17 @@ fn create_datetime_range_formats() -> Vec<String> {
     formats
 }
 
+/// fails if given time is before 1970 or too far in the future to be represented
+pub fn to_nanos<T: TimeZone>(datetime: &DateTime<T>) -> CliResult<Nanos> {
+    match datetime.timestamp_nanos_opt() {
+        Some(nanos) if nanos >= 0 => Ok(nanos as Nanos),
+        _ => Err(Error::from(format!(
+            "Timestamp {:?} cannot be represented in nanoseconds.",
+            datetime
+        ))),
+    }
+}
+
 pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> CliResult<Nanos> {
     let is_datetime_all_digits = datetime.chars().all(|c| c.is_ascii_digit());
     if is_datetime_all_digits {
@@ -74,14 +85,14 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return to_nanos(&dt);
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return to_nanos(&timezone.from_local_datetime(&ndt)?);
         }
     }
 
-- 
2.43.0


From 7163735ee54fe15fe4612a841069d2eba4a8e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 06/50] fix: dc read errors and partial rows were taken for end
 of data

---
 src/source/dc_source.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..d1e0543 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,11 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        // only running out of data before the first byte of a row is a proper end of data
+        if self.is_at_eof()? {
+            return Ok(None);
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
@@ -159,6 +160,16 @@ impl<R: io::Read> DCSource<R> {
         Ok(Some(self.current_row.clone()))
     }
 
+    fn is_at_eof(&mut self) -> io::Result<bool> {
+        loop {
+            match self.reader.fill_buf() {
+                Ok(buf) => return Ok(buf.is_empty()),
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            }
+        }
+    }
+
     fn read_string(reader: &mut io::BufReader<R>) -> CliResult<String> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
-- 
2.43.0


From e14b90be76359b4fe297490b98f84ed580ead4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 07/50] fix: dc null bitset size for 0, 1, 9, 17, ... columns

---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From 817b80d9985d59a7173afe24498a7ddd0fb943db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 08/50] fix: malformed dc files are errors, not panics or huge
 allocations

---
 src/source/dc_source.rs | 43 +++++++++++++++++++++++------------------
 src/util/dc_util.rs     | 21 ++++++++++++++------
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index d1e0543..1ac0c3e 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,6 +1,5 @@
 use std::collections::HashMap;
 use std::io::{self, BufRead, Read};
-use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
 
@@ -51,13 +50,11 @@ impl<R: io::Read> DCSource<R> {
 
         let map_field_string = &FIELD_STRING_MAP_NAME;
         let field_count = reader.read_u32::<BigEndian>()? as usize;
-        let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
-        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
-
         // field descriptor (header)
-        let mut field_names: Vec<String> = Vec::with_capacity(field_count);
-        let mut field_types: Vec<FieldType> = Vec::with_capacity(field_count);
-        let mut field_values: Vec<FieldValue> = Vec::with_capacity(field_count);
+        // note that field count cannot be trusted enough to preallocate anything
+        let mut field_names: Vec<String> = Vec::new();
+        let mut field_types: Vec<FieldType> = Vec::new();
+        let mut field_values: Vec<FieldValue> = Vec::new();
         for i in 0..field_count {
             let field_descriptor = dc_util::FieldDescriptor::new(&mut reader)?;
             let mut name = field_descriptor.get_name().to_string();
@@ -66,15 +63,21 @@ impl<R: io::Read> DCSource<R> {
                 name = format!("col_{}", i);
             }
             field_names.push(name);
-            field_types.push(
-                map_field_string
-                    .get(field_descriptor.get_type_string())
-                    .unwrap()
-                    .clone(),
-            );
+            match map_field_string.get(field_descriptor.get_type_string()) {
+                Some(field_type) => field_types.push(field_type.clone()),
+                None => {
+                    return Err(Error::from(format!(
+                        "DCReader -- unknown field type - {}",
+                        field_descriptor.get_type_string()
+                    )))
+                }
+            }
             field_values.push(FieldValue::None);
         }
 
+        let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
+        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
+
         // Header
         let header: Header = Header::new(field_names, field_types);
 
@@ -174,13 +177,15 @@ impl<R: io::Read> DCSource<R> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
             -1 => reader.read_u32::<BigEndian>()?,
-            _ => data_size_short as u32,
+            size if size < 0 => {
+                return Err(Error::from(format!(
+                    "DCReader -- wrong string size - {}",
+                    size
+                )))
+            }
+            size => size as u32,
         };
-        let mut string: Vec<u8> = vec![0; data_size as usize];
-        let string = string.as_mut_slice();
-        reader.read_exact(string)?;
-
-        Ok(str::from_utf8_mut(string).unwrap().to_string())
+        dc_util::read_utf8_string(reader, data_size)
     }
 }
 
diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index ccd0a5c..d72f68f 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, BufWriter, Write};
+use std::io::{self, BufWriter, Read, Write};
 use std::string::String;
 
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -105,11 +105,20 @@ impl FieldDescriptor {
 
     fn get_sized_string<R: io::BufRead>(mut rdr: R) -> CliResult<String> {
         let size = rdr.read_u32::<BigEndian>()?;
-        let mut string_bytes: Vec<u8> = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            string_bytes.push(rdr.read_u8()?);
-        }
-        Ok(String::from_utf8(string_bytes).unwrap().to_string())
+        read_utf8_string(&mut rdr, size)
+    }
+}
+
+/// size comes from the input, so it cannot be trusted enough to preallocate anything
+pub fn read_utf8_string<R: io::Read>(reader: &mut R, size: u32) -> CliResult<String> {
+    let mut bytes: Vec<u8> = Vec::new();
+    reader.take(size as u64).read_to_end(&mut bytes)?;
+    if bytes.len() < size as usize {
+        return Err(Error::from(io::Error::from(io::ErrorKind::UnexpectedEof)));
+    }
+    match String::from_utf8(bytes) {
+        Ok(string) => Ok(string),
+        Err(e) => Err(Error::from(format!("malformed string: {}", e))),
     }
 }
 
-- 
2.43.0


From 0845a8d230450874778f08765aff11e086eda93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 09/50] fix: drop extra trailing columns of next file in a
 multi-file input

---
 src/source/multi_file_source.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..5f1bc16 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -13,7 +13,7 @@ pub struct SerialMultiFileSource {
     path_provider: Box<dyn SerialMultiFilePathProvider>,
     input_format: InputFormat,
     common_header: Header,
-    swap_map: Vec<usize>, // empty map means pass-through
+    swap_map: Vec<usize>, // empty map means no need to swap
     current_source: Option<Box<dyn Source>>,
 }
 
@@ -182,8 +182,11 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            // drop the extra columns, if there are any
+                            next_row
+                                .field_values
+                                .truncate(self.common_header.field_names().len());
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From eb3f7952b5c2bb4252728a98d82afaeca9ec897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 10/50] fix: use the configured delimiter in csv output header

---
 src/write/csv_sink.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..08265de 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -36,17 +36,19 @@ impl CSVSink {
     fn write_csv_header(&mut self, header: &mut Header) -> CliResult<()> {
         let writer = &mut self.writer;
         let field_name = header.field_names().clone();
+        let delimiter = self.csv_output_config.delimiter();
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            first = false;
         }
         for name in field_name {
             if first {
                 write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}{}", delimiter, name)?;
             }
         }
         write!(writer, "\n")?;
-- 
2.43.0


From 38f242073498e7a1db0b25367f14b9e66141c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 11/50] fix: do not count parts of non-ascii characters as
 delimiters

---
 src/util/csv_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 581611f..c2bd6a0 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -35,8 +35,8 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
         counts.insert(*d, 0);
     }
 
-    for c in row.chars() {
-        counts.entry(c as u8).and_modify(|count| *count += 1);
+    for c in row.bytes() {
+        counts.entry(c).and_modify(|count| *count += 1);
     }
 
     let mut sorted = possible_delimiters.to_vec();
-- 
2.43.0


From b6adac3323407b9f96d6c92b79e382962eeae0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 12/50] fix: binary dc contents could be autodetected as csv

---
 src/input/input_factory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..8a6b945 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -152,11 +152,11 @@ impl InputFactory {
 pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
-    let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    // csv goes last because it accepts pretty much any text
+    let mut source_factories: Vec<Box<dyn SourceFactory>> = vec![Box::new(DCFactory)];
     if let Some(csv_input_config) = csv_input_config {
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From f8d4315ea8b5c29ff1dbed8c3bb570cbc16da938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 13/50] fix: use only the first transport that can open a path

---
 src/transport/seekable/seekable_factory.rs   | 5 ++++-
 src/transport/streaming/previewer_factory.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/seekable/seekable_factory.rs b/src/transport/seekable/seekable_factory.rs
index c2d4999..5fc46e5 100644
--- a/src/transport/seekable/seekable_factory.rs
+++ b/src/transport/seekable/seekable_factory.rs
@@ -23,7 +23,10 @@ impl SeekableTransportFactory {
         for factory in &mut self.transports.iter() {
             match factory.can_open(path) {
                 false => continue,
-                true => reader = Some(factory.open(path)?),
+                true => {
+                    reader = Some(factory.open(path)?);
+                    break;
+                }
             }
         }
         Ok(match reader {
diff --git a/src/transport/streaming/previewer_factory.rs b/src/transport/streaming/previewer_factory.rs
index fc6452c..0c71295 100644
--- a/src/transport/streaming/previewer_factory.rs
+++ b/src/transport/streaming/previewer_factory.rs
@@ -23,7 +23,10 @@ impl PreviewerTransportFactory {
         for factory in &mut self.transports.iter() {
             match factory.can_open(path) {
                 false => continue,
-                true => reader = Some(factory.open(path)?),
+                true => {
+                    reader = Some(factory.open(path)?);
+                    break;
+                }
             }
         }
         Ok(match reader {
-- 
2.43.0


From 24d89b8a832a22044633305626bba3a633300434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 14/50] fix: comparing a null with a value ended the process

---
 src/chopper/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chopper/types.rs b/src/chopper/types.rs
index 2674a13..9825c05 100644
--- a/src/chopper/types.rs
+++ b/src/chopper/types.rs
@@ -123,6 +123,8 @@ impl PartialOrd for FieldValue {
             (FieldValue::Short(x), FieldValue::Short(y)) => Some(x.cmp(y)),
             (FieldValue::String(x), FieldValue::String(y)) => Some(x.cmp(y)),
             (FieldValue::None, FieldValue::None) => Some(Ordering::Equal),
+            // nulls are not ordered relative to actual values
+            (FieldValue::None, _) | (_, FieldValue::None) => None,
             _ => Error::from(format!(
                 "FieldValue -- cannot compare different field types - {} {}",
                 self, other
-- 
2.43.0


From 50e40e7a67aee7ac9c516e2b6784285897c0e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 15/50] fix: --print-time values are case-insensitive, but
 panicked if not lower case

---
 src/chopper_cli.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..fcaab21 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,7 +214,12 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
+    let csv_out_print_time_col = match matches
+        .value_of("csv_out_print_time_col")
+        .unwrap()
+        .to_lowercase()
+        .as_str()
+    {
         "yes" => true,
         "no" => false,
         _ => unreachable!(),
-- 
2.43.0


From 8503a89dac6c4a35378ae2d41586a8c86bf077b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 16/50] fix: unknown timezone is an error, not a panic

---
 src/chopper_cli.rs |  2 +-
 src/util/tz.rs     | 28 +++++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index fcaab21..64bbb90 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -42,7 +42,7 @@ pub fn parse_cli_args(
         error::turn_on_backtrace()
     }
 
-    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map);
+    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map)?;
 
     let timestamp_range = TimestampRange::new(
         matches.value_of("begin"),
diff --git a/src/util/tz.rs b/src/util/tz.rs
index 129c0f9..8127045 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -16,9 +16,9 @@ impl ChopperTz {
     pub fn new_from_cli_arg(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> ChopperTz {
-        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map);
-        ChopperTz { timezone }
+    ) -> CliResult<ChopperTz> {
+        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map)?;
+        Ok(ChopperTz { timezone })
     }
 
     pub fn new_always_fails() -> ChopperTz {
@@ -28,23 +28,29 @@ impl ChopperTz {
     fn resolve_timezone(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> Option<Tz> {
+    ) -> CliResult<Option<Tz>> {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
-                Ok(s) => Some(s),
-                Err(_) => None,
+                Ok(s) => s,
+                Err(_) => return Ok(None),
             },
-            Some(s) => Some(s.to_owned()),
-        }?;
+            Some(s) => s.to_owned(),
+        };
 
         let timezone: Tz = match timezone_map {
-            None => timezone_arg.parse().unwrap(),
+            None => Self::parse_timezone(&timezone_arg)?,
             Some(map) => match map.get(timezone_arg.as_str()) {
-                None => timezone_arg.parse().unwrap(),
+                None => Self::parse_timezone(&timezone_arg)?,
                 Some(s) => *s,
             },
         };
-        Some(timezone)
+        Ok(Some(timezone))
+    }
+
+    fn parse_timezone(timezone_arg: &str) -> CliResult<Tz> {
+        timezone_arg
+            .parse()
+            .map_err(|e| Custom(format!("Unknown timezone '{}': {}", timezone_arg, e)))
     }
 
     pub fn from_local_datetime(&self, local: &NaiveDateTime) -> CliResult<DateTime<Tz>> {
-- 
2.43.0


From bb94a7331e8cdee145cf913d8e47948302bf5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 17/50] fix: --epoch and --human were meant to conflict

---
 src/cli_app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 7db1f81..4c72024 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -91,7 +91,7 @@ impl CliApp {
                     .long("epoch")
                     .help("csv output only: time column has epoch timestamps")
                     .takes_value(false)
-                    .conflicts_with("human")
+                    .conflicts_with("csv_out_time_fmt_human")
             )
             .arg(
                 Arg::with_name("csv_out_time_fmt_human")
@@ -99,7 +99,7 @@ impl CliApp {
                     .long("human")
                     .help("csv output only: time column is human-readable; default")
                     .takes_value(false)
-                    .conflicts_with("epoch")
+                    .conflicts_with("csv_out_time_fmt_epoch")
             )
             .arg(
                 Arg::with_name("csv_out_time_col_units")
-- 
2.43.0


From a06bbfe051acc426e9eba59075ae777fa256bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 18/50] fix: retry interrupted reads when filling the preview
 buffer

---
 src/util/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/reader.rs b/src/util/reader.rs
index 18da41c..8b363fe 100644
--- a/src/util/reader.rs
+++ b/src/util/reader.rs
@@ -207,7 +207,10 @@ impl<R: Read> ChopperBufReader<R> {
         debug_assert!(self.cap == 0);
 
         loop {
-            let bytes_read = self.fill_buffer_one_shot()?;
+            let bytes_read = match self.fill_buffer_one_shot() {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                result => result?,
+            };
             if bytes_read == 0 || self.cap == self.buf.len() {
                 break;
             }
-- 
2.43.0


From 7dfa23cbdc1c5d8f644691cbf906edc6357f7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 19/50] fix: take units from names like timeMillis of
 configured columns too

---
 src/source/csv_timestamp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index fffc644..46636da 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -293,6 +293,7 @@ fn get_timestamp_col(
         }
         TimestampColConfig::Index(i) => {
             let units = if let Some(name) = header.field_names().get(*i) {
+                let name = name.to_lowercase();
                 let mut units = None;
                 for (candidate_units_enum, candidate_units_str) in &TIMESTAMP_UNITS {
                     if name.ends_with(candidate_units_str) {
@@ -309,8 +310,9 @@ fn get_timestamp_col(
         TimestampColConfig::DateTimeIndex(d, t) => (TimestampCol::DateTimeIndex(*d, *t), None),
         TimestampColConfig::Name(name) => {
             let mut units = None;
+            let lowercase_name = name.to_lowercase();
             for (candidate_units_enum, candidate_units_str) in &TIMESTAMP_UNITS {
-                if name.ends_with(candidate_units_str) {
+                if lowercase_name.ends_with(candidate_units_str) {
                     units = Some(*candidate_units_enum);
                     break;
                 }
-- 
2.43.0


From ba0a26ca383ea7ef626431ef966dc5134cf757ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 20/50] fix: read all members of a gzip file

---
 src/decompress/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..7bd75c0 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
@@ -116,7 +116,7 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From d1465c3ec88938d3883a2ccc94e40aea58197647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 21/50] fix: read all frames of a zstd file

---
 src/decompress/zst.rs | 51 ++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..7ac083b 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,12 +1,12 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, Read};
+use std::io::{self, BufRead, ErrorKind, Read};
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
 }
 
-impl<R: Read> ZstReader<R> {
+impl<R: BufRead> ZstReader<R> {
     pub fn new(reader: R) -> io::Result<ZstReader<R>> {
         let mut zst_reader = ZstReader {
             inner: reader,
@@ -22,28 +22,49 @@ impl<R: Read> ZstReader<R> {
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
+
+    fn is_at_eof(&mut self) -> io::Result<bool> {
+        loop {
+            match self.inner.fill_buf() {
+                Ok(buf) => return Ok(buf.is_empty()),
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            }
+        }
+    }
 }
 
-impl<R: Read> Read for ZstReader<R> {
+impl<R: BufRead> Read for ZstReader<R> {
     /// this impl works best with buffered reader on top of it, since it
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        while !self.decoder.is_finished() {
-            let bytes_available = self.decoder.can_collect();
-            if bytes_available >= buf.len() {
-                break;
+        loop {
+            while !self.decoder.is_finished() {
+                let bytes_available = self.decoder.can_collect();
+                if bytes_available >= buf.len() {
+                    break;
+                }
+
+                let additional_bytes_needed = buf.len() - bytes_available;
+                if let Err(e) = self.decoder.decode_blocks(
+                    &mut self.inner,
+                    BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
+                ) {
+                    return Err(io::Error::new(io::ErrorKind::Other, e));
+                }
             }
 
-            let additional_bytes_needed = buf.len() - bytes_available;
-            if let Err(e) = self.decoder.decode_blocks(
-                &mut self.inner,
-                BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
-            ) {
-                return Err(io::Error::new(io::ErrorKind::Other, e));
+            let bytes_read = self.decoder.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
             }
-        }
 
-        self.decoder.read(buf)
+            // got to the end of the current frame, there might be another one after it
+            if self.is_at_eof()? {
+                return Ok(0);
+            }
+            self.init()?;
+        }
     }
 }
-- 
2.43.0


From cad0611ba668a1d2e8598d84e08d92c6ef3bcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 22/50] fix: verify zstd content checksum

---
 src/decompress/zst.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 7ac083b..fa3b2ef 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -60,6 +60,15 @@ impl<R: BufRead> Read for ZstReader<R> {
                 return Ok(bytes_read);
             }
 
+            if let Some(checksum) = self.decoder.get_checksum_from_data() {
+                if self.decoder.get_calculated_checksum() != Some(checksum) {
+                    return Err(io::Error::new(
+                        ErrorKind::InvalidData,
+                        "zst checksum check failed",
+                    ));
+                }
+            }
+
             // got to the end of the current frame, there might be another one after it
             if self.is_at_eof()? {
                 return Ok(0);
-- 
2.43.0


From 2f41b6276926e3d6a143a7a28d4fd24f2a2204ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 23/50] fix: walk zip extra fields correctly

---
 src/decompress/zip.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..587a652 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -17,6 +17,7 @@ const LOCAL_HEADER_FIXED_FIELDS_SIZE: i64 = 22; // excludes signature and variab
 const END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE: i64 = 18; // excludes signature and variable fields
 const ZIP64_END_OF_CENTRAL_DIRECTORY_LOCATOR_FIXED_FIELDS_SIZE: i64 = 16; // excludes signature and variable fields
 const SIGNATURE_SIZE: i64 = 4; // all of the record signatures are 4 bytes
+const EXTRA_FIELD_HEADER_SIZE: u64 = 4; // id and data size
 
 // based on https://www.pkware.com/documents/casestudies/APPNOTE.TXT
 //
@@ -349,7 +350,7 @@ impl CentralDirHeader {
     ) -> io::Result<(u64, u64, u64)> {
         let mut total_bytes_read = 0;
 
-        while total_bytes_read < extra_field_length {
+        while total_bytes_read + EXTRA_FIELD_HEADER_SIZE <= extra_field_length {
             let header_id = reader.read_u16::<LittleEndian>()?;
             let data_size = reader.read_u16::<LittleEndian>()? as i64;
 
@@ -377,9 +378,14 @@ impl CentralDirHeader {
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
 
-            total_bytes_read += data_size as u64;
+            total_bytes_read += EXTRA_FIELD_HEADER_SIZE + data_size as u64;
         }
 
+        // make sure to end up right after the extra field even if it ends with some padding
+        reader.seek(SeekFrom::Current(
+            extra_field_length as i64 - total_bytes_read as i64,
+        ))?;
+
         Ok((uncompressed_size, compressed_size, local_header_offset))
     }
 }
-- 
2.43.0


From c21d2162db14689001be852f639133100088e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 24/50] fix: zip end record signature inside of archive comment

---
 src/decompress/zip.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 587a652..59cca27 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -17,6 +17,7 @@ const LOCAL_HEADER_FIXED_FIELDS_SIZE: i64 = 22; // excludes signature and variab
 const END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE: i64 = 18; // excludes signature and variable fields
 const ZIP64_END_OF_CENTRAL_DIRECTORY_LOCATOR_FIXED_FIELDS_SIZE: i64 = 16; // excludes signature and variable fields
 const SIGNATURE_SIZE: i64 = 4; // all of the record signatures are 4 bytes
+const COMMENT_LENGTH_FIELD_SIZE: i64 = 2;
 const EXTRA_FIELD_HEADER_SIZE: u64 = 4; // id and data size
 
 // based on https://www.pkware.com/documents/casestudies/APPNOTE.TXT
@@ -120,19 +121,42 @@ fn find_eocdr_and_prepare_to_read<T: Read + io::Seek>(reader: &mut T) -> io::Res
     let file_size = reader.seek(io::SeekFrom::End(0))?;
     let max_back = std::cmp::min(file_size, MAX_EOCDR_SEARCH_BACK_OFFSET as u64) as i64;
 
-    let mut pos = 4; // '4' to make sure we can read the signature
+    // the comment can contain anything, including something that looks like the signature, so
+    // prefer the record that has its comment going precisely up to the end of the file
+    let record_size = SIGNATURE_SIZE + END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE;
+    let max_back_with_comment = record_size + std::u16::MAX as i64;
+    let mut fallback_pos = None;
+
+    let mut pos = record_size;
     while pos < max_back {
+        if pos > max_back_with_comment && fallback_pos.is_some() {
+            break;
+        }
         reader.seek(io::SeekFrom::End(-pos))?;
         if reader.read_u32::<LittleEndian>()? == END_OF_CENTRAL_DIR_RECORD_SIGNATURE {
-            return Ok(());
+            reader.seek(SeekFrom::Current(
+                END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE - COMMENT_LENGTH_FIELD_SIZE,
+            ))?;
+            let comment_length = reader.read_u16::<LittleEndian>()? as i64;
+            if record_size + comment_length == pos {
+                reader.seek(io::SeekFrom::End(SIGNATURE_SIZE - pos))?;
+                return Ok(());
+            }
+            fallback_pos = fallback_pos.or(Some(pos));
         }
         pos += 1;
     }
 
-    Err(Error::new(
-        ErrorKind::InvalidData,
-        "end of central directory signature missing",
-    ))
+    match fallback_pos {
+        Some(pos) => {
+            reader.seek(io::SeekFrom::End(SIGNATURE_SIZE - pos))?;
+            Ok(())
+        }
+        None => Err(Error::new(
+            ErrorKind::InvalidData,
+            "end of central directory signature missing",
+        )),
+    }
 }
 
 fn get_start_of_central_dir_offset<R: Read + Seek>(
-- 
2.43.0


From 5c1b1e433eb6b2a15d26b0fbfc13aef9fc1e4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 25/50] fix: zip64 archives with counts only in the zip64 end
 record

---
 src/decompress/zip.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 59cca27..2324cef 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -179,6 +179,12 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     }
 
     if reader.read_u32::<LittleEndian>()? != ZIP64_END_OF_CENTRAL_DIR_LOCATOR_SIGNATURE {
+        if eocdr.is_zip64_required {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "zip64 end of central directory locator missing",
+            ));
+        }
         return Ok(eocdr.start_of_central_directory_offset as u64);
     }
 
@@ -240,6 +246,7 @@ fn read_zip64_eocdr_and_get_central_dir_offset<T: Read + io::Seek>(
 }
 
 struct EndOfCentralDirRecord {
+    pub is_zip64_required: bool,
     pub central_directory_size: u32,
     pub start_of_central_directory_offset: u32,
     pub zip_file_comment_length: i64,
@@ -256,8 +263,11 @@ impl EndOfCentralDirRecord {
         let zip_file_comment_length = reader.read_u16::<LittleEndian>()? as i64;
         reader.seek(SeekFrom::Current(zip_file_comment_length))?;
 
-        if total_number_of_central_directory_entries != 1
-            || number_of_central_directory_entries_on_this_disk != 1
+        // fields that have all bits set are to be looked up in zip64 record instead
+        let is_number_ok = |n: u16, expected: u16| n == expected || n == 0xffff;
+
+        if !is_number_ok(total_number_of_central_directory_entries, 1)
+            || !is_number_ok(number_of_central_directory_entries_on_this_disk, 1)
         {
             return Err(Error::new(
                 ErrorKind::InvalidData,
@@ -265,14 +275,22 @@ impl EndOfCentralDirRecord {
             ));
         }
 
-        if disk_number != 0 || disk_number_with_start_of_central_directory != 0 {
+        if !is_number_ok(disk_number, 0)
+            || !is_number_ok(disk_number_with_start_of_central_directory, 0)
+        {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "multi-disk zip archives not supported",
             ));
         }
 
+        let is_zip64_required = total_number_of_central_directory_entries == 0xffff
+            || number_of_central_directory_entries_on_this_disk == 0xffff
+            || disk_number == 0xffff
+            || disk_number_with_start_of_central_directory == 0xffff;
+
         Ok(EndOfCentralDirRecord {
+            is_zip64_required,
             central_directory_size,
             start_of_central_directory_offset,
             zip_file_comment_length,
-- 
2.43.0


From cf390b5615ff3cfa73faf499c7dbb83814f99757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 26/50] fix: write NaN and infinite numbers to csv as such,
 dtoa only supports finite ones

---
 src/write/csv_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 08265de..f7be697 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -116,9 +116,12 @@ impl DataSink for CSVSink {
                     ))
                 }
                 FieldValue::Char(x) => write!(self.writer, "{}", x)?,
+                // dtoa only supports finite numbers
+                FieldValue::Double(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Double(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
+                FieldValue::Float(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Float(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
-- 
2.43.0


From 3efd34e6a3e073a49cd2884e057d973df77f34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 27/50] fix: retry interrupted reads after the preview as well,
 csv parsing takes them for errors

---
 src/util/reader.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/util/reader.rs b/src/util/reader.rs
index 8b363fe..1c76285 100644
--- a/src/util/reader.rs
+++ b/src/util/reader.rs
@@ -201,16 +201,23 @@ impl<R> ChopperBufReader<R> {
     }
 }
 
+/// not all the consumers of the readers here retry interrupted reads
+fn read_uninterrupted<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
+    loop {
+        match reader.read(buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            result => return result,
+        }
+    }
+}
+
 impl<R: Read> ChopperBufReader<R> {
     fn fill_buffer(&mut self) -> io::Result<()> {
         debug_assert!(self.pos == 0);
         debug_assert!(self.cap == 0);
 
         loop {
-            let bytes_read = match self.fill_buffer_one_shot() {
-                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
-                result => result?,
-            };
+            let bytes_read = self.fill_buffer_one_shot()?;
             if bytes_read == 0 || self.cap == self.buf.len() {
                 break;
             }
@@ -227,7 +234,7 @@ impl<R: Read> ChopperBufReader<R> {
             ));
         }
 
-        let bytes_read = self.inner.read(&mut self.buf[self.cap..])?;
+        let bytes_read = read_uninterrupted(&mut self.inner, &mut self.buf[self.cap..])?;
         self.cap += bytes_read;
         debug_assert!(self.cap <= self.buf.len());
         Ok(bytes_read)
@@ -241,7 +248,7 @@ impl<R: Read> Read for ChopperBufReader<R> {
         // entirely.
         if self.pos == self.cap && buf.len() >= self.buf.len() {
             self.discard_buffer();
-            return self.inner.read(buf);
+            return read_uninterrupted(&mut self.inner, buf);
         }
         let bytes_read = {
             let mut rem = self.fill_buf()?;
@@ -258,7 +265,7 @@ impl<R: Read> BufRead for ChopperBufReader<R> {
         // to tell the compiler that the pos..cap slice is always valid.
         if self.pos >= self.cap {
             debug_assert!(self.pos == self.cap);
-            self.cap = self.inner.read(&mut self.buf)?;
+            self.cap = read_uninterrupted(&mut self.inner, &mut self.buf)?;
             self.pos = 0;
         }
         Ok(&self.buf[self.pos..self.cap])
-- 
2.43.0


From 4477096b75b31bc2023f2e7d548bdbb8f19c74f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 28/50] fix: input errors at the start of an lzf or lz4 block
 were taken for end of data

---
 src/decompress/decompress.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 7bd75c0..0890c47 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -140,12 +140,12 @@ fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4JBlockReader::new(reader, true, true);
+    let decoder = Lz4JBlockReader::new(NoUnexpectedEofReader { inner: reader }, true, true);
     Ok(Box::new(decoder))
 }
 
 fn decompress_lzf(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = LzfReader::new(reader);
+    let decoder = LzfReader::new(NoUnexpectedEofReader { inner: reader });
     Ok(Box::new(decoder))
 }
 
@@ -153,3 +153,18 @@ fn decompress_zst(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn
     let decoder = ZstReader::new(reader)?;
     Ok(Box::new(decoder))
 }
+
+// lzf and lz4 block decoders take unexpected end of file where a block starts for the end of data, which is right
+// only if it's theirs, as opposed to being an error of the underlying reader
+struct NoUnexpectedEofReader<R> {
+    inner: R,
+}
+
+impl<R: Read> Read for NoUnexpectedEofReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.inner.read(buf).map_err(|e| match e.kind() {
+            io::ErrorKind::UnexpectedEof => io::Error::new(io::ErrorKind::Other, e),
+            _ => e,
+        })
+    }
+}
-- 
2.43.0


From 17461754f567c241c155188f59226b7e48a6fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 29/50] fix: end of a zip comment or extra field could be taken
 for a zip64 locator

---
 src/decompress/zip.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2324cef..6169d6b 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -163,6 +163,11 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     reader: &mut R,
     eocdr: &EndOfCentralDirRecord,
 ) -> io::Result<u64> {
+    // what looks like a locator can also be the end of some comment or extra field
+    if !eocdr.is_zip64_required {
+        return Ok(eocdr.start_of_central_directory_offset as u64);
+    }
+
     if reader
         .seek(SeekFrom::End(
             -(SIGNATURE_SIZE
@@ -179,13 +184,10 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     }
 
     if reader.read_u32::<LittleEndian>()? != ZIP64_END_OF_CENTRAL_DIR_LOCATOR_SIGNATURE {
-        if eocdr.is_zip64_required {
-            return Err(Error::new(
-                ErrorKind::InvalidData,
-                "zip64 end of central directory locator missing",
-            ));
-        }
-        return Ok(eocdr.start_of_central_directory_offset as u64);
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "zip64 end of central directory locator missing",
+        ));
     }
 
     let zip64_eocdr_offset = read_zip64_eocdl_and_get_eocdr_offset(reader)?;
@@ -287,7 +289,9 @@ impl EndOfCentralDirRecord {
         let is_zip64_required = total_number_of_central_directory_entries == 0xffff
             || number_of_central_directory_entries_on_this_disk == 0xffff
             || disk_number == 0xffff
-            || disk_number_with_start_of_central_directory == 0xffff;
+            || disk_number_with_start_of_central_directory == 0xffff
+            || central_directory_size == 0xffff_ffff
+            || start_of_central_directory_offset == 0xffff_ffff;
 
         Ok(EndOfCentralDirRecord {
             is_zip64_required,
-- 
2.43.0


From 00442927d1878356e8918e8b8d54c7a13d0d86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 30/50] fix: http bodies shorter than announced were taken for
 complete if the connection was to be closed

---
 src/transport/streaming/http.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/transport/streaming/http.rs b/src/transport/streaming/http.rs
index 25de02c..afb8416 100644
--- a/src/transport/streaming/http.rs
+++ b/src/transport/streaming/http.rs
@@ -6,6 +6,27 @@ use crate::transport::streaming::streaming_transport::StreamingTransport;
 #[derive(Clone)]
 pub struct HttpTransport;
 
+/// makes sure that body has its announced length, since ureq doesn't do that
+/// for connections that will be closed by the server
+struct FullBodyReader<R> {
+    reader: R,
+    missing: u64,
+}
+
+impl<R: io::Read> io::Read for FullBodyReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let count = self.reader.read(buf)?;
+        if count == 0 && !buf.is_empty() && self.missing > 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                format!("http response body is missing {} bytes", self.missing),
+            ));
+        }
+        self.missing = self.missing.saturating_sub(count as u64);
+        Ok(count)
+    }
+}
+
 impl StreamingTransport for HttpTransport {
     fn can_open(&self, path: &Path) -> bool {
         path.starts_with("http://") || path.starts_with("https://")
@@ -15,7 +36,16 @@ impl StreamingTransport for HttpTransport {
         let response = ureq::get(path.to_str().unwrap()).call();
 
         if response.ok() {
-            Ok(Box::new(response.into_reader()))
+            // length is meaningless if body is chunked
+            let length = match response.header("transfer-encoding") {
+                None => response.header("content-length"),
+                Some(_) => None,
+            };
+            let missing = length.and_then(|l| l.parse().ok()).unwrap_or(0);
+            Ok(Box::new(FullBodyReader {
+                reader: response.into_reader(),
+                missing,
+            }))
         } else {
             Err(io::Error::new(
                 io::ErrorKind::Other,
-- 
2.43.0


From 5c39d2a5febffbec46ddde9c99ecf24eaf23e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 31/50] fix: lz4 frames with linked blocks were decoded wrongly
 after an uncompressed block

---
 src/decompress/decompress.rs |  11 +---
 src/decompress/lz4.rs        | 110 +++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |   1 +
 3 files changed, 114 insertions(+), 8 deletions(-)
 create mode 100644 src/decompress/lz4.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 0890c47..3a16899 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -3,11 +3,11 @@ use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
-use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4::Lz4FrameReader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -130,13 +130,8 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
-        Ok(frame_reader) => frame_reader,
-        Err(e) => {
-            return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
-        }
-    };
-    Ok(Box::new(frame_reader.into_read()))
+    let decoder = Lz4FrameReader::new(reader)?;
+    Ok(Box::new(decoder))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
new file mode 100644
index 0000000..6183ebe
--- /dev/null
+++ b/src/decompress/lz4.rs
@@ -0,0 +1,110 @@
+use std::io::{self, Chain, Cursor, Read};
+
+use lz_fear::LZ4FrameReader;
+
+const MAGIC: [u8; 4] = [0x04, 0x22, 0x4D, 0x18];
+const FLAG_INDEPENDENT_BLOCKS: u8 = 0x20;
+const FLAG_CONTENT_SIZE: u8 = 0x08;
+const FLAG_DICTIONARY_ID: u8 = 0x01;
+const WINDOW_SIZE: usize = 64 * 1024;
+
+/// Reads an lz4 frame.
+///
+/// Blocks of a frame may refer to the data of preceding ones (linked blocks). LZ4FrameReader doesn't take
+/// uncompressed blocks into account there, so a frame like that is presented to it as a frame of independent
+/// blocks, and the data preceding each block as the dictionary of that block.
+pub struct Lz4FrameReader<R: Read> {
+    frame_reader: LZ4FrameReader<Chain<Cursor<Vec<u8>>, R>>,
+    linked_blocks: bool,
+    window: Vec<u8>,
+    block: Vec<u8>,
+    block_pos: usize,
+}
+
+impl<R: Read> Lz4FrameReader<R> {
+    pub fn new(mut reader: R) -> io::Result<Self> {
+        // magic number, flags and block descriptor
+        let mut header = vec![0; 6];
+        reader.read_exact(&mut header)?;
+
+        let linked_blocks = header.starts_with(&MAGIC) && header[4] & FLAG_INDEPENDENT_BLOCKS == 0;
+        if linked_blocks {
+            let flags = header[4];
+            let mut rest_len = 1;
+            if flags & FLAG_CONTENT_SIZE != 0 {
+                rest_len += 8;
+            }
+            if flags & FLAG_DICTIONARY_ID != 0 {
+                rest_len += 4;
+            }
+            header.resize(6 + rest_len, 0);
+            reader.read_exact(&mut header[6..])?;
+
+            let checksum_pos = header.len() - 1;
+            // a wrong checksum is left for LZ4FrameReader to find
+            if header[checksum_pos] == header_checksum(&header[4..checksum_pos]) {
+                header[4] |= FLAG_INDEPENDENT_BLOCKS;
+                header[checksum_pos] = header_checksum(&header[4..checksum_pos]);
+            }
+        }
+
+        let frame_reader = LZ4FrameReader::new(Cursor::new(header).chain(reader))?;
+        Ok(Lz4FrameReader {
+            frame_reader,
+            linked_blocks,
+            window: Vec::new(),
+            block: Vec::new(),
+            block_pos: 0,
+        })
+    }
+
+    fn next_block(&mut self) -> io::Result<()> {
+        if self.linked_blocks {
+            self.window.extend_from_slice(&self.block);
+            let surplus = self.window.len().saturating_sub(WINDOW_SIZE);
+            self.window.drain(..surplus);
+        }
+        self.block.clear();
+        self.block_pos = 0;
+        let result = self.frame_reader.decode_block(&mut self.block, &self.window);
+        if result.is_err() {
+            self.block.clear();
+        }
+        Ok(result?)
+    }
+}
+
+impl<R: Read> Read for Lz4FrameReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if self.block_pos == self.block.len() {
+            self.next_block()?;
+        }
+        let len = (&self.block[self.block_pos..]).read(buf)?;
+        self.block_pos += len;
+        Ok(len)
+    }
+}
+
+/// Second byte of the xxh32 checksum of a frame descriptor, which is shorter than 16 bytes.
+fn header_checksum(descriptor: &[u8]) -> u8 {
+    const PRIME_1: u32 = 2654435761;
+    const PRIME_2: u32 = 2246822519;
+    const PRIME_3: u32 = 3266489917;
+    const PRIME_4: u32 = 668265263;
+    const PRIME_5: u32 = 374761393;
+
+    let mut hash = PRIME_5.wrapping_add(descriptor.len() as u32);
+    let mut words = descriptor.chunks_exact(4);
+    for w in &mut words {
+        let word = u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
+        hash = hash.wrapping_add(word.wrapping_mul(PRIME_3));
+        hash = hash.rotate_left(17).wrapping_mul(PRIME_4);
+    }
+    for b in words.remainder() {
+        hash = hash.wrapping_add((*b as u32).wrapping_mul(PRIME_5));
+        hash = hash.rotate_left(11).wrapping_mul(PRIME_1);
+    }
+    hash = (hash ^ (hash >> 15)).wrapping_mul(PRIME_2);
+    hash = (hash ^ (hash >> 13)).wrapping_mul(PRIME_3);
+    ((hash ^ (hash >> 16)) >> 8) as u8
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..7de53f6 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+mod lz4;
 pub mod zip;
 mod zst;
-- 
2.43.0


From 70db2e81470334381cb9ed3b514c4e35d84d4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 32/50] fix: only the first frame of an lz4 file was read

---
 src/decompress/decompress.rs |  4 +-
 src/decompress/lz4.rs        | 89 ++++++++++++++++++++++++++++++++++--
 2 files changed, 88 insertions(+), 5 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 3a16899..1eaac54 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -7,7 +7,7 @@ use flate2::read::MultiGzDecoder;
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
-use crate::decompress::lz4::Lz4FrameReader;
+use crate::decompress::lz4::Lz4Reader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -130,7 +130,7 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4FrameReader::new(reader)?;
+    let decoder = Lz4Reader::new(reader)?;
     Ok(Box::new(decoder))
 }
 
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
index 6183ebe..c301eb9 100644
--- a/src/decompress/lz4.rs
+++ b/src/decompress/lz4.rs
@@ -1,19 +1,100 @@
+use std::cell::RefCell;
 use std::io::{self, Chain, Cursor, Read};
+use std::rc::Rc;
 
+use byteorder::{ReadBytesExt, LE};
 use lz_fear::LZ4FrameReader;
 
 const MAGIC: [u8; 4] = [0x04, 0x22, 0x4D, 0x18];
+const SKIPPABLE_MAGIC: u32 = 0x184D2A50;
+const SKIPPABLE_MAGIC_MASK: u32 = 0xFFFFFFF0;
 const FLAG_INDEPENDENT_BLOCKS: u8 = 0x20;
 const FLAG_CONTENT_SIZE: u8 = 0x08;
 const FLAG_DICTIONARY_ID: u8 = 0x01;
 const WINDOW_SIZE: usize = 64 * 1024;
 
+/// Reads all the frames of an lz4 file.
+pub struct Lz4Reader<R: Read> {
+    reader: SharedReader<R>,
+    frame_reader: Lz4FrameReader<Chain<Cursor<Vec<u8>>, SharedReader<R>>>,
+}
+
+impl<R: Read> Lz4Reader<R> {
+    pub fn new(reader: R) -> io::Result<Self> {
+        let mut reader = SharedReader(Rc::new(RefCell::new(reader)));
+        match Self::next_frame(&mut reader)? {
+            Some(frame_reader) => Ok(Lz4Reader {
+                reader,
+                frame_reader,
+            }),
+            None => Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
+        }
+    }
+
+    fn next_frame(
+        reader: &mut SharedReader<R>,
+    ) -> io::Result<Option<Lz4FrameReader<Chain<Cursor<Vec<u8>>, SharedReader<R>>>>> {
+        loop {
+            let mut magic = Vec::new();
+            reader.by_ref().take(4).read_to_end(&mut magic)?;
+            if magic.is_empty() {
+                return Ok(None);
+            }
+
+            if magic.len() == 4 {
+                let magic = u32::from_le_bytes([magic[0], magic[1], magic[2], magic[3]]);
+                if magic & SKIPPABLE_MAGIC_MASK == SKIPPABLE_MAGIC {
+                    let len = reader.read_u32::<LE>()? as u64;
+                    if io::copy(&mut reader.by_ref().take(len), &mut io::sink())? != len {
+                        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+                    }
+                    continue;
+                }
+            }
+            let reader = Cursor::new(magic).chain(reader.clone());
+            return Ok(Some(Lz4FrameReader::new(reader)?));
+        }
+    }
+}
+
+impl<R: Read> Read for Lz4Reader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+        loop {
+            let len = self.frame_reader.read(buf)?;
+            if len > 0 {
+                return Ok(len);
+            }
+            match Self::next_frame(&mut self.reader)? {
+                Some(frame_reader) => self.frame_reader = frame_reader,
+                None => return Ok(0),
+            }
+        }
+    }
+}
+
+struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R> Clone for SharedReader<R> {
+    fn clone(&self) -> Self {
+        SharedReader(self.0.clone())
+    }
+}
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
+
 /// Reads an lz4 frame.
 ///
 /// Blocks of a frame may refer to the data of preceding ones (linked blocks). LZ4FrameReader doesn't take
 /// uncompressed blocks into account there, so a frame like that is presented to it as a frame of independent
 /// blocks, and the data preceding each block as the dictionary of that block.
-pub struct Lz4FrameReader<R: Read> {
+struct Lz4FrameReader<R: Read> {
     frame_reader: LZ4FrameReader<Chain<Cursor<Vec<u8>>, R>>,
     linked_blocks: bool,
     window: Vec<u8>,
@@ -22,7 +103,7 @@ pub struct Lz4FrameReader<R: Read> {
 }
 
 impl<R: Read> Lz4FrameReader<R> {
-    pub fn new(mut reader: R) -> io::Result<Self> {
+    fn new(mut reader: R) -> io::Result<Self> {
         // magic number, flags and block descriptor
         let mut header = vec![0; 6];
         reader.read_exact(&mut header)?;
@@ -66,7 +147,9 @@ impl<R: Read> Lz4FrameReader<R> {
         }
         self.block.clear();
         self.block_pos = 0;
-        let result = self.frame_reader.decode_block(&mut self.block, &self.window);
+        let result = self
+            .frame_reader
+            .decode_block(&mut self.block, &self.window);
         if result.is_err() {
             self.block.clear();
         }
-- 
2.43.0


From 64adea5ae1e75d5bc25cf00596baa68cdb705b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 33/50] fix: named pipes and other files that cannot seek were
 refused as inputs

---
 src/transport/seekable/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/seekable/file.rs b/src/transport/seekable/file.rs
index cbe685a..d053c79 100644
--- a/src/transport/seekable/file.rs
+++ b/src/transport/seekable/file.rs
@@ -10,7 +10,8 @@ pub struct SeekableFileTransport;
 
 impl SeekableTransport for SeekableFileTransport {
     fn can_open(&self, path: &Path) -> bool {
-        path.exists()
+        // pipes and devices can't seek, these are for streaming transports only
+        path.is_file()
     }
 
     fn open(&self, path: &Path) -> io::Result<Box<dyn ReadSeek>> {
-- 
2.43.0


From 6582e1a14e68a63af8ac9e133862625b3adf0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 34/50] fix: a directory whose listing failed part way was read
 as one with fewer files

---
 src/transport/dir/file.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transport/dir/file.rs b/src/transport/dir/file.rs
index 5aa1ee9..1265597 100644
--- a/src/transport/dir/file.rs
+++ b/src/transport/dir/file.rs
@@ -1,3 +1,4 @@
+use std::io;
 use std::path::{Path, PathBuf};
 
 use crate::error::CliResult;
@@ -18,8 +19,10 @@ impl DirTransport for DirFileTransport {
     fn read_dir(&self, path: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
         match path.read_dir() {
             Ok(dir_entry_iter) => {
-                let path_iter = dir_entry_iter.filter_map(|entry| Some(entry.ok()?.path()));
-                Ok(Box::new(path_iter))
+                // a listing that fails part way is an error, not a shorter listing
+                let paths: io::Result<Vec<PathBuf>> =
+                    dir_entry_iter.map(|entry| Ok(entry?.path())).collect();
+                Ok(Box::new(paths?.into_iter()))
             }
             Err(e) => Err(e.into()),
         }
-- 
2.43.0


From e3f43f1c5a670e3588a9eeaf263651582228cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 35/50] fix: a file in a directory crashed the run if its name
 was not valid unicode

---
 src/util/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/path.rs b/src/util/path.rs
index bf8a7dd..d82d68e 100644
--- a/src/util/path.rs
+++ b/src/util/path.rs
@@ -2,8 +2,8 @@ use std::path::Path;
 
 pub fn get_file_name(path: &Path) -> Option<String> {
     if let Some(file_name) = path.file_name() {
-        // that's right, unwrap to_str first to panic on os->str conversion if needed
-        Some(file_name.to_str().unwrap().to_owned())
+        // only used to find out the format, so parts of the name that aren't unicode don't matter
+        Some(file_name.to_string_lossy().into_owned())
     } else {
         // weird but ok
         None
-- 
2.43.0


From 90b84cf86e0849fee1db7315b1cd907b0b352445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 36/50] fix: arguments that are not valid unicode crashed
 instead of being refused

---
 src/cli_app.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 4c72024..4f7e045 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -1,5 +1,5 @@
 use clap::crate_version;
-use clap::{App, Arg};
+use clap::{App, AppSettings, Arg};
 
 pub struct CliApp;
 
@@ -8,6 +8,8 @@ impl CliApp {
         let app = App::new("chopper")
             .version(crate_version!())
             .about("chopper is a simple streaming time series tool")
+            // an error instead of a panic
+            .setting(AppSettings::StrictUtf8)
             .arg(
                 Arg::with_name("input")
                     .help("sets the input files to use; \nif missing, stdin will be used")
-- 
2.43.0


From 281128aa4be0ca6a1bf718c171881ea81b7a2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 37/50] fix: arguments that are not valid unicode crashed in
 option names too

---
 src/chopper_cli.rs | 8 ++++++--
 src/cli_app.rs     | 4 +---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index 64bbb90..082996c 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::env;
 
 use chrono_tz::Tz;
 use clap::{value_t, ArgMatches};
@@ -9,7 +10,7 @@ use crate::chopper::types::{Header, TimestampRange};
 use crate::cli::util::YesNoAuto;
 use crate::cli_app::CliApp;
 use crate::driver::{driver::Driver, merge_join::MergeJoin};
-use crate::error::{self, CliResult};
+use crate::error::{self, CliResult, Error};
 use crate::input::input::{Input, InputFormat, InputType};
 use crate::input::input_factory::InputFactory;
 use crate::source::csv_configs::{
@@ -36,7 +37,10 @@ pub fn parse_cli_args(
     source_factories: Option<Vec<Box<dyn SourceFactory>>>,
     timezone_map: Option<HashMap<&str, Tz>>,
 ) -> CliResult<Box<dyn ChopperDriver>> {
-    let matches = CliApp.create_cli_app().get_matches();
+    // clap panics on arguments that aren't valid unicode, wherever they are
+    let args: Result<Vec<String>, _> = env::args_os().map(|arg| arg.into_string()).collect();
+    let args = args.map_err(|arg| Error::from(format!("Argument {:?} is not valid unicode", arg)))?;
+    let matches = CliApp.create_cli_app().get_matches_from(args);
 
     if matches.is_present("backtrace") {
         error::turn_on_backtrace()
diff --git a/src/cli_app.rs b/src/cli_app.rs
index 4f7e045..4c72024 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -1,5 +1,5 @@
 use clap::crate_version;
-use clap::{App, AppSettings, Arg};
+use clap::{App, Arg};
 
 pub struct CliApp;
 
@@ -8,8 +8,6 @@ impl CliApp {
         let app = App::new("chopper")
             .version(crate_version!())
             .about("chopper is a simple streaming time series tool")
-            // an error instead of a panic
-            .setting(AppSettings::StrictUtf8)
             .arg(
                 Arg::with_name("input")
                     .help("sets the input files to use; \nif missing, stdin will be used")
-- 
2.43.0


From 5d5be615ee9db130e8792d378097b95270a188ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 38/50] fix: rows sent to a merge with fewer inputs than it was
 created for were lost silently

---
 src/chopper/header_graph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 57e7964..85a00f3 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -56,6 +56,15 @@ impl HeaderGraph {
         for i in 0..header.len() {
             self = self.process_header_re(&mut data_graph, i, header.get_mut(i).unwrap())?;
         }
+
+        // rows sent to a merge that is still waiting for headers would go nowhere
+        for chain in &self.header_chains {
+            if let Some(HeaderNode::MergeHeaderSink(..)) = chain.nodes.first() {
+                return Err(Error::from(
+                    "HeaderGraph -- merge has fewer inputs than it was created for",
+                ));
+            }
+        }
         Ok(data_graph)
     }
 
-- 
2.43.0


From 61a0b561ca92cc2d92ad6f82be1b150a5228d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 39/50] fix: graphs with missing or empty chains crashed, and
 splits into merges were not checked

---
 src/chopper/header_graph.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 85a00f3..eb541ff 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -74,9 +74,12 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let chain: &mut HeaderChain = self.header_chains.get_mut(chain_id).unwrap();
+        let chain: &mut HeaderChain = match self.get_mut_chain(chain_id) {
+            Some(c) => c,
+            None => return Err(Self::missing_chain_error(chain_id)),
+        };
         // check the first node of the chain.
-        if let HeaderNode::MergeHeaderSink(..) = chain.get_mut_nodes().get_mut(0).unwrap() {
+        if let Some(HeaderNode::MergeHeaderSink(..)) = chain.get_mut_nodes().get_mut(0) {
             // if MergeHeaderSink, check/process the header without removing the chain
             // pass to match_remove_chain only when all the Merge headers are processed
             self.check_merge_header(data_graph, chain_id, header)
@@ -86,6 +89,13 @@ impl HeaderGraph {
         }
     }
 
+    fn missing_chain_error(chain_id: ChainId) -> Error {
+        Error::from(format!(
+            "HeaderGraph -- ChainId[{}] index out of bounds",
+            chain_id
+        ))
+    }
+
     fn swap_remove(&mut self, chain_id: usize) -> HeaderChain {
         let empty_chain = HeaderChain::new(Vec::new());
         self.header_chains.push(empty_chain);
@@ -118,7 +128,7 @@ impl HeaderGraph {
                         ));
                     }
                     for i in shs.chain_ids() {
-                        self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;
+                        self = self.process_header_re(data_graph, *i, &mut header.clone())?;
                         header_count_tracker.unprocessed_count -= 1;
                     }
                     data_node = DataNode::Split(shs.chain_ids().clone());
@@ -140,17 +150,12 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let node: &mut HeaderNode = match self.get_mut_chain(chain_id) {
-            Some(c) => c.get_mut_nodes().get_mut(0).unwrap(),
-            None => {
-                return Err(Error::from(format!(
-                    "HeaderGraph -- ChainId[{}] index out of bounds",
-                    chain_id
-                )))
-            }
+        let node: Option<&mut HeaderNode> = match self.get_mut_chain(chain_id) {
+            Some(c) => c.get_mut_nodes().get_mut(0),
+            None => return Err(Self::missing_chain_error(chain_id)),
         };
         match node {
-            HeaderNode::MergeHeaderSink(mhs, header_count_tracker) => {
+            Some(HeaderNode::MergeHeaderSink(mhs, header_count_tracker)) => {
                 if header_count_tracker.unprocessed_count <= 0 {
                     return Err(Error::from(
                         "HeaderGraph -- unprocessed header count must be at least 1",
-- 
2.43.0


From 97a996791cbe5e3e13a50921be391d4ee9a2c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 40/50] fix: a chain with several inputs but no merge got rows
 its header was not checked against

---
 src/chopper/header_graph.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index eb541ff..a072f03 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -20,6 +20,7 @@ pub struct HeaderChain {
 
 pub struct HeaderGraph {
     header_chains: Vec<HeaderChain>,
+    is_chain_processed: Vec<bool>,
 }
 
 impl HeaderChain {
@@ -38,7 +39,11 @@ impl HeaderChain {
 
 impl HeaderGraph {
     pub fn new(header_chains: Vec<HeaderChain>) -> Self {
-        HeaderGraph { header_chains }
+        let is_chain_processed = vec![false; header_chains.len()];
+        HeaderGraph {
+            header_chains,
+            is_chain_processed,
+        }
     }
 
     pub fn len(&self) -> usize {
@@ -108,6 +113,14 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
+        // chain has just one header, and it must not lead back to itself
+        if self.is_chain_processed[chain_id] {
+            return Err(Error::from(format!(
+                "HeaderGraph -- ChainId[{}] has more than one input, but no merge",
+                chain_id
+            )));
+        }
+        self.is_chain_processed[chain_id] = true;
         let chain = self.swap_remove(chain_id);
         // process header for all the nodes in the chain, and get DataSinks
         for node in chain.nodes {
-- 
2.43.0


From 2739f58b8e4daf53936d35f16e5c1c2b2d92975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 41/50] fix: first row was lost as a supposed header because of
 quotes, a byte order mark or empty lines

---
 src/source/csv_source.rs |  6 +++++-
 src/util/csv_util.rs     | 26 ++++++++++++++++----------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 07fa8d6..4bad6af 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -31,7 +31,11 @@ impl CSVSource {
     ) -> CliResult<Self> {
         let (line1, line2) = match previewer.get_lines() {
             None => (None, None),
-            Some(lines) => (lines.get(0), lines.get(1)),
+            Some(lines) => {
+                // there are no records in empty lines
+                let mut lines = lines.iter().filter(|line| !line.is_empty());
+                (lines.next(), lines.next())
+            }
         };
 
         let delimiter = match csv_config.delimiter() {
diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index c2bd6a0..a5babab 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -59,16 +59,22 @@ pub fn guess_has_header(line1: Option<&String>, line2: Option<&String>, delimite
         Some(line) => line,
     };
 
-    let line1: Vec<FieldType> = line1
-        .split(delimiter as char)
-        .map(|s| guess_type(s.trim()))
-        .collect();
-    let line2: Vec<FieldType> = line2
-        .split(delimiter as char)
-        .map(|s| guess_type(s.trim()))
-        .collect();
-
-    line1 != line2
+    guess_types(line1, delimiter) != guess_types(line2, delimiter)
+}
+
+/// line has to be split into cells the way it's going to be split when it is read as csv,
+/// in particular when it comes to quotes and to byte order mark at the start of the file
+fn guess_types(line: &str, delimiter: u8) -> Vec<FieldType> {
+    let record = csv::ReaderBuilder::new()
+        .delimiter(delimiter)
+        .has_headers(false)
+        .from_reader(line.as_bytes())
+        .into_records()
+        .next();
+    match record {
+        Some(Ok(record)) => record.iter().map(|s| guess_type(s.trim())).collect(),
+        _ => vec![guess_type("")],
+    }
 }
 
 pub fn guess_common_type(field_types: &[FieldType]) -> FieldType {
-- 
2.43.0


From c0ea74b94bbb121044f4a7c27d92accecd2753fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 42/50] fix: zstd files with skippable frames were refused

---
 src/decompress/zst.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index fa3b2ef..7cc6d58 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,5 +1,9 @@
+use byteorder::{ReadBytesExt, LE};
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, BufRead, ErrorKind, Read};
+use std::io::{self, BufRead, Cursor, ErrorKind, Read};
+
+const SKIPPABLE_MAGIC: u32 = 0x184D2A50;
+const SKIPPABLE_MAGIC_MASK: u32 = 0xFFFFFFF0;
 
 pub struct ZstReader<R> {
     inner: R,
@@ -12,15 +16,32 @@ impl<R: BufRead> ZstReader<R> {
             inner: reader,
             decoder: FrameDecoder::new(),
         };
+        if zst_reader.is_at_eof()? {
+            return Err(io::Error::from(ErrorKind::UnexpectedEof));
+        }
         zst_reader.init()?;
         Ok(zst_reader)
     }
 
-    fn init(&mut self) -> io::Result<()> {
-        match self.decoder.init(&mut self.inner) {
-            Ok(o) => Ok(o),
-            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+    /// gets to the next frame that has data, returns false if there isn't one
+    fn init(&mut self) -> io::Result<bool> {
+        while !self.is_at_eof()? {
+            let magic = self.inner.read_u32::<LE>()?;
+            if magic & SKIPPABLE_MAGIC_MASK == SKIPPABLE_MAGIC {
+                let len = self.inner.read_u32::<LE>()? as u64;
+                if io::copy(&mut self.inner.by_ref().take(len), &mut io::sink())? != len {
+                    return Err(io::Error::from(ErrorKind::UnexpectedEof));
+                }
+                continue;
+            }
+
+            let mut reader = Cursor::new(magic.to_le_bytes()).chain(&mut self.inner);
+            return match self.decoder.init(&mut reader) {
+                Ok(_) => Ok(true),
+                Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+            };
         }
+        Ok(false)
     }
 
     fn is_at_eof(&mut self) -> io::Result<bool> {
@@ -70,10 +91,9 @@ impl<R: BufRead> Read for ZstReader<R> {
             }
 
             // got to the end of the current frame, there might be another one after it
-            if self.is_at_eof()? {
+            if !self.init()? {
                 return Ok(0);
             }
-            self.init()?;
         }
     }
 }
-- 
2.43.0


From da4bd0159d9e057e62e38eab301cd65236996698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 43/50] fix: CHOPPER_TZ that is not valid unicode was ignored

---
 src/util/tz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/tz.rs b/src/util/tz.rs
index 8127045..84e1a7a 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::env;
+use std::env::{self, VarError};
 
 use chrono::{DateTime, LocalResult, NaiveDateTime, TimeZone};
 use chrono_tz::Tz;
@@ -32,7 +32,8 @@ impl ChopperTz {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
                 Ok(s) => s,
-                Err(_) => return Ok(None),
+                Err(VarError::NotPresent) => return Ok(None),
+                Err(e) => return Err(Custom(format!("Cannot use CHOPPER_TZ: {}", e))),
             },
             Some(s) => s.to_owned(),
         };
-- 
2.43.0


From 3917f569215ea06b083f18fbf6437657a35c5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 44/50] fix: an input that is also the output was destroyed

---
 src/chopper_cli.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index 082996c..1dc3634 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -1,5 +1,7 @@
 use std::collections::HashMap;
 use std::env;
+use std::fs;
+use std::path::Path;
 
 use chrono_tz::Tz;
 use clap::{value_t, ArgMatches};
@@ -154,6 +156,9 @@ fn setup_graph(
         header_nodes.push(node_merge_sink);
     }
 
+    if let Some(output) = output {
+        check_not_an_input(output, &inputs)?;
+    }
     let header_sink = factory::new_header_sink(output, Some(csv_output_config))?;
     let node_hs = HeaderNode::HeaderSink(header_sink);
     header_nodes.push(node_hs);
@@ -168,6 +173,31 @@ fn setup_graph(
     )?))
 }
 
+/// creating the output would destroy the input, and the input would then be read from the output
+fn check_not_an_input(output: &str, inputs: &[Input]) -> CliResult<()> {
+    let output_path = match fs::canonicalize(output) {
+        Ok(path) => path,
+        Err(_) => return Ok(()), // there is no such file yet
+    };
+    let is_output = |path: &Path| fs::canonicalize(path).map_or(false, |p| p == output_path);
+
+    for input in inputs {
+        if let InputType::Path(input) = &input.input {
+            let is_in_dir = match fs::read_dir(input) {
+                Ok(mut entries) => entries.any(|e| e.map_or(false, |e| is_output(&e.path()))),
+                Err(_) => false,
+            };
+            if is_in_dir || is_output(Path::new(input)) {
+                return Err(Error::from(format!(
+                    "output {} is also read as input {}",
+                    output, input
+                )));
+            }
+        }
+    }
+    Ok(())
+}
+
 fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResult<CSVInputConfig> {
     let input_delimiter = matches.value_of("csv_in_delimiter");
     let has_header = value_t!(matches, "csv_in_has_header", YesNoAuto)?;
-- 
2.43.0


From f393fc74f05283fa6c954ef56af97f4da1e47ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:45 +0000
Subject: [PATCH 45/50] fix: an error message that could not be written made
 the program crash

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6a8fc87..e7617f6 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -11,7 +11,8 @@ use csv;
 macro_rules! write_error {
     ($($arg:tt)*) => ({
         use std::io::{Write, stderr};
-        (writeln!(&mut stderr(), $($arg)*)).unwrap();
+        // nothing can be done about a message that cannot be written
+        let _ = writeln!(&mut stderr(), $($arg)*);
     });
 }
 
-- 
2.43.0


From 48df4e74f9fe0952e2f973813d91ddc4eb7bfea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:22 +0000
Subject: [PATCH 46/50] fix: do not crash when a backtrace cannot be written

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index e7617f6..4ebba3b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -132,5 +132,5 @@ fn print_backtrace() {
     }
     use backtrace::Backtrace;
     let bt = Backtrace::new();
-    eprintln!("{:?}", bt);
+    write_error!("{:?}", bt);
 }
-- 
2.43.0


From bc545f227bdefa136830625db35c95984a19bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 47/50] fix: an input that is also the output under another
 name was destroyed

---
 src/chopper_cli.rs | 59 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index 1dc3634..39144c6 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -1,7 +1,12 @@
 use std::collections::HashMap;
 use std::env;
 use std::fs;
+use std::io;
+#[cfg(unix)]
+use std::os::unix::fs::MetadataExt;
 use std::path::Path;
+#[cfg(not(unix))]
+use std::path::PathBuf;
 
 use chrono_tz::Tz;
 use clap::{value_t, ArgMatches};
@@ -156,9 +161,7 @@ fn setup_graph(
         header_nodes.push(node_merge_sink);
     }
 
-    if let Some(output) = output {
-        check_not_an_input(output, &inputs)?;
-    }
+    check_not_an_input(output, &inputs)?;
     let header_sink = factory::new_header_sink(output, Some(csv_output_config))?;
     let node_hs = HeaderNode::HeaderSink(header_sink);
     header_nodes.push(node_hs);
@@ -174,30 +177,50 @@ fn setup_graph(
 }
 
 /// creating the output would destroy the input, and the input would then be read from the output
-fn check_not_an_input(output: &str, inputs: &[Input]) -> CliResult<()> {
-    let output_path = match fs::canonicalize(output) {
-        Ok(path) => path,
+fn check_not_an_input(output: Option<&str>, inputs: &[Input]) -> CliResult<()> {
+    let output_path = Path::new(output.unwrap_or("/dev/stdout"));
+    // terminals and alike can be both standard input and output
+    if output.is_none() && !output_path.is_file() {
+        return Ok(());
+    }
+    let output_id = match file_id(output_path) {
+        Ok(id) => id,
         Err(_) => return Ok(()), // there is no such file yet
     };
-    let is_output = |path: &Path| fs::canonicalize(path).map_or(false, |p| p == output_path);
+    let is_output = |path: &Path| file_id(path).map_or(false, |id| id == output_id);
 
     for input in inputs {
-        if let InputType::Path(input) = &input.input {
-            let is_in_dir = match fs::read_dir(input) {
-                Ok(mut entries) => entries.any(|e| e.map_or(false, |e| is_output(&e.path()))),
-                Err(_) => false,
-            };
-            if is_in_dir || is_output(Path::new(input)) {
-                return Err(Error::from(format!(
-                    "output {} is also read as input {}",
-                    output, input
-                )));
-            }
+        let input = match &input.input {
+            InputType::Path(input) => input,
+            InputType::StdIn => "/dev/stdin",
+        };
+        let is_in_dir = match fs::read_dir(input) {
+            Ok(mut entries) => entries.any(|e| e.map_or(false, |e| is_output(&e.path()))),
+            Err(_) => false,
+        };
+        if is_in_dir || is_output(Path::new(input)) {
+            return Err(Error::from(format!(
+                "output {} is also read as input {}",
+                output_path.display(),
+                input
+            )));
         }
     }
     Ok(())
 }
 
+/// same for all the names of a file
+#[cfg(unix)]
+fn file_id(path: &Path) -> io::Result<(u64, u64)> {
+    let metadata = fs::metadata(path)?;
+    Ok((metadata.dev(), metadata.ino()))
+}
+
+#[cfg(not(unix))]
+fn file_id(path: &Path) -> io::Result<PathBuf> {
+    fs::canonicalize(path)
+}
+
 fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResult<CSVInputConfig> {
     let input_delimiter = matches.value_of("csv_in_delimiter");
     let has_header = value_t!(matches, "csv_in_has_header", YesNoAuto)?;
-- 
2.43.0


From df9cea11528d348dbee7fc86de5f753bfbb3261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:19 +0000
Subject: [PATCH 48/50] fix: the given common header was dropped when there
 were no files

---
 src/source/multi_file_source.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index 5f1bc16..3abf1bf 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -25,7 +25,11 @@ impl SerialMultiFileSource {
         external_common_header: Option<Header>,
     ) -> CliResult<SerialMultiFileSource> {
         let (common_header, current_source, swap_map) = match path_provider.get_next_path() {
-            None => (Header::new(Vec::new(), Vec::new()), None, Vec::new()),
+            None => {
+                let header = external_common_header
+                    .unwrap_or_else(|| Header::new(Vec::new(), Vec::new()));
+                (header, None, Vec::new())
+            }
             Some(first_path) => {
                 let first_source =
                     Self::create_source_from_path(&mut input_factory, &first_path, &input_format)?;
-- 
2.43.0


From 60e46f0b6c44d762b7b46fc5a7e1b5e74dbfb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:51 +0000
Subject: [PATCH 49/50] fix: use the documented default of the time format when
 only the date format is given

--csv-in-ts-fmt-time is documented to have a default, but leaving it out was an error.
---
 src/chopper_cli.rs        | 7 ++++---
 src/cli_app.rs            | 1 -
 src/source/csv_configs.rs | 1 +
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index 39144c6..0396e70 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -22,7 +22,7 @@ use crate::input::input::{Input, InputFormat, InputType};
 use crate::input::input_factory::InputFactory;
 use crate::source::csv_configs::{
     CSVInputConfig, CSVOutputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig,
-    TimestampStyle,
+    TimestampStyle, TIMESTAMP_FMT_TIME_DEFAULT,
 };
 use crate::source::csv_timestamp::TimestampUnits;
 use crate::source::source_factory::SourceFactory;
@@ -234,8 +234,9 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
             Some(fmt) => TimestampFmtConfig::Explicit(fmt.to_string()),
         },
         Some(date_fmt) => {
-            // we should always have time format if we have date format
-            let time_fmt = matches.value_of("csv_in_ts_fmt_time").unwrap();
+            let time_fmt = matches
+                .value_of("csv_in_ts_fmt_time")
+                .unwrap_or(TIMESTAMP_FMT_TIME_DEFAULT);
             TimestampFmtConfig::DateTimeExplicit(date_fmt.to_string(), time_fmt.to_string())
         }
     };
diff --git a/src/cli_app.rs b/src/cli_app.rs
index 4c72024..0d16f2d 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -190,7 +190,6 @@ impl CliApp {
                     .help("csv input only: specify the split timestamp date-only column format")
                     .takes_value(true)
                     .value_name("arg")
-                    .requires("csv_in_ts_fmt_time")
                     .conflicts_with_all(&["csv_in_ts_col", "csv_in_ts_fmt"]),
             )
             .arg(
diff --git a/src/source/csv_configs.rs b/src/source/csv_configs.rs
index c450454..cf69d6c 100644
--- a/src/source/csv_configs.rs
+++ b/src/source/csv_configs.rs
@@ -6,6 +6,7 @@ use crate::util::tz::ChopperTz;
 
 pub static OUTPUT_DELIMITER_DEFAULT: &str = ",";
 pub static TIMESTAMP_COL_DATE_DEFAULT: usize = 0;
+pub static TIMESTAMP_FMT_TIME_DEFAULT: &str = "%H:%M:%S";
 
 pub type DateColIdx = usize;
 pub type TimeColIdx = usize;
-- 
2.43.0


From cfac8fccb09b6a120d7b29814b549bf3f03cc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:24 +0000
Subject: [PATCH 50/50] fix: refuse a timestamp format that has only a part of
 a time of day

Such a format (an hour without minutes, say, or an offset alone) was taken
for one of a date, and each row got midnight of its date in the configured
timezone, whatever hour or offset it states.
---
 src/source/csv_timestamp.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 46636da..45c5149 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -1,5 +1,6 @@
 use std::ops::Range;
 
+use chrono::format::{Parsed, StrftimeItems};
 use chrono::{DateTime, NaiveDate, NaiveDateTime};
 
 use crate::chopper::types::{Header, Nanos};
@@ -166,6 +167,13 @@ fn get_timestamp_fmt_from_user_spec(
         timezone.from_local_datetime(&naive_date_time)?;
         Ok(TimestampFmt::DateTimeNeedsExternalTz(format))
     } else if let Ok(naive_date) = NaiveDate::parse_from_str(&timestamp, &format) {
+        if has_part_of_time(&timestamp, &format)? {
+            // it would be read as if it were midnight in the configured timezone
+            return Err(Error::from(format!(
+                "Timestamp format {} does not have complete time of day.",
+                format
+            )));
+        }
         let naive_date_time = naive_date.and_hms(0, 0, 0);
         timezone.from_local_datetime(&naive_date_time)?;
         Ok(TimestampFmt::DateNeedsExternalTz(format))
@@ -178,6 +186,17 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
+fn has_part_of_time(timestamp: &str, format: &str) -> CliResult<bool> {
+    let mut parsed = Parsed::new();
+    chrono::format::parse(&mut parsed, timestamp, StrftimeItems::new(format))?;
+    Ok(parsed.hour_div_12().is_some()
+        || parsed.hour_mod_12().is_some()
+        || parsed.minute().is_some()
+        || parsed.second().is_some()
+        || parsed.nanosecond().is_some()
+        || parsed.offset().is_some())
+}
+
 fn get_timestamp_cell(record: &csv::StringRecord, index: usize) -> CliResult<&str> {
     match record.get(index) {
         Some(cell) => Ok(cell),
-- 
2.43.0

