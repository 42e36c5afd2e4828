From fbf10c4b12b49b201b1d782e9b7555fcdadf55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 01/23] fix: report invalid message and section sizes as errors

Message and section sizes found in the data were subtracted from each
other without checks, so that malformed data caused arithmetic overflow
(a panic, or wrong offsets when overflow checks are disabled).
---
 src/reader.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1f63572..5b6107c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -90,19 +90,24 @@ where
             .reader
             .read_sect0()
             .transpose()?
-            .map(|(offset, indicator)| {
+            .and_then(|(offset, indicator)| {
                 self.whole_size += offset;
                 let offset = self.whole_size;
                 let message_size = indicator.total_length as usize;
-                self.whole_size += message_size;
+                let rest_size = message_size
+                    .checked_sub(SECT0_IS_SIZE)
+                    .ok_or(BuildError::SectionSizeTooSmall(message_size))?;
+                self.whole_size = offset.checked_add(message_size).ok_or_else(|| {
+                    ParseError::ReadError(format!("message size is too large: {message_size}"))
+                })?;
+                self.rest_size = rest_size;
                 let sect_info = SectionInfo {
                     num: 0,
                     offset,
                     size: SECT0_IS_SIZE,
                     body: Some(SectionBody::Section0(indicator)),
                 };
-                self.rest_size = message_size - SECT0_IS_SIZE;
-                sect_info
+                Ok(sect_info)
             });
         Some(result)
     }
@@ -134,11 +139,17 @@ where
         match result {
             Ok(header) => {
                 let offset = self.whole_size - self.rest_size;
+                let Some(rest_size) = self.rest_size.checked_sub(header.0) else {
+                    return Some(Err(ParseError::ReadError(format!(
+                        "section size {} exceeds the rest of the message",
+                        header.0
+                    ))));
+                };
                 match self.reader.read_sect_payload(&header) {
                     Ok(body) => {
                         let body = Some(body);
                         let (size, num) = header;
-                        self.rest_size -= size;
+                        self.rest_size = rest_size;
                         Some(Ok(SectionInfo {
                             num,
                             offset,
@@ -279,7 +290,9 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_payload(&mut self, header: &SectHeader) -> Result<SectionBody, ParseError> {
         let (size, num) = header;
-        let body_size = size - SECT_HEADER_SIZE;
+        let body_size = size
+            .checked_sub(SECT_HEADER_SIZE)
+            .ok_or(BuildError::SectionSizeTooSmall(*size))?;
         let body = match num {
             1 => SectionBody::Section1(Identification::from_payload(
                 self.read_slice_without_offset_check(body_size)?,
@@ -308,7 +321,10 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         let body_offset = sect.offset + SECT_HEADER_SIZE;
         self.seek(SeekFrom::Start(body_offset as u64))?;
 
-        let body_size = sect.size - SECT_HEADER_SIZE;
+        let body_size = sect
+            .size
+            .checked_sub(SECT_HEADER_SIZE)
+            .ok_or(BuildError::SectionSizeTooSmall(sect.size))?;
         let mut buf = vec![0; body_size];
         self.read_exact(buf.as_mut_slice())?;
 
@@ -317,9 +333,11 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect6_payload(&mut self, body_size: usize) -> Result<SectionBody, ParseError> {
         let mut buf = [0; 1]; // octet 6
+        let len_extra = body_size
+            .checked_sub(buf.len())
+            .ok_or(BuildError::SectionSizeTooSmall(body_size))?;
         self.read_exact(&mut buf[..])?;
 
-        let len_extra = body_size - buf.len();
         if len_extra > 0 {
             let mut buf = vec![0; len_extra];
             self.read_exact(&mut buf[..])?;
-- 
2.43.0


From 69421a1430097750709138cfd3d7e67c33f37de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 02/23] fix: do not treat a short read as the end of data

Sections 0 and 8 and section headers were read with a single call to
`Read::read`, which may return less than requested (or be interrupted)
before the end of data, so that valid data from such readers was rejected
or silently taken as the end of the stream.
---
 src/reader.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5b6107c..9a07166 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -238,13 +238,28 @@ macro_rules! check_size {
     }};
 }
 
+/// Reads until `buf` is filled or the end of data is reached, since a single
+/// `read` is allowed to return less data than available.
+fn read_fully<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
+    let mut size = 0;
+    while size < buf.len() {
+        match reader.read(&mut buf[size..]) {
+            Ok(0) => break,
+            Ok(n) => size += n,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(size)
+}
+
 impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     fn read_sect0(&mut self) -> Result<Option<(usize, Indicator)>, ParseError> {
         let mut buf = [0; 4096];
         let mut offset = 0;
 
         loop {
-            let size = self.read(&mut buf[..])?;
+            let size = read_fully(self, &mut buf[..])?;
             if size < SECT0_IS_SIZE {
                 return Ok(None);
             }
@@ -267,7 +282,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
         let mut buf = [0; SECT8_ES_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_fully(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         if buf[..] != SECT8_ES_MAGIC[..] {
@@ -279,7 +294,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_header(&mut self) -> Result<Option<SectHeader>, ParseError> {
         let mut buf = [0; SECT_HEADER_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_fully(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         let sect_size = read_as!(u32, buf, 0) as usize;
-- 
2.43.0


From 74cdbb26eac25d64e54adb93b9c99cfab831287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 03/23] fix: count from the current position in
 SubmessageIterator::nth

`nth(n)` moved to the absolute position `n` regardless of items already
consumed, and `size_hint` underflowed after moving past the end.
---
 src/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index de57476..b1c43f4 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -332,7 +332,10 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.pos = n;
+        self.pos = self
+            .pos
+            .saturating_add(n)
+            .min(self.context.submessages.len());
         self.next()
     }
 }
-- 
2.43.0


From 8ea5f5906e789ee585df4557b203fd01833618ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 04/23] fix: yield exactly as many values as grid points
 through the bitmap

The position within the current byte was compared with the number of
points, so padding bits of the last byte produced extra values, and the
size hint went wrong after the first eight items.
---
 src/decoder/bitmap.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decoder/bitmap.rs b/src/decoder/bitmap.rs
index 23eeff5..28b7c82 100644
--- a/src/decoder/bitmap.rs
+++ b/src/decoder/bitmap.rs
@@ -5,7 +5,9 @@ use crate::{decoder::DecodeError, error::GribError};
 pub(crate) struct BitmapDecodeIterator<B: Iterator, I> {
     bitmap: Peekable<B>,
     values: I,
+    // number of grid points left
     len: usize,
+    // bit position in the current byte of the bitmap
     offset: usize,
 }
 
@@ -36,9 +38,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         let offset = self.offset;
-        if offset >= self.len {
+        if self.len == 0 {
             return None;
         }
+        self.len -= 1;
         let byte = if self.offset < 7 {
             self.offset += 1;
             self.bitmap.peek()?
@@ -55,8 +58,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.len - self.offset;
-        (size, Some(size))
+        (self.len, Some(self.len))
     }
 }
 
-- 
2.43.0


From 5d3b348e4691ace6092e5c1b96d06ff462a85353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 05/23] fix: report short Sections 5, 6 and 7 as errors instead
 of panicking

Parameters and extra descriptors were sliced out of section payloads
without checking that the payloads are long enough.
---
 src/decoder.rs              | 10 +++++++++-
 src/decoder/complex.rs      | 17 ++++++++---------
 src/decoder/complex/diff.rs | 11 +++++++----
 src/decoder/jpeg2000.rs     |  3 +--
 src/decoder/png.rs          |  3 +--
 src/decoder/run_length.rs   | 15 ++++++++-------
 src/decoder/simple.rs       |  3 +--
 7 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5ece124..b7557bf 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -97,7 +97,7 @@ impl Grib2SubmessageDecoder {
         let bitmap = match sect6_body.bitmap_indicator {
             0x00 => {
                 let sect6_data = reader.read_sect_payload_as_slice(sect6)?;
-                sect6_data[1..].into()
+                sect6_data.get(1..).ok_or(DecodeError::LengthMismatch)?.into()
             }
             0xff => {
                 let num_points = sect3_num_points;
@@ -120,6 +120,14 @@ impl Grib2SubmessageDecoder {
         ))
     }
 
+    /// Gets octets of the payload of Section 5, which may be shorter than the
+    /// template requires.
+    pub(crate) fn sect5_octets(&self, range: std::ops::Range<usize>) -> Result<&[u8], GribError> {
+        self.sect5_payload
+            .get(range)
+            .ok_or(GribError::DecodeError(DecodeError::LengthMismatch))
+    }
+
     /// Dispatches a decoding process and gets an iterator of decoded values.
     pub fn dispatch(
         &self,
diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 34d09eb..70d41fe 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -18,7 +18,7 @@ use crate::{
         DecodeError, Grib2SubmessageDecoder,
     },
     error::*,
-    helpers::{read_as, GribInt},
+    helpers::GribInt,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -33,9 +33,8 @@ pub(crate) fn decode_7_2(
     SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
     GribError,
 > {
-    let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
-    let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
+    let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
+    let complex_param = ComplexPackingParam::from_buf(target.sect5_octets(16..42)?);
 
     if complex_param.group_splitting_method_used != 1
         || complex_param.missing_value_management_used > 2
@@ -59,15 +58,15 @@ pub(crate) fn decode_7_3(
     SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
     GribError,
 > {
-    let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
-    let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
-    let spdiff_order = read_as!(u8, sect5_data, 42);
+    let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
+    let complex_param = ComplexPackingParam::from_buf(target.sect5_octets(16..42)?);
+    let spdiff_octets = target.sect5_octets(42..44)?;
+    let spdiff_order = spdiff_octets[0];
     let spdiff_order = Table5_6::try_from(spdiff_order).map_err(|e| {
         let number = e.number;
         GribError::NotSupported(format!("Code Table 5.6 value '{number}' is not supported"))
     })?;
-    let spdiff_param_octet = read_as!(u8, sect5_data, 43);
+    let spdiff_param_octet = spdiff_octets[1];
 
     if complex_param.group_splitting_method_used != 1
         || complex_param.missing_value_management_used > 2
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index b7c94c3..c236801 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -23,10 +23,13 @@ impl<'a> SpatialDifferencingExtraDescriptors<'a> {
         let num_octets = usize::from(num_octets);
         let byte_length = usize::from(spdiff_order + 1) * num_octets;
 
-        Ok(Self {
-            slice: &parent_slice[..byte_length],
-            num_octets,
-        })
+        let slice = parent_slice
+            .get(..byte_length)
+            .ok_or(DecodeError::ComplexPackingDecodeError(
+                ComplexPackingDecodeError::LengthMismatch,
+            ))?;
+
+        Ok(Self { slice, num_octets })
     }
 
     // total number of octets for descriptors
diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index e6c1cf6..da37cc7 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -23,8 +23,7 @@ pub enum Jpeg2000CodeStreamDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = i32>>, GribError> {
-    let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
 
     if simple_param.nbit == 0 {
         eprintln!(
diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 3ed7a36..a684a36 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -16,8 +16,7 @@ pub enum PngDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
-    let sect5_data = &target.sect5_payload;
-    let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
 
     let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
         GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 33888c1..56fae28 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -15,18 +15,19 @@ pub enum RunLengthEncodingDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<std::vec::IntoIter<f32>, GribError> {
-    let sect5_data = &target.sect5_payload;
-    let nbit = read_as!(u8, sect5_data, 6);
-    let maxv = read_as!(u16, sect5_data, 7);
-    let max_level = read_as!(u16, sect5_data, 9);
-    let num_digits = read_as!(u8, sect5_data, 11);
+    let params = target.sect5_octets(6..12)?;
+    let nbit = read_as!(u8, params, 0);
+    let maxv = read_as!(u16, params, 1);
+    let max_level = read_as!(u16, params, 3);
+    let num_digits = read_as!(u8, params, 5);
+    let level_octets = target.sect5_octets(12..12 + usize::from(max_level) * 2)?;
 
     let mut level_map = Vec::with_capacity(max_level.into());
     level_map.push(f32::NAN);
-    let mut pos = 12;
+    let mut pos = 0;
 
     for _ in 0..max_level {
-        let val: f32 = read_as!(u16, sect5_data, pos).into();
+        let val: f32 = read_as!(u16, level_octets, pos).into();
         let num_digits: i32 = num_digits.into();
         let factor = 10_f32.powi(-num_digits);
         let val = val * factor;
diff --git a/src/decoder/simple.rs b/src/decoder/simple.rs
index b7aeecc..4c7d70c 100644
--- a/src/decoder/simple.rs
+++ b/src/decoder/simple.rs
@@ -48,8 +48,7 @@ pub enum SimplePackingDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
-    let sect5_data = &target.sect5_payload;
-    let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
 
     let decoder = if param.nbit == 0 {
         SimplePackingDecodeIteratorWrapper::FixedValue(FixedValueIterator::new(
-- 
2.43.0


From 9be3cf089e7411c4e3c1051fb6f1efe970cf88b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 06/23] fix: decode run-length packed data without overflow

Maximum values and bit widths at the limits of their fields, run lengths
beyond the number of points and bits filling up the last octet made the
decoder panic, loop, exhaust memory or reject valid data.
---
 src/decoder.rs              |  5 ++++-
 src/decoder/complex/diff.rs | 11 ++++++-----
 src/decoder/run_length.rs   | 33 ++++++++++++++++++++++++---------
 src/decoder/stream.rs       |  7 +++++++
 4 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b7557bf..7440dc6 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -97,7 +97,10 @@ impl Grib2SubmessageDecoder {
         let bitmap = match sect6_body.bitmap_indicator {
             0x00 => {
                 let sect6_data = reader.read_sect_payload_as_slice(sect6)?;
-                sect6_data.get(1..).ok_or(DecodeError::LengthMismatch)?.into()
+                sect6_data
+                    .get(1..)
+                    .ok_or(DecodeError::LengthMismatch)?
+                    .into()
             }
             0xff => {
                 let num_points = sect3_num_points;
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index c236801..7f90c6a 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -23,11 +23,12 @@ impl<'a> SpatialDifferencingExtraDescriptors<'a> {
         let num_octets = usize::from(num_octets);
         let byte_length = usize::from(spdiff_order + 1) * num_octets;
 
-        let slice = parent_slice
-            .get(..byte_length)
-            .ok_or(DecodeError::ComplexPackingDecodeError(
-                ComplexPackingDecodeError::LengthMismatch,
-            ))?;
+        let slice =
+            parent_slice
+                .get(..byte_length)
+                .ok_or(DecodeError::ComplexPackingDecodeError(
+                    ComplexPackingDecodeError::LengthMismatch,
+                ))?;
 
         Ok(Self { slice, num_octets })
     }
diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 56fae28..416f1fb 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -64,28 +64,43 @@ fn rleunpack(
     maxv: u16,
     expected_len: Option<usize>,
 ) -> Result<Box<[u16]>, RunLengthEncodingDecodeError> {
+    if nbit == 0 || nbit > 16 {
+        return Err(RunLengthEncodingDecodeError::NotSupported);
+    }
+
     let mut out_buf = match expected_len {
         Some(sz) => Vec::with_capacity(sz),
         None => Vec::new(),
     };
 
-    let rlbase = maxv + 1;
-    let lngu: usize = ((1u16 << nbit) - rlbase).into();
+    let rlbase = u32::from(maxv) + 1;
+    let lngu = (1u32 << nbit).saturating_sub(rlbase) as usize;
     let mut cached = None;
     let mut exp: usize = 1;
-    let iter = NBitwiseIterator::new(input, usize::from(nbit));
-
-    for value in iter {
-        let value = value as u16;
+    let mut iter = NBitwiseIterator::new(input, usize::from(nbit));
+
+    loop {
+        let may_be_padding = expected_len == Some(out_buf.len()) && iter.num_bits_left() < 8;
+        let value = match iter.next() {
+            // bits filling up the last octet
+            Some(0) if may_be_padding => break,
+            Some(value) => value,
+            None => break,
+        };
         if rlbase > value {
+            let value = value as u16;
             out_buf.push(value);
             cached = Some(value);
             exp = 1;
         } else {
             let prev = cached.ok_or(RunLengthEncodingDecodeError::InvalidFirstValue)?;
-            let length: usize = ((value - rlbase) as usize) * exp;
-            out_buf.append(&mut vec![prev; length]);
-            exp *= lngu;
+            let length = ((value - rlbase) as usize)
+                .checked_mul(exp)
+                .and_then(|length| length.checked_add(out_buf.len()))
+                .filter(|length| expected_len.map_or(true, |expected| *length <= expected))
+                .ok_or(RunLengthEncodingDecodeError::LengthMismatch)?;
+            out_buf.resize(length, prev);
+            exp = exp.saturating_mul(lngu);
         }
     }
 
diff --git a/src/decoder/stream.rs b/src/decoder/stream.rs
index 1340b1d..342e44c 100644
--- a/src/decoder/stream.rs
+++ b/src/decoder/stream.rs
@@ -78,6 +78,13 @@ impl<T> NBitwiseIterator<T> {
         }
     }
 
+    pub(crate) fn num_bits_left(&self) -> usize
+    where
+        T: AsRef<[u8]>,
+    {
+        (self.data.as_ref().len() - self.pos) * 8 - self.offset
+    }
+
     pub(crate) fn with_offset(self, offset_bits: usize) -> Self {
         Self {
             offset: offset_bits,
-- 
2.43.0


From c6d865b84872e3030bd96f203d26d7f834d0ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 07/23] fix: read the decimal scale factor of run-length packed
 levels as signed

---
 src/decoder/run_length.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 416f1fb..232432b 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -1,7 +1,7 @@
 use crate::{
     decoder::{stream::NBitwiseIterator, DecodeError, Grib2SubmessageDecoder},
     error::*,
-    helpers::read_as,
+    helpers::{read_as, GribInt},
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -19,7 +19,7 @@ pub(crate) fn decode(
     let nbit = read_as!(u8, params, 0);
     let maxv = read_as!(u16, params, 1);
     let max_level = read_as!(u16, params, 3);
-    let num_digits = read_as!(u8, params, 5);
+    let num_digits = read_as!(u8, params, 5).as_grib_int();
     let level_octets = target.sect5_octets(12..12 + usize::from(max_level) * 2)?;
 
     let mut level_map = Vec::with_capacity(max_level.into());
-- 
2.43.0


From 6997a1530da67580b27731bb3a2ea216af1cecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 08/23] fix: report data holding fewer values than grid points

Decoding simple-packed or PNG data with a Section 7 too short for the
number of values, or a bitmap marking more points than there are values,
silently stopped in the middle of the grid. Bit widths beyond 32 were
accepted and truncated.
---
 src/decoder.rs        | 13 ++++++++++++-
 src/decoder/bitmap.rs | 12 ++++++++++++
 src/decoder/png.rs    |  9 +++++++++
 src/decoder/simple.rs | 13 ++++++++++++-
 4 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 7440dc6..6a81d44 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -8,7 +8,9 @@ use crate::decoder::jpeg2000::Jpeg2000CodeStreamDecodeError;
 use crate::{
     context::{SectionBody, SubMessage},
     decoder::{
-        bitmap::{create_bitmap_for_nonnullable_data, BitmapDecodeIterator},
+        bitmap::{
+            count_points_with_values, create_bitmap_for_nonnullable_data, BitmapDecodeIterator,
+        },
         complex::ComplexPackingDecodeError,
         png::PngDecodeError,
         run_length::RunLengthEncodingDecodeError,
@@ -131,6 +133,12 @@ impl Grib2SubmessageDecoder {
             .ok_or(GribError::DecodeError(DecodeError::LengthMismatch))
     }
 
+    /// Returns `true` if `data` is long enough to hold all encoded values of
+    /// `nbit` bits.
+    pub(crate) fn has_all_encoded_values(&self, data: &[u8], nbit: u8) -> bool {
+        self.num_points_encoded as u64 * u64::from(nbit) <= data.len() as u64 * 8
+    }
+
     /// Dispatches a decoding process and gets an iterator of decoded values.
     pub fn dispatch(
         &self,
@@ -149,6 +157,9 @@ impl Grib2SubmessageDecoder {
                 ))
             }
         };
+        if count_points_with_values(&self.bitmap, self.num_points_total) > self.num_points_encoded {
+            return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+        }
         let decoder =
             BitmapDecodeIterator::new(self.bitmap.iter(), decoder, self.num_points_total)?;
         Ok(Grib2DecodedValues(decoder))
diff --git a/src/decoder/bitmap.rs b/src/decoder/bitmap.rs
index 28b7c82..22d815e 100644
--- a/src/decoder/bitmap.rs
+++ b/src/decoder/bitmap.rs
@@ -69,6 +69,18 @@ fn has_zero_at_offset(byte: &u8, offset: &usize) -> bool {
     masked == 0
 }
 
+/// Counts the grid points for which the bitmap indicates the presence of a
+/// value.
+pub(crate) fn count_points_with_values(bitmap: &[u8], num_points: usize) -> usize {
+    let (div, mod_) = (num_points / 8, num_points % 8);
+    let count = |bytes: &[u8]| bytes.iter().map(|b| b.count_ones() as usize).sum::<usize>();
+    let full = count(&bitmap[..div.min(bitmap.len())]);
+    let rest = bitmap
+        .get(div)
+        .map_or(0, |byte| (byte & !(0xff >> mod_)).count_ones() as usize);
+    full + rest
+}
+
 pub(crate) fn create_bitmap_for_nonnullable_data(num_points: usize) -> Vec<u8> {
     let (div, mod_) = (num_points / 8, num_points % 8);
     if mod_ == 0 {
diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index a684a36..97eb3a5 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -43,6 +43,15 @@ pub(crate) fn decode(
         );
     }
 
+    if param.nbit > 32 {
+        return Err(GribError::DecodeError(DecodeError::PngDecodeError(
+            PngDecodeError::NotSupported,
+        )));
+    }
+    if !target.has_all_encoded_values(&buf, param.nbit) {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
+
     let iter = NBitwiseIterator::new(buf, usize::from(param.nbit));
     let iter = SimplePackingDecodeIterator::new(iter, &param);
     let iter = SimplePackingDecodeIteratorWrapper::SimplePacking(iter);
diff --git a/src/decoder/simple.rs b/src/decoder/simple.rs
index 4c7d70c..6653bd3 100644
--- a/src/decoder/simple.rs
+++ b/src/decoder/simple.rs
@@ -4,7 +4,7 @@ use crate::{
     decoder::{
         param::SimplePackingParam,
         stream::{FixedValueIterator, NBitwiseIterator},
-        Grib2SubmessageDecoder,
+        DecodeError, Grib2SubmessageDecoder,
     },
     error::*,
 };
@@ -56,6 +56,17 @@ pub(crate) fn decode(
             target.num_points_encoded,
         ))
     } else {
+        if param.nbit > 32 {
+            return Err(GribError::DecodeError(
+                DecodeError::SimplePackingDecodeError(SimplePackingDecodeError::NotSupported),
+            ));
+        }
+        if !target.has_all_encoded_values(&target.sect7_payload, param.nbit) {
+            return Err(GribError::DecodeError(
+                DecodeError::SimplePackingDecodeError(SimplePackingDecodeError::LengthMismatch),
+            ));
+        }
+
         let iter = NBitwiseIterator::new(&target.sect7_payload, usize::from(param.nbit));
         let iter = SimplePackingDecodeIterator::new(iter, &param);
         SimplePackingDecodeIteratorWrapper::SimplePacking(iter)
-- 
2.43.0


From 5e39233532eee7583f0939a1c15593e7bfe1ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 09/23] fix: take the size of JPEG 2000 data from the component
 that owns it

The size of the reference grid was used instead, which reads out of the
bounds of the component data if the component is subsampled or the image
has an offset. Too few samples are now an error.
---
 src/decoder/jpeg2000.rs     | 28 +++++++++++++++++-----------
 src/decoder/jpeg2000/ext.rs | 26 +++-----------------------
 2 files changed, 20 insertions(+), 34 deletions(-)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index da37cc7..57d809d 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -41,12 +41,21 @@ pub(crate) fn decode(
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
     let jp2_unpacked = decode_jp2(stream)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
+    if jp2_unpacked.len() < target.num_points_encoded {
+        return Err(GribError::DecodeError(
+            DecodeError::Jpeg2000CodeStreamDecodeError(
+                Jpeg2000CodeStreamDecodeError::LengthMismatch,
+            ),
+        ));
+    }
     let decoder = SimplePackingDecodeIterator::new(jp2_unpacked, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
 }
 
-fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
+fn decode_jp2(
+    stream: Stream,
+) -> Result<impl ExactSizeIterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
     let codec = Codec::j2k()?;
 
     let mut decode_params = unsafe { std::mem::zeroed::<opj::opj_dparameters>() };
@@ -69,17 +78,14 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
     drop(codec);
     drop(stream);
 
-    let width = image.width();
-    let height = image.height();
-    let factor = image.factor();
-
-    let width = value_for_discard_level(width, factor);
-    let height = value_for_discard_level(height, factor);
-
     if let [comp_gray] = image.components() {
-        let vec = unsafe {
-            std::slice::from_raw_parts(comp_gray.data, (width * height) as usize).to_vec()
-        };
+        if comp_gray.data.is_null() {
+            return Err(Jpeg2000CodeStreamDecodeError::BodyReadError);
+        }
+        // The size of the component, which owns the data, differs from that of the
+        // image if the image has an offset or the component is subsampled.
+        let len = comp_gray.w as usize * comp_gray.h as usize;
+        let vec = unsafe { std::slice::from_raw_parts(comp_gray.data, len).to_vec() };
         Ok(vec.into_iter())
     } else {
         Err(Jpeg2000CodeStreamDecodeError::NotSupported)
diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index 9b71972..c527967 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -130,35 +130,15 @@ impl Image {
         Image(ptr::null_mut())
     }
 
-    pub(crate) fn width(&self) -> u32 {
-        unsafe { (*self.0).x1 - (*self.0).x0 }
-    }
-
-    pub(crate) fn height(&self) -> u32 {
-        unsafe { (*self.0).y1 - (*self.0).y0 }
-    }
-
     pub(crate) fn num_components(&self) -> u32 {
         unsafe { (*self.0).numcomps }
     }
 
     pub(crate) fn components(&self) -> &[opj::opj_image_comp_t] {
         let comps_len = self.num_components();
+        if comps_len == 0 {
+            return &[];
+        }
         unsafe { std::slice::from_raw_parts((*self.0).comps, comps_len as usize) }
     }
-
-    pub(crate) fn factor(&self) -> u32 {
-        unsafe { (*(*self.0).comps).factor }
-    }
-}
-
-pub(crate) fn value_for_discard_level(u: u32, discard_level: u32) -> u32 {
-    let div = 1 << discard_level;
-    let quot = u / div;
-    let rem = u % div;
-    if rem > 0 {
-        quot + 1
-    } else {
-        quot
-    }
 }
-- 
2.43.0


From 8e208487109548dec4054fe5b73b84baa2a38fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 10/23] fix: tell OpenJPEG the end of the code stream

OpenJPEG repeats reads that return 0, so decoding a truncated code stream
never ended.
---
 src/decoder/jpeg2000/ext.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index c527967..2b33eb4 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -62,6 +62,11 @@ impl Stream {
 
             let bytes_left = len - offset;
 
+            if bytes_left == 0 {
+                // OpenJPEG keeps calling this function unless the end of the stream is told.
+                return usize::MAX;
+            }
+
             let bytes_read = std::cmp::min(bytes_left, p_nb_bytes);
 
             let slice = &(*user_data).buf[offset..offset + bytes_read];
-- 
2.43.0


From 64eba83f091343c4eb546f1fd3124b2d8c1c1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 11/23] fix: validate the groups of complex packed data before
 decoding

Group counts, widths and lengths that do not fit the data or the number
of points, references of 2^31 or more, groups of 32-bit values and
overflowing sums made the decoder panic, exhaust memory or yield wrong
values or fewer values than points.
---
 src/decoder/complex.rs      | 125 +++++++++++++++++++++++-------------
 src/decoder/complex/diff.rs |   6 +-
 src/decoder/stream.rs       |   2 +
 3 files changed, 87 insertions(+), 46 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 70d41fe..e6e9569 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -18,7 +18,6 @@ use crate::{
         DecodeError, Grib2SubmessageDecoder,
     },
     error::*,
-    helpers::GribInt,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -46,7 +45,13 @@ pub(crate) fn decode_7_2(
 
     let sect7_data = &target.sect7_payload;
 
-    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0);
+    let unpacked_data = decode_complex_packing(
+        complex_param,
+        sect7_data,
+        target.num_points_encoded,
+        simple_param.nbit,
+        0,
+    )?;
     let decoder = SimplePackingDecodeIterator::new(unpacked_data, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
@@ -86,11 +91,11 @@ pub(crate) fn decode_7_3(
 
     let unpacked_data = decode_complex_packing(
         complex_param,
-        sect7_data,
-        sect7_params.len(),
+        &sect7_data[sect7_params.len()..],
+        target.num_points_encoded,
         simple_param.nbit,
         sect7_params.minimum(),
-    );
+    )?;
     let first_values = sect7_params.first_values();
     let first_values = first_values.collect::<Vec<_>>().into_iter();
     let spdiff_unpacked = match spdiff_order {
@@ -110,59 +115,91 @@ pub(crate) fn decode_7_3(
 fn decode_complex_packing(
     complex_param: ComplexPackingParam,
     sect7_data: &[u8],
-    sect7_offset: usize,
+    num_points: usize,
     nbit: u8,
     z_min: i32,
-) -> impl Iterator<Item = DecodedValue<i32>> + '_ {
-    fn get_octet_length(nbit: u8, ngroup: u32) -> usize {
-        let total_bit: u32 = ngroup * u32::from(nbit);
-        let total_octet = (total_bit + 0b111) >> 3;
-        total_octet as usize
+) -> Result<impl Iterator<Item = DecodedValue<i32>> + '_, GribError> {
+    let error = |e| GribError::DecodeError(DecodeError::ComplexPackingDecodeError(e));
+    if [
+        nbit,
+        complex_param.group_width_nbit,
+        complex_param.group_len_nbit,
+    ]
+    .iter()
+    .any(|nbit| usize::from(*nbit) > MAX_NBIT)
+    {
+        return Err(error(ComplexPackingDecodeError::NotSupported));
     }
 
-    let params_end_octet = sect7_offset;
-    let group_refs_end_octet = params_end_octet + get_octet_length(nbit, complex_param.ngroup);
-    let group_widths_end_octet = group_refs_end_octet
-        + get_octet_length(complex_param.group_width_nbit, complex_param.ngroup);
-    let group_lens_end_octet = group_widths_end_octet
-        + get_octet_length(complex_param.group_len_nbit, complex_param.ngroup);
+    let ngroup = complex_param.ngroup as usize;
+    let count_group_octets = |data: &'_ [u8], nbit: u8| {
+        let num_bits = u64::from(complex_param.ngroup) * u64::from(nbit);
+        let num_octets = (num_bits + 0b111) >> 3;
+        if num_octets > data.len() as u64 {
+            return Err(error(ComplexPackingDecodeError::LengthMismatch));
+        }
+        Ok(num_octets as usize)
+    };
+    let (group_refs, rest) = sect7_data.split_at(count_group_octets(sect7_data, nbit)?);
+    let (group_widths, rest) =
+        rest.split_at(count_group_octets(rest, complex_param.group_width_nbit)?);
+    let (group_lens, data) = rest.split_at(count_group_octets(rest, complex_param.group_len_nbit)?);
 
-    let group_refs_iter = BitStream::new(
-        &sect7_data[params_end_octet..group_refs_end_octet],
-        usize::from(nbit),
-        complex_param.ngroup as usize,
-    );
-    let group_refs_iter = group_refs_iter.take(complex_param.ngroup as usize);
+    let group_refs_iter = BitStream::new(group_refs, usize::from(nbit), ngroup);
+    let group_refs_iter = group_refs_iter.take(ngroup);
 
     let group_widths_iter = BitStream::new(
-        &sect7_data[group_refs_end_octet..group_widths_end_octet],
+        group_widths,
         usize::from(complex_param.group_width_nbit),
-        complex_param.ngroup as usize,
+        ngroup,
     );
     let group_widths_iter = group_widths_iter
-        .take(complex_param.ngroup as usize)
-        .map(move |v| u32::from(complex_param.group_width_ref) + v);
+        .take(ngroup)
+        .map(move |v| u64::from(complex_param.group_width_ref) + u64::from(v));
 
+    let num_lens = ngroup.saturating_sub(1);
     let group_lens_iter = BitStream::new(
-        &sect7_data[group_widths_end_octet..group_lens_end_octet],
+        group_lens,
         usize::from(complex_param.group_len_nbit),
-        (complex_param.ngroup - 1) as usize,
+        num_lens,
     );
     let group_lens_iter = group_lens_iter
-        .take((complex_param.ngroup - 1) as usize)
-        .map(move |v| complex_param.group_len_ref + u32::from(complex_param.group_len_inc) * v)
-        .chain(iter::once(complex_param.group_len_last));
+        .take(num_lens)
+        .map(move |v| {
+            u64::from(complex_param.group_len_ref)
+                + u64::from(complex_param.group_len_inc) * u64::from(v)
+        })
+        .chain(iter::once(u64::from(complex_param.group_len_last)));
+
+    let (mut num_values, mut num_bits) = (0_u64, 0_u64);
+    for (width, length) in group_widths_iter.clone().zip(group_lens_iter.clone()) {
+        if width > MAX_NBIT as u64 {
+            return Err(error(ComplexPackingDecodeError::NotSupported));
+        }
+        num_values = num_values.saturating_add(length);
+        num_bits = num_bits.saturating_add(width * length);
+    }
+    if num_values != num_points as u64 || num_bits > data.len() as u64 * 8 {
+        return Err(error(ComplexPackingDecodeError::LengthMismatch));
+    }
 
-    ComplexPackingValueDecodeIterator::new(
+    let iter = ComplexPackingValueDecodeIterator::new(
         group_refs_iter,
         group_widths_iter,
         group_lens_iter,
         complex_param.missing_value_management_used,
         nbit,
         z_min,
-        sect7_data[group_lens_end_octet..].to_vec(),
-    )
-    .flatten()
+        data.to_vec(),
+    );
+    Ok(iter.flatten())
+}
+
+const MAX_NBIT: usize = 32;
+
+// `nbit` must not be greater than `MAX_NBIT`.
+fn all_ones(nbit: usize) -> u32 {
+    u32::MAX.checked_shr((MAX_NBIT - nbit) as u32).unwrap_or(0)
 }
 
 #[derive(Clone)]
@@ -222,30 +259,30 @@ where
             (Some(_ref), Some(width), Some(length)) if width.to_usize().unwrap() == 0 => {
                 // The specification states as follows: "For groups with a constant value,
                 // associated field width is 0, and no incremental data are physically present."
-                let _ref = _ref.to_i32().unwrap();
+                let _ref = _ref.to_u32().unwrap();
                 let length = length.to_usize().unwrap();
-                let missing1 = (1 << self.nbit) - 1;
-                let missing2 = missing1 - 1;
+                let missing1 = all_ones(self.nbit.into());
+                let missing2 = missing1.wrapping_sub(1);
 
                 if self.missing_value_management > 0 && _ref == missing1 {
                     Some(vec![Missing1; length])
                 } else if self.missing_value_management == 2 && _ref == missing2 {
                     Some(vec![Missing2; length])
                 } else {
-                    Some(vec![Normal(_ref + self.z_min); length])
+                    Some(vec![Normal((_ref as i32).wrapping_add(self.z_min)); length])
                 }
             }
             (Some(_ref), Some(width), Some(length)) => {
                 let (_ref, width, length) = (
-                    _ref.to_i32().unwrap(),
+                    _ref.to_u32().unwrap() as i32,
                     width.to_usize().unwrap(),
                     length.to_usize().unwrap(),
                 );
                 let bits = self.start_offset_bits + width * length;
                 let (pos_end, offset_bits) = (self.pos + bits / 8, bits % 8);
                 let offset_byte = usize::from(offset_bits > 0);
-                let missing1 = (1 << width) - 1;
-                let missing2 = missing1 - 1;
+                let missing1 = all_ones(width);
+                let missing2 = missing1.wrapping_sub(1);
                 let group_values =
                     NBitwiseIterator::new(&self.data[self.pos..pos_end + offset_byte], width)
                         .with_offset(self.start_offset_bits)
@@ -256,7 +293,7 @@ where
                             } else if self.missing_value_management == 2 && v == missing2 {
                                 Missing2
                             } else {
-                                Normal(v.as_grib_int() + _ref + self.z_min)
+                                Normal((v as i32).wrapping_add(_ref).wrapping_add(self.z_min))
                             }
                         })
                         .collect::<Vec<_>>();
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index 7f90c6a..81160b3 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -138,7 +138,7 @@ where
                     Some(Normal(self.prev))
                 }
                 _ => {
-                    let v = v + self.prev;
+                    let v = v.wrapping_add(self.prev);
                     self.prev = v;
                     Some(Normal(v))
                 }
@@ -190,7 +190,9 @@ where
                     Some(Normal(self.prev1))
                 }
                 _ => {
-                    let v = v + 2 * self.prev1 - self.prev2;
+                    let v = v
+                        .wrapping_add(self.prev1.wrapping_mul(2))
+                        .wrapping_sub(self.prev2);
                     self.prev2 = self.prev1;
                     self.prev1 = v;
                     Some(Normal(v))
diff --git a/src/decoder/stream.rs b/src/decoder/stream.rs
index 342e44c..d31dcdc 100644
--- a/src/decoder/stream.rs
+++ b/src/decoder/stream.rs
@@ -1,3 +1,4 @@
+#[derive(Clone)]
 pub(crate) enum BitStream<T> {
     ZeroSized(FixedValueIterator<u32>),
     NonZeroSized(NBitwiseIterator<T>),
@@ -29,6 +30,7 @@ where
     }
 }
 
+#[derive(Clone)]
 pub(crate) struct FixedValueIterator<T> {
     val: T,
     length: usize,
-- 
2.43.0


From 14f834ed6fa6a80014f912188757dfcbb7689d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 12/23] fix: handle Sections 3 and 4 too short for their
 templates

Reading grid definitions, forecast times and fixed surfaces from such
sections panicked.
---
 src/datatypes/sections.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 242550d..e6aad0f 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -266,6 +266,17 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
 
     fn try_from(value: &GridDefinition) -> Result<Self, Self::Error> {
         let num = value.grid_tmpl_num();
+        let min_len = match num {
+            0 | 40 => 67,
+            20 => 60,
+            30 => 68,
+            _ => 0,
+        };
+        if value.payload.len() < min_len {
+            return Err(GribError::InvalidValueError(format!(
+                "grid definition section is too short for template {num}"
+            )));
+        }
         match num {
             0 => {
                 let buf = &value.payload;
@@ -434,11 +445,12 @@ impl ProdDefinition {
                 _ => None,
             }?;
             let unit_index = START_OF_PROD_TEMPLATE + unit_index;
-            let unit = self.payload.get(unit_index).copied();
+            let unit = self.payload.get(unit_index).copied()?;
             let start = unit_index + 1;
             let end = unit_index + 5;
-            let time = u32::from_be_bytes(self.payload[start..end].try_into().unwrap());
-            unit.map(|v| ForecastTime::from_numbers(v, time))
+            let time = self.payload.get(start..end)?;
+            let time = u32::from_be_bytes(time.try_into().unwrap());
+            Some(ForecastTime::from_numbers(unit, time))
         } else {
             None
         }
@@ -487,8 +499,8 @@ impl ProdDefinition {
         let scale_factor = self.payload.get(index + 1).map(|v| (*v).as_grib_int());
         let start = index + 2;
         let end = index + 6;
-        let scaled_value =
-            u32::from_be_bytes(self.payload[start..end].try_into().unwrap()).as_grib_int();
+        let scaled_value = self.payload.get(start..end)?;
+        let scaled_value = u32::from_be_bytes(scaled_value.try_into().unwrap()).as_grib_int();
         surface_type
             .zip(scale_factor)
             .map(|(stype, factor)| FixedSurface::new(stype, factor, scaled_value))
-- 
2.43.0


From dd690b50d78564ddc1b219b034cb8fcb336bfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 13/23] fix: handle regular grids with a single or no row or
 column

Computing their latitudes and longitudes underflowed or divided by zero,
iterating over empty rows never ended, grids with equal first and last
latitudes were rejected depending on the scanning mode, and distant first
and last points overflowed.
---
 src/grid.rs          |  2 ++
 src/grid/gaussian.rs |  7 ++++---
 src/grid/helpers.rs  | 18 +++++++++++-------
 src/grid/latlon.rs   |  9 +++++----
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/grid.rs b/src/grid.rs
index c77eea0..7f75988 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -62,6 +62,8 @@ impl GridPointIndexIterator {
         } else {
             (i_len, j_len)
         };
+        // There are no points at all if rows (or columns) are empty.
+        let major_len = if minor_len == 0 { 0 } else { major_len };
 
         Self {
             major_len,
diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 9a439d6..c620462 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -74,7 +74,7 @@ impl GaussianGridDefinition {
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni as usize,
             self.scanning_mode,
         );
 
@@ -83,8 +83,9 @@ impl GaussianGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        self.last_point_lat == self.first_point_lat
+            || (self.last_point_lat > self.first_point_lat)
+                == self.scanning_mode.scans_positively_for_j()
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index 1ec1d55..593eb1f 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -8,11 +8,11 @@ use crate::{GribError, GridPointIndexIterator};
 pub(crate) fn evenly_spaced_longitudes(
     start_microdegree: i32,
     end_microdegree: i32,
-    div: usize,
+    num: usize,
     scanning_mode: ScanningMode,
 ) -> Vec<f32> {
-    let diff = end_microdegree - start_microdegree;
-    let is_consistent = !((diff > 0) ^ scanning_mode.scans_positively_for_i());
+    let is_consistent = start_microdegree == end_microdegree
+        || (end_microdegree > start_microdegree) == scanning_mode.scans_positively_for_i();
 
     let (start, end) = (start_microdegree as f32, end_microdegree as f32);
     let (start, end) = if is_consistent {
@@ -23,7 +23,7 @@ pub(crate) fn evenly_spaced_longitudes(
         (start + 360_000_000_f32, end)
     };
 
-    let lons = evenly_spaced_degrees(start, end, div);
+    let lons = evenly_spaced_degrees(start, end, num);
 
     if is_consistent {
         lons
@@ -37,10 +37,14 @@ pub(crate) fn evenly_spaced_longitudes(
 pub(crate) fn evenly_spaced_degrees(
     start_microdegree: f32,
     end_microdegree: f32,
-    div: usize,
+    num: usize,
 ) -> Vec<f32> {
-    let delta = (end_microdegree - start_microdegree) / div as f32;
-    (0..=div)
+    let delta = if num > 1 {
+        (end_microdegree - start_microdegree) / (num - 1) as f32
+    } else {
+        0.0
+    };
+    (0..num)
         .map(move |x| (start_microdegree + x as f32 * delta) / 1_000_000_f32)
         .collect()
 }
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index ca60a1e..718b1f0 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -122,12 +122,12 @@ impl LatLonGridDefinition {
         let lat = evenly_spaced_degrees(
             self.first_point_lat as f32,
             self.last_point_lat as f32,
-            (self.nj - 1) as usize,
+            self.nj as usize,
         );
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni as usize,
             self.scanning_mode,
         );
 
@@ -136,8 +136,9 @@ impl LatLonGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        self.last_point_lat == self.first_point_lat
+            || (self.last_point_lat > self.first_point_lat)
+                == self.scanning_mode.scans_positively_for_j()
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
-- 
2.43.0


From d372aa8aefdadf0801079989eb682b3bab4340db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 14/23] fix: apply scale factors of Earth radii as divisors

The scale factors are signed decimal exponents by which the actual values
were multiplied to get the scaled ones.
---
 src/grid/earth.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/grid/earth.rs b/src/grid/earth.rs
index e526f9b..f279555 100644
--- a/src/grid/earth.rs
+++ b/src/grid/earth.rs
@@ -1,4 +1,4 @@
-use crate::helpers::read_as;
+use crate::helpers::{read_as, GribInt};
 
 #[derive(Debug, PartialEq, Eq)]
 pub struct EarthShapeDefinition {
@@ -16,11 +16,10 @@ impl EarthShapeDefinition {
         let radii = match self.shape_of_the_earth {
             0 => (6367470.0, 6367470.0),
             1 => {
-                let radius = f64::from(self.scaled_value_of_radius_of_spherical_earth)
-                    * f64::powf(
-                        10.,
-                        f64::from(self.scale_factor_of_radius_of_spherical_earth),
-                    );
+                let radius = unscale(
+                    self.scale_factor_of_radius_of_spherical_earth,
+                    self.scaled_value_of_radius_of_spherical_earth,
+                );
                 (radius, radius)
             }
             2 => (6378160.0, 6356775.0),
@@ -39,10 +38,14 @@ impl EarthShapeDefinition {
     }
 
     fn radii_defined(&self) -> (f64, f64) {
-        let major = f64::from(self.scaled_value_of_earth_major_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_major_axis));
-        let minor = f64::from(self.scaled_value_of_earth_minor_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_minor_axis));
+        let major = unscale(
+            self.scale_factor_of_earth_major_axis,
+            self.scaled_value_of_earth_major_axis,
+        );
+        let minor = unscale(
+            self.scale_factor_of_earth_minor_axis,
+            self.scaled_value_of_earth_minor_axis,
+        );
         (major, minor)
     }
 
@@ -66,6 +69,10 @@ impl EarthShapeDefinition {
     }
 }
 
+fn unscale(scale_factor: u8, scaled_value: u32) -> f64 {
+    f64::from(scaled_value) * f64::powi(10., -i32::from(scale_factor.as_grib_int()))
+}
+
 #[cfg(test)]
 mod tests {
     use std::{
-- 
2.43.0


From 891381969a8e5588cffed27ea099e0dda6c9b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 15/23] fix: avoid overflow in the initial guess of Gaussian
 latitudes

---
 src/grid/gaussian.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index c620462..90c2da9 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -156,7 +156,8 @@ pub fn compute_gaussian_latitudes(div: usize) -> impl Iterator<Item = Option<f64
 //   Gauss-Legendre quadrature, Journal of Computational and Applied Mathematics,
 //   Volume 59, Issue 2, 1995, Pages 245-252, ISSN 0377-0427, https://doi.org/10.1016/0377-0427(94)00030-5.
 fn legendre_roots_iterator(n: usize) -> impl Iterator<Item = Option<f64>> {
-    let coeff = 1.0_f64 - 1.0 / (8 * n * n) as f64 + 1.0 / (8 * n * n * n) as f64;
+    let n_squared = n as f64 * n as f64;
+    let coeff = 1.0_f64 - 1.0 / (8.0 * n_squared) + 1.0 / (8.0 * n_squared * n as f64);
     (0..n).map(move |i| {
         let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
         find_root(guess, |x| {
-- 
2.43.0


From 0f3fc7850d34ca03af3b3af6ca9ea2138e68111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 16/23] fix: read the 2-octet forecast time of Product
 Definition Template 4.44

Octets of the first fixed surface were taken as part of the time.
---
 src/datatypes/sections.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index e6aad0f..45f219d 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -447,9 +447,15 @@ impl ProdDefinition {
             let unit_index = START_OF_PROD_TEMPLATE + unit_index;
             let unit = self.payload.get(unit_index).copied()?;
             let start = unit_index + 1;
-            let end = unit_index + 5;
-            let time = self.payload.get(start..end)?;
-            let time = u32::from_be_bytes(time.try_into().unwrap());
+            // Template 4.44 has a forecast time of 2 octets, immediately followed by the
+            // fixed surfaces.
+            let time = if self.prod_tmpl_num() == 44 {
+                let time = self.payload.get(start..start + 2)?;
+                u16::from_be_bytes(time.try_into().unwrap()).into()
+            } else {
+                let time = self.payload.get(start..start + 4)?;
+                u32::from_be_bytes(time.try_into().unwrap())
+            };
             Some(ForecastTime::from_numbers(unit, time))
         } else {
             None
-- 
2.43.0


From 51c00a6205feeca3f20281dbf3b494257767bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:24 +0000
Subject: [PATCH 17/23] fix: reject ranges of codes that end before they start

Their size underflowed while the code tables are generated.
---
 gen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index a42eb0b..ae13094 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -51,6 +51,9 @@ impl FromStr for CodeRange {
 
         let pos = read_hyphen(input, pos)?;
         let (end, _pos) = read_number(input, pos)?;
+        if end < start {
+            return Err(CodeRangeParseError::InvalidRange);
+        }
 
         Ok(CodeRange { start, end })
     }
@@ -59,6 +62,7 @@ impl FromStr for CodeRange {
 pub enum CodeRangeParseError {
     NumberNotFound,
     HyphenNotFound,
+    InvalidRange,
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-- 
2.43.0


From 88c761d11aef1bcfb3123d79cd9a1ffaac3c9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:20 +0000
Subject: [PATCH 18/23] fix: report message indices too large for the platform
 instead of panicking

---
 cli/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/cli.rs b/cli/src/cli.rs
index 74c0517..aac21d9 100644
--- a/cli/src/cli.rs
+++ b/cli/src/cli.rs
@@ -80,9 +80,9 @@ impl std::str::FromStr for CliMessageIndex {
             )
         })?;
         let message_index = cap.get(1).unwrap();
-        let message_index = usize::from_str(message_index.as_str()).unwrap();
+        let message_index = usize::from_str(message_index.as_str())?;
         let submessage_index = cap.get(2).unwrap();
-        let submessage_index = usize::from_str(submessage_index.as_str()).unwrap();
+        let submessage_index = usize::from_str(submessage_index.as_str())?;
         let inner = (message_index, submessage_index);
         Ok(Self(inner))
     }
-- 
2.43.0


From 8f39453105b5e8440a15194d5c9af207ea0c8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:20 +0000
Subject: [PATCH 19/23] fix: count the lines of list --dump as many as are
 printed

---
 cli/src/commands/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 885d54d..57acd5e 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -55,7 +55,7 @@ impl<R> cli::PredictableNumLines for ListView<'_, R> {
                 header_height + len
             }
             ListViewMode::Dump => {
-                let unit_height = 8; // lines of output from SubMessage.describe(), hard-coded as of now
+                let unit_height = 16; // lines of output from SubMessage.describe(), hard-coded as of now
                 let (len, _) = self.data.size_hint();
                 (unit_height + 2) * len - 1
             }
-- 
2.43.0


From f3b4c72be6d9a240d7cc066355d9698d01935817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:20 +0000
Subject: [PATCH 20/23] fix: count the header line of the list of submessages
 in inspect

---
 cli/src/commands/inspect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands/inspect.rs b/cli/src/commands/inspect.rs
index 002287c..57b9361 100644
--- a/cli/src/commands/inspect.rs
+++ b/cli/src/commands/inspect.rs
@@ -196,8 +196,9 @@ impl<'i, R> InspectSubMessagesItem<'i, R> {
     }
 
     fn len(&self) -> usize {
+        let header_height = 1;
         let (size, _) = self.data.size_hint();
-        size
+        header_height + size
     }
 }
 
-- 
2.43.0


From 0de61ea09db2ae5d5e6b1dac6b4da69390f53acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:20 +0000
Subject: [PATCH 21/23] fix: list submessages representing more points than
 their grids have

---
 cli/src/commands/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 57acd5e..a3591b5 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -123,7 +123,7 @@ impl<R> Display for ListView<'_, R> {
                         forecast_time,
                         surfaces.0,
                         surfaces.1,
-                        num_grid_points - num_points_represented,
+                        num_grid_points.saturating_sub(num_points_represented),
                         num_grid_points,
                         grid_type,
                     )?;
-- 
2.43.0


From 7a7be776958a90b9333e221cd8814349edfc9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:29 +0000
Subject: [PATCH 22/23] fix: report exported values that could not be written

---
 cli/src/commands/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands/decode.rs b/cli/src/commands/decode.rs
index 5050629..2e743c9 100644
--- a/cli/src/commands/decode.rs
+++ b/cli/src/commands/decode.rs
@@ -37,7 +37,8 @@ fn write_output(
 ) -> Result<()> {
     File::create(out_path).and_then(|f| {
         let mut stream = BufWriter::new(f);
-        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))
+        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))?;
+        stream.flush()
     })?;
     Ok(())
 }
-- 
2.43.0


From 063582c32dabe963fa3ed07040988e799343f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:09 +0000
Subject: [PATCH 23/23] fix: let several submessages be held at a time

---
 src/context.rs | 6 +++---
 src/decoder.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index b1c43f4..bc8bab9 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use std::{
-    cell::{RefCell, RefMut},
+    cell::RefCell,
     collections::HashSet,
     fmt::{self, Display, Formatter},
     io::{Cursor, Read, Seek},
@@ -321,7 +321,7 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
                 self.new_submessage_section(submessage_index.6)?,
                 self.new_submessage_section(submessage_index.7)?,
                 self.new_submessage_section(submessage_index.8)?,
-                self.context.reader.borrow_mut(),
+                &self.context.reader,
             ),
         ))
     }
@@ -362,7 +362,7 @@ pub struct SubMessage<'a, R>(
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
-    pub(crate) RefMut<'a, R>,
+    pub(crate) &'a RefCell<R>,
 );
 
 impl<R> SubMessage<'_, R> {
diff --git a/src/decoder.rs b/src/decoder.rs
index 6a81d44..3246045 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -78,7 +78,7 @@ impl Grib2SubmessageDecoder {
 
     /// Sets up a decoder for grid point values of `submessage`.
     pub fn from<R: Grib2Read>(submessage: SubMessage<R>) -> Result<Self, GribError> {
-        let mut reader = submessage.9;
+        let mut reader = submessage.9.borrow_mut();
         let sect5 = submessage.5.body;
         let sect6 = submessage.6.body;
         let sect7 = submessage.7.body;
-- 
2.43.0

