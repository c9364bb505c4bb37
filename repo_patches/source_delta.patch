From 64e25b1f783d23a5caa507c0fb14ec11b9edd196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:16 +0000
Subject: [PATCH 01/32] fix: TokioReader never read any bytes

`AsyncReadExt::read` fills the initialised part of the slice it is given; a
`&mut Vec<u8>` with capacity but length 0 derefs to an empty slice, so every
non-empty request ended in `EndOfFile(n, 0)`. A single `read` may also return
short. Read exactly the requested length (or until end of file) instead, and do
not allocate a length taken from the file up front.
---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..5ca5124 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -113,8 +113,8 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
         file.seek(SeekFrom::Start(range.start)).await?;
 
         let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
+        let mut buffer = Vec::new();
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
         if read != to_read {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
-- 
2.43.0


From d1f2dcf5ec9430fcf3fc488139c0e83cbcac4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:16 +0000
Subject: [PATCH 02/32] fix: ReqwestReader wrong on empty ranges and on servers
 without range support

An empty range starting at 0 underflowed (`range.end - 1`), any other empty
range asked for an invalid `bytes=n-(n-1)`. A server that ignores `Range` and
answers 200 had its whole body returned as though it were the requested range.
---
 src/reader.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5ca5124..a6a41df 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -200,18 +200,27 @@ impl ReqwestReader {
     }
 
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-        let range = format!("bytes={}-{}", range.start, range.end - 1);
+        let range_header = format!("bytes={}-{}", range.start, range.end - 1);
         let response = client
             .get(url)
-            .header("Range", range)
+            .header("Range", range_header)
             .send()
             .await?
             .error_for_status()?;
+        let status = response.status();
         let bytes = response.bytes().await?;
-        Ok(bytes)
+        if status == reqwest::StatusCode::PARTIAL_CONTENT {
+            return Ok(bytes);
+        }
+        // The server ignored the Range header and sent the whole file
+        let len = bytes.len() as u64;
+        Ok(bytes.slice(range.start.min(len) as usize..range.end.min(len) as usize))
     }
 }
 
-- 
2.43.0


From 521e140f6e85a9c3bc662445b245f3f29b9d265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:16 +0000
Subject: [PATCH 03/32] fix: overflow in the readahead cache's fetch range

With a large multiplier or initial size, `start_len + fetch_size` overflowed.
---
 src/metadata/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..ad7ca11 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -158,7 +158,7 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
         let start_len = cache.len;
         let needed = range.end.saturating_sub(start_len);
         let fetch_size = self.next_fetch_size(start_len).max(needed);
-        let fetch_range = start_len..start_len + fetch_size;
+        let fetch_range = start_len..start_len.saturating_add(fetch_size);
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
-- 
2.43.0


From 8ba848162e87086904283d92d3bb93d3979cc35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:16 +0000
Subject: [PATCH 04/32] fix: predictors applied with the wrong row layout to
 planar tiles

In a planar file every row holds one band, but the predictors were reversed
with rows of `samples_per_pixel` interleaved samples, which corrupted every
planar tile with more than one band and a predictor.
---
 src/tile.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..adc5efa 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -86,6 +86,11 @@ impl Tile {
             ))?;
 
         let samples = self.samples_per_pixel as usize;
+        // In planar format each encoded row holds a single band
+        let row_samples = match self.planar_configuration {
+            PlanarConfiguration::Chunky => samples,
+            PlanarConfiguration::Planar => 1,
+        };
         let bits_per_sample = self.bits_per_sample;
         // tile_width is the full encoded tile width — predictor must use this, not the cropped width
         let tile_width = self.width as usize;
@@ -131,12 +136,12 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                row_samples,
                 bits_per_sample,
                 tile_width,
             ),
             Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
+                unpredict_float(decoded_tile, row_samples, bits_per_sample, tile_width)?
             }
         };
 
-- 
2.43.0


From a6e43fb1248b4c57edc3ac9cf41faaae8d871bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/32] fix: planar decode trusts header dimensions for its
 buffer

The buffer was preallocated from the tile dimensions in the header (allocation
failure or overflow on corrupt files) and a debug assertion on its size
panicked on bilevel planar tiles, whose samples are packed 8 to a byte, and on
truncated data. `Array::try_new` checks the length and reports an error.
---
 src/tile.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index adc5efa..5ca2cf9 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -105,10 +105,7 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -122,7 +119,6 @@ impl Tile {
                     result.extend_from_slice(&decoded_band);
                 }
 
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
-- 
2.43.0


From bfc8a2d725406657022f8d39dea4f1078ec9acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:40 +0000
Subject: [PATCH 06/32] fix: predictors panic on decoded data that is not whole
 rows

Truncated tile data, a zero tile width or sample count (`chunks_mut(0)`), and
sample sizes the predictors do not handle all panicked. Report an error.
---
 src/predictor.rs | 35 +++++++++++++++++++++++++++--------
 src/tile.rs      |  2 +-
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..1c0df4f 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -57,9 +57,15 @@ pub(crate) fn unpredict_hdiff(
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
-    let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
+) -> AsyncTiffResult<Vec<u8>> {
+    if bits_per_sample > 64 {
+        return Err(AsyncTiffError::General(format!(
+            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+        )));
+    }
+    let bytes_per_sample = (bits_per_sample as usize).div_ceil(8).next_power_of_two();
     let row_stride = tile_width * samples * bytes_per_sample;
+    check_whole_rows(&buffer, row_stride)?;
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +73,18 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
+}
+
+/// Check that the decoded data is made up of whole rows.
+fn check_whole_rows(buffer: &[u8], row_stride: usize) -> AsyncTiffResult<()> {
+    if row_stride == 0 || !buffer.len().is_multiple_of(row_stride) {
+        return Err(AsyncTiffError::General(format!(
+            "Decoded data length {} is not a multiple of the row length {row_stride}",
+            buffer.len()
+        )));
+    }
+    Ok(())
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -118,8 +135,14 @@ pub(crate) fn unpredict_float(
     bits_per_sample: u16,
     tile_width: usize,
 ) -> AsyncTiffResult<Vec<u8>> {
+    if !matches!(bits_per_sample, 16 | 32 | 64) {
+        return Err(AsyncTiffError::General(format!(
+            "Floating-point predictor not supported for {bits_per_sample}-bit samples"
+        )));
+    }
     let bytes_per_sample = (bits_per_sample as usize) / 8;
     let row_stride = tile_width * samples * bytes_per_sample;
+    check_whole_rows(&buffer, row_stride)?;
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
@@ -130,11 +153,7 @@ pub(crate) fn unpredict_float(
             16 => rev_predict_f16(in_row, out_row, samples),
             32 => rev_predict_f32(in_row, out_row, samples),
             64 => rev_predict_f64(in_row, out_row, samples),
-            _ => {
-                return Err(AsyncTiffError::General(format!(
-                    "Floating-point predictor not supported for {bits_per_sample}-bit samples"
-                )))
-            }
+            _ => unreachable!(),
         }
     }
 
diff --git a/src/tile.rs b/src/tile.rs
index 5ca2cf9..c3ba46f 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -135,7 +135,7 @@ impl Tile {
                 row_samples,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => {
                 unpredict_float(decoded_tile, row_samples, bits_per_sample, tile_width)?
             }
-- 
2.43.0


From 355e1a943db0d7e8af50951d1d0fa490b2ad34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:40 +0000
Subject: [PATCH 07/32] fix: overflow computing the element count of a decoded
 tile

---
 src/array.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..fa6501d 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -29,7 +29,10 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|len| len.checked_mul(shape[2]))
+            .ok_or_else(|| AsyncTiffError::General(format!("Tile shape {shape:?} is too large")))?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
-- 
2.43.0


From 7eb33899685fe5a5bb60e7897e06742247ace42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:40 +0000
Subject: [PATCH 08/32] fix: panic on corrupt LZW data

---
 src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..60b568a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,7 +240,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
+        let decoded = decoder
+            .decode(&buffer)
+            .map_err(|err| AsyncTiffError::General(format!("LZW decode failed: {err}")))?;
         Ok(decoded)
     }
 }
-- 
2.43.0


From 332e7c832047cc8ff87eb26628ca1490aa8710a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:40 +0000
Subject: [PATCH 09/32] fix: panic on a JPEGTables tag shorter than two bytes

---
 src/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 60b568a..aa619ca 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -380,9 +380,11 @@ fn decode_modern_jpeg(
         Some(jpeg_tables) => {
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
+            let tables_len = jpeg_tables.len().checked_sub(2).ok_or_else(|| {
+                AsyncTiffError::General("JPEGTables tag is too short".to_string())
+            })?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            Box::new(Cursor::new(&jpeg_tables[..tables_len]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
-- 
2.43.0


From e152de99c8488113eee2209f3de99d1dc83d5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:38 +0000
Subject: [PATCH 10/32] fix: panic when an IFD lacks a required tag

A file without ImageWidth, ImageLength, BitsPerSample, SamplesPerPixel or a
known PhotometricInterpretation panicked instead of returning an error.
---
 src/ifd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..0e4fa1a 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -372,7 +372,8 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let required = |tag| TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag));
+        let samples_per_pixel = samples_per_pixel.ok_or_else(|| required(Tag::SamplesPerPixel))?;
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -385,14 +386,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or_else(|| required(Tag::ImageWidth))?,
+            image_height: image_height.ok_or_else(|| required(Tag::ImageLength))?,
+            bits_per_sample: bits_per_sample.ok_or_else(|| required(Tag::BitsPerSample))?,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or_else(|| required(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
-- 
2.43.0


From 0a4f14c152a2bef7b648faa3d550565543773948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:39 +0000
Subject: [PATCH 11/32] fix: panic when XResolution or YResolution is not a
 rational

---
 src/ifd.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 0e4fa1a..5d10d32 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -224,11 +224,15 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => Err(TiffError::FormatError(
+                        TiffFormatError::InvalidTagValueType(tag),
+                    ))?,
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => Err(TiffError::FormatError(
+                        TiffFormatError::InvalidTagValueType(tag),
+                    ))?,
                 },
                 Tag::PlanarConfiguration => {
                     planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
-- 
2.43.0


From 51891000d8d406fb04b25ed199ace8ee636a48ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:39 +0000
Subject: [PATCH 12/32] fix: unknown Predictor and PlanarConfiguration codes
 silently ignored

An unknown code was dropped, so tiles were decoded as though the file had no
predictor, or was chunky, and wrong pixels were returned without an error.
---
 src/ifd.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 5d10d32..2d8e26c 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -235,7 +235,10 @@ impl ImageFileDirectory {
                     ))?,
                 },
                 Tag::PlanarConfiguration => {
-                    planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
+                    let code = value.into_u16()?;
+                    planar_configuration = Some(PlanarConfiguration::from_u16(code).ok_or(
+                        TiffError::FormatError(TiffFormatError::UnknownPlanarConfiguration(code)),
+                    )?)
                 }
                 Tag::ResolutionUnit => {
                     resolution_unit = ResolutionUnit::from_u16(value.into_u16()?)
@@ -244,7 +247,12 @@ impl ImageFileDirectory {
                 Tag::DateTime => date_time = Some(value.into_string()?),
                 Tag::Artist => artist = Some(value.into_string()?),
                 Tag::HostComputer => host_computer = Some(value.into_string()?),
-                Tag::Predictor => predictor = Predictor::from_u16(value.into_u16()?),
+                Tag::Predictor => {
+                    let code = value.into_u16()?;
+                    predictor = Some(Predictor::from_u16(code).ok_or(TiffError::FormatError(
+                        TiffFormatError::UnknownPredictor(code),
+                    ))?)
+                }
                 Tag::ColorMap => color_map = Some(Arc::from(value.into_u16_vec()?)),
                 Tag::TileWidth => tile_width = Some(value.into_u32()?),
                 Tag::TileLength => tile_height = Some(value.into_u32()?),
-- 
2.43.0


From e225e46a609e991a12ac62ef4ee3c3bc6a3f6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:39 +0000
Subject: [PATCH 13/32] fix: panics on a malformed GeoKeyDirectory

A missing or short header, an unknown version, fewer keys than announced, and
keys that point at absent or too short GeoAsciiParams/GeoDoubleParams all
panicked. Report an error.
---
 src/ifd.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 2d8e26c..138bca5 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -307,25 +307,30 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let invalid = |msg: &str| {
+                TiffError::FormatError(TiffFormatError::Format(format!(
+                    "Invalid GeoKeyDirectory: {msg}"
+                )))
+            };
+            let mut chunks = data.chunks_exact(4);
 
-            let header = chunks
-                .next()
-                .expect("If the geo key directory exists, a header should exist.");
+            let header = chunks.next().ok_or_else(|| invalid("no header"))?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
+            if key_directory_version != 1 {
+                return Err(invalid("unknown directory version").into());
+            }
 
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_revision != 1 {
+                return Err(invalid("unknown key revision").into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
 
             let mut tags = HashMap::with_capacity(number_of_keys as usize);
             for _ in 0..number_of_keys {
-                let chunk = chunks
-                    .next()
-                    .expect("There should be a chunk for each key.");
+                let chunk = chunks.next().ok_or_else(|| invalid("missing keys"))?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -350,9 +355,11 @@ impl ImageFileDirectory {
 
                     let geo_ascii_params = geo_ascii_params
                         .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
+                        .ok_or_else(|| invalid("no GeoAsciiParams"))?;
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(|| invalid("key outside GeoAsciiParams"))?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -367,15 +374,15 @@ impl ImageFileDirectory {
 
                     let geo_double_params = geo_double_params
                         .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
+                        .ok_or_else(|| invalid("no GeoDoubleParams"))?;
                     let value_offset = value_offset as usize;
+                    let values = geo_double_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(|| invalid("key outside GeoDoubleParams"))?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(values[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
-- 
2.43.0


From c099eef38302ac81b79a08b9f257f5dd4fd4f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:40 +0000
Subject: [PATCH 14/32] fix: tiles outside the grid panic or return another
 tile

A column past the end of a row silently fetched a tile of a later row, a row
past the end panicked, and so did offset or byte count arrays that are too
short and ranges that overflow. Such tiles have no byte range; fetching one is
a `TileIndexError`. Tile dimensions of zero no longer give an infinite grid.
---
 src/ifd.rs | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 138bca5..6c9128b 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -740,6 +740,8 @@ impl ImageFileDirectory {
     }
 
     /// Find the byte range(s) for the tile located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or has no such tile.
     pub fn tile_byte_range(&self, x: usize, y: usize) -> Option<TileByteRange> {
         TileByteRange::from_ifd_tile(self, x, y)
     }
@@ -761,7 +763,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Tile> {
         let byte_ranges = self
             .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.no_tile_error(&[(x, y)]))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -774,7 +776,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Vec<Tile>> {
         let byte_ranges = self
             .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.no_tile_error(xy))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -783,9 +785,29 @@ impl ImageFileDirectory {
             .collect())
     }
 
+    /// The error for tiles that `tile_byte_range` or `tiles_byte_ranges` did not find.
+    fn no_tile_error(&self, xy: &[(usize, usize)]) -> AsyncTiffError {
+        if self.tile_offsets.is_none() || self.tile_byte_counts.is_none() {
+            return AsyncTiffError::General("Not a tiled TIFF".to_string());
+        }
+        match xy
+            .iter()
+            .find(|(x, y)| TileByteRange::from_ifd_tile(self, *x, *y).is_none())
+        {
+            Some((x, y)) if self.tile_count().is_some() => AsyncTiffError::TileIndexError(
+                u32::try_from(*x).unwrap_or(u32::MAX),
+                u32::try_from(*y).unwrap_or(u32::MAX),
+            ),
+            _ => AsyncTiffError::General("Not a tiled TIFF".to_string()),
+        }
+    }
+
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
+        if self.tile_width? == 0 || self.tile_height? == 0 {
+            return None;
+        }
         let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
         let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
         Some((x_count as usize, y_count as usize))
@@ -816,24 +838,31 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
                 let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                let offset = *tile_offsets.get(idx)?;
+                let byte_count = *tile_byte_counts.get(idx)?;
+                Some(TileByteRange::Chunky(
+                    offset..offset.checked_add(byte_count)?,
+                ))
             }
             PlanarConfiguration::Planar => {
                 let tiles_per_band = tiles_per_row * tiles_per_col;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_idx = band
+                            .checked_mul(tiles_per_band)?
+                            .checked_add((y * tiles_per_row) + x)?;
+                        let offset = *tile_offsets.get(band_idx)?;
+                        let byte_count = *tile_byte_counts.get(band_idx)?;
+                        Some(offset..offset.checked_add(byte_count)?)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From 3638027e8d9a098a2756f3929fd3151852ff9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:40 +0000
Subject: [PATCH 15/32] fix: panic fetching a tile of an IFD with an empty
 BitsPerSample

---
 src/ifd.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 6c9128b..27111a4 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -765,7 +765,7 @@ impl ImageFileDirectory {
             .tile_byte_range(x, y)
             .ok_or_else(|| self.no_tile_error(&[(x, y)]))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
-        Ok(compressed_bytes.into_tile(x, y, self))
+        compressed_bytes.into_tile(x, y, self)
     }
 
     /// Fetch the tiles located at `x` column and `y` row using the provided reader.
@@ -778,11 +778,11 @@ impl ImageFileDirectory {
             .tiles_byte_ranges(xy)
             .ok_or_else(|| self.no_tile_error(xy))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
-        Ok(compressed_bytes
+        compressed_bytes
             .into_iter()
             .zip(xy)
             .map(|(buffer, (x, y))| buffer.into_tile(*x, *y, self))
-            .collect())
+            .collect()
     }
 
     /// The error for tiles that `tile_byte_range` or `tiles_byte_ranges` did not find.
@@ -955,9 +955,12 @@ pub enum CompressedBytes {
 }
 
 impl CompressedBytes {
-    fn into_tile(self, x: usize, y: usize, ifd: &ImageFileDirectory) -> Tile {
+    fn into_tile(self, x: usize, y: usize, ifd: &ImageFileDirectory) -> AsyncTiffResult<Tile> {
         let data_type = DataType::from_tags(&ifd.sample_format, &ifd.bits_per_sample);
-        Tile {
+        let bits_per_sample = *ifd.bits_per_sample.first().ok_or(TiffError::FormatError(
+            TiffFormatError::RequiredTagEmpty(Tag::BitsPerSample),
+        ))?;
+        Ok(Tile {
             x,
             y,
             data_type,
@@ -965,7 +968,7 @@ impl CompressedBytes {
             height: ifd.tile_height.unwrap_or(ifd.image_height),
             planar_configuration: ifd.planar_configuration,
             samples_per_pixel: ifd.samples_per_pixel,
-            bits_per_sample: ifd.bits_per_sample[0],
+            bits_per_sample,
             endianness: ifd.endianness,
             predictor: ifd.predictor.unwrap_or(Predictor::None),
             compressed_bytes: self,
@@ -973,6 +976,6 @@ impl CompressedBytes {
             photometric_interpretation: ifd.photometric_interpretation,
             jpeg_tables: ifd.jpeg_tables.clone(),
             lerc_parameters: ifd.lerc_parameters.clone(),
-        }
+        })
     }
 }
-- 
2.43.0


From 2610be2844df59304d8a2efdb124a7be8a15ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 16/32] fix: panic on an IFD entry with an unknown field type

The TIFF specification asks readers to skip such entries, as a TODO here did.
---
 src/metadata/reader.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..011a3be 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -229,7 +229,13 @@ impl ImageFileDirectoryReader {
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
         let mut tags = HashMap::with_capacity(self.tag_count as usize);
         for tag_idx in 0..self.tag_count {
-            let (tag, value) = self.read_tag(fetch, tag_idx).await?;
+            let (tag, value) = match self.read_tag(fetch, tag_idx).await {
+                // Readers should skip over fields with an unexpected field type (TIFF 6.0, p. 16)
+                Err(AsyncTiffError::InternalTIFFError(TiffError::FormatError(
+                    TiffFormatError::InvalidTagValueType(_),
+                ))) => continue,
+                result => result?,
+            };
             tags.insert(tag, value);
         }
         ImageFileDirectory::from_tags(tags, self.endianness)
@@ -271,9 +277,9 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    let tag_type = Type::from_u16(tag_type_code).ok_or(TiffError::FormatError(
+        TiffFormatError::InvalidTagValueType(tag_name),
+    ))?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
-- 
2.43.0


From 17ed47fafc84e3b95043a28eb67ab50955aa7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 17/32] fix: short ASCII tags panic or read differently from
 long ones

ASCII values stored inline in the IFD entry panicked when not null-terminated
or not 7-bit, and kept text after an embedded null, while the same value stored
out of line was accepted and cut at the first null. Treat both alike.
---
 src/metadata/reader.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 011a3be..826eef4 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -361,14 +361,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::LONG => TagValue::Unsigned(data.read_u32()?),
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
-            Type::ASCII => {
-                if data.as_ref()[0] == 0 {
-                    TagValue::Ascii("".to_string())
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
-                }
-            }
+            Type::ASCII => ascii_value(vec![data.read_u8()?]),
             Type::LONG8 => {
                 let offset = data.read_u32()?;
                 cursor.seek(offset as _);
@@ -438,15 +431,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::ASCII => {
                 let mut buf = vec![0; count as usize];
                 data.read_exact(&mut buf)?;
-                if buf.is_ascii() && buf.ends_with(&[0]) {
-                    let v = std::str::from_utf8(&buf)
-                        .map_err(|err| AsyncTiffError::General(err.to_string()))?;
-                    let v = v.trim_matches(char::from(0));
-                    return Ok(TagValue::Ascii(v.into()));
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
-                }
+                return Ok(ascii_value(buf));
             }
             Type::SHORT => {
                 let mut v = Vec::new();
@@ -622,15 +607,20 @@ async fn read_tag_value<F: MetadataFetch>(
             let mut buf = cursor.read(count).await?;
             buf.read_exact(&mut out)?;
 
-            // Strings may be null-terminated, so we trim anything downstream of the null byte
-            if let Some(first) = out.iter().position(|&b| b == 0) {
-                out.truncate(first);
-            }
-            Ok(TagValue::Ascii(String::from_utf8_lossy(&out).into_owned()))
+            Ok(ascii_value(out))
         }
     }
 }
 
+/// The value of an ASCII tag
+fn ascii_value(mut out: Vec<u8>) -> TagValue {
+    // Strings may be null-terminated, so we trim anything downstream of the null byte
+    if let Some(first) = out.iter().position(|&b| b == 0) {
+        out.truncate(first);
+    }
+    TagValue::Ascii(String::from_utf8_lossy(&out).into_owned())
+}
+
 #[cfg(test)]
 mod test {
     use async_trait::async_trait;
-- 
2.43.0


From 1b171adf254e5e6b7931b3000773998aeebf4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 18/32] fix: panic when a file ends inside an inline BYTE or
 SBYTE list

---
 src/metadata/reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 826eef4..e762cdd 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -414,8 +414,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
+                            .map(|_| data.read_u8().map(TagValue::Byte))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 };
             }
@@ -423,8 +423,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
+                            .map(|_| data.read_i8().map(TagValue::SignedByte))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 }
             }
-- 
2.43.0


From 88cecf3a47df6b452ba7f988fc632d96be42710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 19/32] fix: overflows on offsets and counts near the end of
 the 64-bit range

Offsets and counts taken from a (Big)TIFF file were added and multiplied
unchecked: a panic with overflow checks, a read at a wrapped offset without.
---
 src/metadata/fetch.rs  | 12 ++++++++----
 src/metadata/reader.rs | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..a6e5fbe 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -64,13 +64,17 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Advance cursor position by a set amount
     pub(crate) fn advance(&mut self, amount: u64) {
-        self.offset += amount;
+        self.offset = self.offset.saturating_add(amount);
     }
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index e762cdd..ccf7681 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -203,6 +203,17 @@ impl ImageFileDirectoryReader {
         })
     }
 
+    /// The byte offset of the IFD entry with the specified index, or of the end of the entries.
+    fn entry_offset(&self, tag_idx: u64) -> AsyncTiffResult<u64> {
+        let offset = self
+            .ifd_entry_byte_size
+            .checked_mul(tag_idx)
+            .and_then(|len| len.checked_add(self.tag_count_byte_size))
+            .and_then(|len| len.checked_add(self.ifd_start_offset))
+            .ok_or(TiffError::IntSizeError)?;
+        Ok(offset)
+    }
+
     /// Manually read the tag with the specified index.
     ///
     /// Panics if the tag index is out of range of the tag count.
@@ -215,8 +226,7 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
@@ -244,9 +254,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
@@ -319,7 +327,7 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count.checked_mul(tag_size).ok_or(TiffError::IntSizeError)?;
 
     // Case 2: there is one value.
     if count == 1 {
-- 
2.43.0


From 444f84907b6ea7543f59870c72426be28077383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 20/32] fix: allocations sized by unchecked counts in the file

A corrupt tag count or value count made the reader allocate up to 2^64 elements
before reading any of them: a capacity overflow panic or an abort.
---
 src/metadata/reader.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index ccf7681..068ac2b 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -237,7 +237,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::new();
         for tag_idx in 0..self.tag_count {
             let (tag, value) = match self.read_tag(fetch, tag_idx).await {
                 // Readers should skip over fields with an unexpected field type (TIFF 6.0, p. 16)
@@ -502,68 +502,71 @@ async fn read_tag_value<F: MetadataFetch>(
     };
     cursor.seek(offset);
 
+    // The count is not to be trusted with an allocation before any value has been read
+    let capacity = count.min(4096) as usize;
+
     // Case 4: there is more than one value, and it doesn't fit in the offset field.
     match tag_type {
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -573,7 +576,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -583,37 +586,40 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
-            let mut buf = cursor.read(count).await?;
-            buf.read_exact(&mut out)?;
+            let mut out = Vec::new();
+            let buf = cursor.read(count).await?;
+            let read = buf.take(count).read_to_end(&mut out)? as u64;
+            if read != count {
+                return Err(AsyncTiffError::EndOfFile(count, read));
+            }
 
             Ok(ascii_value(out))
         }
-- 
2.43.0


From dfe8b93e84556e3ff7b6e59953c1ed8b52166cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 21/32] fix: endless loop on a file whose IFD chain is a cycle

`read_all_ifds` followed the chain for ever, collecting IFDs until memory ran
out. Following a link back to an IFD already read is now `CycleInOffsets`.
---
 src/metadata/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 068ac2b..138a869 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -24,6 +24,8 @@ pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
     next_ifd_offset: Option<u64>,
+    /// The byte offsets of the IFDs that have been read
+    seen_ifd_offsets: HashSet<u64>,
 }
 
 impl TiffMetadataReader {
@@ -79,6 +81,7 @@ impl TiffMetadataReader {
             endianness,
             bigtiff,
             next_ifd_offset: Some(first_ifd_location),
+            seen_ifd_offsets: HashSet::new(),
         })
     }
 
@@ -112,12 +115,16 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Option<ImageFileDirectory>> {
         if let Some(ifd_start) = self.next_ifd_offset {
+            if self.seen_ifd_offsets.contains(&ifd_start) {
+                return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+            }
             let ifd_reader =
                 ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                     .await?;
             let ifd = ifd_reader.read(fetch).await?;
             let next_ifd_offset = ifd_reader.finish(fetch).await?;
             self.next_ifd_offset = next_ifd_offset;
+            self.seen_ifd_offsets.insert(ifd_start);
             Ok(Some(ifd))
         } else {
             Ok(None)
-- 
2.43.0


From 4f468839112ba93d39fb6be0feb9f9d46072c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 22/32] fix: single LONG or LONG8 value rejected where a list
 of them is accepted

`into_u16_vec` accepted a list of LONG values and `into_u16` a single one, but
a one-element field (BitsPerSample of a single band stored as LONG, say), which
is read as a scalar, was an error.
---
 src/tag_value.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tag_value.rs b/src/tag_value.rs
index 4b4d4e9..d3e7bdd 100644
--- a/src/tag_value.rs
+++ b/src/tag_value.rs
@@ -237,6 +237,8 @@ impl TagValue {
             }
             Byte(val) => Ok(vec![val.into()]),
             Short(val) => Ok(vec![val]),
+            Unsigned(val) => Ok(vec![u16::try_from(val)?]),
+            UnsignedBig(val) => Ok(vec![u16::try_from(val)?]),
             val => Err(TiffError::FormatError(TiffFormatError::ShortExpected(val))),
         }
     }
-- 
2.43.0


From 444e09ea771a074d8b7b76547a40d590699dcaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:57 +0000
Subject: [PATCH 23/32] fix: size the metadata cache's answer by the bytes
 found, not by the range asked for

---
 src/metadata/cache.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index ad7ca11..ae70dd3 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -39,9 +39,6 @@ impl SequentialBlockCache {
 
     /// Slice out the given range from the cached buffers
     fn slice(&self, range: Range<u64>) -> Bytes {
-        // The size of the output buffer
-        let out_len = (range.end - range.start) as usize;
-
         // The remaining range of bytes required. This range is updated as we traverse buffers, so
         // the indexes are relative to the current buffer.
         let mut remaining = range;
@@ -82,6 +79,9 @@ impl SequentialBlockCache {
         if out_buffers.len() == 1 {
             out_buffers.into_iter().next().unwrap()
         } else {
+            // The source may hold fewer bytes than the range spans, so size the output by what was
+            // found rather than by what was asked for.
+            let out_len = out_buffers.iter().map(|b| b.len()).sum();
             let mut out = BytesMut::with_capacity(out_len);
             for b in out_buffers {
                 out.extend_from_slice(&b);
-- 
2.43.0


From d2439feb32e54b6f2434c5898dc46ec294b0361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:02 +0000
Subject: [PATCH 24/32] fix: 16-bit JPEG 2000 tiles panicked on every decode

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index aa619ca..d82e36f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -276,7 +276,7 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
         }
     }
 }
-- 
2.43.0


From 64e790a069c7259b77140b111b5e3665e3bbce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:54 +0000
Subject: [PATCH 25/32] fix: name the LERC compression in the Python
 enumeration

The library decodes LERC and its Rust enumeration names it, but Compression(34887) was an error in Python.
---
 python/python/async_tiff/enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/python/async_tiff/enums.py b/python/python/async_tiff/enums.py
index 8ac2bb4..3c3cdd3 100644
--- a/python/python/async_tiff/enums.py
+++ b/python/python/async_tiff/enums.py
@@ -19,6 +19,7 @@ class Compression(IntEnum):
     Deflate = 8
     OldDeflate = 0x80B2
     PackBits = 0x8005
+    LERC = 34887
     WebP = 50001
     LZMA = 34925
     JPEG2k = 34712
-- 
2.43.0


From 8a4399f56130ea9843d79c29f04cf29c92d95c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:38 +0000
Subject: [PATCH 26/32] fix: open small files through a reader that refuses to
 read beyond the end with a metadata cache

---
 src/metadata/fetch.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index a6e5fbe..9849c39 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::{AsyncTiffResult, TiffError};
+use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -26,7 +26,15 @@ pub trait MetadataFetch: Debug + Send + Sync + 'static {
 #[cfg_attr(not(target_arch = "wasm32"), async_trait)]
 impl<T: AsyncFileReader> MetadataFetch for T {
     async fn fetch(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
-        self.get_bytes(range).await
+        match self.get_bytes(range.clone()).await {
+            // Reading ahead may reach beyond the end of the file. A reader that refuses that is
+            // asked for the bytes there are.
+            Err(AsyncTiffError::EndOfFile(expected, available)) if available < expected => {
+                self.get_bytes(range.start..range.start.saturating_add(available))
+                    .await
+            }
+            result => result,
+        }
     }
 }
 
-- 
2.43.0


From 886960f375509fbafe1d660c6699d58ed5114403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:05 +0000
Subject: [PATCH 27/32] fix: return the components of JPEG tiles interleaved
 and as stored

---
 src/decoder.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d82e36f..a9bd2ff 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -391,14 +391,29 @@ fn decode_modern_jpeg(
 
     let mut decoder = jpeg::Decoder::new(jpeg_reader);
 
+    let mut inverted = false;
     match photometric_interpretation {
-        PhotometricInterpretation::RGB => decoder.set_color_transform(jpeg::ColorTransform::RGB),
-        PhotometricInterpretation::WhiteIsZero
+        PhotometricInterpretation::RGB
+        | PhotometricInterpretation::WhiteIsZero
         | PhotometricInterpretation::BlackIsZero
-        | PhotometricInterpretation::TransparencyMask => {
-            decoder.set_color_transform(jpeg::ColorTransform::None)
+        | PhotometricInterpretation::TransparencyMask
+        | PhotometricInterpretation::CMYK => {
+            // The components are wanted as they are stored. `ColorTransform::None` does not
+            // interleave several of them, `ColorTransform::RGB` only does that, and
+            // `ColorTransform::CMYK` also inverts the samples.
+            decoder.read_info()?;
+            let color_transform = match decoder.info() {
+                Some(info) if info.pixel_format == jpeg::PixelFormat::RGB24 => {
+                    jpeg::ColorTransform::RGB
+                }
+                Some(info) if info.pixel_format == jpeg::PixelFormat::CMYK32 => {
+                    inverted = info.coding_process != jpeg::CodingProcess::Lossless;
+                    jpeg::ColorTransform::CMYK
+                }
+                _ => jpeg::ColorTransform::None,
+            };
+            decoder.set_color_transform(color_transform)
         }
-        PhotometricInterpretation::CMYK => decoder.set_color_transform(jpeg::ColorTransform::CMYK),
         PhotometricInterpretation::YCbCr => {
             decoder.set_color_transform(jpeg::ColorTransform::YCbCr)
         }
@@ -410,6 +425,9 @@ fn decode_modern_jpeg(
         }
     }
 
-    let data = decoder.decode()?;
+    let mut data = decoder.decode()?;
+    if inverted {
+        data.iter_mut().for_each(|sample| *sample = !*sample);
+    }
     Ok(data)
 }
-- 
2.43.0


From f959f6ecaab0667fc5f9c64ea9c3b7a93f8d3f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:53 +0000
Subject: [PATCH 28/32] fix: return JPEG 2000 samples as stored, not scaled or
 shifted

---
 src/decoder.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index a9bd2ff..1adfcf8 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -267,16 +267,35 @@ impl Decoder for JPEG2kDecoder {
 
         let image = jpeg2k::Image::from_bytes_with(&buffer, decoder)?;
 
-        let id = image.get_pixels(None)?;
-        match id.data {
-            jpeg2k::ImagePixelData::L8(items)
-            | jpeg2k::ImagePixelData::La8(items)
-            | jpeg2k::ImagePixelData::Rgb8(items)
-            | jpeg2k::ImagePixelData::Rgba8(items) => Ok(items),
-            jpeg2k::ImagePixelData::L16(items)
-            | jpeg2k::ImagePixelData::La16(items)
-            | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
+        match image.color_space() {
+            jpeg2k::ColorSpace::SYCC | jpeg2k::ColorSpace::EYCC | jpeg2k::ColorSpace::CMYK => {
+                return Err(AsyncTiffError::General(format!(
+                    "Unsupported JPEG 2000 color space: {:?}",
+                    image.color_space()
+                )));
+            }
+            _ => {}
+        }
+
+        // The samples are wanted as they are stored. `Image::get_pixels` scales them to the full
+        // range of 8 or 16 bits and shifts signed ones.
+        let components = image.components();
+        let size = |c: &jpeg2k::ImageComponent| (c.width(), c.height());
+        if components.iter().any(|c| size(c) != size(&components[0])) {
+            return Err(AsyncTiffError::General(
+                "JPEG 2000 components of different sizes are not supported".to_string(),
+            ));
+        }
+        let pixels = components.first().map_or(0, |c| c.data().len());
+        let samples = (0..pixels).flat_map(|i| components.iter().map(move |c| c.data()[i]));
+        match components.iter().map(|c| c.precision()).max() {
+            Some(1..=8) => Ok(samples.map(|sample| sample as u8).collect()),
+            Some(9..=16) => Ok(samples
+                .flat_map(|sample| (sample as u16).to_ne_bytes())
+                .collect()),
+            precision => Err(AsyncTiffError::General(format!(
+                "Unsupported JPEG 2000 precision: {precision:?}"
+            ))),
         }
     }
 }
-- 
2.43.0


From a0dfabc77b0fa40464f8c0db2e9278055562cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:50 +0000
Subject: [PATCH 29/32] fix: decode masked-out LERC floating-point pixels as
 NaN

---
 src/decoder.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 1adfcf8..27e567e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -126,12 +126,15 @@ impl Decoder for JPEGDecoder {
 pub struct LercDecoder;
 
 /// Helper to decode and convert to bytes
+///
+/// Pixels that the blob masks out take the value of `masked`, if there is one.
 #[cfg(feature = "lerc")]
 fn decode_lerc<T: lerc::LercDataType + bytemuck::Pod>(
     buffer: &[u8],
     info: &lerc::BlobInfo,
+    masked: Option<T>,
 ) -> AsyncTiffResult<Vec<u8>> {
-    let (data, _mask) = lerc::decode::<T>(
+    let (mut data, mask) = lerc::decode::<T>(
         buffer,
         info.width as usize,
         info.height as usize,
@@ -141,6 +144,18 @@ fn decode_lerc<T: lerc::LercDataType + bytemuck::Pod>(
     )
     .map_err(|e| AsyncTiffError::General(format!("LERC decode failed: {e}")))?;
 
+    if let (Some(masked), Some(mask)) = (masked, mask) {
+        // There is one mask for all bands or one for each
+        for (pixel, valid) in data
+            .chunks_exact_mut((info.depth as usize).max(1))
+            .zip(mask.iter().cycle())
+        {
+            if *valid == 0 {
+                pixel.fill(masked);
+            }
+        }
+    }
+
     // TODO: in the future we could avoid this copy by allowing the return type of the decoder to
     // be a typed array, not just Vec<u8>
     Ok(bytemuck::cast_slice(&data).to_vec())
@@ -182,14 +197,15 @@ impl Decoder for LercDecoder {
         // LERC data_type mapping (from LERC C API):
         // 0=i8, 1=u8, 2=i16, 3=u16, 4=i32, 5=u32, 6=f32, 7=f64
         match info.data_type {
-            0 => decode_lerc::<i8>(&lerc_blob, &info),
-            1 => decode_lerc::<u8>(&lerc_blob, &info),
-            2 => decode_lerc::<i16>(&lerc_blob, &info),
-            3 => decode_lerc::<u16>(&lerc_blob, &info),
-            4 => decode_lerc::<i32>(&lerc_blob, &info),
-            5 => decode_lerc::<u32>(&lerc_blob, &info),
-            6 => decode_lerc::<f32>(&lerc_blob, &info),
-            7 => decode_lerc::<f64>(&lerc_blob, &info),
+            0 => decode_lerc::<i8>(&lerc_blob, &info, None),
+            1 => decode_lerc::<u8>(&lerc_blob, &info, None),
+            2 => decode_lerc::<i16>(&lerc_blob, &info, None),
+            3 => decode_lerc::<u16>(&lerc_blob, &info, None),
+            4 => decode_lerc::<i32>(&lerc_blob, &info, None),
+            5 => decode_lerc::<u32>(&lerc_blob, &info, None),
+            // LERC cannot store NaN, writers mask it out instead
+            6 => decode_lerc::<f32>(&lerc_blob, &info, Some(f32::NAN)),
+            7 => decode_lerc::<f64>(&lerc_blob, &info, Some(f64::NAN)),
             _ => Err(AsyncTiffError::General(format!(
                 "Unsupported LERC data type: {}",
                 info.data_type
-- 
2.43.0


From c7fe786ccc7ea5369535845bfa0cb50278ed5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:00 +0000
Subject: [PATCH 30/32] fix: give the buffer length of Python arrays in bytes
 and check their construction

Py_buffer.len counts bytes, but was set to the number of elements. The
constructor accepted buffers shorter than the shape, so that views read
out of bounds, and panicked when the bytes did not fit the format.
---
 python/src/array.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/src/array.rs b/python/src/array.rs
index dca9610..82b4fd5 100644
--- a/python/src/array.rs
+++ b/python/src/array.rs
@@ -225,7 +225,18 @@ impl PyArray {
     fn py_new(array: PyBytes, shape: [usize; 3], format: &str) -> PyResult<Self> {
         let data_type = parse_buffer_format_string(format)?;
         let itemsize = data_type.size();
-        let typed_data = TypedArray::try_new(array.into_inner().to_vec(), Some(data_type)).unwrap();
+        let data = array.into_inner();
+        let expected_len = shape
+            .iter()
+            .try_fold(itemsize, |len, dim| len.checked_mul(*dim));
+        if expected_len != Some(data.len()) {
+            return Err(PyValueError::new_err(format!(
+                "buffer of {} bytes does not match shape {shape:?} and format '{format}'",
+                data.len()
+            )));
+        }
+        let typed_data = TypedArray::try_new(data.to_vec(), Some(data_type))
+            .map_err(|err| PyValueError::new_err(err.to_string()))?;
         let shape = [shape[0] as isize, shape[1] as isize, shape[2] as isize];
         // Row-major (C-contiguous) strides: [dim1 * dim2 * itemsize, dim2 * itemsize, itemsize]
         let strides = [
@@ -296,7 +307,7 @@ impl PyArray {
         // Fill in the Py_buffer struct fields
         // SAFETY: view is a valid pointer provided by Python's buffer protocol machinery
         (*view).buf = data_as_ptr(&slf.data);
-        (*view).len = slf.data.len() as isize;
+        (*view).len = (slf.data.len() * itemsize) as isize;
         (*view).itemsize = itemsize as isize;
         (*view).readonly = 1; // Read-only buffer
         (*view).ndim = 3;
-- 
2.43.0


From f9806c341c97a734d967eb4dce84c7309f3693c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:00 +0000
Subject: [PATCH 31/32] fix: raise an error, not a panic, from header_byte_size
 without offsets

---
 python/src/tiff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/tiff.rs b/python/src/tiff.rs
index 3cdb2c2..1b02860 100644
--- a/python/src/tiff.rs
+++ b/python/src/tiff.rs
@@ -4,7 +4,7 @@ use async_tiff::metadata::cache::ReadaheadMetadataCache;
 use async_tiff::metadata::TiffMetadataReader;
 use async_tiff::reader::{AsyncFileReader, Endianness};
 use async_tiff::ImageFileDirectory;
-use pyo3::exceptions::{PyIndexError, PyTypeError};
+use pyo3::exceptions::{PyIndexError, PyTypeError, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::PyType;
 use pyo3_async_runtimes::tokio::future_into_py;
@@ -67,7 +67,7 @@ impl PyTIFF {
     }
 
     #[getter]
-    fn header_byte_size(&self) -> u64 {
+    fn header_byte_size(&self) -> PyResult<u64> {
         self.ifds
             .iter()
             .flat_map(|ifd| {
@@ -79,7 +79,7 @@ impl PyTIFF {
                     .filter(|&o| o != 0)
             })
             .min()
-            .expect("TIFF spec requires every IFD to have StripOffsets or TileOffsets")
+            .ok_or_else(|| PyValueError::new_err("No non-zero TileOffsets or StripOffsets found"))
     }
 
     fn ifd(&self, index: usize) -> PyResult<PyImageFileDirectory> {
-- 
2.43.0


From 5931bd56ee3dda0f4ede84776652271dc374bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:00 +0000
Subject: [PATCH 32/32] fix: let Tile.decode_sync be called without a decoder
 registry

It is documented as optional, but optional arguments without a signature
are required.
---
 python/src/tile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/tile.rs b/python/src/tile.rs
index 535723c..5b85544 100644
--- a/python/src/tile.rs
+++ b/python/src/tile.rs
@@ -56,6 +56,7 @@ impl PyTile {
             .map(|t| t.compression_method().into())
     }
 
+    #[pyo3(signature = (decoder_registry=None))]
     fn decode_sync<'py>(
         &mut self,
         py: Python<'py>,
-- 
2.43.0

