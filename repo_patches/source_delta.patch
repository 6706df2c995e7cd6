From a43531571a424ee3a6f504cb755c3d36c0b9b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 1/9] fix: return an error instead of panicking on invalid
 VobSub RLE data

---
 src/vobsub/decoder.rs | 18 +++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..618ca84 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -17,7 +17,7 @@ pub trait VobSubDecoder<'a> {
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +29,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +49,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From 0be98664159e55e4e84e350206859c7b70fe2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 2/9] fix: apply the default VobSub subtitle length from its
 start time

---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 618ca84..1d7de2b 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -33,7 +33,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::try_from(rle_image)?,
         ))
@@ -52,7 +52,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Result<Self::Output, VobSubError> {
         Ok(Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         ))
     }
 }
-- 
2.43.0


From 5e793ce6faa962c5e6199e2ada625b29ccf60cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 3/9] fix: return an error instead of panicking on invalid PDS
 size

---
 src/pgs/pds.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..ed8599d 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,10 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The segment size doesn't match a whole number of palette entries.
+    #[error("invalid size for a `PaletteDefinitionSegment`: {size}")]
+    InvalidSize { size: usize },
 }
 
 #[derive(Debug, Clone)]
@@ -60,11 +64,16 @@ pub(crate) fn read<R: Read>(
         .read_exact(&mut pds_buf)
         .map_err(Error::BufferParse)?;
 
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize {
+            size: segments_size,
+        });
+    }
+
     let palette_id = pds_buf[0];
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From c836a02cab2f211d4c50f3318de280036b3ddbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 4/9] fix: look up PGS palette entries by their id

---
 src/pgs/pds.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index ed8599d..dea2444 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -16,27 +16,14 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        self.entries.iter().find(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From 6ebac62dbeb88f3c43575554bb03475e34aa9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 5/9] fix: return an error instead of panicking on inconsistent
 ODS

---
 src/pgs/ods.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..fb5f2de 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -36,6 +36,13 @@ pub enum Error {
     #[error("read Height of the image incarried by the `Object Definition Segment`(s)")]
     ReadHeight(#[source] io::Error),
 
+    /// The size of the object data and the size of the segment(s) are not consistent.
+    #[error("object data size ({data_size}) is not consistent with segment size ({segment_size})")]
+    InvalidDataSize {
+        data_size: usize,
+        segment_size: usize,
+    },
+
     /// The read of object data failed.
     #[error("try reading object data (buffer slice size: {buff_size})")]
     ObjectData {
@@ -130,13 +137,23 @@ pub fn read<Reader: BufRead + Seek>(
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let data_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
+            if data_size < 4
+                || segments_size < 11
+                || segments_size - 11 > data_size - 4
+                || (last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
+                    && segments_size - 11 != data_size - 4)
+            {
+                return Err(Error::InvalidDataSize {
+                    data_size,
+                    segment_size: segments_size,
+                });
+            }
             let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
             let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
 
@@ -151,9 +168,6 @@ pub fn read<Reader: BufRead + Seek>(
             };
 
             if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
-
                 Ok(ObjectDefinitionSegment::Complete(data))
             } else if last_in_sequence_flag == LastInSequenceFlag::First {
                 Ok(ObjectDefinitionSegment::Partial {
@@ -168,7 +182,18 @@ pub fn read<Reader: BufRead + Seek>(
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
+            if segments_size < 4
+                || segments_size - 4 != data.object_data.len() - amount_of_data_read
+            {
+                return Err(Error::InvalidDataSize {
+                    data_size: data.object_data.len(),
+                    segment_size: segments_size,
+                });
+            }
 
             let start_idx = amount_of_data_read;
             let end_idx = start_idx + (segments_size - 4);
-- 
2.43.0


From 99f5a0a249990491a4c0de0ef54189f149092015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 6/9] fix: don't panic on a PGS stream with an unused palette
 or an incomplete object

---
 src/pgs/decoder.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..6562d88 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From 0aeeabbaf1de0dbad0d525de6c7207e4309da66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 7/9] fix: don't panic on truncated or empty runs in PGS RLE
 data

---
 src/pgs/pgs_image.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..8b8b38e 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -234,7 +234,7 @@ impl<C> RlePixelIterator<'_, C> {
             let next = color[0];
             if next == MARKER {
                 let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                self.raw_data.read_exact(&mut l2).ok()?;
 
                 if l2[0] == MARKER {
                     //break; // End of line
@@ -243,7 +243,7 @@ impl<C> RlePixelIterator<'_, C> {
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
                             let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
+                            self.raw_data.read_exact(&mut l3).ok()?;
                             let count_bytes = [byte & 0b0011_1111, l3[0]];
                             u16::from_be_bytes(count_bytes)
                         }
@@ -258,12 +258,15 @@ impl<C> RlePixelIterator<'_, C> {
                         ColorMarker::Color0 => COLOR_0,
                         ColorMarker::ColorN => {
                             let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
+                            self.raw_data.read_exact(&mut color).ok()?;
                             color[0]
                         }
                     };
 
-                    return Some((color, nb_pixels));
+                    // A run of `0` pixel has nothing to draw, skip it.
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
-- 
2.43.0


From 40b76cc489c51819c4bd188c480847bb60b7c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 8/9] fix: don't overflow when formatting the smallest
 `TimePoint`

---
 src/time/time_point.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index a7b9969..17b3f20 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -74,15 +74,14 @@ impl TimePoint {
     ///
     /// Will return error of writing if happen.
     pub fn fmt_separator(&self, f: &mut fmt::Formatter<'_>, separator: char) -> fmt::Result {
-        let t = if self.0 < 0 { -*self } else { *self };
         write!(
             f,
             "{}{:02}:{:02}:{:02}{separator}{:03}",
             if self.0 < 0 { "-" } else { "" },
-            t.hours(),
-            t.mins_comp(),
-            t.secs_comp(),
-            t.msecs_comp()
+            self.hours().unsigned_abs(),
+            self.mins_comp().unsigned_abs(),
+            self.secs_comp().unsigned_abs(),
+            self.msecs_comp().unsigned_abs()
         )
     }
 }
-- 
2.43.0


From 041ef9a8dd66269a81e4b1a8432066438fe5f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 9/9] fix: don't overflow when computing the size of an `Area`

---
 src/content/area.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/content/area.rs b/src/content/area.rs
index dbfb8d3..e663b3b 100644
--- a/src/content/area.rs
+++ b/src/content/area.rs
@@ -33,13 +33,13 @@ impl Area {
     /// The width of the subtitle.
     #[must_use]
     pub const fn width(&self) -> u16 {
-        self.0.x2 + 1 - self.0.x1
+        self.0.x2 - self.0.x1 + 1
     }
 
     /// The height of the subtitle.
     #[must_use]
     pub const fn height(&self) -> u16 {
-        self.0.y2 + 1 - self.0.y1
+        self.0.y2 - self.0.y1 + 1
     }
 
     /// The size of the subtitle.
@@ -62,7 +62,12 @@ impl TryFrom<AreaValues> for Area {
         // Later on, we assume that all bounding boxes
         // have non-negative width and height and we'll
         // crash if they don't.
-        if coords_value.x2 <= coords_value.x1 || coords_value.y2 <= coords_value.y1 {
+        // Likewise, width and height must be representable.
+        if coords_value.x2 <= coords_value.x1
+            || coords_value.y2 <= coords_value.y1
+            || coords_value.x2 - coords_value.x1 == u16::MAX
+            || coords_value.y2 - coords_value.y1 == u16::MAX
+        {
             Err(ContentError::InvalidAreaBounding)
         } else {
             Ok(Self(coords_value))
-- 
2.43.0

