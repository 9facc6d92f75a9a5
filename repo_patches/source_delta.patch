From 71304bea6fdbfeb6d7e325744269a9b417978339 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 01/17] hook: wrappers for private encoders behind
 cfg(vpin_verif)

---
 src/vpx/mod.rs   |  3 +++
 src/vpx/verif.rs | 10 ++++++++++
 2 files changed, 13 insertions(+)
 create mode 100644 src/vpx/verif.rs

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 3ab9304..e24a9b8 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -78,6 +78,9 @@ pub mod mesh;
 pub(crate) mod obj;
 pub(crate) mod wav;
 
+#[cfg(vpin_verif)]
+pub mod verif;
+
 /// In-memory representation of a VPX file
 ///
 /// *We guarantee an exact copy when reading and writing this. Exact as in the same structure and data, the underlying compound file will be a bit different on the binary level.*
diff --git a/src/vpx/verif.rs b/src/vpx/verif.rs
new file mode 100644
index 0000000..31f332f
--- /dev/null
+++ b/src/vpx/verif.rs
@@ -0,0 +1,10 @@
+//! Access to crate-private items for external verification harnesses.
+//!
+//! Only compiled with `--cfg vpin_verif`; never part of a normal build.
+#![allow(missing_docs)]
+
+use crate::vpx::gameitem::GameItemEnum;
+
+pub fn gameitem_write(item: &GameItemEnum) -> Vec<u8> {
+    super::gameitem::write(item)
+}
-- 
2.43.0


From 587c29c789897ff97c5292fe78d93aafa2f8526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:49 +0000
Subject: [PATCH 02/17] hook: more wrappers behind cfg(vpin_verif)

---
 src/vpx/verif.rs | 69 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/src/vpx/verif.rs b/src/vpx/verif.rs
index 31f332f..ac1716b 100644
--- a/src/vpx/verif.rs
+++ b/src/vpx/verif.rs
@@ -3,8 +3,77 @@
 //! Only compiled with `--cfg vpin_verif`; never part of a normal build.
 #![allow(missing_docs)]
 
+use crate::vpx::VPX;
+use crate::vpx::biff::{BiffReader, BiffWriter};
+use crate::vpx::gamedata::{GameData, GameDataJson};
 use crate::vpx::gameitem::GameItemEnum;
+use crate::vpx::json::F32WithNanInf;
+use crate::vpx::sound::SoundData;
+use crate::vpx::version::Version;
+use bytes::BytesMut;
+use std::io::{self, Cursor};
 
 pub fn gameitem_write(item: &GameItemEnum) -> Vec<u8> {
     super::gameitem::write(item)
 }
+
+pub fn sound_read(version: &Version, data: &[u8]) -> SoundData {
+    super::sound::read(version, &mut BiffReader::new(data))
+}
+
+pub fn sound_write(version: &Version, sound: &SoundData) -> Vec<u8> {
+    let mut writer = BiffWriter::new();
+    super::sound::write(version, sound, &mut writer);
+    writer.get_data().to_vec()
+}
+
+/// Parses a wav header and writes it again; also returns what followed the header.
+pub fn wav_rewrite(data: &[u8]) -> io::Result<(Vec<u8>, Vec<u8>)> {
+    let mut reader = BytesMut::from(data);
+    let header = super::wav::read_wav_header(&mut reader)?;
+    let mut writer = BytesMut::new();
+    super::wav::write_wav_header(&header, &mut writer);
+    Ok((writer.to_vec(), reader.to_vec()))
+}
+
+pub fn utf16_decode(bytes: &[u8]) -> io::Result<String> {
+    super::utf16::decode_utf16le(bytes)
+}
+
+pub fn utf16_encode(value: &str) -> Vec<u8> {
+    super::utf16::encode_utf16le(value)
+}
+
+/// The stored and the computed MAC of a file.
+pub fn macs(file: &[u8]) -> io::Result<(Vec<u8>, Vec<u8>)> {
+    let mut comp = cfb::CompoundFile::open_strict(Cursor::new(file.to_vec()))?;
+    let stored = super::read_mac(&mut comp)?;
+    let computed = super::generate_mac(&mut comp)?;
+    Ok((stored, computed))
+}
+
+pub fn minimal() -> io::Result<Vec<u8>> {
+    let mut comp = cfb::CompoundFile::create(Cursor::new(Vec::new()))?;
+    super::write_minimal_vpx(&mut comp)?;
+    comp.flush()?;
+    Ok(comp.into_inner().into_inner())
+}
+
+/// Serialised form of a float in the json files.
+pub fn f32_to_json(value: f32) -> serde_json::Value {
+    serde_json::to_value(F32WithNanInf::from(value)).unwrap()
+}
+
+pub fn f32_from_json(value: serde_json::Value) -> serde_json::Result<f32> {
+    let wrapped: F32WithNanInf = serde_json::from_value(value)?;
+    Ok(wrapped.into())
+}
+
+pub fn gamedata_from_json(value: serde_json::Value) -> serde_json::Result<GameData> {
+    let json: GameDataJson = serde_json::from_value(value)?;
+    Ok(json.to_game_data())
+}
+
+pub fn order_warnings(vpx: &VPX) -> usize {
+    super::gameitem::validate_part_group_order(&vpx.gameitems).len()
+}
-- 
2.43.0


From 8405ea8f5bdc0d03c9108b7bafefe166766d6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 03/17] fix: keep the stored average byte rate when a wav sound
 is extracted

---
 src/vpx/sound.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index 79e2325..e856c18 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -178,11 +178,6 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
     } else {
         sound_data.wave_form.cb_size as u32 // 4
     };
-    //let bytes_per_sec = sound_data.wave_form.avg_bytes_per_sec;
-    let bytes_per_sec = sound_data.wave_form.samples_per_sec
-        * sound_data.wave_form.bits_per_sample as u32
-        * sound_data.wave_form.channels as u32
-        / 8;
     let extension_size = if sound_data.wave_form.format_tag == 1 {
         None
     } else {
@@ -197,7 +192,7 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
         format_tag: sound_data.wave_form.format_tag,
         channels: sound_data.wave_form.channels,
         samples_per_sec: sound_data.wave_form.samples_per_sec,
-        avg_bytes_per_sec: bytes_per_sec,
+        avg_bytes_per_sec: sound_data.wave_form.avg_bytes_per_sec,
         block_align: sound_data.wave_form.block_align,
         bits_per_sample: sound_data.wave_form.bits_per_sample,
         extension_size,
-- 
2.43.0


From dac24611f42d43c3e6479db31d652a8db3b6cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 04/17] fix: do not mistake bitmap data for the record that
 follows it

---
 src/vpx/biff.rs  | 20 ++++++++++++++++++++
 src/vpx/image.rs |  4 ++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/vpx/biff.rs b/src/vpx/biff.rs
index 2f18fc0..76ba0fa 100644
--- a/src/vpx/biff.rs
+++ b/src/vpx/biff.rs
@@ -484,6 +484,26 @@ impl<'a> BiffReader<'a> {
         }
     }
 
+    /// Read length-prefixed blocks until the record with the given 4 byte payload tag.
+    ///
+    /// The tag is only looked for between blocks, the block contents are arbitrary and may
+    /// contain the same bytes. If the data is not properly divided in blocks we fall back to
+    /// searching the tag byte by byte.
+    pub(crate) fn blocks_until(&mut self, tag: &[u8; 4]) -> Vec<u8> {
+        let mut pos = self.pos;
+        while pos + 8 <= self.data.len() {
+            if self.data[pos..pos + 4] == 8u32.to_le_bytes() && &self.data[pos + 4..pos + 8] == tag
+            {
+                let data = &self.data[self.pos..pos];
+                self.pos = pos;
+                self.bytes_in_record_remaining = 0;
+                return data.to_vec();
+            }
+            pos += 1 + self.data[pos] as usize;
+        }
+        self.data_until(tag)
+    }
+
     pub fn data_until(&mut self, tag: &[u8]) -> Vec<u8> {
         // read bytes until we see tag and return it, put pos to the beginning of the tag
         let mut pos = self.pos;
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 70921b7..67ec8d2 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -395,8 +395,8 @@ fn read(reader: &mut BiffReader) -> ImageData {
             }
             "BITS" => {
                 // these have zero as length
-                // read all the data until the next expected tag
-                let data = reader.data_until("ALTV".as_bytes());
+                // read all the data blocks until the next expected tag
+                let data = reader.blocks_until(b"ALTV");
                 //let reader = std::io::Cursor::new(data);
 
                 // uncompressed = zlib.decompress(image_data.data[image_data.pos:]) #, wbits=9)
-- 
2.43.0


From 53737da3d68953499c2a611742878f6591677cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 05/17] hook: json wrappers behind cfg(vpin_verif)

---
 src/vpx/verif.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/vpx/verif.rs b/src/vpx/verif.rs
index ac1716b..7f0ab4b 100644
--- a/src/vpx/verif.rs
+++ b/src/vpx/verif.rs
@@ -7,8 +7,13 @@ use crate::vpx::VPX;
 use crate::vpx::biff::{BiffReader, BiffWriter};
 use crate::vpx::gamedata::{GameData, GameDataJson};
 use crate::vpx::gameitem::GameItemEnum;
+use crate::vpx::image::{ImageData, ImageDataBits, ImageDataJson};
 use crate::vpx::json::F32WithNanInf;
-use crate::vpx::sound::SoundData;
+use crate::vpx::material::{
+    SaveMaterial, SaveMaterialJson, SavePhysicsMaterial, SavePhysicsMaterialJson,
+};
+use crate::vpx::renderprobe::{RenderProbeJson, RenderProbeWithGarbage};
+use crate::vpx::sound::{SoundData, SoundDataJson};
 use crate::vpx::version::Version;
 use bytes::BytesMut;
 use std::io::{self, Cursor};
@@ -77,3 +82,52 @@ pub fn gamedata_from_json(value: serde_json::Value) -> serde_json::Result<GameDa
 pub fn order_warnings(vpx: &VPX) -> usize {
     super::gameitem::validate_part_group_order(&vpx.gameitems).len()
 }
+
+/// The fields of an item that are kept outside its own json.
+pub fn restore_index_fields(item: &mut GameItemEnum, from: &GameItemEnum) {
+    item.set_locked(from.is_locked());
+    item.set_editor_layer(from.editor_layer());
+    item.set_editor_layer_name(from.editor_layer_name().clone());
+    item.set_editor_layer_visibility(from.editor_layer_visibility());
+}
+
+/// Image to json and back, without the pixel data.
+pub fn image_via_json(
+    image: &ImageData,
+    bits: Option<ImageDataBits>,
+) -> serde_json::Result<ImageData> {
+    let value = serde_json::to_value(ImageDataJson::from_image_data(image))?;
+    let json: ImageDataJson = serde_json::from_value(value)?;
+    Ok(json.to_image_data(image.width, image.height, bits))
+}
+
+/// Sound to json and back, without wave form and data.
+pub fn sound_via_json(sound: &SoundData) -> serde_json::Result<SoundData> {
+    let value = serde_json::to_value(SoundDataJson::from_sound_data(sound))?;
+    let json: SoundDataJson = serde_json::from_value(value)?;
+    Ok(json.to_sound_data())
+}
+
+pub fn save_material_via_json(material: &SaveMaterial) -> serde_json::Result<SaveMaterial> {
+    let value = serde_json::to_value(SaveMaterialJson::from_save_material(material))?;
+    let json: SaveMaterialJson = serde_json::from_value(value)?;
+    Ok(SaveMaterialJson::to_save_material(&json))
+}
+
+pub fn physics_material_via_json(
+    material: &SavePhysicsMaterial,
+) -> serde_json::Result<SavePhysicsMaterial> {
+    let value = serde_json::to_value(SavePhysicsMaterialJson::from_save_physics_material(
+        material,
+    ))?;
+    let json: SavePhysicsMaterialJson = serde_json::from_value(value)?;
+    Ok(SavePhysicsMaterialJson::to_save_physics_material(&json))
+}
+
+pub fn render_probe_via_json(
+    probe: &RenderProbeWithGarbage,
+) -> serde_json::Result<RenderProbeWithGarbage> {
+    let value = serde_json::to_value(RenderProbeJson::from_renderprobe(probe))?;
+    let json: RenderProbeJson = serde_json::from_value(value)?;
+    Ok(json.to_renderprobe())
+}
-- 
2.43.0


From 45b08a8ce19e660f71575c7befda519062702076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 06/17] fix: refuse malformed NaN and color texts instead of
 panicking

---
 src/vpx/color.rs | 5 +++++
 src/vpx/json.rs  | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vpx/color.rs b/src/vpx/color.rs
index 9b53aa8..d6a35c4 100644
--- a/src/vpx/color.rs
+++ b/src/vpx/color.rs
@@ -63,6 +63,11 @@ impl<'de> Deserialize<'de> for Color {
         D: serde::Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
+        if !s.is_ascii() {
+            return Err(serde::de::Error::custom(
+                "Invalid color format, expected #RRGGBB",
+            ));
+        }
         match s.len() {
             7 => {
                 if &s[0..1] != "#" {
diff --git a/src/vpx/json.rs b/src/vpx/json.rs
index b3e160b..eae9a39 100644
--- a/src/vpx/json.rs
+++ b/src/vpx/json.rs
@@ -72,8 +72,11 @@ where
                 if let Some(hex_string) = other.strip_prefix("nan|") {
                     let bytes = hex::decode(hex_string)
                         .map_err(|e| serde::de::Error::custom(e.to_string()))?;
-                    let mut array = [0; 4];
-                    array.copy_from_slice(&bytes);
+                    let array: [u8; 4] = bytes.try_into().map_err(|_| {
+                        serde::de::Error::custom(format!(
+                            "expected 4 bytes after \"NaN|\", found {hex_string}"
+                        ))
+                    })?;
                     let f = f32::from_le_bytes(array);
                     Ok(f)
                 } else {
-- 
2.43.0


From 3d4ba561660c5d9c0397a2ab514498e13e791e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:13 +0000
Subject: [PATCH 07/17] fix: a resource's file extension cannot lead out of its
 directory

---
 src/vpx/expanded/fonts.rs  | 6 +++---
 src/vpx/expanded/images.rs | 6 +++---
 src/vpx/expanded/sounds.rs | 6 +++---
 src/vpx/expanded/util.rs   | 6 ++++++
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/vpx/expanded/fonts.rs b/src/vpx/expanded/fonts.rs
index 40396ee..946c8b3 100644
--- a/src/vpx/expanded/fonts.rs
+++ b/src/vpx/expanded/fonts.rs
@@ -7,7 +7,7 @@ use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{read_json, resource_file_name, sanitize_filename};
 
 pub(super) fn write_fonts<P: AsRef<Path>>(
     fonts: &[FontData],
@@ -24,7 +24,7 @@ pub(super) fn write_fonts<P: AsRef<Path>>(
     fs.create_dir_all(&fonts_dir)?;
     fonts.iter().try_for_each(|font| {
         let sanitized_name = sanitize_filename(&font.name);
-        let file_name = format!("{}.{}", sanitized_name, font.ext());
+        let file_name = resource_file_name(&sanitized_name, &font.ext());
         let font_path = fonts_dir.join(file_name);
         let mut file = fs.create_file(&font_path)?;
         file.write_all(&font.data)
@@ -51,7 +51,7 @@ pub(super) fn read_fonts<P: AsRef<Path>>(
         .into_iter()
         .map(|mut font| {
             let sanitized_name = sanitize_filename(&font.name);
-            let file_name = format!("{}.{}", sanitized_name, font.ext());
+            let file_name = resource_file_name(&sanitized_name, &font.ext());
             let font_path = fonts_dir.join(file_name);
             if fs.exists(&font_path) {
                 let font_data = fs.read_file(&font_path)?;
diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index 17d7245..d855986 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -10,7 +10,7 @@ use std::io::{self, BufRead, Seek, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{read_json, resource_file_name, sanitize_filename};
 
 struct ImageBmp {
     width: u32,
@@ -64,7 +64,7 @@ pub(super) fn write_images<P: AsRef<Path>>(
             image_names_lower.insert(lower_name);
 
             let actual_name = json.name_dedup.as_ref().unwrap_or(&image.name);
-            let file_name = format!("{}.{}", actual_name, image.ext());
+            let file_name = resource_file_name(actual_name, &image.ext());
 
             if let Some(jpeg) = &image.jpeg {
                 // Only if the actual image dimensions are different from
@@ -261,7 +261,7 @@ pub(super) fn read_images<P: AsRef<Path>>(
                     .name_dedup
                     .as_ref()
                     .unwrap_or(&image_data_json.name);
-                let full_file_name = format!("{}.{}", file_name, image_data_json.ext());
+                let full_file_name = resource_file_name(file_name, &image_data_json.ext());
                 let mut file_path = images_dir.join(&full_file_name);
 
                 let mut new_extension = None;
diff --git a/src/vpx/expanded/sounds.rs b/src/vpx/expanded/sounds.rs
index be8af44..3a2f659 100644
--- a/src/vpx/expanded/sounds.rs
+++ b/src/vpx/expanded/sounds.rs
@@ -8,7 +8,7 @@ use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{read_json, resource_file_name, sanitize_filename};
 
 pub(super) fn write_sounds<P: AsRef<Path>>(
     sounds: &[SoundData],
@@ -45,7 +45,7 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
             sound_names_lower.insert(lower_name);
 
             let actual_name = json.name_dedup.as_ref().unwrap_or(&name_sanitized);
-            let file_name = format!("{}.{}", actual_name, sound.ext());
+            let file_name = resource_file_name(actual_name, &sound.ext());
             json_sounds.push(json);
             (file_name, sound)
         })
@@ -89,7 +89,7 @@ pub(super) fn read_sounds<P: AsRef<Path>>(
         .map(|sound_data_json| {
             let mut sound = sound_data_json.to_sound_data();
             let file_name = sound_data_json.name_dedup.as_ref().unwrap_or(&sound.name);
-            let full_file_name = format!("{}.{}", file_name, sound.ext());
+            let full_file_name = resource_file_name(file_name, &sound.ext());
             let file_path = sounds_dir.join(full_file_name);
             if fs.exists(&file_path) {
                 let sound_data = fs.read_file(&file_path)?;
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 9dc8f95..20c0ee1 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -14,6 +14,12 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
     sanitize_filename::sanitize(name)
 }
 
+/// File name for a resource: a name that is already safe, and the extension of the path it was
+/// once loaded from. That extension can hold anything, including path separators.
+pub(super) fn resource_file_name(name: &str, ext: &str) -> String {
+    format!("{}.{}", name, sanitize_filename(ext))
+}
+
 /// Read and parse a JSON file from the filesystem
 pub(super) fn read_json<P: AsRef<Path>, T>(json_path: P, fs: &dyn FileSystem) -> io::Result<T>
 where
-- 
2.43.0


From a9cfe8afe3c5d267aab00653483139a93a45fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:13 +0000
Subject: [PATCH 08/17] hook: sanitize_filename behind cfg(vpin_verif)

---
 src/vpx/verif.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vpx/verif.rs b/src/vpx/verif.rs
index 7f0ab4b..7bba3c6 100644
--- a/src/vpx/verif.rs
+++ b/src/vpx/verif.rs
@@ -131,3 +131,8 @@ pub fn render_probe_via_json(
     let json: RenderProbeJson = serde_json::from_value(value)?;
     Ok(json.to_renderprobe())
 }
+
+/// The file name a resource name becomes.
+pub fn sanitize(name: &str) -> String {
+    super::expanded::util::sanitize_filename(name)
+}
-- 
2.43.0


From 3e82ee7b752f99034a94a2ec576e278688ffab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:42 +0000
Subject: [PATCH 09/17] fix: a made-up file name for a repeated image or sound
 name is a file name of its own

---
 src/vpx/expanded/images.rs | 10 +++++++---
 src/vpx/expanded/sounds.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index d855986..3d3cb97 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -51,10 +51,14 @@ pub(super) fn write_images<P: AsRef<Path>>(
                 );
                 json.name_dedup = Some(name_sanitized.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
+            let mut lower_name = name_sanitized.to_lowercase();
             if image_names_lower.contains(&lower_name) {
-                image_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", image.name, image_names_dupe_counter);
+                let mut name_dedup = String::new();
+                while image_names_lower.contains(&lower_name) {
+                    image_names_dupe_counter += 1;
+                    name_dedup = format!("{}_dedup{}", name_sanitized, image_names_dupe_counter);
+                    lower_name = name_dedup.to_lowercase();
+                }
                 info!(
                     "Image name {} is not unique, renaming file to {}",
                     name_sanitized, name_dedup
diff --git a/src/vpx/expanded/sounds.rs b/src/vpx/expanded/sounds.rs
index 3a2f659..49f80ce 100644
--- a/src/vpx/expanded/sounds.rs
+++ b/src/vpx/expanded/sounds.rs
@@ -32,10 +32,14 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
                 );
                 json.name_dedup = Some(name_sanitized.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
+            let mut lower_name = name_sanitized.to_lowercase();
             if sound_names_lower.contains(&lower_name) {
-                sound_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", sound.name, sound_names_dupe_counter);
+                let mut name_dedup = String::new();
+                while sound_names_lower.contains(&lower_name) {
+                    sound_names_dupe_counter += 1;
+                    name_dedup = format!("{}_dedup{}", name_sanitized, sound_names_dupe_counter);
+                    lower_name = name_dedup.to_lowercase();
+                }
                 info!(
                     "Sound name {} is not unique, renaming file to {}",
                     name_sanitized, name_dedup
-- 
2.43.0


From 5de1f256296ea01192a4ab7ff9b9d3f164cfcc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:43 +0000
Subject: [PATCH 10/17] fix: fonts with the same name get a file each

---
 src/vpx/expanded/fonts.rs | 42 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/vpx/expanded/fonts.rs b/src/vpx/expanded/fonts.rs
index 946c8b3..6806299 100644
--- a/src/vpx/expanded/fonts.rs
+++ b/src/vpx/expanded/fonts.rs
@@ -3,12 +3,32 @@
 use crate::filesystem::FileSystem;
 use crate::vpx::font::{FontData, FontDataJson};
 use log::info;
+use std::collections::HashSet;
 use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
 use super::util::{read_json, resource_file_name, sanitize_filename};
 
+/// The file name of each font. Nothing stops two fonts from having the same name, they still need
+/// a file each. The names only depend on the fonts, so reading makes up the same ones.
+fn font_file_names(fonts: &[FontData]) -> Vec<String> {
+    let mut used_lower: HashSet<String> = HashSet::new();
+    fonts
+        .iter()
+        .map(|font| {
+            let name = sanitize_filename(&font.name);
+            let mut file_name = resource_file_name(&name, &font.ext());
+            let mut counter = 0;
+            while !used_lower.insert(file_name.to_lowercase()) {
+                counter += 1;
+                file_name = resource_file_name(&format!("{name}_dedup{counter}"), &font.ext());
+            }
+            file_name
+        })
+        .collect()
+}
+
 pub(super) fn write_fonts<P: AsRef<Path>>(
     fonts: &[FontData],
     expanded_dir: &P,
@@ -22,13 +42,15 @@ pub(super) fn write_fonts<P: AsRef<Path>>(
 
     let fonts_dir = expanded_dir.as_ref().join("fonts");
     fs.create_dir_all(&fonts_dir)?;
-    fonts.iter().try_for_each(|font| {
-        let sanitized_name = sanitize_filename(&font.name);
-        let file_name = resource_file_name(&sanitized_name, &font.ext());
-        let font_path = fonts_dir.join(file_name);
-        let mut file = fs.create_file(&font_path)?;
-        file.write_all(&font.data)
-    })?;
+    let file_names = font_file_names(fonts);
+    fonts
+        .iter()
+        .zip(file_names)
+        .try_for_each(|(font, file_name)| {
+            let font_path = fonts_dir.join(file_name);
+            let mut file = fs.create_file(&font_path)?;
+            file.write_all(&font.data)
+        })?;
     Ok(())
 }
 
@@ -47,11 +69,11 @@ pub(super) fn read_fonts<P: AsRef<Path>>(
         .map(|font_data_json| font_data_json.to_font_data())
         .collect();
     let fonts_dir = expanded_dir.as_ref().join("fonts");
+    let file_names = font_file_names(&fonts_index);
     let fonts: io::Result<Vec<FontData>> = fonts_index
         .into_iter()
-        .map(|mut font| {
-            let sanitized_name = sanitize_filename(&font.name);
-            let file_name = resource_file_name(&sanitized_name, &font.ext());
+        .zip(file_names)
+        .map(|(mut font, file_name)| {
             let font_path = fonts_dir.join(file_name);
             if fs.exists(&font_path) {
                 let font_data = fs.read_file(&font_path)?;
-- 
2.43.0


From 4db74ebf7ab1fd2ea75f77558d5f64cd1ed649aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 11/17] fix: a primitive named like an animation frame gets a
 file name of its own

---
 src/vpx/expanded/gameitems.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index 948f7a6..5620492 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -132,6 +132,12 @@ pub(super) fn write_gameitems<P: AsRef<Path>>(
     Ok(())
 }
 
+/// Animation frames of a primitive are stored next to it as `<file name>_anim_<frame>`
+fn looks_like_animation_frame(name: &str) -> bool {
+    name.rsplit_once("_anim_")
+        .is_some_and(|(_, frame)| !frame.is_empty() && frame.chars().all(|c| c.is_ascii_digit()))
+}
+
 fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEnum) -> String {
     let mut name = gameitem.name().to_string();
     if name.is_empty() {
@@ -139,6 +145,10 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     }
     // escape any characters that are not allowed in file names, for any os
     name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+    if looks_like_animation_frame(&name) {
+        // would be taken for an animation frame of another primitive
+        name.push('_');
+    }
     let file_name = format!("{}.{}", gameitem.type_name(), name);
     file_name_gen.ensure_unique(file_name)
 }
-- 
2.43.0


From 2380ca21e1727e661e2d11db00b10934037bc665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:27 +0000
Subject: [PATCH 12/17] fix: a line break in a primitive's name does not end up
 as data in its obj file

---
 src/vpx/obj.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 4be9231..0f01551 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -125,7 +125,8 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         vpx_vertices.len(),
         vpx_indices.len()
     ))?;
-    obj_writer.write_object_name(name)?;
+    // a line break in the name would end the line and have the rest taken for data
+    obj_writer.write_object_name(name.replace(['\n', '\r'], " "))?;
 
     for VertexWrapper { vertex, .. } in vpx_vertices {
         obj_writer.write_vertex(vertex.x, vertex.y, -vertex.z, None)?;
-- 
2.43.0


From a5434c0d550127606065f63bf1ce7db39ce1f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:25 +0000
Subject: [PATCH 13/17] fix: NaN values in the animation frames of a primitive
 survive extraction

---
 src/vpx/expanded/primitives.rs | 30 ++++++++++++++++++++----------
 src/vpx/gameitem/primitive.rs  |  2 +-
 src/vpx/obj.rs                 |  2 +-
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/vpx/expanded/primitives.rs b/src/vpx/expanded/primitives.rs
index 49e39ed..cfb7611 100644
--- a/src/vpx/expanded/primitives.rs
+++ b/src/vpx/expanded/primitives.rs
@@ -7,14 +7,14 @@ use crate::filesystem::FileSystem;
 use crate::vpx::gameitem::GameItemEnum;
 use crate::vpx::gameitem::primitive;
 use crate::vpx::gameitem::primitive::{
-    MAX_VERTICES_FOR_2_BYTE_INDEX, ReadMesh, VertData, VertexWrapper, read_vpx_animation_frame,
-    write_animation_vertex_data,
+    MAX_VERTICES_FOR_2_BYTE_INDEX, ReadMesh, VertData, VertexWrapper, read_animation_vertex_data,
+    read_vpx_animation_frame, write_animation_vertex_data,
 };
 use crate::vpx::gltf::{GltfContainer, read_gltf, write_gltf};
 use crate::vpx::model::Vertex3dNoTex2;
 use crate::vpx::obj::{
-    ObjData, ReadObjResult, VpxFace, read_obj as obj_read_obj, read_obj_from_reader, write_obj,
-    write_vertex_index_for_vpx,
+    ObjData, ReadObjResult, VpxCommentBytes, VpxFace, read_obj as obj_read_obj,
+    read_obj_from_reader, write_obj, write_vertex_index_for_vpx,
 };
 
 use crate::vpx::TableDimensions;
@@ -660,8 +660,7 @@ fn replace_vertices(
             full_vertex.nx = animation_vertex.nx;
             full_vertex.ny = animation_vertex.ny;
             full_vertex.nz = animation_vertex.nz;
-            // TODO we don't have a full representation of the vertex
-            VertexWrapper::new([0u8; 32], full_vertex)
+            VertexWrapper::new(full_vertex.to_vpx_bytes(), full_vertex)
         })
         .collect::<Vec<_>>();
     Ok(full_vertices)
@@ -937,7 +936,14 @@ fn read_obj_as_frame(obj_path: &Path, fs: &dyn FileSystem) -> io::Result<Vec<Ver
             ny,
             nz,
         };
-        vertices.push(vertext);
+        // values the text cannot represent are in the comment, older versions left zeros there
+        match &vn.vpx_bytes {
+            Some(VpxCommentBytes::Vertex(bytes)) if bytes != &[0u8; 32] => {
+                let mut buff = BytesMut::from(&bytes[..VertData::SERIALIZED_SIZE]);
+                vertices.push(read_animation_vertex_data(&mut buff));
+            }
+            _ => vertices.push(vertext),
+        }
     }
     Ok(vertices)
 }
@@ -950,13 +956,17 @@ fn read_gltf_as_frame(
     let (vertices, _) = read_gltf(gltf_path, container, fs)?;
     let mut frames = Vec::with_capacity(vertices.len());
     for vertex in vertices {
+        // NaN normals are only kept in the encoded vertex
+        let mut buff = BytesMut::from(&vertex.vpx_encoded_vertex[..VertData::SERIALIZED_SIZE]);
+        let encoded = read_animation_vertex_data(&mut buff);
+        let normal = |value: f32, encoded: f32| if encoded.is_nan() { encoded } else { value };
         frames.push(VertData {
             x: vertex.vertex.x,
             y: vertex.vertex.y,
             z: vertex.vertex.z,
-            nx: vertex.vertex.nx,
-            ny: vertex.vertex.ny,
-            nz: vertex.vertex.nz,
+            nx: normal(vertex.vertex.nx, encoded.nx),
+            ny: normal(vertex.vertex.ny, encoded.ny),
+            nz: normal(vertex.vertex.nz, encoded.nz),
         });
     }
     Ok(frames)
diff --git a/src/vpx/gameitem/primitive.rs b/src/vpx/gameitem/primitive.rs
index b221133..f3953d2 100644
--- a/src/vpx/gameitem/primitive.rs
+++ b/src/vpx/gameitem/primitive.rs
@@ -1281,7 +1281,7 @@ pub(crate) fn read_vpx_animation_frame(
     Ok(vertices)
 }
 
-fn read_animation_vertex_data(buffer: &mut BytesMut) -> VertData {
+pub(crate) fn read_animation_vertex_data(buffer: &mut BytesMut) -> VertData {
     let x = buffer.get_f32_le();
     let y = buffer.get_f32_le();
     let z = buffer.get_f32_le();
diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 0f01551..e518330 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -699,7 +699,7 @@ pub(crate) struct VpxObjNormal {
     pub(crate) z: f32,
     // in case the vertex had NaN or otherwise unrepresentable values, the
     // original vpx bytes from the preceding `# vpx <hex>` comment go here
-    vpx_bytes: Option<VpxCommentBytes>,
+    pub(crate) vpx_bytes: Option<VpxCommentBytes>,
 }
 impl VpxObjNormal {
     fn new(x: f32, y: f32, z: f32, vpx_bytes: Option<VpxCommentBytes>) -> Self {
-- 
2.43.0


From 520c779134a9e1a0207c80e123cf15e8d94e70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:28 +0000
Subject: [PATCH 14/17] fix: a failed write of a stream is reported, not
 dropped with it

---
 src/vpx/mod.rs       | 27 ++++++++++++++++-----------
 src/vpx/tableinfo.rs |  6 ++++--
 src/vpx/version.rs   |  2 +-
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index e24a9b8..abe99f0 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -347,10 +347,9 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         }
     }
     for path in stream_paths.iter() {
-        std::io::copy(
-            &mut original.open_stream(path)?,
-            &mut duplicate.create_new_stream(path)?,
-        )?;
+        let mut duplicate_stream = duplicate.create_new_stream(path)?;
+        std::io::copy(&mut original.open_stream(path)?, &mut duplicate_stream)?;
+        duplicate_stream.flush()?;
     }
     duplicate.flush()?;
     std::fs::remove_file(&in_path)?;
@@ -617,7 +616,8 @@ fn read_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>) -> io::Result<Ve
 fn write_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>, mac: &[u8]) -> io::Result<()> {
     let mac_path = Path::new(MAIN_SEPARATOR_STR).join("GameStg").join("MAC");
     let mut mac_stream = comp.create_stream(mac_path)?;
-    mac_stream.write_all(mac)
+    mac_stream.write_all(mac)?;
+    mac_stream.flush()
 }
 
 #[derive(Clone, Debug)]
@@ -826,9 +826,9 @@ fn write_game_data<F: Read + Write + Seek>(
     // we expect GameStg to exist
     let mut game_data_stream = comp.create_stream(&game_data_path)?;
     let data = gamedata::write_all_gamedata_records(gamedata, version);
-    game_data_stream.write_all(&data)
-    // this flush was required before but now it's working without
-    // game_data_stream.flush()
+    game_data_stream.write_all(&data)?;
+    // an error in the flush on drop would go unnoticed
+    game_data_stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(gameitem_count = gamedata.gameitems_size))]
@@ -870,7 +870,8 @@ fn write_gameitem<F: Read + Write + Seek>(
 ) -> Result<(), Error> {
     let mut stream = comp.create_stream(path)?;
     let data = gameitem::write(gameitem);
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(sound_count = gamedata.sounds_size))]
@@ -917,6 +918,7 @@ fn write_sounds<F: Read + Write + Seek>(
         let mut writer = BiffWriter::new();
         sound::write(file_version, sound, &mut writer);
         stream.write_all(writer.get_data())?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -949,6 +951,7 @@ fn write_collections<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = collection::write(collection);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -999,7 +1002,7 @@ fn write_image<F: Read + Write + Seek>(
     let mut writer = BiffWriter::new();
     image.biff_write(&mut writer);
     stream.write_all(writer.get_data())?;
-    Ok(())
+    stream.flush()
 }
 
 #[derive(Debug, PartialEq, Clone)]
@@ -1115,6 +1118,7 @@ fn write_fonts<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = font::write(font);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -1145,7 +1149,8 @@ fn write_custominfotags<F: Read + Write + Seek>(
 
     let data = custominfotags::write_custominfotags(tags);
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 /// Table dimensions for UV coordinate calculation
diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index 4252ed3..fb9bc06 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -308,7 +308,8 @@ fn write_stream_string<F: Read + Write + Seek>(
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
     let wide = encode_utf16le(str);
-    stream.write_all(&wide)
+    stream.write_all(&wide)?;
+    stream.flush()
 }
 
 fn read_stream_binary<F: Read + Seek>(
@@ -327,7 +328,8 @@ fn write_stream_binary<F: Read + Write + Seek>(
     bytes: &[u8],
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(bytes)
+    stream.write_all(bytes)?;
+    stream.flush()
 }
 
 #[cfg(test)]
diff --git a/src/vpx/version.rs b/src/vpx/version.rs
index c27125f..350d238 100644
--- a/src/vpx/version.rs
+++ b/src/vpx/version.rs
@@ -93,7 +93,7 @@ fn write_version_data<F: Read + Write + Seek>(
     stream: &mut Stream<F>,
 ) -> io::Result<()> {
     stream.write_u32::<LittleEndian>(version.0)?;
-    Ok(())
+    stream.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 891a7c9640808b73cd196d44bb0af993c25cf89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:28 +0000
Subject: [PATCH 15/17] fix: a failed read of the table info is an error, not a
 panic

---
 src/vpx/tableinfo.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index fb9bc06..0800f51 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -214,7 +214,7 @@ pub(crate) fn read_tableinfo<F: Read + Seek>(
     let table_info_path = Path::new(MAIN_SEPARATOR_STR).join("TableInfo");
     let mut table_info = TableInfo::new();
 
-    let entries = comp.read_storage(table_info_path).unwrap();
+    let entries = comp.read_storage(table_info_path)?;
     // read all the entries in the entrues
     let paths: Vec<_> = entries
         .filter(|entry| entry.is_stream())
@@ -286,9 +286,9 @@ fn read_stream_string<F: Read + Seek>(
     comp: &mut CompoundFile<F>,
     path: &Path,
 ) -> Result<String, std::io::Error> {
-    let mut stream = comp.open_stream(path).unwrap();
+    let mut stream = comp.open_stream(path)?;
     let mut buffer = Vec::new();
-    stream.read_to_end(&mut buffer).unwrap();
+    stream.read_to_end(&mut buffer)?;
 
     match decode_utf16le(&buffer) {
         Ok(str) => Ok(str),
-- 
2.43.0


From e135be875eb0631b3587ddf10faa144d3802c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:28 +0000
Subject: [PATCH 16/17] fix: compacting replaces the file in one step

---
 src/vpx/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index abe99f0..e626a73 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -352,7 +352,9 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         duplicate_stream.flush()?;
     }
     duplicate.flush()?;
-    std::fs::remove_file(&in_path)?;
+    drop(original);
+    drop(duplicate);
+    // replaces the original in one step, so that there always is a complete file
     std::fs::rename(&out_path, &in_path)
 }
 
-- 
2.43.0


From 2ad6590085e0f005e265b0576680c134f1dea67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 17/17] fix: images_to_webp lists only the conversions it made

---
 src/vpx/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index e626a73..704248c 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -1081,12 +1081,12 @@ fn images_to_webp<F: Read + Write + Seek>(
                     image_data.bits = None;
                     image_data.jpeg = Some(jpg);
                     write_image(comp, index as usize, &image_data, true)?;
+                    conversions.push(ImageToWebpConversion {
+                        name: image_data.name.clone(),
+                        old_extension: "bmp".to_string(),
+                        new_extension: "webp".to_string(),
+                    });
                 }
-                conversions.push(ImageToWebpConversion {
-                    name: image_data.name.clone(),
-                    old_extension: "bmp".to_string(),
-                    new_extension: "webp".to_string(),
-                });
             }
             _ => {}
         }
-- 
2.43.0

