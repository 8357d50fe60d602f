From 527b7d94244b20338dd7abd130e025a1b6edabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 01/32] hooks: forward crate-private sample unpackers under
 cfg(verif_hooks)

---
 rawler/src/lib.rs         |  3 +++
 rawler/src/verif_hooks.rs | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)
 create mode 100644 rawler/src/verif_hooks.rs

diff --git a/rawler/src/lib.rs b/rawler/src/lib.rs
index 3e0534a..7c3b4f8 100644
--- a/rawler/src/lib.rs
+++ b/rawler/src/lib.rs
@@ -91,6 +91,9 @@ pub mod rawimage;
 pub mod rawsource;
 pub mod tags;
 pub mod tiles;
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 #[doc(hidden)]
 pub use cfa::CFA;
diff --git a/rawler/src/verif_hooks.rs b/rawler/src/verif_hooks.rs
new file mode 100644
index 0000000..0965b9b
--- /dev/null
+++ b/rawler/src/verif_hooks.rs
@@ -0,0 +1,39 @@
+//! Entry points for the verification harnesses. Compiled only with
+//! `--cfg verif_hooks`; forwards to crate-private functions unchanged.
+
+/// Packed sample layouts.
+pub mod packed {
+  use crate::decompressors::packed as p;
+  use crate::pixarray::PixU16;
+  type R = std::result::Result<PixU16, String>;
+  macro_rules! fwd { ($($n:ident($($a:ident: $t:ty),*);)*) => { $( pub fn $n($($a: $t),*) -> R { p::$n($($a),*) } )* }; }
+  fwd! {
+    decompress_8bit(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_10le_lsb16(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_10be(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be_msb16(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12le_16bitaligned(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be_msb32(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_14be_msb32(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12le_wcontrol(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be_wcontrol(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be_interlaced(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be_interlaced_unaligned(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12le(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12le_padded(buf: &[u8], width: usize, height: usize, stripesize: usize, dummy: bool);
+    decompress_14le_padded(buf: &[u8], width: usize, height: usize, stripesize: usize, dummy: bool);
+    decompress_12le_unpacked(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be_unpacked(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12be_unpacked_left_aligned(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_12le_unpacked_left_aligned(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_14le_unpacked(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_14le_unpacked_padded(buf: &[u8], width: usize, height: usize, stripesize: usize, dummy: bool);
+    decompress_14be_unpacked(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_16le(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_16le_skiplines(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_16be(buf: &[u8], width: usize, height: usize, dummy: bool);
+    decompress_generic_msb(buf: &[u8], width: usize, height: usize, bits: u32, dummy: bool);
+    decompress_generic_lsb(buf: &[u8], width: usize, height: usize, bits: u32, dummy: bool);
+  }
+}
-- 
2.43.0


From d3d6e494b5487e40c7f742c0bab103b48e22ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 02/32] fix: unpack packed rows that do not start on a byte
 boundary

unpack_generic_msb() consumed the leading bits of a row from a bit pump that
had not been filled yet, so rows starting inside a byte were garbage (or
panicked with overflow checks enabled).
---
 rawler/src/decompressors/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/packed.rs b/rawler/src/decompressors/packed.rs
index 53fcd7e..7d219cd 100644
--- a/rawler/src/decompressors/packed.rs
+++ b/rawler/src/decompressors/packed.rs
@@ -182,7 +182,7 @@ fn unpack_generic_msb<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip
   let offset = skip_bits / 8;
   let bias = skip_bits % 8;
   let mut pump = BitPumpMSB::new(&src[offset..]);
-  pump.consume_bits(bias as u32);
+  pump.get_bits(bias as u32); // Skip to the first bit of the row
   for line in lines {
     for p in line {
       *p = pump.get_bits(bits) as u16;
-- 
2.43.0


From 48465ea80270dcd0b6985e27c327e7d228f34821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 03/32] fix: unpack 10 and 12 bit lines whose width is no
 multiple of the packing group

unpack_12be()/unpack_10be() only decode whole groups and compute the line start
in whole bytes, so the last pixels of such a line stayed zero and the following
lines were read from the wrong position. Use the generic unpacker for them.
---
 rawler/src/decompressors/packed.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rawler/src/decompressors/packed.rs b/rawler/src/decompressors/packed.rs
index 7d219cd..37c01d8 100644
--- a/rawler/src/decompressors/packed.rs
+++ b/rawler/src/decompressors/packed.rs
@@ -59,12 +59,13 @@ impl<'a> Decompressor<'a, u16> for PackedDecompressor {
       (Endian::Big, 16) => unpack_16be(lines, src, skip_rows, line_width),
       (Endian::Little, 16) => unpack_16le(lines, src, skip_rows, line_width),
       // 12 Bits, DNG spec says it must be always encoded as big-endian
-      (_, 12) => unpack_12be(lines, src, skip_rows, line_width),
+      (_, 12) if line_width % 2 == 0 => unpack_12be(lines, src, skip_rows, line_width),
       // 10 Bits, DNG spec says it must be always encoded as big-endian
-      (_, 10) => unpack_10be(lines, src, skip_rows, line_width),
+      (_, 10) if line_width % 4 == 0 => unpack_10be(lines, src, skip_rows, line_width),
       // 8 bits
       (_, 8) => unpack_8bit(lines, src, skip_rows, line_width),
-      // Generic MSB decoder for exotic packed bit sizes
+      // Generic MSB decoder for exotic packed bit sizes and for line widths
+      // which are not a multiple of the 10/12 bit packing group
       (_, bps) if bps > 0 && bps < 16 => unpack_generic_msb(lines, src, skip_rows, line_width, self.bps),
       // Unhandled bits
       (_, bps) => return Err(format!("unsupported packed compression scheme: {bps} bps")),
-- 
2.43.0


From ed48fdbdf7e96a97d71971582c04efcf2d67f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:14 +0000
Subject: [PATCH 04/32] fix: write embedded signed and float TIFF values as
 their bit patterns

---
 rawler/src/formats/tiff/value.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..e39a15c 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -861,10 +861,10 @@ impl Value {
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +872,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From 6f5bda4246842867026ce8c6559344f245906fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 05/32] fix: TIFF detection of an empty buffer

---
 rawler/src/formats/tiff/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index dc6910c..da59935 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -212,7 +212,7 @@ impl GenericTiffReader {
   /// Check if buffer looks like a TIFF file
   pub fn is_tiff<T: AsRef<[u8]>>(buffer: T) -> bool {
     let buffer = buffer.as_ref();
-    buffer[0] == 0x49 || buffer[0] == 0x4d // TODO
+    matches!(buffer.first(), Some(0x49 | 0x4d)) // TODO
   }
 
   pub fn little_endian(&self) -> bool {
-- 
2.43.0


From 2c39ab7b7866cbf6e64174cfab128962dfb17958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 06/32] fix: stop at TIFF directory chains that loop

---
 rawler/src/formats/tiff/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index da59935..8f9f88e 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -166,8 +166,12 @@ pub trait TiffReader {
     let reader = reader.into_inner();
 
     next_ifd = apply_corr(next_ifd, self.file().corr);
-    let mut chain = Vec::new();
+    let mut chain: Vec<IFD> = Vec::new();
     while next_ifd != 0 {
+      if chain.iter().any(|ifd| ifd.offset == next_ifd) {
+        log::warn!("TIFF: IFD chain loops back to offset {}, ignoring the rest of the chain", next_ifd);
+        break;
+      }
       // TODO: check if offset is in range
       let mut multi_sub_tags = self.wellknown_sub_ifd_tags();
       multi_sub_tags.extend_from_slice(sub_tags);
-- 
2.43.0


From 43de8dd5ecf61026a1006237184b1ff8af227d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 07/32] fix: reject TIFF values behind EOF before allocating
 memory for them

---
 rawler/src/formats/tiff/entry.rs  | 5 +++++
 rawler/src/formats/tiff/reader.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 6d32e95..3d0332d 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -105,6 +105,11 @@ impl Entry {
       return Err(TiffError::Overflow(format!("Offset {} is invalid for tag 0x{:X}", offset, tag)));
     }
 
+    if u64::from(base + offset) + bytesize as u64 > reader.stream_len()? {
+      // Don't allocate memory for data that can't exist
+      return Err(TiffError::Overflow(format!("Value of tag 0x{:X} is located behind EOF", tag)));
+    }
+
     reader.goto(base + offset)?;
     let entry = match typ {
       TYPE_BYTE => {
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index 8f9f88e..e4e7c0b 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -297,6 +297,14 @@ impl<'a, R: Read + Seek + 'a> EndianReader<'a, R> {
 
   // TODO: try_from?
 
+  /// Total length of the underlying stream, the current position is kept.
+  pub fn stream_len(&mut self) -> Result<u64> {
+    let pos = self.inner.stream_position()?;
+    let len = self.inner.seek(SeekFrom::End(0))?;
+    self.inner.seek(SeekFrom::Start(pos))?;
+    Ok(len)
+  }
+
   pub fn goto(&mut self, offset: u32) -> Result<()> {
     self.inner.seek(SeekFrom::Start(offset as u64))?;
     Ok(())
-- 
2.43.0


From 007517a468cc73d3cdeaa4674e83b56b327cf937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 08/32] fix: find the next TIFF directory if the last entry is
 unreadable

---
 rawler/src/formats/tiff/ifd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..c5733f4 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -119,6 +119,7 @@ impl IFD {
     let mut next_pos = reader.position()?;
     debug!("Parse entries");
     let mut consecutive_errors = 0;
+    let mut incomplete = false;
 
     for i in 0..entry_count {
       if i as usize >= MAX_IFD_ENTRIES {
@@ -126,11 +127,13 @@ impl IFD {
           "TIFF: Reached maximum IFD entry limit ({}). Stopping parse to prevent infinite loops.",
           MAX_IFD_ENTRIES
         );
+        incomplete = true;
         break;
       }
 
       if let Err(e) = reader.goto(next_pos) {
         log::warn!("Truncated IFD: Could not seek to next entry position. Stopping parse. Error: {}", e);
+        incomplete = true;
         break;
       }
 
@@ -140,6 +143,7 @@ impl IFD {
         Ok(t) => t,
         Err(e) => {
           log::warn!("Truncated IFD: Could not read tag ID (Index {}). Stopping parse. Error: {}", i, e);
+          incomplete = true;
           break;
         }
       };
@@ -181,6 +185,7 @@ impl IFD {
           // If we fail 5 times in a row, the IFD is likely garbage or physically truncated.
           if consecutive_errors >= 5 {
             log::warn!("Too many consecutive parsing errors ({}). Stopping parse to prevent flood.", consecutive_errors);
+            incomplete = true;
             break;
           }
         }
@@ -189,7 +194,10 @@ impl IFD {
 
     // Some TIFF writers skip the next ifd pointer
     // If we get an I/O error, we fallback to 0, signaling the end of IFD chains.
+    // The pointer is located behind the last entry, even if parsing that entry failed.
+    reader.goto(next_pos)?;
     let next_ifd = match reader.read_u32() {
+      _ if incomplete => 0,
       Ok(ptr) => ptr,
       Err(e) => {
         debug!(
-- 
2.43.0


From a470d70080196316cb5d912283cac8305a9429b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:05 +0000
Subject: [PATCH 09/32] fix: empty sub-IFD pointers of unknown type

---
 rawler/src/formats/tiff/ifd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index c5733f4..07fbf34 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -158,7 +158,9 @@ impl IFD {
                 sub_ifd_offsets.insert(tag, offsets.clone());
               }
               Value::Unknown(tag, offsets) => {
-                sub_ifd_offsets.insert(*tag, vec![offsets[0] as u32]);
+                if let Some(offset) = offsets.first() {
+                  sub_ifd_offsets.insert(*tag, vec![*offset as u32]);
+                }
               }
               Value::Undefined(_) => {
                 if let Some(offset) = entry.offset() {
-- 
2.43.0


From b93cee6a1c071b2e96977e3940daee4220b51143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:05 +0000
Subject: [PATCH 10/32] fix: image directories without any strip

---
 rawler/src/formats/tiff/ifd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 07fbf34..f24150f 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -537,6 +537,10 @@ impl IFD {
       )));
     }
 
+    if offsets.is_empty() {
+      return Err(TiffError::General("IFD contains no strip data".into()));
+    }
+
     // Check if all slices are continous
     let (is_continous, end_off) =
       offsets.iter().zip(sizes.iter()).fold(
-- 
2.43.0


From ec26c7cea9a11ae1623de4dedf1526ea19f26c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:25 +0000
Subject: [PATCH 11/32] fix: maker notes shorter than the vendor signatures

---
 rawler/src/formats/tiff/ifd.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index f24150f..12c3bc6 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -605,37 +605,37 @@ impl IFD {
           let mut endian = self.endian;
 
           // Olympus starts the makernote with their own name, sometimes truncated
-          if data[0..5] == b"OLYMP"[..] {
+          if data.starts_with(b"OLYMP") {
             off += 8;
-            if data[0..7] == b"OLYMPUS"[..] {
+            if data.starts_with(b"OLYMPUS") {
               off += 4;
             }
           }
 
           // Epson starts the makernote with its own name
-          if data[0..5] == b"EPSON"[..] {
+          if data.starts_with(b"EPSON") {
             off += 8;
           }
 
           // Fujifilm has 12 extra bytes
-          if data[0..8] == b"FUJIFILM"[..] {
+          if data.starts_with(b"FUJIFILM") {
             off += 12;
           }
 
           // Sony has 12 extra bytes
-          if data[0..9] == b"SONY DSC "[..] {
+          if data.starts_with(b"SONY DSC ") {
             off += 12;
           }
 
           // Pentax makernote starts with AOC\0 - If it's there, skip it
-          if data[0..4] == b"AOC\0"[..] {
+          if data.starts_with(b"AOC\0") {
             off += 4;
           }
 
           // Pentax can also start with PENTAX and in that case uses different offsets
-          if data[0..6] == b"PENTAX"[..] {
+          if data.starts_with(b"PENTAX") {
             off += 8;
-            let endian = if data[off..off + 2] == b"II"[..] { Endian::Little } else { Endian::Big };
+            let endian = if data.get(off..off + 2) == Some(b"II".as_slice()) { Endian::Little } else { Endian::Big };
             // All offsets in this IFD are relative to the start of this tag,
             // so wie use the offset as correction value.
             let corr = offset as i32;
@@ -643,18 +643,18 @@ impl IFD {
             return Ok(Some(IFD::new(reader, offset + 10, self.base, corr, endian, sub_tags)?));
           }
 
-          if data[0..7] == b"Nikon\0\x02"[..] {
+          if data.starts_with(b"Nikon\0\x02") {
             off += 10;
-            let endian = if data[off..off + 2] == b"II"[..] { Endian::Little } else { Endian::Big };
+            let endian = if data.get(off..off + 2) == Some(b"II".as_slice()) { Endian::Little } else { Endian::Big };
             return Ok(Some(IFD::new(reader, 8, self.base + offset + 10, 0, endian, sub_tags)?));
           }
 
           // Some have MM or II to indicate endianness - read that
-          if data[off..off + 2] == b"II"[..] {
+          if data.get(off..off + 2) == Some(b"II".as_slice()) {
             off += 2;
             endian = Endian::Little;
           }
-          if data[off..off + 2] == b"MM"[..] {
+          if data.get(off..off + 2) == Some(b"MM".as_slice()) {
             off += 2;
             endian = Endian::Big;
           }
-- 
2.43.0


From a5d5396bb7e327f6300fe506c173abf6cbfb9f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:25 +0000
Subject: [PATCH 12/32] fix: file views whose end overflows

---
 rawler/src/rawsource.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/rawsource.rs b/rawler/src/rawsource.rs
index 06bd3c7..503988b 100644
--- a/rawler/src/rawsource.rs
+++ b/rawler/src/rawsource.rs
@@ -72,14 +72,14 @@ impl RawSource {
   }
 
   pub fn subview(&self, offset: u64, size: u64) -> std::io::Result<&[u8]> {
-    self.buf().get(offset as usize..(offset + size) as usize).ok_or(std::io::Error::new(
+    self.buf().get(offset as usize..offset.saturating_add(size) as usize).ok_or(std::io::Error::new(
       std::io::ErrorKind::UnexpectedEof,
       format!("subview(): Offset {}+{} is behind EOF", offset, size),
     ))
   }
 
   pub fn subview_padded(&self, offset: u64, size: u64) -> std::io::Result<PaddedBuf<'_>> {
-    if offset + size <= self.len() as u64 {
+    if offset.checked_add(size).is_some_and(|end| end <= self.len() as u64) {
       if offset + size + 16 <= self.len() as u64 {
         self.subview(offset, size + 16).map(|buf| PaddedBuf::new_ref(buf, size as usize))
       } else {
-- 
2.43.0


From 710c5865eefa1e409f649bfbe26161c1a28dd25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:13 +0000
Subject: [PATCH 13/32] fix: read DNGs with monochrome images, which have no
 CFA pattern

---
 rawler/src/decoders/dng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 0003314..c53cbfe 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -258,8 +258,9 @@ impl<'a> DngDecoder<'a> {
       None
     };
 
-    let linear = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 34892;
-    let cfa = if linear { CFA::default() } else { self.get_cfa(raw)? };
+    // Only CFA images carry a pattern, monochrome and linear images don't.
+    let is_cfa = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 32803;
+    let cfa = if is_cfa { self.get_cfa(raw)? } else { CFA::default() };
     let color_matrix = self.get_color_matrix()?;
     let real_bps = if raw.has_entry(TiffCommonTag::Linearization) {
       // If DNG contains linearization table, output is always 16 bits
-- 
2.43.0


From 64c74e2ce8da31edeadb11d86e8c5867f1bffff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:06 +0000
Subject: [PATCH 14/32] fix: black levels of a DNG are relative to its active
 area

---
 rawler/src/decoders/dng.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index c53cbfe..689d43e 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -328,7 +328,13 @@ impl<'a> DngDecoder<'a> {
           log::warn!("File has BlackLevelRepeatDim tag but with invalid length: {}", value.len());
         }
       }
-      Ok(Some(BlackLevel::new(&levels, repeat.1, repeat.0, cpp)))
+      let blacklevel = BlackLevel::new(&levels, repeat.1, repeat.0, cpp);
+      // Same as for the CFA pattern: the levels repeat relative to ActiveArea,
+      // but we use (0, 0) as starting point.
+      Ok(Some(match self.get_active_area_borders(raw) {
+        Some([top, left, ..]) if blacklevel.sample_count() > 0 => blacklevel.shift(repeat.1 - left % repeat.1, repeat.0 - top % repeat.0),
+        _ => blacklevel,
+      }))
     } else {
       Ok(None)
     }
-- 
2.43.0


From 37cdbc328cd11c64e354e8f39b6c2772b5b38ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:06 +0000
Subject: [PATCH 15/32] fix: shift the CFA pattern of a DNG back by its active
 area

---
 rawler/src/decoders/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 689d43e..68a3d5d 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -362,7 +362,7 @@ impl<'a> DngDecoder<'a> {
     if let Some(active_area) = self.get_active_area_borders(raw) {
       let top = active_area[0];
       let left = active_area[1];
-      Ok(cfa.shift(left % cfa.width, top % cfa.height))
+      Ok(cfa.shift(cfa.width - left % cfa.width, cfa.height - top % cfa.height))
     } else {
       Ok(cfa)
     }
-- 
2.43.0


From c4176dcb508875feb22ad546017467d106998ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:06 +0000
Subject: [PATCH 16/32] fix: round color matrix coefficients written to a DNG

---
 rawler/src/dng/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 1bbed0f..6e4d50f 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -550,7 +550,7 @@ fn wbcoeff_to_tiff_value(rawimage: &RawImage) -> Vec<Rational> {
 }
 
 fn matrix_to_tiff_value(xyz_to_cam: &[f32], d: i32) -> Vec<SRational> {
-  xyz_to_cam.iter().map(|a| SRational::new((a * d as f32) as i32, d)).collect()
+  xyz_to_cam.iter().map(|a| SRational::new((a * d as f32).round() as i32, d)).collect()
 }
 
 /// Compress RAW image with LJPEG-92
-- 
2.43.0


From 31895bf0bfb3979a630ed8dae483c3c8405e59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:21 +0000
Subject: [PATCH 17/32] fix: keep subnormal 32 bit float samples of deflated
 image data

---
 rawler/src/bits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index bf2a1de..665d7cd 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -318,6 +318,10 @@ pub(crate) type Binary24 = BinaryN<24, 16, 7>;
 pub(crate) type Binary32 = BinaryN<32, 23, 8>;
 
 pub(crate) fn extend_binary_floating_point<NARROW: FloatingPointParameters, WIDE: FloatingPointParameters>(value: u32) -> u32 {
+  if NARROW::EXPONENT_WIDTH == WIDE::EXPONENT_WIDTH && NARROW::FRACTION_WIDTH == WIDE::FRACTION_WIDTH {
+    // Same format, nothing to widen. Subnormal numbers have no normalized form here.
+    return value;
+  }
   let sign = (value >> NARROW::SIGN_BIT_POS) & 1;
   let narrow_exponent = (value >> NARROW::EXPONENT_POS) & ((1 << NARROW::EXPONENT_WIDTH) - 1);
   let narrow_fraction = value & ((1 << NARROW::FRACTION_WIDTH) - 1);
@@ -340,7 +344,7 @@ pub(crate) fn extend_binary_floating_point<NARROW: FloatingPointParameters, WIDE
       // We can represent it as a normalized value in wider type,
       // we have to shift fraction until we get 1.new_fraction
       // and decrement exponent for each shift.
-      // FIXME; what is the implicit precondition here?
+      // This requires a wider exponent than the source format has.
       wide_exponent = (1 - NARROW::BIAS + WIDE::BIAS) as u32;
       while 0 == (wide_fraction & (1 << WIDE::FRACTION_WIDTH)) {
         wide_exponent -= 1;
-- 
2.43.0


From d8b1f2b2e480b50f7523610a10cd77e6b23e9909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:53 +0000
Subject: [PATCH 18/32] fix: metadata tags without values made the DNG writer
 panic

---
 rawler/src/formats/tiff/writer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index 2d738a7..8384d37 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -396,7 +396,11 @@ where
   V: Into<Value> + Clone,
 {
   if let Some(entry) = entry {
-    ifd.add_tag(tag, entry.clone());
+    let value: Value = entry.clone().into();
+    // A source file may contain tags with zero values, these can't be written to a TIFF
+    if value.count() > 0 {
+      ifd.add_tag(tag, value);
+    }
   }
   Ok(())
 }
@@ -405,7 +409,7 @@ pub(crate) fn transfer_entry_undefined<T>(ifd: &mut DirectoryWriter, tag: T, ent
 where
   T: TiffTag,
 {
-  if let Some(entry) = entry {
+  if let Some(entry) = entry.as_ref().filter(|data| !data.is_empty()) {
     ifd.add_tag_undefined(tag, entry.clone());
   }
   Ok(())
-- 
2.43.0


From 3d05584548dde0028d2865e1824f3eb970d5d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 19/32] fix: report the size of all blocks when extracting an
 embedded original

---
 rawler/src/dng/original.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 4e40ee5..c2ecd97 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -68,7 +68,7 @@ impl OriginalCompressed {
     for chunk in self.chunks.iter().map(ForkBlock::decompress) {
       let buf = chunk?;
       stream.write_all(&buf)?;
-      total = buf.len();
+      total += buf.len();
       ctx.consume(&buf);
     }
 
-- 
2.43.0


From e1d6be6e9be9b62de6fdf6adf0d33128aea65760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 20/32] fix: don't allocate blocks of an embedded original
 beyond the available data

---
 rawler/src/dng/original.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index c2ecd97..186ae6c 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -48,8 +48,11 @@ impl OriginalCompressed {
         let len = end
           .checked_sub(offset)
           .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "Offset underflow"))?;
-        let mut chunk = vec![0; len as usize];
-        stream.read_exact(&mut chunk)?;
+        // Don't trust the length before the data is really there
+        let mut chunk = Vec::new();
+        if stream.take(len).read_to_end(&mut chunk)? as u64 != len {
+          return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "Block of embedded original is truncated"));
+        }
         chunks.push(ForkBlock::new(chunk));
         offset = end;
       }
-- 
2.43.0


From 1d3aa57ac5f49e8476e352ef98c0478e36f1988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 21/32] fix: remap CFA colors once, not once per pattern
 repetition

---
 rawler/src/cfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/cfa.rs b/rawler/src/cfa.rs
index 1629410..cd2b794 100644
--- a/rawler/src/cfa.rs
+++ b/rawler/src/cfa.rs
@@ -156,7 +156,7 @@ impl CFA {
     let mut copy = self.clone();
     for row in 0..48 {
       for col in 0..48 {
-        copy.pattern[row][col] = op(row % self.height, col % self.width, copy.pattern[row % self.height][col % self.width]);
+        copy.pattern[row][col] = op(row % self.height, col % self.width, self.pattern[row][col]);
       }
     }
     copy
-- 
2.43.0


From 4c57dc66249f5645f241358dc75ac41574fc83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 22/32] fix: masked areas that don't cover the whole CFA
 pattern

---
 rawler/src/rawimage.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 510f2e7..12957b4 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -306,6 +306,11 @@ impl RawImage {
         }
       }
 
+      if samples.iter().any(|s| s.count == 0) {
+        // The areas don't cover all positions of the pattern
+        return None;
+      }
+
       let blacklevels: Vec<f32> = samples.into_iter().map(|s| s.avg / s.count as f32).collect();
 
       debug!("Calculated blacklevels: {:?}", blacklevels);
-- 
2.43.0


From a100d0886bc3c0d27b96d4ab937dc60975a96735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 23/32] fix: convert small floats to rationals

---
 rawler/src/formats/tiff/value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index e39a15c..9fc9a89 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -237,6 +237,11 @@ impl From<f32> for Rational {
       panic!("Can not convert {} to Rational type", value);
     }
     let ratio = num::rational::Ratio::from_float(value).expect("Failed to convert float");
+    if value < 1.0 && u32::try_from(ratio.denom()).is_err() {
+      // Too small to be represented exactly, use the closest value
+      let denom = 1_u32 << 31;
+      return Self::new((f64::from(value) * f64::from(denom)).round() as u32, denom);
+    }
     // TODO: This is a workaround, need to implement better routine
     Self::new(
       ratio.numer().try_into().expect("Rational numerator overflows u32"),
-- 
2.43.0


From 5e08a5dbdd28b6734502b1c83051bbf8e17f92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 24/32] fix: FTP uploads through symlinks and relative server
 roots

STOR wrote to the requested name without resolving it, so a symlink
inside the served directory let a client write outside of it. Resolve
the target like all other commands do. The server root is canonicalized
once, otherwise every path is refused if it is relative or a symlink.
---
 embedftp/src/client.rs | 17 +++++++++++++++--
 embedftp/src/server.rs |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7144235..edc3060 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -14,7 +14,7 @@ use std::net::{IpAddr, SocketAddr};
 use std::path::{Component, Path, PathBuf, StripPrefixError};
 use std::result;
 use std::sync::Arc;
-use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file};
+use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file, symlink_metadata};
 use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
@@ -266,6 +266,19 @@ where
     dir
   }
 
+  /// Like `complete_path`, but the last component doesn't need to exist yet.
+  async fn upload_path(&self, path: &Path) -> result::Result<PathBuf, io::Error> {
+    let (Some(parent), Some(filename)) = (path.parent(), path.file_name()) else {
+      return Err(io::ErrorKind::InvalidInput.into());
+    };
+    let dest = self.complete_path(parent).await?.join(filename);
+    // Writing to a symlink ends up at its target, which may be out of server root.
+    if symlink_metadata(&dest).await.map(|m| m.is_symlink()).unwrap_or(false) {
+      return self.complete_path(path).await;
+    }
+    Ok(dest)
+  }
+
   async fn mkd(&mut self, path: PathBuf) -> Result<()> {
     let fullpath = self.cwd.join(&path);
     let parent = get_parent(fullpath.clone());
@@ -654,7 +667,7 @@ where
 
   /// Put file directly or delegate to a filter
   async fn put_file(&mut self, path: PathBuf, content: Arc<Vec<u8>>) -> Result<()> {
-    let path = PathBuf::from(&self.server_root).join(path.iter().skip(1).collect::<PathBuf>());
+    let path = self.upload_path(&path).await?;
     let handled = self.env.stor_file(&path, content.clone()).await?;
     if !handled {
       tokio::fs::write(&path, content.as_ref()).await?;
diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index dea0999..6944c9c 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -22,6 +22,8 @@ pub async fn serve<T>(handle: Handle, server_root: PathBuf, config: Config, env:
 where
   T: FtpCallback + Clone + Send + Sync + 'static,
 {
+  // Client paths are canonicalized before they are compared with the root.
+  let server_root = tokio::fs::canonicalize(&server_root).await?;
   let port = config.server_port;
   let addr = SocketAddr::new(config.server_addr, port);
   let listener = TcpListener::bind(&addr).await?;
-- 
2.43.0


From a795bc9b72527abef90cba1c8d8cb59285f82fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 25/32] fix: FTP RMD must not remove the server root

"RMD /" (or any path that resolves to it) deleted the whole served
directory.
---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index edc3060..6940e87 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -309,7 +309,7 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
-      if remove_dir_all(dir).await.is_ok() {
+      if dir != self.server_root && remove_dir_all(dir).await.is_ok() {
         self
           .send(Answer::new(ResultCode::RequestedFileActionOkay, "Folder successfully removed"))
           .await?;
-- 
2.43.0


From 81b8b8d781ea39ffe3c954dac408145a8f57d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 26/32] fix: FTP password check for named users if anonymous
 login is enabled

With anonymous login enabled, any password was accepted for every
configured user.
---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 6940e87..d86f95d 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -134,7 +134,7 @@ where
     } else if self.name.is_some() && self.waiting_password {
       if let Command::Pass(content) = cmd {
         let mut ok = false;
-        if self.config.anonymous {
+        if self.config.anonymous && self.name.as_deref() == Some("anonymous") {
           ok = true;
         } else {
           for user in &self.config.users {
-- 
2.43.0


From 1d0fb635fad131e60d72c2522f19adb66ce83897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 27/32] fix: FTP replies and data connections of failed
 transfers

A failed active connect sent a second final reply, failed LIST, NLST and
RETR commands left the data connection open, a STOR with an invalid path
dropped the control connection without reply and EPSV ALL was never
answered.
---
 embedftp/src/client.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index d86f95d..a076fed 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -226,7 +226,8 @@ where
     Ok(())
   }
 
-  async fn initiate_data_connection(&mut self) -> Result<()> {
+  /// Returns false if the connection failed, the client is already informed then.
+  async fn initiate_data_connection(&mut self) -> Result<bool> {
     // only open when we are in active mode
     if let Some(port) = self.active_data_port {
       let mut addr = self.remote_addr;
@@ -236,14 +237,14 @@ where
         Err(e) => {
           error!("Connection failed to {}, {}", addr, e);
           self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
-          return Ok(());
+          return Ok(false);
         }
       };
       let (r, w) = stream.into_split();
       self.data_writer = Some(w);
       self.data_reader = Some(r);
     }
-    Ok(())
+    Ok(true)
   }
 
   fn close_data_connection(&mut self) {
@@ -365,7 +366,9 @@ where
   }
 
   async fn list(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let path = self.cwd.join(path.unwrap_or_default());
       let directory = PathBuf::from(&path);
@@ -384,6 +387,7 @@ where
               }
             }
             Err(_) => {
+              self.close_data_connection();
               self
                 .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
                 .await?;
@@ -396,6 +400,7 @@ where
         self.send_data(out).await?;
       } else {
         warn!("No such file or directory");
+        self.close_data_connection();
         self
           .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
           .await?;
@@ -412,7 +417,9 @@ where
   }
 
   async fn nlst(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let cwd = self.cwd.clone();
       let res = self.complete_path(&cwd).await;
@@ -435,6 +442,7 @@ where
         let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
           Some(Ok(matches)) => matches,
           _ => {
+            self.close_data_connection();
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified"))
               .await?;
@@ -468,6 +476,7 @@ where
 
         self.send_data(out).await?;
       } else {
+        self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
       }
     } else {
@@ -534,7 +543,7 @@ where
     if let Some(proto) = proto {
       if proto.to_uppercase().eq("ALL") {
         self.data_writer = None;
-        return Ok(());
+        return self.send(Answer::new(ResultCode::Ok, "EPSV ALL accepted")).await;
       }
     }
 
@@ -578,7 +587,9 @@ where
   }
 
   async fn retr(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     // TODO: check if multiple data connection can be opened at the same time.
     if self.data_writer.is_some() {
       let path = self.cwd.join(path);
@@ -593,6 +604,7 @@ where
             Ok(file) => file,
             Err(e) => {
               error!("Failed to open file {:?}, {}", path, e);
+              self.close_data_connection();
               self
                 .send(Answer::new(
                   ResultCode::LocalErrorInProcessing,
@@ -609,6 +621,7 @@ where
           }
         } else {
           warn!("No path, not exist");
+          self.close_data_connection();
           self
             .send(Answer::new(
               ResultCode::LocalErrorInProcessing,
@@ -618,6 +631,7 @@ where
         }
       } else {
         warn!("No path");
+        self.close_data_connection();
         self
           .send(Answer::new(
             ResultCode::LocalErrorInProcessing,
@@ -637,10 +651,13 @@ where
   }
 
   async fn stor(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_reader.is_some() {
       if invalid_path(&path) {
-        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::FileNameNotAllowed, "Invalid path")).await;
       }
       let path = self.cwd.join(path);
       self
-- 
2.43.0


From bf3a5757f82989b8a855b891fc8f82f712b63b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 28/32] fix: FTP CWD into a regular file

CWD to a file was accepted as working directory.
---
 embedftp/src/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index a076fed..412d38b 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -346,7 +346,9 @@ where
   async fn cwd(&mut self, directory: PathBuf) -> Result<()> {
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
-    if let Ok(dir) = res {
+    if let Ok(dir) = res
+      && metadata(&dir).await.map(|m| m.is_dir()).unwrap_or(false)
+    {
       let res = self.strip_prefix(dir);
       if let Ok(prefix) = res {
         self.cwd = prefix.to_path_buf();
-- 
2.43.0


From 66059ce87136596464d61b71996ed191b2c8f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 29/32] fix: correct blacklevel of the last row and column of
 odd sized CFA images

---
 rawler/src/imgop/raw.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index bc49b0c..8e9b7ab 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -175,17 +175,22 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   let clip = |v: f32| {
     if v.is_sign_negative() { 0.0 } else { v }
   };
-  // Process two bayer lines at once.
-  raw.par_chunks_exact_mut(width * 2).for_each(|lines| {
-    // It's bayer data, so we have two lines for sure.
-    let (line0, line1) = lines.split_at_mut(width);
-    //line0.array_chunks_mut::<2>().zip(line1.array_chunks_mut::<2>()).for_each(|(a, b)| {
-    line0.chunks_exact_mut(2).zip(line1.chunks_exact_mut(2)).for_each(|(a, b)| {
-      a[0] = clip(a[0] - blacklevel[0]) / max[0];
-      a[1] = clip(a[1] - blacklevel[1]) / max[1];
-      b[0] = clip(b[0] - blacklevel[2]) / max[2];
-      b[1] = clip(b[1] - blacklevel[3]) / max[3];
+  let correct_line = |line: &mut [f32], black: [f32; 2], max: [f32; 2]| {
+    let mut pairs = line.chunks_exact_mut(2);
+    (&mut pairs).for_each(|p| {
+      p[0] = clip(p[0] - black[0]) / max[0];
+      p[1] = clip(p[1] - black[1]) / max[1];
     });
+    // Odd width, last column
+    if let [p] = pairs.into_remainder() {
+      *p = clip(*p - black[0]) / max[0];
+    }
+  };
+  // Process two bayer lines at once (the last one is alone for odd heights).
+  raw.par_chunks_mut(width * 2).for_each(|lines| {
+    let (line0, line1) = lines.split_at_mut(width.min(lines.len()));
+    correct_line(line0, [blacklevel[0], blacklevel[1]], [max[0], max[1]]);
+    correct_line(line1, [blacklevel[2], blacklevel[3]], [max[2], max[3]]);
   });
 }
 
-- 
2.43.0


From f13f52c6e9d843ab69c5e0d6034c287004cda310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 30/32] fix: scale images with BlackIsZero photometric

---
 rawler/src/rawimage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 12957b4..7912455 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -524,7 +524,6 @@ impl RawImage {
   pub fn apply_scaling(&mut self) -> crate::Result<()> {
     let mut pixels = self.data.as_f32();
     match &self.photometric {
-      RawPhotometricInterpretation::BlackIsZero => todo!(),
       RawPhotometricInterpretation::Cfa(_) => {
         correct_blacklevel_cfa(
           pixels.to_mut(),
@@ -535,7 +534,7 @@ impl RawImage {
         );
         self.data = RawImageData::Float(pixels.into_owned());
       }
-      RawPhotometricInterpretation::LinearRaw => {
+      RawPhotometricInterpretation::LinearRaw | RawPhotometricInterpretation::BlackIsZero => {
         correct_blacklevel(pixels.to_mut(), &self.blacklevel.as_vec(), &self.whitelevel.as_vec());
         self.data = RawImageData::Float(pixels.into_owned());
       }
-- 
2.43.0


From b96c2b9e81bc9e66553fa89466fb197700dd90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 31/32] fix: PPG demosaic of areas smaller than 6x6

---
 rawler/src/imgop/sensor/bayer/ppg.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rawler/src/imgop/sensor/bayer/ppg.rs b/rawler/src/imgop/sensor/bayer/ppg.rs
index 7fb0cf7..f677c40 100644
--- a/rawler/src/imgop/sensor/bayer/ppg.rs
+++ b/rawler/src/imgop/sensor/bayer/ppg.rs
@@ -76,7 +76,7 @@ fn interpolate_borders(input: &mut RgbF32, shifted: &CFA) {
     let mut col = 0;
     while col < w {
       // Full process first 3 and last 3 rows, process only left and right 3 pixels for all other
-      if col == 3 && row >= 3 && row < h - 3 {
+      if w > 6 && col == 3 && row >= 3 && row < h - 3 {
         col = w - 3 // go to right border
       }
       // Store the pixel sum and count for each RGB channel (R=0, G=1, B=2)
@@ -117,8 +117,8 @@ fn interpolate_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let ch = shifted.color_at(row, col); // It's R or B
         let x = pixel[ch];
@@ -176,8 +176,8 @@ fn interpolate_rb_at_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) == CFA_COLOR_G {
         let h_ch = shifted.color_at(row, col + 1); // horizontal corresponding channel
         let v_ch = shifted.color_at(row + 1, col); // vertical corresponding channel
@@ -213,8 +213,8 @@ fn interpolate_rb_at_non_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let x_ch = shifted.color_at(row, col); // current
         let y_ch = if x_ch == CFA_COLOR_R { CFA_COLOR_B } else { CFA_COLOR_R };
-- 
2.43.0


From 7d41fa03ea1e856e7c5f7ce23c33393b96918232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 32/32] fix: default crop of developed images without CFA

---
 rawler/src/imgop/develop.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 96d7e44..7d1a7a4 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -290,7 +290,10 @@ impl RawDevelop {
       log::debug!("Crop: {:?}", rawimage.crop_area);
       log::debug!("active_area: {:?}", rawimage.active_area);
       if let Some(mut crop) = rawimage.crop_area.or(rawimage.active_area) {
-        if self.steps.contains(&ProcessingStep::Demosaic) && self.steps.contains(&ProcessingStep::CropActiveArea) {
+        if matches!(rawimage.photometric, RawPhotometricInterpretation::Cfa(_))
+          && self.steps.contains(&ProcessingStep::Demosaic)
+          && self.steps.contains(&ProcessingStep::CropActiveArea)
+        {
           // If active area crop was already applied during demosaic, we need to
           // adapt default crop to active area crop.
           if let Some(active_area) = &rawimage.active_area {
-- 
2.43.0

