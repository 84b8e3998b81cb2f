From a4bbbfcbc0387baa8de4235b0f49c8f6da53eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 01/87] fix: string table offset of an empty string when there
 is no leading null byte

---
 src/write/string.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/write/string.rs b/src/write/string.rs
index 0eb2b4a..2f6968b 100644
--- a/src/write/string.rs
+++ b/src/write/string.rs
@@ -140,18 +140,18 @@ impl<'a> StringTable<'a> {
 
         self.offsets = vec![0; ids.len()];
         let mut offset = u64::from(base);
-        let mut previous = &[][..];
+        let mut previous = initial_string(base);
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
             let len = string.len() as u64 + 1;
-            if previous.ends_with(string) {
+            if previous.is_some_and(|previous| previous.ends_with(string)) {
                 self.offsets[id] = (offset - len) as u32;
             } else {
                 self.offsets[id] = offset as u32;
                 w.write_bytes(string);
                 w.write_bytes(&[0]);
                 offset += len;
-                previous = string;
+                previous = Some(string);
             }
         }
         u32::try_from(offset).map_err(|_| Error("string table size overflow".into()))
@@ -174,18 +174,26 @@ impl<'a> StringTable<'a> {
         sort(&mut ids, 1, &self.strings);
 
         let mut size = base as u64;
-        let mut previous = &[][..];
+        let mut previous = initial_string(base);
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
-            if !previous.ends_with(string) {
+            if !previous.is_some_and(|previous| previous.ends_with(string)) {
                 size += string.len() as u64 + 1;
-                previous = string;
+                previous = Some(string);
             }
         }
         size
     }
 }
 
+// The string that precedes the string table.
+//
+// This is the empty string if the caller wrote an initial null byte (a base of 1).
+// For any other base, the preceding bytes are either absent or not a string.
+fn initial_string<'a>(base: u32) -> Option<&'a [u8]> {
+    if base == 1 { Some(&[]) } else { None }
+}
+
 // Multi-key quicksort.
 //
 // Ordering is such that if a string is a suffix of at least one other string,
-- 
2.43.0


From 8c4fe9394ec5819ffb6e7c065e2bfbca09442efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 02/87] fix: check the range for cached strings in ReadCache

---
 src/read/read_cache.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index bfb9bf7..72b568f 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -130,7 +130,14 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
         let cache = &mut *self.cache.borrow_mut();
         cache.range_in_bounds(&range)?;
         let buf = match cache.strings.entry((range.start, delimiter)) {
-            Entry::Occupied(entry) => entry.into_mut(),
+            Entry::Occupied(entry) => {
+                let buf = entry.into_mut();
+                // The cached string may be from a read with a larger range.
+                if buf.len() as u64 >= range.end - range.start {
+                    return Err(());
+                }
+                buf
+            }
             Entry::Vacant(entry) => {
                 cache.read.seek(range.start)?;
 
-- 
2.43.0


From f17a7ff1aefce41fd83f484d9f100ed54cbf8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 03/87] fix: check the end of the range in
 ReadCacheRange::read_bytes_at_until

---
 src/read/read_cache.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index 72b568f..7dd702b 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -208,15 +208,12 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for ReadCacheRange<'a, R> {
     }
 
     fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
-        let r_start = self.offset.checked_add(range.start).ok_or(())?;
-        let r_end = self.offset.checked_add(range.end).ok_or(())?;
-        let bytes = self.r.read_bytes_at_until(r_start..r_end, delimiter)?;
-        let size = bytes.len().try_into().map_err(|_| ())?;
-        let end = range.start.checked_add(size).ok_or(())?;
-        if end > self.size {
+        if range.end > self.size {
             return Err(());
         }
-        Ok(bytes)
+        let r_start = self.offset.checked_add(range.start).ok_or(())?;
+        let r_end = self.offset.checked_add(range.end).ok_or(())?;
+        self.r.read_bytes_at_until(r_start..r_end, delimiter)
     }
 }
 
-- 
2.43.0


From a4e36a3d6003650a4b3fc8781406e41da160bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 04/87] fix: SHARC Type B 6-bit PC-relative relocations

---
 src/read/elf/relocation.rs | 2 +-
 src/write/elf/object.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 25257d9..85c522e 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -514,7 +514,7 @@ fn parse_relocation<Elf: FileHeader>(
             elf::R_SHARC_DATA6_VISA_V3 => (K::Absolute, E::SharcTypeB, 6),
             elf::R_SHARC_DATA7_VISA_V3 => (K::Absolute, E::SharcTypeB, 7),
             elf::R_SHARC_DATA16_VISA_V3 => (K::Absolute, E::SharcTypeB, 16),
-            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 16),
+            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 6),
             elf::R_SHARC_ADDR_VAR16_V3 => (K::Absolute, E::Generic, 16),
             _ => unknown,
         },
diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 0383bdf..0cf9dd4 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -496,7 +496,7 @@ impl<'a> Object<'a> {
                 (K::Absolute, E::Generic, 32) => elf::R_SHARC_ADDR_VAR_V3,
                 (K::Relative, E::SharcTypeA, 24) => elf::R_SHARC_PCRLONG_V3,
                 (K::Relative, E::SharcTypeA, 6) => elf::R_SHARC_PCRSHORT_V3,
-                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCRSHORT_V3,
+                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCR6_VISA_V3,
                 (K::Absolute, E::Generic, 16) => elf::R_SHARC_ADDR_VAR16_V3,
                 (K::Absolute, E::SharcTypeA, 16) => elf::R_SHARC_DATA16_V3,
                 (K::Absolute, E::SharcTypeB, 16) => elf::R_SHARC_DATA16_VISA_V3,
-- 
2.43.0


From c896673b4bcc2a032af9960d1d082aef1825083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 05/87] fix: decode ELF REL relocations for little-endian
 64-bit MIPS

---
 src/read/elf/relocation.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 85c522e..1de6303 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -81,7 +81,7 @@ impl RelocationSections {
 }
 
 pub(super) enum ElfRelocationIterator<'data, Elf: FileHeader> {
-    Rel(slice::Iter<'data, Elf::Rel>, Elf::Endian),
+    Rel(slice::Iter<'data, Elf::Rel>, Elf::Endian, bool),
     Rela(slice::Iter<'data, Elf::Rela>, Elf::Endian, bool),
     Crel(CrelIterator<'data>),
 }
@@ -101,7 +101,12 @@ impl<'data, Elf: FileHeader> Iterator for ElfRelocationIterator<'data, Elf> {
 
     fn next(&mut self) -> Option<Self::Item> {
         match self {
-            ElfRelocationIterator::Rel(i, endian) => i.next().map(|r| Crel::from_rel(r, *endian)),
+            ElfRelocationIterator::Rel(i, endian, false) => {
+                i.next().map(|r| Crel::from_rel(r, *endian))
+            }
+            ElfRelocationIterator::Rel(i, endian, true) => i
+                .next()
+                .map(|r| Crel::from_rela(&Elf::Rela::from(*r), *endian, true)),
             ElfRelocationIterator::Rela(i, endian, is_mips64el) => {
                 i.next().map(|r| Crel::from_rela(r, *endian, *is_mips64el))
             }
@@ -158,8 +163,11 @@ where
             match section.sh_type(endian) {
                 elf::SHT_REL => {
                     if let Ok(relocations) = section.data_as_array(endian, self.file.data.0) {
-                        self.relocations =
-                            Some(ElfRelocationIterator::Rel(relocations.iter(), endian));
+                        self.relocations = Some(ElfRelocationIterator::Rel(
+                            relocations.iter(),
+                            endian,
+                            self.file.header.is_mips64el(endian),
+                        ));
                     }
                 }
                 elf::SHT_RELA => {
@@ -237,8 +245,11 @@ where
             match section.sh_type(endian) {
                 elf::SHT_REL => {
                     if let Ok(relocations) = section.data_as_array(endian, self.file.data.0) {
-                        self.relocations =
-                            Some(ElfRelocationIterator::Rel(relocations.iter(), endian));
+                        self.relocations = Some(ElfRelocationIterator::Rel(
+                            relocations.iter(),
+                            endian,
+                            self.file.header.is_mips64el(endian),
+                        ));
                     }
                 }
                 elf::SHT_RELA => {
-- 
2.43.0


From ee45ddf20358aad99fe64ee9d3f09ac44001aaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 06/87] fix: encode ELF REL relocations for little-endian
 64-bit MIPS

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 2b8c37b..cd0fd83 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -1019,7 +1019,7 @@ impl<E: Endian> Encoder<E> {
             } else {
                 let data = &elf::Rel64 {
                     r_offset: U64::new(endian, rel.r_offset),
-                    r_info: elf::Rel64::r_info(endian, rel.r_sym, rel.r_type),
+                    r_info: elf::Rela64::r_info(endian, self.is_mips64el, rel.r_sym, rel.r_type),
                 };
                 buffer.write_pod(data);
             }
-- 
2.43.0


From 034e4c14cf896c1b621ac86744472137adea6aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 07/87] fix: overflow in GnuHashTable::find for a bloom shift
 of 32 or more

---
 src/read/elf/hash.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 68803d9..2fe42b6 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -211,7 +211,8 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if filter & (1 << (hash % word_bits)) == 0 {
             return None;
         }
-        if filter & (1 << ((hash >> self.bloom_shift) % word_bits)) == 0 {
+        let shifted_hash = hash.checked_shr(self.bloom_shift).unwrap_or(0);
+        if filter & (1 << (shifted_hash % word_bits)) == 0 {
             return None;
         }
 
-- 
2.43.0


From faee189ba3572c2294ef43e9bb38bbe74d77628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 08/87] fix: overflow in Encoder::gnu_hash for a bloom shift of
 32 or more

---
 src/write/elf/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index cd0fd83..97c4b02 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -1162,7 +1162,7 @@ impl<E: Endian> Encoder<E> {
             for i in 0..symbol_count {
                 let h = hash(i);
                 bloom_filters[((h / 64) & (bloom_count - 1)) as usize] |=
-                    1 << (h % 64) | 1 << ((h >> bloom_shift) % 64);
+                    1 << (h % 64) | 1 << (h.checked_shr(bloom_shift).unwrap_or(0) % 64);
             }
             for bloom_filter in bloom_filters {
                 buffer.write_u64(self.endian, bloom_filter);
@@ -1172,7 +1172,7 @@ impl<E: Endian> Encoder<E> {
             for i in 0..symbol_count {
                 let h = hash(i);
                 bloom_filters[((h / 32) & (bloom_count - 1)) as usize] |=
-                    1 << (h % 32) | 1 << ((h >> bloom_shift) % 32);
+                    1 << (h % 32) | 1 << (h.checked_shr(bloom_shift).unwrap_or(0) % 32);
             }
             for bloom_filter in bloom_filters {
                 buffer.write_u32(self.endian, bloom_filter);
-- 
2.43.0


From 2b9924bdd3c25edd9104e925faa872ca9b19d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 09/87] fix: wrap CREL offsets and addends at 32 bits for
 ELFCLASS32

---
 src/read/elf/relocation.rs | 23 ++++++++++++++++++++---
 src/read/elf/section.rs    |  2 +-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 1de6303..ad72a3c 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -1,7 +1,7 @@
 use alloc::fmt;
 use alloc::vec::Vec;
 use core::fmt::Debug;
-use core::slice;
+use core::{mem, slice};
 
 use crate::elf;
 use crate::endian::{self, Endian, Endianness};
@@ -181,7 +181,7 @@ where
                 }
                 elf::SHT_CREL => {
                     if let Ok(data) = section.data(endian, self.file.data.0) {
-                        if let Ok(relocations) = CrelIterator::new(data) {
+                        if let Ok(relocations) = CrelIterator::for_class::<Elf>(data) {
                             self.relocations = Some(ElfRelocationIterator::Crel(relocations));
                         }
                     }
@@ -263,7 +263,7 @@ where
                 }
                 elf::SHT_CREL => {
                     if let Ok(data) = section.data(endian, self.file.data.0) {
-                        if let Ok(relocations) = CrelIterator::new(data) {
+                        if let Ok(relocations) = CrelIterator::for_class::<Elf>(data) {
                             self.relocations = Some(ElfRelocationIterator::Crel(relocations));
                         }
                     }
@@ -905,6 +905,8 @@ struct CrelIteratorHeader {
     shift: u8,
     /// True if the relocation format encodes addend.
     is_rela: bool,
+    /// True if offsets and addends are 32 bits wide.
+    is_32: bool,
 }
 
 /// Compact relocation iterator.
@@ -919,7 +921,16 @@ pub struct CrelIterator<'data> {
 }
 
 impl<'data> CrelIterator<'data> {
+    /// Create a new CREL relocation iterator for the ELF class.
+    pub(super) fn for_class<Elf: FileHeader>(data: &'data [u8]) -> Result<Self, Error> {
+        let mut iter = Self::new(data)?;
+        iter.header.is_32 = mem::size_of::<Elf::Word>() == 4;
+        Ok(iter)
+    }
+
     /// Create a new CREL relocation iterator.
+    ///
+    /// Offsets and addends are 64 bits wide.
     pub fn new(data: &'data [u8]) -> Result<Self, Error> {
         const HEADER_ADDEND_BIT_MASK: u64 = 1 << 2;
         const HEADER_SHIFT_MASK: u64 = 0x3;
@@ -942,6 +953,7 @@ impl<'data> CrelIterator<'data> {
                 flag_bits,
                 shift,
                 is_rela,
+                is_32: false,
             },
             state: Default::default(),
         })
@@ -1009,6 +1021,11 @@ impl<'data> CrelIterator<'data> {
                 .read_error("Cannot read addend of CREL relocation")?;
             self.state.r_addend = self.state.r_addend.wrapping_add(delta_addend);
         }
+        if self.header.is_32 {
+            // The encoded deltas are calculated modulo 2^32.
+            self.state.r_offset = u64::from(self.state.r_offset as u32);
+            self.state.r_addend = i64::from(self.state.r_addend as i32);
+        }
         self.header.count -= 1;
         Ok(self.state)
     }
diff --git a/src/read/elf/section.rs b/src/read/elf/section.rs
index 0499625..1fe4f00 100644
--- a/src/read/elf/section.rs
+++ b/src/read/elf/section.rs
@@ -903,7 +903,7 @@ pub trait SectionHeader: Debug + Pod + read::private::Sealed {
         let data = self
             .data(endian, data)
             .read_error("Invalid ELF relocation section offset or size")?;
-        let relrs = CrelIterator::new(data);
+        let relrs = CrelIterator::for_class::<Self::Elf>(data);
         Ok(Some((relrs?, self.link(endian))))
     }
 
-- 
2.43.0


From 00282222cf4bf60bc61f613d2a6980806199cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 10/87] fix: DT_RELR is an address

---
 src/read/elf/dynamic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/read/elf/dynamic.rs b/src/read/elf/dynamic.rs
index 676e7b3..26f3da0 100644
--- a/src/read/elf/dynamic.rs
+++ b/src/read/elf/dynamic.rs
@@ -308,6 +308,7 @@ fn tag_is_address(tag: elf::DynamicTag) -> bool {
         | elf::DT_INIT_ARRAY
         | elf::DT_PREINIT_ARRAY
         | elf::DT_SYMTAB_SHNDX
+        | elf::DT_RELR
         | elf::DT_VERDEF
         | elf::DT_VERNEED
         | elf::DT_VERSYM => true,
-- 
2.43.0


From 84915a580f00434f3783a16d33d6138ceecb188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/87] fix: check for the end of zlib compressed data

Truncated data, or data that decompresses to more than the recorded size, was accepted.
---
 src/read/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/read/mod.rs b/src/read/mod.rs
index fdb4ae1..254a571 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -1343,6 +1343,7 @@ impl<'data> CompressedData<'data> {
                                 flate2::FlushDecompress::Finish,
                             )
                             .ok()
+                            .filter(|status| *status == flate2::Status::StreamEnd)
                             .read_error("Invalid zlib compressed data")?;
                     }
                     CompressionFormat::Zstandard => {
-- 
2.43.0


From 8f1484ad2d222fbe204010a450494bbc0cda2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 12/87] fix: don't end PE thunk iteration at an import of
 ordinal 0

---
 src/read/pe/import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/pe/import.rs b/src/read/pe/import.rs
index b94b989..e2ccbbd 100644
--- a/src/read/pe/import.rs
+++ b/src/read/pe/import.rs
@@ -218,7 +218,7 @@ impl<'data> ImportThunkList<'data> {
             self.null = true;
             return Err(Error("Missing PE null import thunk"));
         };
-        if thunk.address() == 0 {
+        if thunk.raw() == 0 {
             self.null = true;
             Ok(None)
         } else {
-- 
2.43.0


From a533657b95b5e92d4079d56fc565c554ce1b323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 13/87] fix: encode big-endian Mach-O relocation symbol number

---
 src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macho.rs b/src/macho.rs
index c5b7718..b7df492 100644
--- a/src/macho.rs
+++ b/src/macho.rs
@@ -3953,7 +3953,7 @@ impl RelocationInfo {
                     | u32::from(self.r_extern) << 27
                     | u32::from(self.r_type.0) << 28
             } else {
-                self.r_symbolnum >> 8
+                self.r_symbolnum << 8
                     | u32::from(self.r_pcrel) << 7
                     | u32::from(self.r_length & 0x3) << 5
                     | u32::from(self.r_extern) << 4
-- 
2.43.0


From 01082b48572e76efd72484a4b07fc3491001a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 14/87] fix: a zero Mach-O string index is an empty symbol name

---
 src/read/macho/symbol.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/symbol.rs b/src/read/macho/symbol.rs
index 9bb148b..84716f3 100644
--- a/src/read/macho/symbol.rs
+++ b/src/read/macho/symbol.rs
@@ -520,8 +520,13 @@ pub trait Nlist: Debug + Pod + read::private::Sealed {
         endian: Self::Endian,
         strings: StringTable<'data, R>,
     ) -> Result<&'data [u8]> {
+        let strx = self.n_strx(endian);
+        if strx == 0 {
+            // An index of zero is defined to be an empty name.
+            return Ok(&[]);
+        }
         strings
-            .get(self.n_strx(endian))
+            .get(strx)
             .read_error("Invalid Mach-O symbol name offset")
     }
 
-- 
2.43.0


From 87eff8e8c6c22fa6a5bc06979dbe54bb2d08ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 15/87] fix: end exports trie iteration after an error

---
 src/read/macho/exports_trie.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 181f18f..e816254 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -169,6 +169,14 @@ impl<'data> NodeIterator<'data> {
     // - `Ok(Some(None))` if we don't have terminal data at the current node.
     // - `Ok(None)` if we've reached the end of the trie.
     fn next(&mut self) -> Result<Option<Option<ExportSymbol<'data>>>> {
+        let result = self.next_inner();
+        if result.is_err() {
+            self.stack.clear();
+        }
+        result
+    }
+
+    fn next_inner(&mut self) -> Result<Option<Option<ExportSymbol<'data>>>> {
         if self.first {
             self.first = false;
             // The root node is at offset 0.
-- 
2.43.0


From b3e17421ef33f46f838ad13fac7e12bcfc1ba3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 16/87] fix: architecture of arm64_32 fat arches

---
 src/read/macho/fat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/read/macho/fat.rs b/src/read/macho/fat.rs
index 6764dd9..6f9e1a6 100644
--- a/src/read/macho/fat.rs
+++ b/src/read/macho/fat.rs
@@ -70,6 +70,7 @@ pub trait FatArch: Pod + read::private::Sealed {
         match self.cputype() {
             macho::CPU_TYPE_ARM => Architecture::Arm,
             macho::CPU_TYPE_ARM64 => Architecture::Aarch64,
+            macho::CPU_TYPE_ARM64_32 => Architecture::Aarch64_Ilp32,
             macho::CPU_TYPE_X86 => Architecture::I386,
             macho::CPU_TYPE_X86_64 => Architecture::X86_64,
             macho::CPU_TYPE_MIPS => Architecture::Mips,
-- 
2.43.0


From 3d67948b5ff1ce441c83de3f21f2e6e7fa18a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 17/87] fix: include the page offset in dyld cache slide info
 v2 relocations

---
 src/read/macho/dyld_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index a5de2ac..eef2b8a 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -704,7 +704,7 @@ where
                     let value = pointer & !self.delta_mask;
                     if value != 0 {
                         return Ok(Some(DyldRelocation {
-                            offset,
+                            offset: self.page_offset.wrapping_add(offset),
                             value: value.wrapping_add(self.value_add),
                             auth: None,
                         }));
-- 
2.43.0


From dadf797c90004f786b1d5ef43f0045b3e62178eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 18/87] fix: overflow for a zero delta mask in dyld cache slide
 info v2

---
 src/read/macho/dyld_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index eef2b8a..34af2e0 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -687,7 +687,10 @@ where
                         .read_error("Invalid dyld cache slide pointer offset")?
                         .get(self.endian);
 
-                    let next = (pointer & self.delta_mask) >> self.delta_shift;
+                    // There is only one entry per chain if `delta_mask` is 0.
+                    let next = (pointer & self.delta_mask)
+                        .checked_shr(self.delta_shift)
+                        .unwrap_or(0);
                     if next == 0 {
                         if self.state == RelocationStateV2::PageExtra {
                             self.state = RelocationStateV2::Extra
-- 
2.43.0


From 8e2a6d4bf23b34255b478337254322575d0bd277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 19/87] fix: end dyld cache relocation iteration after an error

---
 src/read/macho/dyld_cache.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 34af2e0..87b8e5b 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -578,13 +578,16 @@ where
     type Item = Result<DyldRelocation>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.version {
+        let result = match &mut self.version {
             DyldCacheRelocationIteratorVersion::None => Ok(None),
             DyldCacheRelocationIteratorVersion::V2(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V3(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V5(iter) => iter.next(),
+        };
+        if result.is_err() {
+            self.version = DyldCacheRelocationIteratorVersion::None;
         }
-        .transpose()
+        result.transpose()
     }
 }
 
-- 
2.43.0


From 9bfe8ba63549572c65f74929dd4feffab28ae2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 20/87] fix: partition ELF symbols by the binding that is
 written

Object::write ordered symbols by scope, but the binding written for weak,
undefined or explicitly flagged symbols can differ from the scope, which
placed global symbols before sh_info or local symbols after it.
---
 src/write/elf/object.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 0cf9dd4..8ba0b9a 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -673,16 +673,26 @@ impl<'a> Object<'a> {
         // Calculate index of symbols and add symbol strings to strtab.
         let mut symbol_offsets = vec![SymbolOffsets::default(); self.symbols.len()];
         writer.reserve_null_symbol_index();
-        // Local symbols must come before global.
+        // Local symbols must come before global. This is determined by the symbol binding
+        // that will be written, which may differ from the scope for symbols that are weak,
+        // undefined, or have explicit flags.
+        let is_local: Vec<_> = self
+            .symbols
+            .iter()
+            .map(|symbol| match self.symbol_flags(symbol) {
+                SymbolFlags::Elf { st_info, .. } => st_info.st_bind() == elf::STB_LOCAL,
+                _ => symbol.is_local(),
+            })
+            .collect();
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if symbol.is_local() {
+            if is_local[index] {
                 let section_index = symbol.section.id().map(|s| section_offsets[s.0].index);
                 symbol_offsets[index].index = writer.reserve_symbol_index(section_index);
             }
         }
         let symtab_num_local = writer.symbol_count();
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if !symbol.is_local() {
+            if !is_local[index] {
                 let section_index = symbol.section.id().map(|s| section_offsets[s.0].index);
                 symbol_offsets[index].index = writer.reserve_symbol_index(section_index);
             }
@@ -835,12 +845,12 @@ impl<'a> Object<'a> {
             Ok(())
         };
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if symbol.is_local() {
+            if is_local[index] {
                 write_symbol(index, symbol)?;
             }
         }
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if !symbol.is_local() {
+            if !is_local[index] {
                 write_symbol(index, symbol)?;
             }
         }
-- 
2.43.0


From ad16e84a39c1071e5bcc1e26cc05092a823f0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 21/87] fix: put COFF names that can't be stored inline in the
 string table

---
 src/write/coff/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index a2797c3..db56721 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -434,7 +434,10 @@ impl<'a> Writer<'a> {
     ///
     /// This must be called before [`Self::reserve_symtab_strtab`].
     pub fn add_name(&mut self, name: &'a [u8]) -> Name {
-        if name.len() > 8 {
+        // An empty inline symbol name would be read as string table offset 0, and
+        // an inline section name starting with '/' as a string table reference.
+        // Names containing null bytes are rejected when writing the string table.
+        if name.is_empty() || name.len() > 8 || name[0] == b'/' || name.contains(&0) {
             Name::Long(self.add_string(name))
         } else {
             let mut short_name = [0; 8];
-- 
2.43.0


From 45aba6f563368e708435daf1a3812caf394bede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 22/87] fix: reject COFF objects with more sections than can be
 numbered

---
 src/write/coff/object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 0dc6bf7..1eb072b 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -427,6 +427,13 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn coff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
+        if self.sections.len() > coff::IMAGE_SYM_SECTION_MAX.into() {
+            return Err(Error(format!(
+                "too many COFF sections: {}",
+                self.sections.len()
+            )));
+        }
+
         let mut writer = writer::Writer::new(buffer);
 
         // Add section strings to strtab.
-- 
2.43.0


From c9eaddb73059adbc19d57cca40036049f823fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 23/87] fix: reject COFF file symbol names that can't be
 represented

---
 src/write/coff/object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 1eb072b..5a72b8f 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -577,6 +577,13 @@ impl<'a> Object<'a> {
                 }
                 SymbolKind::File => {
                     // Name goes in auxiliary symbol records.
+                    let max_len = usize::from(u8::MAX) * coff::IMAGE_SIZEOF_SYMBOL;
+                    if symbol.name.len() > max_len || symbol.name.contains(&0) {
+                        return Err(Error(format!(
+                            "invalid COFF file symbol name (length {})",
+                            symbol.name.len()
+                        )));
+                    }
                     symbol_offsets[index].aux_count = writer.reserve_aux_file_name(&symbol.name);
                     name = b".file";
                 }
-- 
2.43.0


From e08b5e6407094238aece2ec89273457e524efe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 24/87] fix: use the relocation size for the Mach-O PC relative
 addend adjustment

The reader subtracts the size of the relocated field, so the writer must
add it, instead of always assuming that the field is 4 bytes.
---
 src/write/macho/object.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index bb2efe5..9bd6adc 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -389,11 +389,13 @@ impl<'a> Object<'a> {
         &mut self,
         relocation: &mut RelocationInternal,
     ) -> Result<bool> {
-        let (r_type, r_pcrel) = if let RelocationFlags::MachO {
-            r_type, r_pcrel, ..
+        let (r_type, r_pcrel, r_length) = if let RelocationFlags::MachO {
+            r_type,
+            r_pcrel,
+            r_length,
         } = relocation.flags
         {
-            (r_type, r_pcrel)
+            (r_type, r_pcrel, r_length)
         } else {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
@@ -404,12 +406,12 @@ impl<'a> Object<'a> {
             // This differs from other file formats, so adjust the
             // addend here to account for this.
             let pcrel_offset = match self.architecture {
-                Architecture::I386 => 4,
+                Architecture::I386 => 1 << r_length,
                 Architecture::X86_64 => match r_type {
-                    macho::X86_64_RELOC_SIGNED_1 => 5,
-                    macho::X86_64_RELOC_SIGNED_2 => 6,
-                    macho::X86_64_RELOC_SIGNED_4 => 8,
-                    _ => 4,
+                    macho::X86_64_RELOC_SIGNED_1 => (1 << r_length) + 1,
+                    macho::X86_64_RELOC_SIGNED_2 => (1 << r_length) + 2,
+                    macho::X86_64_RELOC_SIGNED_4 => (1 << r_length) + 4,
+                    _ => 1 << r_length,
                 },
                 // TODO: maybe missing support for some architectures and relocations
                 _ => 0,
-- 
2.43.0


From 2ef3d93ccb04ca7d39744fe82c106d4e1297ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 25/87] fix: handle arm64_32 Mach-O relocations the same as
 arm64

Instruction relocations have explicit addends, so the addend must not be
stored in the section data.
---
 src/write/macho/object.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 9bd6adc..30a384f 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -319,7 +319,11 @@ impl<'a> Object<'a> {
             return Ok(());
         };
         // Aarch64 relocs of these sizes act as if they are double-word length
-        if self.architecture == Architecture::Aarch64 && matches!(size, 12 | 21 | 26) {
+        if matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        ) && matches!(size, 12 | 21 | 26)
+        {
             size = 32;
         }
         let r_length = match size {
@@ -419,7 +423,10 @@ impl<'a> Object<'a> {
             relocation.addend += pcrel_offset;
         }
         // Determine if addend is implicit.
-        let implicit = if self.architecture == Architecture::Aarch64 {
+        let implicit = if matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        ) {
             match r_type {
                 macho::ARM64_RELOC_BRANCH26
                 | macho::ARM64_RELOC_PAGE21
-- 
2.43.0


From ca2d0cac5966f9cd0404a6dc46bfdd458dffa905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 26/87] fix: reject Mach-O relocations for symbols that are not
 emitted

Previously these silently used symbol index 0.
---
 src/write/macho/object.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 30a384f..20aca20 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -14,7 +14,8 @@ struct SectionOffsets {
 
 #[derive(Default, Clone, Copy)]
 struct SymbolOffsets {
-    index: u32,
+    /// `None` if the symbol is not emitted.
+    index: Option<u32>,
     str_id: Option<StringId>,
 }
 
@@ -578,7 +579,7 @@ impl<'a> Object<'a> {
             .chain(external_symbols.iter().copied())
             .chain(undefined_symbols.iter().copied())
         {
-            symbol_offsets[index].index = nsyms;
+            symbol_offsets[index].index = Some(nsyms);
             nsyms += 1;
         }
         if nsyms > 1 << 24 {
@@ -772,6 +773,15 @@ impl<'a> Object<'a> {
         debug_assert_eq!(segment_file_offset + segment_file_size, buffer.count());
 
         // Write relocations.
+        let relocation_symbol_index = |id: SymbolId| {
+            symbol_offsets[id.0].index.ok_or_else(|| {
+                Error(format!(
+                    "unimplemented relocation symbol `{}` kind {:?}",
+                    self.symbols[id.0].name().unwrap_or(""),
+                    self.symbols[id.0].kind
+                ))
+            })
+        };
         for (index, section) in self.sections.iter().enumerate() {
             if !section.relocations.is_empty() {
                 buffer.resize(section_offsets[index].reloc_offset);
@@ -800,7 +810,7 @@ impl<'a> Object<'a> {
                         };
                         let reloc_info = macho::RelocationInfo {
                             r_address: reloc.offset as u32,
-                            r_symbolnum: symbol_offsets[subtractor.0].index,
+                            r_symbolnum: relocation_symbol_index(subtractor)?,
                             r_pcrel: false,
                             r_length,
                             r_extern: true,
@@ -838,7 +848,7 @@ impl<'a> Object<'a> {
                         r_symbolnum = section_offsets[symbol.section.id().unwrap().0].index;
                         r_extern = false;
                     } else {
-                        r_symbolnum = symbol_offsets[reloc.symbol.0].index;
+                        r_symbolnum = relocation_symbol_index(reloc.symbol)?;
                         r_extern = true;
                     }
 
-- 
2.43.0


From a5e6cf04d5333e0f2665e056a5cefb1305322255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 27/87] fix: reject Mach-O relocation addends that don't fit in
 24 bits

---
 src/write/macho/object.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 20aca20..daafebb 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -821,6 +821,10 @@ impl<'a> Object<'a> {
 
                     // Write explicit addend.
                     if reloc.addend != 0 {
+                        // The addend is a signed 24-bit value.
+                        if !(-0x80_0000..0x80_0000).contains(&reloc.addend) {
+                            return Err(Error(format!("relocation addend overflow {:?}", reloc)));
+                        }
                         let r_type = match self.architecture {
                             Architecture::Aarch64 | Architecture::Aarch64_Ilp32 => {
                                 macho::ARM64_RELOC_ADDEND
-- 
2.43.0


From d6cb94042ca4e08ab893029cd3b5c38c49d6a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 28/87] fix: treat XCOFF text and data alignments as log2
 values

---
 src/read/xcoff/section.rs | 8 +++++---
 src/xcoff.rs              | 8 ++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 50ed71d..1ab375d 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -118,11 +118,13 @@ where
     fn align(&self) -> u64 {
         // The default section alignment is 4.
         if let Some(aux_header) = self.file.aux_header {
-            match self.kind() {
+            // The alignment is stored as a log2 value.
+            let align: u32 = match self.kind() {
                 SectionKind::Text => aux_header.o_algntext().into(),
                 SectionKind::Data => aux_header.o_algndata().into(),
-                _ => 4,
-            }
+                _ => return 4,
+            };
+            1u64.checked_shl(align).unwrap_or(0)
         } else {
             4
         }
diff --git a/src/xcoff.rs b/src/xcoff.rs
index eaf0c02..96319f7 100644
--- a/src/xcoff.rs
+++ b/src/xcoff.rs
@@ -130,9 +130,9 @@ pub struct AuxHeader32 {
     pub o_snloader: U16<BE>,
     /// Section number for .bss.
     pub o_snbss: U16<BE>,
-    /// Maximum alignment for .text.
+    /// Maximum alignment for .text (log2).
     pub o_algntext: U16<BE>,
-    /// Maximum alignment for .data.
+    /// Maximum alignment for .data (log2).
     pub o_algndata: U16<BE>,
     /// Module type field.
     pub o_modtype: U16<BE>,
@@ -189,9 +189,9 @@ pub struct AuxHeader64 {
     pub o_snloader: U16<BE>,
     /// Section number for .bss.
     pub o_snbss: U16<BE>,
-    /// Maximum alignment for .text.
+    /// Maximum alignment for .text (log2).
     pub o_algntext: U16<BE>,
-    /// Maximum alignment for .data.
+    /// Maximum alignment for .data (log2).
     pub o_algndata: U16<BE>,
     /// Module type field.
     pub o_modtype: U16<BE>,
-- 
2.43.0


From 9ed98fb04eff01b8fc0efead3fd5bc3aaaf800ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 29/87] fix: allow XCOFF files without a string table

The string table may be omitted when there are no strings.
---
 src/read/xcoff/symbol.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 297dd7e..88dfa65 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -58,15 +58,20 @@ where
                 .read_error("Invalid XCOFF symbol table offset or size")?;
 
             // Parse the string table.
-            // Note: don't update data when reading length; the length includes itself.
-            let length = data
-                .read_at::<U32<_>>(offset)
-                .read_error("Missing XCOFF string table")?
-                .get(BE);
-            let str_end = offset
-                .checked_add(length as u64)
-                .read_error("Invalid XCOFF string table length")?;
-            let strings = StringTable::new(data, offset, str_end);
+            // The string table may be omitted if there are no strings.
+            let strings = if data.len() == Ok(offset) {
+                StringTable::default()
+            } else {
+                // Note: don't update data when reading length; the length includes itself.
+                let length = data
+                    .read_at::<U32<_>>(offset)
+                    .read_error("Missing XCOFF string table")?
+                    .get(BE);
+                let str_end = offset
+                    .checked_add(length as u64)
+                    .read_error("Invalid XCOFF string table length")?;
+                StringTable::new(data, offset, str_end)
+            };
 
             (symbols, strings)
         } else {
-- 
2.43.0


From fac22ed7d06a0ed14ff17be0d31b62ef30831e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 30/87] fix: don't return file data for uninitialized XCOFF
 sections

---
 src/read/xcoff/section.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 1ab375d..6239394 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -315,8 +315,19 @@ pub trait SectionHeader: Debug + Pod + read::private::Sealed {
     }
 
     /// Return the offset and size of the section in the file.
+    ///
+    /// Returns `None` for sections that have no data in the file.
     fn file_range(&self) -> Option<(u64, u64)> {
-        Some((self.s_scnptr().into(), self.s_size().into()))
+        if self
+            .s_flags()
+            .typ()
+            .intersects(xcoff::STYP_BSS | xcoff::STYP_TBSS)
+        {
+            // Uninitialized sections have no data in the file.
+            None
+        } else {
+            Some((self.s_scnptr().into(), self.s_size().into()))
+        }
     }
 
     /// Return the section data.
-- 
2.43.0


From 7710f481bb2f87543bae26f1236d84425b6878fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 31/87] fix: convert between XCOFF relocation addresses and
 section offsets

The relocation address is a virtual address, not a section offset.
---
 src/read/xcoff/relocation.rs | 7 ++++++-
 src/read/xcoff/section.rs    | 1 +
 src/write/xcoff.rs           | 5 +++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/read/xcoff/relocation.rs b/src/read/xcoff/relocation.rs
index 6ce3879..7c82a57 100644
--- a/src/read/xcoff/relocation.rs
+++ b/src/read/xcoff/relocation.rs
@@ -27,6 +27,7 @@ where
 {
     #[allow(unused)]
     pub(super) file: &'file XcoffFile<'data, Xcoff, R>,
+    pub(super) section_address: u64,
     pub(super) relocations:
         slice::Iter<'data, <<Xcoff as FileHeader>::SectionHeader as SectionHeader>::Rel>,
 }
@@ -58,7 +59,11 @@ where
             let size = (r_rsize & 0x3F) + 1;
             let target = RelocationTarget::Symbol(relocation.symbol());
             (
-                relocation.r_vaddr().into(),
+                // Convert the address to a section offset.
+                relocation
+                    .r_vaddr()
+                    .into()
+                    .wrapping_sub(self.section_address),
                 Relocation {
                     kind,
                     encoding,
diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 6239394..21f6540 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -203,6 +203,7 @@ where
         let rel = self.xcoff_relocations().unwrap_or(&[]);
         XcoffRelocationIterator {
             file: self.file,
+            section_address: self.section.s_paddr().into(),
             relocations: rel.iter(),
         }
     }
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index db2e3fb..e2d32df 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -459,9 +459,10 @@ impl<'a> Object<'a> {
                         } else {
                             return Err(Error("invalid relocation flags".into()));
                         };
+                    let r_vaddr = section_offsets[index].address.wrapping_add(reloc.offset);
                     if is_64 {
                         let xcoff_rel = xcoff::Rel64 {
-                            r_vaddr: reloc.offset.into(),
+                            r_vaddr: r_vaddr.into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
@@ -469,7 +470,7 @@ impl<'a> Object<'a> {
                         buffer.write_pod(&xcoff_rel);
                     } else {
                         let xcoff_rel = xcoff::Rel32 {
-                            r_vaddr: (reloc.offset as u32).into(),
+                            r_vaddr: (r_vaddr as u32).into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
-- 
2.43.0


From a48e92a2575f866de5b47ea38e6867a5c0c26957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 32/87] fix: read XCOFF debugger symbol names from the debug
 section

Names of symbols with a storage class that includes DBXMASK are in the
debug section, not the string table.
---
 src/read/xcoff/file.rs   | 16 +++++++++++++++-
 src/read/xcoff/symbol.rs |  9 +++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/read/xcoff/file.rs b/src/read/xcoff/file.rs
index d1cca5c..43f84f1 100644
--- a/src/read/xcoff/file.rs
+++ b/src/read/xcoff/file.rs
@@ -6,7 +6,7 @@ use crate::pod::Pod;
 use crate::read::{
     self, Architecture, Error, FileFlags, NoDynamicRelocationIterator, NoExportIterator,
     NoImportIterator, NoImportLibraryIterator, Object, ObjectKind, ObjectSection, ReadError,
-    ReadRef, Result, SectionIndex, SymbolIndex,
+    ReadRef, Result, SectionIndex, StringTable, SymbolIndex,
 };
 use crate::{SkipDebugList, xcoff};
 
@@ -104,6 +104,20 @@ where
     pub fn xcoff_symbol_table(&self) -> &SymbolTable<'data, Xcoff, R> {
         &self.symbols
     }
+
+    /// Return the strings in the debug section.
+    pub(super) fn debug_strings(&self) -> Result<StringTable<'data, R>> {
+        let section = self
+            .sections
+            .iter()
+            .find(|section| section.s_flags().typ().intersects(xcoff::STYP_DEBUG))
+            .read_error("Missing XCOFF debug section")?;
+        let start = section.s_scnptr().into();
+        let end = start
+            .checked_add(section.s_size().into())
+            .read_error("Invalid XCOFF debug section offset or size")?;
+        Ok(StringTable::new(self.data.0, start, end))
+    }
 }
 
 impl<'data, Xcoff, R> read::private::Sealed for XcoffFile<'data, Xcoff, R>
diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 88dfa65..4d3295c 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -355,6 +355,8 @@ impl<'data, 'file, Xcoff: FileHeader, R: ReadRef<'data>> ObjectSymbol<'data>
             self.symbols
                 .aux_file(self.index, 1)?
                 .fname(self.symbols.strings)
+        } else if self.symbol.has_debug_name() {
+            self.symbol.name(self.file.debug_strings()?)
         } else {
             self.symbol.name(self.symbols.strings)
         }
@@ -583,6 +585,13 @@ pub trait Symbol: Debug + Pod + read::private::Sealed {
             && self.n_scnum() == xcoff::N_UNDEF
     }
 
+    /// Return true if the symbol name is not stored inline and is in the debug section
+    /// instead of the string table.
+    fn has_debug_name(&self) -> bool {
+        // This is DBXMASK.
+        self.n_sclass().0 & 0x80 != 0 && self.name_offset().is_some()
+    }
+
     /// Return true if the symbol has file auxiliary entry.
     fn has_aux_file(&self) -> bool {
         self.n_numaux() > 0 && self.n_sclass() == xcoff::C_FILE
-- 
2.43.0


From 129eb8a9b8dae36aa51000e17bb65bf77a42b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 33/87] fix: support XCOFF relocation count overflow sections

---
 src/read/xcoff/section.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 21f6540..80cfc0b 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -79,6 +79,31 @@ impl<'data, 'file, Xcoff: FileHeader, R: ReadRef<'data>> XcoffSection<'data, 'fi
 
     /// Get the raw XCOFF relocation entries for this section.
     pub fn xcoff_relocations(&self) -> Result<&'data [Xcoff::Rel]> {
+        if !self.file.header.is_type_64() {
+            if self.section.s_flags().typ().intersects(xcoff::STYP_OVRFLO) {
+                // The header fields are for another section.
+                return Ok(&[]);
+            }
+            if self.section.s_nreloc().into() == 65535 {
+                // The relocation count is in the overflow section header for this section.
+                let overflow = self
+                    .file
+                    .sections
+                    .iter()
+                    .find(|section| {
+                        section.s_flags().typ().intersects(xcoff::STYP_OVRFLO)
+                            && section.s_nreloc().into() as usize == self.index.0
+                    })
+                    .read_error("Missing XCOFF overflow section")?;
+                let count: u64 = overflow.s_paddr().into();
+                return self
+                    .file
+                    .data
+                    .0
+                    .read_slice_at(self.section.s_relptr().into(), count as usize)
+                    .read_error("Invalid XCOFF relocation offset or number");
+            }
+        }
         self.section.relocations(self.file.data.0)
     }
 
@@ -400,11 +425,11 @@ impl SectionHeader for xcoff::SectionHeader32 {
     /// `data` must be the entire file data.
     fn relocations<'data, R: ReadRef<'data>>(&self, data: R) -> read::Result<&'data [Self::Rel]> {
         let reloc_num = self.s_nreloc() as usize;
-        // TODO: If more than 65,534 relocation entries are required, the field value will be 65535,
+        // If more than 65,534 relocation entries are required, the field value will be 65535,
         // and an STYP_OVRFLO section header will contain the actual count of relocation entries in
-        // the s_paddr field.
+        // the s_paddr field. See `XcoffSection::xcoff_relocations`.
         if reloc_num == 65535 {
-            return Err(Error("Overflow section is not supported yet."));
+            return Err(Error("XCOFF relocation count overflow"));
         }
         data.read_slice_at(self.s_relptr().into(), reloc_num)
             .read_error("Invalid XCOFF relocation offset or number")
-- 
2.43.0


From 60427c61158246d3017ec844fb7299dcd8406399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 34/87] fix: write the size of XCOFF uninitialized sections

---
 src/write/xcoff.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index e2d32df..534b22c 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -257,11 +257,17 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += len;
+                address += section.size;
                 address = align(address, 4);
             } else {
                 section_offsets[index].address = 0;
             }
+            if !is_64 && address.max(section.size) > u64::from(u32::MAX) {
+                return Err(Error(format!(
+                    "section `{}` is too large",
+                    section.name().unwrap_or("")
+                )));
+            }
             if len != 0 {
                 // Set the default section alignment as 4.
                 offset = align(offset, 4);
@@ -407,7 +413,7 @@ impl<'a> Object<'a> {
                     s_paddr: section_offsets[index].address.into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: section_offsets[index].address.into(),
-                    s_size: (section.data.len() as u64).into(),
+                    s_size: section.size.into(),
                     s_scnptr: (section_offsets[index].data_offset as u64).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u64).into(),
                     s_lnnoptr: 0.into(),
@@ -423,7 +429,7 @@ impl<'a> Object<'a> {
                     s_paddr: (section_offsets[index].address as u32).into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: (section_offsets[index].address as u32).into(),
-                    s_size: (section.data.len() as u32).into(),
+                    s_size: (section.size as u32).into(),
                     s_scnptr: (section_offsets[index].data_offset as u32).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u32).into(),
                     s_lnnoptr: 0.into(),
-- 
2.43.0


From 7adb58b3b6322b3366941519d29e44b01dd6012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 35/87] fix: check XCOFF section and relocation counts when
 writing

---
 src/write/xcoff.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 534b22c..2ce3bcb 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -235,6 +235,11 @@ impl<'a> Object<'a> {
             )
         };
 
+        // Section numbers in symbols are signed.
+        if self.sections.len() > i16::MAX as usize {
+            return Err(Error(format!("too many sections: {}", self.sections.len())));
+        }
+
         // Calculate offsets and build strtab.
         let mut offset = 0;
         let mut strtab = StringTable::default();
@@ -281,6 +286,17 @@ impl<'a> Object<'a> {
         // Calculate size of relocations.
         for (index, section) in self.sections.iter().enumerate() {
             let count = section.relocations.len() as u64;
+            // TODO: If more than 65,534 relocation entries are required, the field
+            // value will be 65535, and an STYP_OVRFLO section header will contain
+            // the actual count of relocation entries in the s_paddr field.
+            let max = if is_64 { u32::MAX } else { 65534 };
+            if count > u64::from(max) {
+                return Err(Error(format!(
+                    "too many relocations in section `{}`: {}",
+                    section.name().unwrap_or(""),
+                    count
+                )));
+            }
             if count != 0 {
                 section_offsets[index].reloc_offset = offset;
                 offset += count * rel_size;
@@ -433,9 +449,6 @@ impl<'a> Object<'a> {
                     s_scnptr: (section_offsets[index].data_offset as u32).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u32).into(),
                     s_lnnoptr: 0.into(),
-                    // TODO: If more than 65,534 relocation entries are required, the field
-                    // value will be 65535, and an STYP_OVRFLO section header will contain
-                    // the actual count of relocation entries in the s_paddr field.
                     s_nreloc: (section.relocations.len() as u16).into(),
                     s_nlnno: 0.into(),
                     s_flags: s_flags.into(),
-- 
2.43.0


From a42f0faafacce86eaa821adf2c1bef81b2f27103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 36/87] fix: check XCOFF relocation sizes when writing

---
 src/write/xcoff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 2ce3bcb..e0a1283 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -184,6 +184,10 @@ impl<'a> Object<'a> {
                 return Err(Error(format!("unimplemented relocation {:?}", reloc)));
             }
         };
+        // The length field is 6 bits.
+        if size == 0 || size > 64 {
+            return Err(Error(format!("unimplemented relocation {:?}", reloc)));
+        }
         let r_rsize = size - 1;
         reloc.flags = RelocationFlags::Xcoff { r_rtype, r_rsize };
         Ok(())
@@ -210,7 +214,7 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("unexpected relocation {:?}", reloc)));
         };
-        Ok(r_rsize + 1)
+        Ok((r_rsize & 0x3f) + 1)
     }
 
     pub(crate) fn xcoff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
-- 
2.43.0


From 6c68875e484070137c69e29bae4dfd4eaaa1f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 37/87] fix: reject XCOFF names that can't be written

---
 src/write/xcoff.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index e0a1283..4917908 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -337,6 +337,21 @@ impl<'a> Object<'a> {
             symbol_offsets[index].x_smclas = x_smclas;
             symbol_offsets[index].containing_csect = containing_csect;
 
+            if symbol.name.contains(&0) {
+                return Err(Error(format!(
+                    "null byte in symbol name `{}`",
+                    symbol.name().unwrap_or("")
+                )));
+            }
+            if n_sclass.0 & 0x80 != 0 && (is_64 || symbol.name.len() > 8) {
+                // The name would need to be stored in the debug section.
+                return Err(Error(format!(
+                    "unimplemented symbol `{}` class {:?}",
+                    symbol.name().unwrap_or(""),
+                    n_sclass
+                )));
+            }
+
             if n_sclass == xcoff::C_FILE {
                 if is_64 && file_str_id.is_none() {
                     file_str_id = Some(strtab.add(b".file"));
@@ -411,6 +426,12 @@ impl<'a> Object<'a> {
         // Write section headers.
         for (index, section) in self.sections.iter().enumerate() {
             let mut sectname = [0; 8];
+            if section.name.contains(&0) {
+                return Err(Error(format!(
+                    "null byte in section name `{}`",
+                    section.name().unwrap_or("")
+                )));
+            }
             sectname
                 .get_mut(..section.name.len())
                 .ok_or_else(|| {
-- 
2.43.0


From 6009847622c87c339e3d37f49c361bb2573ef65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 38/87] fix: treat a zero XCOFF debug name offset as an empty
 name

---
 src/read/xcoff/symbol.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 4d3295c..fd7e318 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -588,8 +588,8 @@ pub trait Symbol: Debug + Pod + read::private::Sealed {
     /// Return true if the symbol name is not stored inline and is in the debug section
     /// instead of the string table.
     fn has_debug_name(&self) -> bool {
-        // This is DBXMASK.
-        self.n_sclass().0 & 0x80 != 0 && self.name_offset().is_some()
+        // This is DBXMASK. An offset of 0 means there is no name.
+        self.n_sclass().0 & 0x80 != 0 && self.name_offset().is_some_and(|offset| offset != 0)
     }
 
     /// Return true if the symbol has file auxiliary entry.
-- 
2.43.0


From 2879c4a1f93c552b37119d126c5cf2849817d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 39/87] fix: return the size in WasmSection::file_range

---
 src/read/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 5c04f65..db886bc 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -884,7 +884,7 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
     #[inline]
     fn file_range(&self) -> Option<(u64, u64)> {
         let range = &self.section.range;
-        Some((range.start as _, range.end as _))
+        Some((range.start as u64, (range.end - range.start) as u64))
     }
 
     #[inline]
-- 
2.43.0


From b34722fdad7f79d5367d61eb87950a0a215a0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 40/87] fix: implement WasmSection::data_range

---
 src/read/wasm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index db886bc..39ffa49 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -896,8 +896,13 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
             .read_error("Invalid Wasm section size or offset")
     }
 
-    fn data_range(&self, _address: u64, _size: u64) -> Result<Option<&'data [u8]>> {
-        unimplemented!()
+    fn data_range(&self, address: u64, size: u64) -> Result<Option<&'data [u8]>> {
+        Ok(read::util::data_range(
+            self.data()?,
+            self.address(),
+            address,
+            size,
+        ))
     }
 
     #[inline]
-- 
2.43.0


From b98ba8be7c91a7c40b83ed44079e2a392cb1a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 41/87] fix: account for imported functions in the Wasm entry
 address

---
 src/read/wasm.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 39ffa49..bdf8df9 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -245,12 +245,6 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
             }
         }
 
-        if let Some(entry_func_id) = entry_func_id {
-            if let Some(range) = code_ranges.get(entry_func_id as usize) {
-                file.entry = range.0;
-            }
-        }
-
         let mut import_func_names = Vec::new();
         let mut import_global_names = Vec::new();
         if let Some(imports_section) = imports_section {
@@ -325,6 +319,16 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
             }
         }
 
+        if let Some(entry_func_id) = entry_func_id {
+            // The function index space starts with the imported functions.
+            if let Some(range) = entry_func_id
+                .checked_sub(import_func_names.len() as u32)
+                .and_then(|local_func_id| code_ranges.get(local_func_id as usize))
+            {
+                file.entry = range.0;
+            }
+        }
+
         if let Some(symbols) = symbols {
             // We have a symbol table, so we don't need to add symbols for locals or exports.
             // These sections shouldn't be present at the same time as a symbol table anyway.
-- 
2.43.0


From 75f5644b01feaa1353370eafafd9f687ed106d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 42/87] fix: account for imported globals in Wasm export
 addresses

---
 src/read/wasm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index bdf8df9..1373972 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -469,7 +469,12 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                 let mut address = 0;
                 let mut size = 0;
                 if export.kind == wp::ExternalKind::Global {
-                    if let Some(&Some(x)) = global_values.get(export.index as usize) {
+                    // The global index space starts with the imported globals.
+                    if let Some(&Some(x)) = export
+                        .index
+                        .checked_sub(import_global_names.len() as u32)
+                        .and_then(|local_global_id| global_values.get(local_global_id as usize))
+                    {
                         address = x;
                     }
                 }
-- 
2.43.0


From 9acf44bf271ee8e2500481cee091c52a77e1f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 43/87] fix: zero-extend 32-bit Wasm global addresses

---
 src/read/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 1373972..fec24a7 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -166,7 +166,7 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                             // There should be exactly one instruction.
                             let init = global.init_expr.get_operators_reader().read();
                             address = match init.read_error("Couldn't read a global init expr")? {
-                                wp::Operator::I32Const { value } => Some(value as u64),
+                                wp::Operator::I32Const { value } => Some(value as u32 as u64),
                                 wp::Operator::I64Const { value } => Some(value as u64),
                                 _ => None,
                             };
-- 
2.43.0


From 3ca072829b62847009b6996856d8dc0737b2134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 44/87] fix: keep the name of defined Wasm global symbols

---
 src/read/wasm.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index fec24a7..2b4115f 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -416,11 +416,8 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                         None
                     }
                     wp::SymbolInfo::Global { name, index, .. } => {
-                        if !flags.contains(wp::SymbolFlags::EXPLICIT_NAME) {
-                            import_global_names.get(index as usize).copied()
-                        } else {
-                            name
-                        }
+                        // Only a symbol for an import can omit the name.
+                        name.or_else(|| import_global_names.get(index as usize).copied())
                     }
                     wp::SymbolInfo::Event { name, .. } | wp::SymbolInfo::Table { name, .. } => name,
                 };
-- 
2.43.0


From a8b2442f9a0c0c9820038c443ccf87ad1eb92169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 45/87] fix: use the import name for Wasm table and tag symbols

---
 src/read/wasm.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 2b4115f..e707b9a 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -247,6 +247,8 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
 
         let mut import_func_names = Vec::new();
         let mut import_global_names = Vec::new();
+        let mut import_table_names = Vec::new();
+        let mut import_tag_names = Vec::new();
         if let Some(imports_section) = imports_section {
             let mut last_module_name = None;
 
@@ -266,8 +268,14 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                             import_global_names.push(name);
                             SymbolKind::Data
                         }
-                        wp::TypeRef::Table(_) => SymbolKind::Data,
-                        wp::TypeRef::Tag(_) => SymbolKind::Unknown,
+                        wp::TypeRef::Table(_) => {
+                            import_table_names.push(name);
+                            SymbolKind::Data
+                        }
+                        wp::TypeRef::Tag(_) => {
+                            import_tag_names.push(name);
+                            SymbolKind::Unknown
+                        }
                     };
 
                     if symbols.is_some() {
@@ -419,7 +427,12 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                         // Only a symbol for an import can omit the name.
                         name.or_else(|| import_global_names.get(index as usize).copied())
                     }
-                    wp::SymbolInfo::Event { name, .. } | wp::SymbolInfo::Table { name, .. } => name,
+                    wp::SymbolInfo::Event { name, index, .. } => {
+                        name.or_else(|| import_tag_names.get(index as usize).copied())
+                    }
+                    wp::SymbolInfo::Table { name, index, .. } => {
+                        name.or_else(|| import_table_names.get(index as usize).copied())
+                    }
                 };
 
                 file.symbols.push(WasmSymbolInternal {
-- 
2.43.0


From f2e4a468dabac24e8a73e2e1ccea5dabaeb9a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 46/87] fix: don't return the null section from ELF
 section_by_name

---
 src/read/elf/section.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/section.rs b/src/read/elf/section.rs
index 1fe4f00..375c87c 100644
--- a/src/read/elf/section.rs
+++ b/src/read/elf/section.rs
@@ -92,13 +92,14 @@ impl<'data, Elf: FileHeader, R: ReadRef<'data>> SectionTable<'data, Elf, R> {
 
     /// Return the section header with the given name.
     ///
-    /// Ignores sections with invalid names.
+    /// Ignores the null section, and sections with invalid names.
     pub fn section_by_name(
         &self,
         endian: Elf::Endian,
         name: &[u8],
     ) -> Option<(SectionIndex, &'data Elf::SectionHeader)> {
         self.enumerate()
+            .skip(1)
             .find(|(_, section)| self.section_name(endian, section) == Ok(name))
     }
 
-- 
2.43.0


From 7cba4fb0e1f6eff9a9f993cbd53267df0bbcc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 47/87] fix: don't let a Mach-O symbol reference type alter
 other n_desc bits

---
 src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macho.rs b/src/macho.rs
index b7df492..5c2abb9 100644
--- a/src/macho.rs
+++ b/src/macho.rs
@@ -3498,7 +3498,7 @@ impl SymbolDesc {
     ///
     /// Valid for undefined symbols.
     pub fn with_reference(self, reference: SymbolReference) -> SymbolDesc {
-        SymbolDesc((self.0 & !REFERENCE_TYPE) | (u16::from(reference.0)))
+        SymbolDesc((self.0 & !REFERENCE_TYPE) | (u16::from(reference.0) & REFERENCE_TYPE))
     }
 
     /// Get the library ordinal subfield.
-- 
2.43.0


From 89df100b4c8b5dfe6acb5fca887c1a43bbf610ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 48/87] fix: keep symbols at the last address in symbol maps

The initial value used to detect repeated addresses is itself a valid
address, so a symbol at that address was dropped if it was the first one.
---
 src/read/symbol_map.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/read/symbol_map.rs b/src/read/symbol_map.rs
index 3ec270a..c397ce3 100644
--- a/src/read/symbol_map.rs
+++ b/src/read/symbol_map.rs
@@ -354,11 +354,11 @@ impl SymbolMapBuilder {
             // Unstable sort is okay because tuple includes index.
             all_symbols.sort_unstable();
 
-            let mut previous_address = !0;
+            let mut previous_address = None;
             for (address, _priority, _index, size, name) in all_symbols {
-                if address != previous_address {
+                if Some(address) != previous_address {
                     symbols.push(SymbolMapName::new(address, size, name));
-                    previous_address = address;
+                    previous_address = Some(address);
                 }
             }
 
-- 
2.43.0


From 0e848f43078e82881777410ce98b60d63d3da022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 49/87] fix: end the list of names of a written version
 definition

---
 src/write/elf/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/writer.rs b/src/write/elf/writer.rs
index bf35572..46c66a0 100644
--- a/src/write/elf/writer.rs
+++ b/src/write/elf/writer.rs
@@ -849,7 +849,7 @@ impl<'a, M: Mode> Writer<'a, M> {
         self.gnu_verdef_remaining -= 1;
 
         debug_assert_ne!(verdef.aux_count, 0);
-        self.gnu_verdaux_remaining = verdef.aux_count;
+        self.gnu_verdaux_remaining = verdef.aux_count - 1;
         self.written_verdaux_count += usize::from(verdef.aux_count);
         M::set_count(&mut self.gnu_verdaux_count, self.written_verdaux_count);
 
-- 
2.43.0


From 5fe04bef932de1711f36f5edbd3e94074d56c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 50/87] fix: use SHT_RELR for relative relocation section
 headers

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 97c4b02..4354c0b 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -865,7 +865,7 @@ impl<E: Endian> Encoder<E> {
     /// The caller must set `sh_name`, `sh_offset`, and `sh_size`.
     pub fn relative_relocation_section_header(self) -> SectionHeader {
         SectionHeader {
-            sh_type: elf::SHT_RELA,
+            sh_type: elf::SHT_RELR,
             sh_addralign: self.address_size(),
             sh_entsize: self.relr_size(),
             ..SectionHeader::default()
-- 
2.43.0


From ef962f275890c39c6cbdd82af41647ae9144d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 51/87] fix: write the number of line numbers in COFF section
 headers

---
 src/write/coff/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index db56721..6cbbe0b 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -174,7 +174,7 @@ impl<'a> Writer<'a> {
             } else {
                 (section.number_of_relocations as u16).into()
             },
-            number_of_linenumbers: 0.into(),
+            number_of_linenumbers: section.number_of_linenumbers.into(),
             characteristics: section.characteristics.into(),
         };
         match section.name {
-- 
2.43.0


From a69e58e2bbf9223922067de5c0d89206cb9d6ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 52/87] fix: reject COFF and PE files with offsets that do not
 fit

---
 src/write/coff/writer.rs | 4 ++++
 src/write/pe.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index 6cbbe0b..533a130 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -129,6 +129,10 @@ impl<'a> Writer<'a> {
     pub fn write_file_header(&mut self, header: FileHeader) -> Result<()> {
         debug_assert_eq!(self.buffer.count(), 0);
 
+        if self.len > u64::from(u32::MAX) {
+            return Err(Error(format!("File size overflow: {:#x}", self.len)));
+        }
+
         // Start writing.
         self.buffer
             .reserve(self.len)
diff --git a/src/write/pe.rs b/src/write/pe.rs
index e81d779..845245b 100644
--- a/src/write/pe.rs
+++ b/src/write/pe.rs
@@ -196,6 +196,10 @@ impl<'a> Writer<'a> {
     pub fn write_custom_dos_header(&mut self, dos_header: &pe::ImageDosHeader) -> Result<()> {
         debug_assert_eq!(self.buffer.count(), 0);
 
+        if self.len > u64::from(u32::MAX) {
+            return Err(Error(format!("File size overflow: {:#x}", self.len)));
+        }
+
         // Start writing.
         self.buffer
             .reserve(self.len)
-- 
2.43.0


From b49e5aa78416ddaeccd6c4ec64a39743a7203bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 53/87] fix: treat ELF section alignment 0 as unaligned in the
 builder

---
 src/build/elf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index d82789d..20bd418 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -763,7 +763,8 @@ impl<'data> Builder<'data> {
         struct Offset(u64);
         impl Offset {
             fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
-                self.0 = write::align(self.0, align);
+                // An alignment of 0 means there is no alignment constraint.
+                self.0 = write::align(self.0, align.max(1));
                 let offset = self.0;
                 self.0 += size;
                 (offset, size)
@@ -2399,7 +2400,8 @@ impl<'data> Segment<'data> {
     pub fn append_section(&mut self, section: &mut Section<'_>) {
         debug_assert_eq!(self.p_filesz, self.p_memsz);
         if self.p_type == elf::PT_LOAD {
-            let align = section.sh_addralign;
+            // An alignment of 0 means there is no alignment constraint.
+            let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
             let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
-- 
2.43.0


From 510b027be835bac6381dd763e0134d910a1f9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 54/87] fix: DT_CONFIG, DT_DEPAUDIT and DT_AUDIT values are
 strings

---
 src/read/elf/dynamic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/read/elf/dynamic.rs b/src/read/elf/dynamic.rs
index 26f3da0..79c47b8 100644
--- a/src/read/elf/dynamic.rs
+++ b/src/read/elf/dynamic.rs
@@ -285,6 +285,9 @@ fn tag_is_string(tag: elf::DynamicTag) -> bool {
         | elf::DT_SONAME
         | elf::DT_RPATH
         | elf::DT_RUNPATH
+        | elf::DT_CONFIG
+        | elf::DT_DEPAUDIT
+        | elf::DT_AUDIT
         | elf::DT_AUXILIARY
         | elf::DT_FILTER => true,
         _ => false,
-- 
2.43.0


From 940e77773f62bcb3b9df17623f6c2fe555aa5815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 55/87] fix: keep sh_info of relocation sections without
 SHF_INFO_LINK in the ELF builder

---
 src/build/elf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 20bd418..db6b927 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -328,7 +328,11 @@ impl<'data> Builder<'data> {
                 Some(SectionId(sh_link as usize - 1))
             };
             let sh_info = section.sh_info(endian);
-            let sh_info_section = if sh_info == 0 || !sh_flags.contains(elf::SHF_INFO_LINK) {
+            // For relocation sections, `sh_info` is a section index even without `SHF_INFO_LINK`.
+            let is_relocation = matches!(section.sh_type(endian), elf::SHT_REL | elf::SHT_RELA)
+                && (sh_info as usize) < sections.len();
+            let is_info_link = sh_flags.contains(elf::SHF_INFO_LINK) || is_relocation;
+            let sh_info_section = if sh_info == 0 || !is_info_link {
                 None
             } else {
                 if sh_info as usize >= sections.len() {
-- 
2.43.0


From b7309c762a1faa04d46ef3a7c7053ee0cdd15ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 56/87] fix: calculate gnu_hash_size from the symbols that are
 hashed

---
 src/build/elf.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index db6b927..ea14c62 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2073,7 +2073,14 @@ impl<'data> Builder<'data> {
     /// To get an accurate result, you may need to first call
     /// [`Self::delete_orphan_symbols`].
     pub fn gnu_hash_size(&self) -> u64 {
-        let symbol_count = self.dynamic_symbols.count_defined();
+        // This must match the symbols that are hashed when writing.
+        let symbol_count = self
+            .dynamic_symbols
+            .into_iter()
+            .filter(|symbol| {
+                symbol.is_defined() && symbol.st_bind() != elf::STB_LOCAL && !symbol.name.is_empty()
+            })
+            .count();
         self.encoder().gnu_hash_size(
             self.gnu_hash_bloom_count,
             self.gnu_hash_bucket_count,
@@ -2863,6 +2870,11 @@ impl<'data, const DYNAMIC: bool> Symbol<'data, DYNAMIC> {
     pub fn set_st_info(&mut self, st_bind: elf::SymbolBind, st_type: elf::SymbolType) {
         self.st_info = st_bind | st_type;
     }
+
+    /// Return true if the symbol will not have a section index of `SHN_UNDEF`.
+    fn is_defined(&self) -> bool {
+        self.section.is_some() || self.st_shndx != elf::SHN_UNDEF
+    }
 }
 
 /// A symbol table.
@@ -2872,7 +2884,7 @@ impl<'data, const DYNAMIC: bool> Symbols<'data, DYNAMIC> {
     /// Number of defined symbols.
     pub fn count_defined(&self) -> usize {
         self.into_iter()
-            .filter(|symbol| symbol.st_shndx != elf::SHN_UNDEF)
+            .filter(|symbol| symbol.is_defined())
             .count()
     }
 
-- 
2.43.0


From bc0aac8a50bc9afc7430e88b1839a32f8cb7c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 57/87] fix: append sections after p_vaddr instead of p_paddr
 of the segment

---
 src/build/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index ea14c62..edd9f47 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2414,7 +2414,7 @@ impl<'data> Segment<'data> {
             // An alignment of 0 means there is no alignment constraint.
             let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
-            let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
+            let addr = (self.p_vaddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
             section.sh_addr = addr;
         }
-- 
2.43.0


From 8cc07b621621f6c7e37be9fe79f3a3a4868d4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 58/87] fix: keep the end of a segment when a section extends
 its start

---
 src/build/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index edd9f47..2062669 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2444,6 +2444,9 @@ impl<'data> Segment<'data> {
             self.p_memsz = section.sh_size;
         } else {
             if self.p_offset > section.sh_offset {
+                if self.p_filesz != 0 {
+                    self.p_filesz += self.p_offset - section.sh_offset;
+                }
                 self.p_offset = section.sh_offset;
             }
             let filesz = section.sh_offset + section_filesize - self.p_offset;
@@ -2451,6 +2454,7 @@ impl<'data> Segment<'data> {
                 self.p_filesz = filesz;
             }
             if self.p_vaddr > section.sh_addr {
+                self.p_memsz += self.p_vaddr - section.sh_addr;
                 self.p_vaddr = section.sh_addr;
                 self.p_paddr = section.sh_addr;
             }
-- 
2.43.0


From 3b8a43dcc0a7551331086460eee1212c876a1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 59/87] fix: avoid overflow in add_load_segment with alignment
 0

---
 src/build/elf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 2062669..ee4e54b 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2540,7 +2540,9 @@ impl<'data> Segments<'data> {
         // will add their alignment to the file offset when they are added.
         let offset = max_offset;
         // The address must be chosen so that addr % align == offset % align.
-        let addr = ((max_addr + (align - 1)) & !(align - 1)) + (offset & (align - 1));
+        // An alignment of 0 means there is no alignment constraint.
+        let mask = align.max(1) - 1;
+        let addr = ((max_addr + mask) & !mask) + (offset & mask);
 
         let segment = self.add();
         segment.p_type = elf::PT_LOAD;
-- 
2.43.0


From c558a015f8153bcd1420b41ed0f37efcb3e770d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 60/87] fix: write an empty version table if there is no
 dynamic symbol table

---
 src/build/elf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index ee4e54b..aa54c4d 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -1554,7 +1554,9 @@ impl<'data> Builder<'data> {
                         });
                     }
                     SectionData::GnuVersym => {
-                        encoder.gnu_versym(buffer, elf::VER_NDX_LOCAL.into());
+                        if dynsym_num != 0 {
+                            encoder.gnu_versym(buffer, elf::VER_NDX_LOCAL.into());
+                        }
                         for out_dynsym in &out_dynsyms {
                             let symbol = self.dynamic_symbols.get(out_dynsym.id);
                             let index = symbol.version.index().versym(symbol.version_hidden);
-- 
2.43.0


From ed005174da7cd55fb8134734daf6481e76090748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:51 +0000
Subject: [PATCH 61/87] fix: reject symbol changes that SHT_CREL sections would
 not follow in the ELF builder

---
 src/build/elf.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index aa54c4d..e966bfb 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -1034,6 +1034,28 @@ impl<'data> Builder<'data> {
             out_syms_index[out_sym.id.0] = index;
         }
 
+        // SHT_CREL sections are copied as opaque data, so their symbol indices must not change.
+        for section in &self.sections {
+            if section.sh_type != elf::SHT_CREL {
+                continue;
+            }
+            let out_index = match section.sh_link_section {
+                Some(id) if matches!(self.sections.get(id).data, SectionData::Symbol) => {
+                    &out_syms_index
+                }
+                Some(id) if matches!(self.sections.get(id).data, SectionData::DynamicSymbol) => {
+                    &out_dynsyms_index
+                }
+                _ => continue,
+            };
+            if out_index.iter().zip(1..).any(|(out, index)| *out != index) {
+                return Err(Error(format!(
+                    "Unsupported symbol changes for SHT_CREL section '{}'",
+                    section.name,
+                )));
+            }
+        }
+
         // Count the versions and add version strings.
         // len() instead of count() because we use version.id directly as the index
         // (leaving gaps for deleted versions).
-- 
2.43.0


From e6a176e68683047332c3f1c38c5c864bb585509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 62/87] fix: use the output index of segments in the Mach-O
 builder

---
 src/build/macho.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index ee37745..14f3952 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -621,7 +621,10 @@ impl<'data> Builder<'data> {
         let command_offset = offset.0;
         for command in &self.commands {
             let size = match command {
-                LoadCommand::Segment(id) => encoder.segment_command_size(out_segments[id.0].nsects),
+                LoadCommand::Segment(id) => {
+                    let out_segment = &out_segments[out_segments_index[id.0].unwrap()];
+                    encoder.segment_command_size(out_segment.nsects)
+                }
                 LoadCommand::Symtab => encoder.symtab_command_size(),
                 LoadCommand::Dysymtab => encoder.dysymtab_command_size(),
                 LoadCommand::Dylib(id) => {
@@ -807,7 +810,7 @@ impl<'data> Builder<'data> {
             if let LoadCommand::Segment(id) = command {
                 let segment = self.segments.get(*id);
                 if segment.segname() == b"__LINKEDIT" {
-                    let out_segment = &mut out_segments[id.0];
+                    let out_segment = &mut out_segments[out_segments_index[id.0].unwrap()];
                     out_segment.offset = linkedit_offset;
                     out_segment.size = linkedit_filesize;
                     out_segment.vmsize = linkedit_vmsize;
@@ -845,7 +848,7 @@ impl<'data> Builder<'data> {
             match *command {
                 LoadCommand::Segment(id) => {
                     let segment = self.segments.get(id);
-                    let out_segment = &out_segments[id.0];
+                    let out_segment = &out_segments[out_segments_index[id.0].unwrap()];
                     let cmd = &write::macho::SegmentCommand {
                         segname: segment.segname,
                         vmaddr: segment.vmaddr,
-- 
2.43.0


From d92cea48bc1fadebdebcbc8b2272db28889c3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 63/87] fix: write assigned section addresses in the Mach-O
 builder

---
 src/build/macho.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 14f3952..72bc0ee 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -449,7 +449,8 @@ impl<'data> Builder<'data> {
     /// Write the Mach-O file to the buffer.
     ///
     /// For object files, there must be a single segment. This function will assign addresses
-    /// to sections.
+    /// to sections, unless they already have an address that doesn't overlap previous sections.
+    /// Symbols keep their offset relative to [`Symbol::section`].
     ///
     /// For dylibs/executables, segment and section addresses must already be assigned.
     /// Segment sizes will be calculated based on their contents. The first segment
@@ -656,25 +657,27 @@ impl<'data> Builder<'data> {
             let segment_file_offset = offset.0;
             // Reserve segment data in the same order as `segment.sections`.
             // Addresses are also assigned in this order, except that zerofill sections come last.
+            // Addresses that don't overlap previous sections are kept.
+            let mut size = 0;
             let mut address = 0;
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::Data(data) = &section.data {
                     let align = 1 << section.align;
-                    address = write::align(address, align);
-                    out_section.address = address;
-                    out_section.offset = segment_file_offset + address;
-                    address += data.len() as u64;
+                    size = write::align(size, align);
+                    out_section.offset = segment_file_offset + size;
+                    size += data.len() as u64;
+                    out_section.address = write::align(section.addr.max(address), align);
+                    address = out_section.address + data.len() as u64;
                 }
             }
-            out_segment.set_range(offset.reserve(address, 1));
+            out_segment.set_range(offset.reserve(size, 1));
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::UninitializedData(size) = &section.data {
                     let align = 1 << section.align;
-                    address = write::align(address, align);
-                    out_section.address = address;
-                    address += u64::from(*size);
+                    out_section.address = write::align(section.addr.max(address), align);
+                    address = out_section.address + u64::from(*size);
                 }
             }
             out_segment.vmsize = address;
@@ -868,7 +871,7 @@ impl<'data> Builder<'data> {
                         let header = &write::macho::SectionHeader {
                             sectname: section.sectname,
                             segname: section.segname,
-                            addr: section.addr,
+                            addr: out_section.address,
                             size: section.data.size() as u64,
                             offset: out_section.offset as u32,
                             align: section.align,
@@ -1065,18 +1068,23 @@ impl<'data> Builder<'data> {
         buffer.resize(symoff);
         for out_symbol in &out_symbols {
             let symbol = self.symbols.get(out_symbol.id);
-            let n_sect = if let Some(id) = symbol.section {
-                out_sections_index[id.0].unwrap_or(0) as u8
-            } else {
-                symbol.n_sect
-            };
+            let mut n_sect = symbol.n_sect;
+            let mut n_value = symbol.n_value;
+            if let Some(id) = symbol.section {
+                let section_index = out_sections_index[id.0].unwrap();
+                n_sect = section_index as u8;
+                // Keep the offset of the symbol in the section.
+                let out_section = &out_sections[section_index - 1];
+                let offset = n_value.wrapping_sub(self.sections.get(id).addr);
+                n_value = out_section.address.wrapping_add(offset);
+            }
             let n_strx = out_symbol.name.map(|id| strtab.get_offset(id)).unwrap_or(0);
             let nlist = &write::macho::Nlist {
                 n_strx,
                 n_type: symbol.n_type,
                 n_sect,
                 n_desc: symbol.n_desc,
-                n_value: symbol.n_value,
+                n_value,
             };
             encoder.nlist(buffer, nlist);
         }
-- 
2.43.0


From c47c9b4fb37dabe4b997a31f0fedc49eb310b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 64/87] fix: check for overflow of section addresses in the
 Mach-O builder

---
 src/build/macho.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 72bc0ee..c7cc2c7 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -644,6 +644,24 @@ impl<'data> Builder<'data> {
         let sizeofcmds = offset.0 - command_offset;
 
         // Reserve segment/section/relocations.
+        let address_max = if self.is_64 {
+            u64::MAX
+        } else {
+            u64::from(u32::MAX)
+        };
+        let add_address = |address: u64, size: u64| {
+            address
+                .checked_add(size)
+                .filter(|end| end.saturating_sub(1) <= address_max)
+                .ok_or_else(|| Error(format!("Address overflow: {address:#x} + {size:#x}")))
+        };
+        let align_section = |address: u64, section: &Section<'_>| -> Result<u64> {
+            let mask = 1u64
+                .checked_shl(section.align)
+                .ok_or_else(|| Error(format!("Invalid section alignment {}", section.align)))?
+                - 1;
+            Ok(add_address(address, mask)? & !mask)
+        };
         if self.header.filetype == macho::MH_OBJECT {
             let [out_segment] = &mut *out_segments else {
                 return Err(Error::new("Mach-O object must have single unnamed segment"));
@@ -663,23 +681,24 @@ impl<'data> Builder<'data> {
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::Data(data) = &section.data {
-                    let align = 1 << section.align;
-                    size = write::align(size, align);
+                    size = align_section(size, section)?;
                     out_section.offset = segment_file_offset + size;
-                    size += data.len() as u64;
-                    out_section.address = write::align(section.addr.max(address), align);
-                    address = out_section.address + data.len() as u64;
+                    size = add_address(size, data.len() as u64)?;
+                    out_section.address = align_section(section.addr.max(address), section)?;
+                    address = add_address(out_section.address, data.len() as u64)?;
                 }
             }
             out_segment.set_range(offset.reserve(size, 1));
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::UninitializedData(size) = &section.data {
-                    let align = 1 << section.align;
-                    out_section.address = write::align(section.addr.max(address), align);
-                    address = out_section.address + u64::from(*size);
+                    out_section.address = align_section(section.addr.max(address), section)?;
+                    address = add_address(out_section.address, u64::from(*size))?;
                 }
             }
+            if address > address_max {
+                return Err(Error(format!("Segment size overflow: {address:#x}")));
+            }
             out_segment.vmsize = address;
 
             for out_section in &mut out_sections {
@@ -720,7 +739,7 @@ impl<'data> Builder<'data> {
                             section.addr, address
                         )));
                     }
-                    address = section.addr + section.data.size() as u64;
+                    address = add_address(section.addr, section.data.size() as u64)?;
                     match &section.data {
                         SectionData::Data(data) => {
                             out_section.offset = (section.addr - segment.vmaddr) + segment_offset;
@@ -736,7 +755,7 @@ impl<'data> Builder<'data> {
                     }
                 }
 
-                let segment_end = segment.vmaddr + segment.vmsize;
+                let segment_end = add_address(segment.vmaddr, segment.vmsize)?;
                 if segment_end < address {
                     return Err(Error::new(format!(
                         "Segment address range must contain sections: {segment_end:#x} < {address:#x}"
-- 
2.43.0


From b1f2a5bfac034f31076f31593cfd24ec6ac5f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 65/87] fix: check for space for the load commands in the
 Mach-O builder

---
 src/build/macho.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index c7cc2c7..4a6e1c0 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -742,6 +742,9 @@ impl<'data> Builder<'data> {
                     address = add_address(section.addr, section.data.size() as u64)?;
                     match &section.data {
                         SectionData::Data(data) => {
+                            if segment_offset == 0 && section.addr - segment.vmaddr < offset.0 {
+                                return Err(Error::new("Not enough space for load commands"));
+                            }
                             out_section.offset = (section.addr - segment.vmaddr) + segment_offset;
                             out_segment.size = (section.addr - segment.vmaddr) + data.len() as u64;
                         }
-- 
2.43.0


From 3eafe927fd62ff211662db5a1492408ae3c2421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:20 +0000
Subject: [PATCH 66/87] fix: reject large zerofill sections in the Mach-O
 builder

---
 src/build/macho.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 4a6e1c0..7230635 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -336,11 +336,12 @@ impl<'data> Builder<'data> {
         R: ReadRef<'data>,
     {
         let id = self.sections.next_id();
-        let size = section.size(endian).into();
         let section_data = if section.file_size(endian).is_some() {
             SectionData::Data(section.data(endian, data, offset)?.into())
         } else {
-            SectionData::UninitializedData(size as u32)
+            let size = u32::try_from(section.size(endian).into())
+                .map_err(|_| Error::new("Unsupported zerofill section size"))?;
+            SectionData::UninitializedData(size)
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
-- 
2.43.0


From c537f608bda1a22f74d8dfb0f8040ed9fef91336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 67/87] fix: handle relocations without a symbol or section in
 the Mach-O builder

---
 src/build/macho.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 7230635..0625364 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -344,7 +344,11 @@ impl<'data> Builder<'data> {
             SectionData::UninitializedData(size)
         };
         let mut relocations = Vec::new();
+        let cputype = self.header.cputype;
         for relocation in section.relocations(endian, data)? {
+            if relocation.r_scattered(endian, cputype) {
+                return Err(Error::new("Unimplemented scattered relocation"));
+            }
             let relocation = relocation.info(endian);
             let r_symbolnum = relocation.r_symbolnum as usize;
             let target = if relocation.r_extern {
@@ -356,6 +360,11 @@ impl<'data> Builder<'data> {
                     )));
                 }
                 RelocationTarget::Symbol(SymbolId(r_symbolnum))
+            } else if relocation.r_symbolnum == macho::R_ABS
+                || is_relocation_addend(cputype, relocation.r_type)
+                || is_relocation_pair(cputype, relocation.r_type)
+            {
+                RelocationTarget::Absolute(relocation.r_symbolnum)
             } else {
                 let section_id = r_symbolnum.wrapping_sub(1);
                 if section_id >= state.sections_len {
@@ -1045,6 +1054,7 @@ impl<'data> Builder<'data> {
                         RelocationTarget::Section(id) => {
                             (false, out_sections_index[id.0].unwrap_or(0) as u32)
                         }
+                        RelocationTarget::Absolute(value) => (false, value),
                     };
 
                     let reloc_info = macho::RelocationInfo {
@@ -1196,6 +1206,7 @@ impl<'data> Builder<'data> {
                 .retain(|relocation| match relocation.target {
                     RelocationTarget::Symbol(id) => !symbols.get(id).delete,
                     RelocationTarget::Section(id) => !sections[id.0],
+                    RelocationTarget::Absolute(_) => true,
                 });
         }
     }
@@ -1586,6 +1597,29 @@ pub enum RelocationTarget {
     Symbol(SymbolId),
     /// A section.
     Section(SectionId),
+    /// No symbol or section.
+    ///
+    /// This is either [`macho::R_ABS`], or the value used by relocations such as
+    /// [`macho::ARM64_RELOC_ADDEND`].
+    Absolute(u32),
+}
+
+/// Return true if `r_symbolnum` is the addend for the next relocation.
+fn is_relocation_addend(cputype: macho::CpuType, r_type: macho::RelocationType) -> bool {
+    match cputype {
+        macho::CPU_TYPE_ARM64 | macho::CPU_TYPE_ARM64_32 => r_type == macho::ARM64_RELOC_ADDEND,
+        _ => false,
+    }
+}
+
+/// Return true if the relocation is the second relocation of a pair.
+fn is_relocation_pair(cputype: macho::CpuType, r_type: macho::RelocationType) -> bool {
+    match cputype {
+        macho::CPU_TYPE_X86 => r_type == macho::GENERIC_RELOC_PAIR,
+        macho::CPU_TYPE_ARM => r_type == macho::ARM_RELOC_PAIR,
+        macho::CPU_TYPE_POWERPC | macho::CPU_TYPE_POWERPC64 => r_type == macho::PPC_RELOC_PAIR,
+        _ => false,
+    }
 }
 
 /// An ID for referring to a symbol in [`Symbols`].
-- 
2.43.0


From 4465afdfdc9fc110fe9a21c7a96f3ed752fe435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 68/87] fix: delete relocation pairs together in the Mach-O
 builder

---
 src/build/macho.rs | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 0625364..98c5a39 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1194,6 +1194,7 @@ impl<'data> Builder<'data> {
 
     /// Delete relocations that refer to deleted symbols.
     pub fn delete_orphan_relocations(&mut self) {
+        let cputype = self.header.cputype;
         let symbols = &self.symbols;
         let sections = self
             .sections
@@ -1201,13 +1202,33 @@ impl<'data> Builder<'data> {
             .map(|section| section.delete)
             .collect::<Vec<bool>>();
         for section in &mut self.sections {
-            section
-                .relocations
-                .retain(|relocation| match relocation.target {
-                    RelocationTarget::Symbol(id) => !symbols.get(id).delete,
-                    RelocationTarget::Section(id) => !sections[id.0],
-                    RelocationTarget::Absolute(_) => true,
-                });
+            let is_deleted = |relocation: &Relocation| match relocation.target {
+                RelocationTarget::Symbol(id) => symbols.get(id).delete,
+                RelocationTarget::Section(id) => sections[id.0],
+                RelocationTarget::Absolute(_) => false,
+            };
+            if !section.relocations.iter().any(is_deleted) {
+                continue;
+            }
+            let relocations = mem::take(&mut section.relocations);
+            let mut start = 0;
+            while start < relocations.len() {
+                // Relocations that depend on each other are deleted together.
+                let mut end = start + 1;
+                while end < relocations.len()
+                    && (is_relocation_addend(cputype, relocations[end - 1].r_type)
+                        || is_relocation_subtractor(cputype, relocations[end - 1].r_type)
+                        || is_relocation_pair(cputype, relocations[end].r_type))
+                {
+                    end += 1;
+                }
+                if !relocations[start..end].iter().any(is_deleted) {
+                    section
+                        .relocations
+                        .extend_from_slice(&relocations[start..end]);
+                }
+                start = end;
+            }
         }
     }
 
@@ -1612,6 +1633,15 @@ fn is_relocation_addend(cputype: macho::CpuType, r_type: macho::RelocationType)
     }
 }
 
+/// Return true if the next relocation is the second relocation of a pair.
+fn is_relocation_subtractor(cputype: macho::CpuType, r_type: macho::RelocationType) -> bool {
+    match cputype {
+        macho::CPU_TYPE_X86_64 => r_type == macho::X86_64_RELOC_SUBTRACTOR,
+        macho::CPU_TYPE_ARM64 | macho::CPU_TYPE_ARM64_32 => r_type == macho::ARM64_RELOC_SUBTRACTOR,
+        _ => false,
+    }
+}
+
 /// Return true if the relocation is the second relocation of a pair.
 fn is_relocation_pair(cputype: macho::CpuType, r_type: macho::RelocationType) -> bool {
     match cputype {
-- 
2.43.0


From bdc8ee54aa313cbcf28c4393bde596df8bb7662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:27 +0000
Subject: [PATCH 69/87] fix: renumber the section of debugging symbols in the
 Mach-O builder

---
 src/build/macho.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 98c5a39..96cbaff 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -432,7 +432,14 @@ impl<'data> Builder<'data> {
     {
         for nlist in symbols.iter() {
             let id = self.symbols.next_id();
-            let section = if nlist.n_type().typ() == macho::N_SECT {
+            let section = if let Some(stab) = nlist.stab() {
+                let section_id = usize::from(nlist.n_sect()).wrapping_sub(1);
+                if stab_has_section(stab) && section_id < state.sections_len {
+                    Some(SectionId(section_id))
+                } else {
+                    None
+                }
+            } else if nlist.n_type().typ() == macho::N_SECT {
                 let section_id = usize::from(nlist.n_sect()).wrapping_sub(1);
                 if section_id >= state.sections_len {
                     return Err(Error::new("Invalid symbol section index"));
@@ -1740,6 +1747,24 @@ impl<'data> Symbol<'data> {
     }
 }
 
+/// Return true if `n_sect` is a section index for the given debugging symbol type.
+fn stab_has_section(stab: macho::SymbolStab) -> bool {
+    matches!(
+        stab,
+        macho::N_FUN
+            | macho::N_STSYM
+            | macho::N_LCSYM
+            | macho::N_BNSYM
+            | macho::N_SLINE
+            | macho::N_ENSYM
+            | macho::N_SO
+            | macho::N_SOL
+            | macho::N_ENTRY
+            | macho::N_ECOMM
+            | macho::N_ECOML
+    )
+}
+
 /// A symbol table.
 pub type Symbols<'data> = Table<Symbol<'data>>;
 
-- 
2.43.0


From ed236c3173ce2567d33833d0a5a6d46289b03f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:31 +0000
Subject: [PATCH 70/87] fix: preserve names of indirect symbols in the Mach-O
 builder

---
 src/build/macho.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 96cbaff..51a35b1 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -448,10 +448,20 @@ impl<'data> Builder<'data> {
             } else {
                 None
             };
+            let indirect_name = if !nlist.is_stab() && nlist.n_type().typ() == macho::N_INDR {
+                let name = u32::try_from(nlist.n_value(endian).into())
+                    .ok()
+                    .and_then(|offset| symbols.strings().get(offset).ok())
+                    .ok_or_else(|| Error::new("Invalid indirect symbol name offset"))?;
+                Some(name.into())
+            } else {
+                None
+            };
             self.symbols.push(Symbol {
                 id,
                 delete: false,
                 name: symbols.symbol_name(endian, nlist)?.into(),
+                indirect_name,
                 section,
                 dylib: None, // TODO
                 n_type: nlist.n_type(),
@@ -501,6 +511,7 @@ impl<'data> Builder<'data> {
         struct SymbolOut {
             id: SymbolId,
             name: Option<write::StringId>,
+            indirect_name: Option<write::StringId>,
         }
 
         // Overflow handling: use u64 during reservation phase, check once for
@@ -592,7 +603,12 @@ impl<'data> Builder<'data> {
                 Some(strtab.add(&symbol.name))
             };
             out_symbols_index[id.0] = Some(out_symbols.len());
-            out_symbols.push(SymbolOut { id, name });
+            let indirect_name = symbol.indirect_name.as_ref().map(|name| strtab.add(name));
+            out_symbols.push(SymbolOut {
+                id,
+                name,
+                indirect_name,
+            });
         }
         if out_symbols.len() as u64 > 1 << 24 {
             return Err(Error::new("Too many symbols"));
@@ -1118,6 +1134,9 @@ impl<'data> Builder<'data> {
                 let offset = n_value.wrapping_sub(self.sections.get(id).addr);
                 n_value = out_section.address.wrapping_add(offset);
             }
+            if let Some(id) = out_symbol.indirect_name {
+                n_value = strtab.get_offset(id).into();
+            }
             let n_strx = out_symbol.name.map(|id| strtab.get_offset(id)).unwrap_or(0);
             let nlist = &write::macho::Nlist {
                 n_strx,
@@ -1702,6 +1721,10 @@ pub struct Symbol<'data> {
     ///
     /// Used to set the `n_strx` field in the Mach-O symbol.
     pub name: ByteString<'data>,
+    /// The name of the symbol that this symbol is an alias for.
+    ///
+    /// Used to set the `n_value` field of symbols with type [`macho::N_INDR`].
+    pub indirect_name: Option<ByteString<'data>>,
     /// The section referenced by the symbol.
     ///
     /// Used to set the `n_sect` field in the Mach-O symbol.
@@ -1776,6 +1799,7 @@ impl<'data> Symbols<'data> {
             id,
             delete: false,
             name: ByteString::default(),
+            indirect_name: None,
             section: None,
             dylib: None,
             n_type: macho::SymbolFlags(0),
-- 
2.43.0


From 4aa62db647ec905a4f16df2274b96ad56669d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 71/87] fix: reject indirect symbols that were deleted in the
 Mach-O builder

---
 src/build/macho.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 51a35b1..e585fc1 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -626,6 +626,15 @@ impl<'data> Builder<'data> {
                 return Err(Error::new("Section is not referenced by a segment"));
             }
         }
+        for section in &self.sections {
+            for indirect_symbol in &section.indirect_symbols {
+                if let IndirectSymbol::Symbol(id) = indirect_symbol {
+                    if out_symbols_index[id.0].is_none() {
+                        return Err(Error::new("Indirect symbol is deleted"));
+                    }
+                }
+            }
+        }
         let mut have_symtab = false;
         let mut dylib_referenced = vec![false; self.dylibs.len()];
         for command in &self.commands {
@@ -1156,7 +1165,7 @@ impl<'data> Builder<'data> {
                     let indirect_symbol = match indirect_symbol {
                         IndirectSymbol::Flags(flags) => *flags,
                         IndirectSymbol::Symbol(symbol_id) => {
-                            let symbol_index = out_symbols_index[symbol_id.0].unwrap_or(0);
+                            let symbol_index = out_symbols_index[symbol_id.0].unwrap();
                             macho::IndirectSymbol(symbol_index as u32)
                         }
                     };
-- 
2.43.0


From 317260b3b0c04a0ea86d84e4d1a43a5938be6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:39 +0000
Subject: [PATCH 72/87] fix: reject multiple symbol tables in the Mach-O
 builder

---
 src/build/macho.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index e585fc1..3b726da 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -178,6 +178,13 @@ impl<'data> Builder<'data> {
                     builder.commands.push(LoadCommand::Segment(id));
                 }
                 LoadCommandVariant::Symtab(symtab) => {
+                    if builder
+                        .commands
+                        .iter()
+                        .any(|command| matches!(command, LoadCommand::Symtab))
+                    {
+                        return Err(Error::new("Unimplemented multiple LC_SYMTAB"));
+                    }
                     let symbols = symtab.symbols(endian, data)?;
                     builder.read_symbols::<Mach, R>(endian, symbols, &state)?;
                     builder.commands.push(LoadCommand::Symtab);
-- 
2.43.0


From 04f1d75121e80c434d9a5f9ef9ff25889721765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 73/87] fix: delete relocations for deleted sections in the
 Mach-O builder

---
 src/build/macho.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 3b726da..0af04ba 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1238,10 +1238,8 @@ impl<'data> Builder<'data> {
     pub fn delete_orphan_relocations(&mut self) {
         let cputype = self.header.cputype;
         let symbols = &self.symbols;
-        let sections = self
-            .sections
-            .iter()
-            .map(|section| section.delete)
+        let sections = (0..self.sections.len())
+            .map(|index| self.sections.get(SectionId(index)).delete)
             .collect::<Vec<bool>>();
         for section in &mut self.sections {
             let is_deleted = |relocation: &Relocation| match relocation.target {
-- 
2.43.0


From e89d2da10d0f685f0f42fe6c830874ee56784d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 74/87] fix: reject multiple code signatures in the Mach-O
 builder

---
 src/build/macho.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 0af04ba..cdc8c9c 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -873,6 +873,9 @@ impl<'data> Builder<'data> {
         for command in &self.commands {
             if let LoadCommand::LinkeditData { cmd, data } = command {
                 if *cmd == macho::LC_CODE_SIGNATURE {
+                    if code_signature_offset != 0 {
+                        return Err(Error::new("Multiple code signatures"));
+                    }
                     code_signature_offset = offset.reserve(data.len() as u64, 16).0;
                 }
             }
-- 
2.43.0


From ddbfe455038cf339d8e6d5b783ddd87cac862ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:21 +0000
Subject: [PATCH 75/87] fix: allow modifying relocatable ELF files in the
 rewriter

---
 crates/rewrite/src/elf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 4b7131f..e4f5fa0 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -651,6 +651,11 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     builder.delete_unused_versions();
     builder.set_section_sizes();
 
+    if builder.segments.count() == 0 {
+        // The sections of relocatable files have no address yet.
+        return Ok(());
+    }
+
     let mut added_p_flags = Vec::new();
     let mut added_segments = 0;
 
-- 
2.43.0


From 67538a7f4a1a83fc06fe645ced653cfcf07d0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 76/87] fix: update PT_PHDR in the rewriter when only deleting
 segments

---
 crates/rewrite/src/elf.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index e4f5fa0..6dd2e7f 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -663,7 +663,7 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     loop {
         let mut move_sections = find_move_sections(builder, added_segments)?;
         if move_sections.is_empty() {
-            return Ok(());
+            break;
         }
 
         // Calculate the number of additional PT_LOAD segments needed.
@@ -802,18 +802,19 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
                 segment.p_type, segment.p_offset, segment.p_vaddr, segment.p_memsz,
             );
         }
+        break;
+    }
 
-        // Update the PT_PHDR segment to include the new program headers.
-        let size = builder.program_headers_size();
-        for segment in &mut builder.segments {
-            if segment.p_type != elf::PT_PHDR {
-                continue;
-            }
-            segment.p_filesz = size;
-            segment.p_memsz = size;
+    // Update the PT_PHDR segment for any added or deleted program headers.
+    let size = builder.program_headers_size();
+    for segment in &mut builder.segments {
+        if segment.p_type != elf::PT_PHDR {
+            continue;
         }
-        return Ok(());
+        segment.p_filesz = size;
+        segment.p_memsz = size;
     }
+    Ok(())
 }
 
 fn find_move_sections(
-- 
2.43.0


From d875b6f8fccb4c575e7791b0934f9e6f90c9fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 77/87] fix: resize segments along with their sections in the
 rewriter

---
 crates/rewrite/src/elf.rs | 47 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 6dd2e7f..d08a29f 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -647,6 +647,8 @@ struct Block<'a> {
 /// Does not change the size of existing `PT_LOAD` segments, but may add new segments.
 // TODO: allow changing size of existing `PT_LOAD` segments
 fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
+    let exact_segments = find_exact_segments(builder);
+
     builder.delete_orphans();
     builder.delete_unused_versions();
     builder.set_section_sizes();
@@ -805,6 +807,15 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
         break;
     }
 
+    // The sections may have changed size.
+    for id in exact_segments {
+        let sections = &builder.sections;
+        let segment = builder.segments.get_mut(id);
+        if !segment.delete {
+            segment.recalculate_ranges(sections);
+        }
+    }
+
     // Update the PT_PHDR segment for any added or deleted program headers.
     let size = builder.program_headers_size();
     for segment in &mut builder.segments {
@@ -817,6 +828,42 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     Ok(())
 }
 
+/// Find the non-`PT_LOAD` segments with the same ranges as the sections they contain.
+fn find_exact_segments(builder: &mut build::elf::Builder) -> Vec<build::elf::SegmentId> {
+    let mut exact_segments = Vec::new();
+    for segment in &mut builder.segments {
+        if segment.p_type == elf::PT_LOAD || segment.sections.is_empty() {
+            continue;
+        }
+        let old = (
+            segment.p_offset,
+            segment.p_filesz,
+            segment.p_vaddr,
+            segment.p_paddr,
+            segment.p_memsz,
+        );
+        segment.recalculate_ranges(&builder.sections);
+        let new = (
+            segment.p_offset,
+            segment.p_filesz,
+            segment.p_vaddr,
+            segment.p_paddr,
+            segment.p_memsz,
+        );
+        if old == new {
+            exact_segments.push(segment.id());
+        }
+        (
+            segment.p_offset,
+            segment.p_filesz,
+            segment.p_vaddr,
+            segment.p_paddr,
+            segment.p_memsz,
+        ) = old;
+    }
+    exact_segments
+}
+
 fn find_move_sections(
     builder: &build::elf::Builder,
     added_segments: usize,
-- 
2.43.0


From 7e0767a2eae85a8933cfeab6b285d4a457bf892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 78/87] fix: keep sections inside the file contents of segments
 in the rewriter

---
 crates/rewrite/src/elf.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index d08a29f..b6fc6d2 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -966,6 +966,21 @@ fn find_move_sections(
             | SectionData::GnuVerdef
             | SectionData::GnuVerneed => 2,
         };
+        // A section with file contents can't grow into the part of a segment that isn't
+        // in the file.
+        if section.sh_type != elf::SHT_NOBITS
+            && builder.segments.iter().any(|segment| {
+                segment.is_load()
+                    && segment.contains_address(section.sh_addr)
+                    && section.sh_addr - segment.p_vaddr + section.sh_size > segment.p_filesz
+            })
+        {
+            if move_priority == 0 {
+                return Err(Error::modify("No room for immovable section"));
+            }
+            move_sections.push(section.id());
+            continue;
+        }
         blocks.push(Block {
             name: (*section.name).into(),
             kind: BlockKind::Section(section.id()),
-- 
2.43.0


From 084a4b0b1eb657e0d3488a7e644af90776146557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 79/87] fix: split segments whose sections move to different
 segments in the rewriter

---
 crates/rewrite/src/elf.rs | 78 +++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index b6fc6d2..c921f02 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -684,25 +684,14 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
         }
 
         // If moving a section that is part of a non-PT_LOAD segment, then we may need to
-        // split the segment, which will require an additional segment.
+        // split the segment, which will require additional segments.
         let mut split_segments = 0;
         for segment in &mut builder.segments {
             if segment.p_type == elf::PT_LOAD {
                 continue;
             }
-            let mut any = false;
-            let mut all = true;
-            for id in &segment.sections {
-                if move_sections.contains(id) {
-                    any = true;
-                } else {
-                    all = false;
-                }
-            }
-            if !any || all {
-                continue;
-            }
-            split_segments += 1;
+            let parts = split_sections(&segment.sections, &move_sections, &builder.sections);
+            split_segments += parts.len().saturating_sub(1);
         }
 
         // Check if we have reached a fixed point for the number of additional segments needed.
@@ -756,33 +745,14 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
                 continue;
             }
 
-            let mut any = false;
-            let mut all = true;
-            for id in &segment.sections {
-                if move_sections.contains(id) {
-                    any = true;
-                } else {
-                    all = false;
-                }
-            }
-            if !any {
+            if !segment.sections.iter().any(|id| move_sections.contains(id)) {
                 continue;
             }
-            if !all {
-                // Segment needs splitting.
-                // Remove all the sections that have been moved, and store them so
-                // that we can add the new segment later.
-                let mut split_sections = Vec::new();
-                segment.sections.retain(|id| {
-                    if move_sections.contains(id) {
-                        split_sections.push(*id);
-                        false
-                    } else {
-                        true
-                    }
-                });
-                split_segments.push((segment.id(), split_sections));
-            }
+            // If the segment needs splitting, then keep the first part, and store the
+            // others so that we can add the new segments later.
+            let mut parts = split_sections(&segment.sections, &move_sections, sections).into_iter();
+            segment.sections = parts.next().unwrap_or_default();
+            split_segments.extend(parts.map(|part| (segment.id(), part)));
 
             // The remaining sections have already been assigned an address.
             // Recalcuate the file and address ranges for the segment.
@@ -792,9 +762,9 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
         }
 
         // Add new segments due to splitting.
-        for (segment_id, split_sections) in split_segments {
+        for (segment_id, section_ids) in split_segments {
             let segment = builder.segments.copy(segment_id);
-            for id in split_sections {
+            for id in section_ids {
                 let section = builder.sections.get_mut(id);
                 segment.append_section(section);
             }
@@ -864,6 +834,32 @@ fn find_exact_segments(builder: &mut build::elf::Builder) -> Vec<build::elf::Seg
     exact_segments
 }
 
+/// Split the sections of a segment into those that don't move, and those that move to
+/// each of the added `PT_LOAD` segments.
+fn split_sections(
+    segment_sections: &[build::elf::SectionId],
+    move_sections: &[build::elf::SectionId],
+    sections: &build::elf::Sections<'_>,
+) -> Vec<Vec<build::elf::SectionId>> {
+    let mut keys = Vec::new();
+    let mut parts = Vec::new();
+    for id in segment_sections {
+        // The added segments each have a unique combination of p_flags.
+        let key = move_sections
+            .contains(id)
+            .then(|| sections.get(*id).p_flags());
+        let index = keys.iter().position(|k| *k == key).unwrap_or_else(|| {
+            // The sections that don't move come first.
+            let index = if key.is_none() { 0 } else { keys.len() };
+            keys.insert(index, key);
+            parts.insert(index, Vec::new());
+            index
+        });
+        parts[index].push(*id);
+    }
+    parts
+}
+
 fn find_move_sections(
     builder: &build::elf::Builder,
     added_segments: usize,
-- 
2.43.0


From 49abb71bda9aa28bbbe0795e75ba3c1e1e7dc418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 80/87] fix: align added segments in the rewriter when the
 others differ

---
 crates/rewrite/src/elf.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index c921f02..d4607c5 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -714,11 +714,26 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             let section = builder.sections.get(*id);
             (section.sh_addr, section.sh_size)
         });
+        // The file offset and address must be congruent modulo the page size, and must stay
+        // congruent when aligning each section.
+        let segment_align = builder
+            .segments
+            .iter()
+            .filter(|segment| segment.p_type == elf::PT_LOAD)
+            .map(|segment| segment.p_align)
+            .filter(|align| align.is_power_of_two())
+            .max()
+            .unwrap_or(builder.load_align);
         for p_flags in added_p_flags {
+            let load_align = move_sections
+                .iter()
+                .map(|id| builder.sections.get(*id))
+                .filter(|section| section.p_flags() == p_flags)
+                .map(|section| section.sh_addralign)
+                .filter(|align| align.is_power_of_two())
+                .fold(segment_align, u64::max);
             // TODO: reuse segments that only contain movable sections
-            let segment = builder
-                .segments
-                .add_load_segment(p_flags, builder.load_align);
+            let segment = builder.segments.add_load_segment(p_flags, load_align);
             for id in &move_sections {
                 let section = builder.sections.get_mut(*id);
                 if p_flags == section.p_flags() {
-- 
2.43.0


From ac23991fcdee9f9f91404f1e120b1f03607ca8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:42 +0000
Subject: [PATCH 81/87] fix: flush the output of the rewriter

---
 crates/rewrite/src/rewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rewrite/src/rewriter.rs b/crates/rewrite/src/rewriter.rs
index 7a71d16..162855a 100644
--- a/crates/rewrite/src/rewriter.rs
+++ b/crates/rewrite/src/rewriter.rs
@@ -71,7 +71,7 @@ impl<'data> Rewriter<'data> {
             Builder::Elf(builder) => builder.write(&mut buffer).map_err(Error::write)?,
             Builder::MachO(builder) => builder.write(&mut buffer).map_err(Error::write)?,
         }
-        buffer.result().map_err(Error::io)
+        buffer.flush().map_err(Error::io)
     }
 
     /// Modify the file according to the given options.
-- 
2.43.0


From e8c51a167649ece8f5af9c60e2774238375cf86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:39 +0000
Subject: [PATCH 82/87] fix: set the entry size of ELF debug string sections

---
 src/write/elf/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 8ba0b9a..4506dee 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -907,7 +907,9 @@ impl<'a> Object<'a> {
             };
             // TODO: not sure if this is correct, maybe user should determine this
             let sh_entsize = match section.kind {
-                SectionKind::ReadOnlyString | SectionKind::OtherString => 1,
+                SectionKind::ReadOnlyString
+                | SectionKind::OtherString
+                | SectionKind::DebugString => 1,
                 _ => 0,
             };
             writer.write_section_header(&SectionHeader {
-- 
2.43.0


From 03883990df37ea7c16ddc8043ad0840d15af2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:52 +0000
Subject: [PATCH 83/87] fix: reject COFF sections that are too large

---
 src/write/coff/object.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 5a72b8f..54c4888 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -654,6 +654,12 @@ impl<'a> Object<'a> {
             if section.relocations.len() > 0xffff {
                 characteristics |= coff::IMAGE_SCN_LNK_NRELOC_OVFL;
             }
+            if section.size > u64::from(u32::MAX) {
+                return Err(Error(format!(
+                    "section `{}` is too large",
+                    section.name().unwrap_or(""),
+                )));
+            }
             characteristics = characteristics.with_align(match section.align {
                 1 => coff::IMAGE_SCN_ALIGN_1BYTES,
                 2 => coff::IMAGE_SCN_ALIGN_2BYTES,
-- 
2.43.0


From 43fab3c6bf7bbe90c256dd943d04c97eedc0230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:27 +0000
Subject: [PATCH 84/87] fix: reject COFF symbol values that are too large

---
 src/write/coff/object.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 54c4888..f5ad644 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -738,13 +738,16 @@ impl<'a> Object<'a> {
                 SymbolSection::Section(id) => coff::SymbolSection(id.0 as i32 + 1),
             };
             let number_of_aux_symbols = symbol_offsets[index].aux_count;
-            let value = if symbol.weak {
-                // weak symbols should have a value of 0
-                0
-            } else if symbol.section == SymbolSection::Common {
-                symbol.size as u32
+            let value = if symbol.section == SymbolSection::Common {
+                symbol.size
             } else {
-                symbol.value as u32
+                symbol.value
+            };
+            let Ok(value) = u32::try_from(value) else {
+                return Err(Error(format!(
+                    "symbol `{}` value {value:#x} is too large",
+                    symbol.name().unwrap_or(""),
+                )));
             };
 
             // write the weak default symbol before the weak symbol
@@ -755,7 +758,7 @@ impl<'a> Object<'a> {
 
                 writer.write_symbol(writer::Symbol {
                     name: weak_default_symbol.name,
-                    value: symbol.value as u32,
+                    value,
                     section_number: match symbol.section {
                         SymbolSection::Section(id) => coff::SymbolSection(id.0 as i32 + 1),
                         SymbolSection::Undefined => coff::IMAGE_SYM_ABSOLUTE,
@@ -774,7 +777,8 @@ impl<'a> Object<'a> {
 
             writer.write_symbol(writer::Symbol {
                 name: symbol_offsets[index].name,
-                value,
+                // weak symbols should have a value of 0
+                value: if symbol.weak { 0 } else { value },
                 section_number,
                 typ,
                 storage_class,
-- 
2.43.0


From 29011d1af7ab62b36ca588051418867b13a28660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:27 +0000
Subject: [PATCH 85/87] fix: report file offset overflow in the ELF builder

Section alignments and offsets come from the file and can be large
enough for the layout arithmetic to overflow, which was a panic or a
wrong offset.
---
 src/build/elf.rs | 62 ++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index e966bfb..c4869f5 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -766,12 +766,18 @@ impl<'data> Builder<'data> {
 
         struct Offset(u64);
         impl Offset {
-            fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
+            fn reserve(&mut self, size: u64, align: u64) -> Result<(u64, u64)> {
                 // An alignment of 0 means there is no alignment constraint.
-                self.0 = write::align(self.0, align.max(1));
-                let offset = self.0;
-                self.0 += size;
-                (offset, size)
+                let mask = align.max(1) - 1;
+                let offset = self
+                    .0
+                    .checked_add(mask)
+                    .ok_or_else(|| Error::new("File offset overflow"))?
+                    & !mask;
+                self.0 = offset
+                    .checked_add(size)
+                    .ok_or_else(|| Error::new("File offset overflow"))?;
+                Ok((offset, size))
             }
         }
 
@@ -1200,7 +1206,7 @@ impl<'data> Builder<'data> {
             u32::try_from(self.segments.count()).map_err(|_| Error::new("Too many segments"))?;
         if segment_num != 0 {
             let size = u64::from(segment_num) * encoder.program_header_size();
-            e_phoff = offset.reserve(size, address_size).0;
+            e_phoff = offset.reserve(size, address_size)?.0;
             // TODO: support program headers in other locations.
             if self.header.e_phoff != e_phoff {
                 return Err(Error(format!(
@@ -1255,33 +1261,33 @@ impl<'data> Builder<'data> {
                 offset.0 = section.sh_offset;
                 out_section.set_range(match &section.data {
                     SectionData::Data(data) => {
-                        offset.reserve(data.len() as u64, section.sh_addralign)
+                        offset.reserve(data.len() as u64, section.sh_addralign)?
                     }
                     SectionData::DynamicRelocation(relocations) => {
                         let size = relocations.len() as u64
                             * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::Note(data) => {
-                        offset.reserve(data.len() as u64, section.sh_addralign)
+                        offset.reserve(data.len() as u64, section.sh_addralign)?
                     }
                     SectionData::Dynamic(dynamics) => {
                         let size = (1 + dynamics.len() as u64) * encoder.dyn_size();
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::DynamicSymbol => {
                         dynsym_addr = Some(section.sh_addr);
                         let size = u64::from(dynsym_num) * encoder.sym_size();
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::DynamicString => {
                         dynstr_addr = Some(section.sh_addr);
-                        offset.reserve(dynstr_len.into(), 1)
+                        offset.reserve(dynstr_len.into(), 1)?
                     }
                     SectionData::Hash => {
                         hash_addr = Some(section.sh_addr);
                         let size = encoder.hash_size(self.hash_bucket_count, hash_chain_count);
-                        offset.reserve(size, write::elf::ALIGN_HASH)
+                        offset.reserve(size, write::elf::ALIGN_HASH)?
                     }
                     SectionData::GnuHash => {
                         gnu_hash_addr = Some(section.sh_addr);
@@ -1290,22 +1296,22 @@ impl<'data> Builder<'data> {
                             self.gnu_hash_bucket_count,
                             gnu_hash_symbol_count,
                         );
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::GnuVersym => {
                         versym_addr = Some(section.sh_addr);
                         let size = encoder.gnu_versym_size(dynsym_num);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERSYM)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERSYM)?
                     }
                     SectionData::GnuVerdef => {
                         verdef_addr = Some(section.sh_addr);
                         let size = encoder.gnu_verdef_size(verdef_count, verdaux_count);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERDEF)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERDEF)?
                     }
                     SectionData::GnuVerneed => {
                         verneed_addr = Some(section.sh_addr);
                         let size = encoder.gnu_verneed_size(verneed_count, vernaux_count);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERNEED)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERNEED)?
                     }
                     _ => {
                         return Err(Error(format!(
@@ -1330,11 +1336,15 @@ impl<'data> Builder<'data> {
                 continue;
             }
             out_section.set_range(match &section.data {
-                SectionData::Data(data) => offset.reserve(data.len() as u64, section.sh_addralign),
+                SectionData::Data(data) => {
+                    offset.reserve(data.len() as u64, section.sh_addralign)?
+                }
                 SectionData::UninitializedData(len) => (offset.0, *len),
-                SectionData::Note(data) => offset.reserve(data.len() as u64, section.sh_addralign),
+                SectionData::Note(data) => {
+                    offset.reserve(data.len() as u64, section.sh_addralign)?
+                }
                 SectionData::Attributes(_) => {
-                    offset.reserve(out_section.attributes.len() as u64, section.sh_addralign)
+                    offset.reserve(out_section.attributes.len() as u64, section.sh_addralign)?
                 }
                 // These are handled elsewhere.
                 SectionData::Relocation(_)
@@ -1355,15 +1365,15 @@ impl<'data> Builder<'data> {
 
         if symtab_index != 0 {
             let size = u64::from(sym_num) * encoder.sym_size();
-            let range = offset.reserve(size, address_size);
+            let range = offset.reserve(size, address_size)?;
             out_sections[symtab_index as usize - 1].set_range(range);
         }
         if symtab_shndx_index != 0 {
-            let range = offset.reserve(u64::from(sym_num) * 4, 4);
+            let range = offset.reserve(u64::from(sym_num) * 4, 4)?;
             out_sections[symtab_shndx_index as usize - 1].set_range(range);
         }
         if strtab_index != 0 {
-            let range = offset.reserve(strtab_len.into(), 1);
+            let range = offset.reserve(strtab_len.into(), 1)?;
             out_sections[strtab_index as usize - 1].set_range(range);
         }
 
@@ -1378,16 +1388,16 @@ impl<'data> Builder<'data> {
             };
             let size =
                 relocations.len() as u64 * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-            out_section.set_range(offset.reserve(size, address_size));
+            out_section.set_range(offset.reserve(size, address_size)?);
         }
 
         if shstrtab_index != 0 {
-            let range = offset.reserve(shstrtab_len.into(), 1);
+            let range = offset.reserve(shstrtab_len.into(), 1)?;
             out_sections[shstrtab_index as usize - 1].set_range(range);
         }
         let e_shoff = if section_num != 0 {
             let size = section_num as u64 * encoder.section_header_size();
-            offset.reserve(size, address_size).0
+            offset.reserve(size, address_size)?.0
         } else {
             0
         };
-- 
2.43.0


From 3193337d75bf64547ddd5c07c06a7aed93cf0339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:28 +0000
Subject: [PATCH 86/87] fix: reject a GNU hash table without bloom words in the
 ELF builder

A table with symbols needs at least one bloom word; a count of zero
from the file or the caller was an arithmetic underflow when writing.
---
 src/build/elf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index c4869f5..be0ec06 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -1579,6 +1579,9 @@ impl<'data> Builder<'data> {
                         if gnu_hash_table.bucket_count == 0 {
                             return Err(Error::new(".gnu.hash bucket count is zero"));
                         }
+                        if gnu_hash_table.bloom_count == 0 && gnu_hash_table.symbol_count != 0 {
+                            return Err(Error::new(".gnu.hash bloom count is zero"));
+                        }
                         encoder.gnu_hash_table(buffer, &gnu_hash_table, |index| {
                             out_dynsyms[(gnu_hash_index_base + index) as usize]
                                 .gnu_hash
-- 
2.43.0


From 06c5edab1f4eede19d902ba2faa0a70304c9f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:28 +0000
Subject: [PATCH 87/87] fix: refuse to overwrite the input of object-rewrite

The output file was truncated while the input was still mapped, so naming the
input as the output destroyed it and ended the command with SIGBUS.
---
 crates/rewrite/src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/rewrite/src/main.rs b/crates/rewrite/src/main.rs
index a07d9b8..9308206 100644
--- a/crates/rewrite/src/main.rs
+++ b/crates/rewrite/src/main.rs
@@ -355,6 +355,17 @@ fn main() -> Result<()> {
                 in_path.display()
             )
         })?;
+        if let Ok(out_metadata) = fs::metadata(out_path)
+            && out_metadata.dev() == in_metadata.dev()
+            && out_metadata.ino() == in_metadata.ino()
+        {
+            // Truncating the output would also truncate the mapped input.
+            return Err(anyhow!(
+                "Output file '{}' is the same as input file '{}'",
+                out_path.display(),
+                in_path.display()
+            ));
+        }
         open_options.mode(in_metadata.mode());
     }
     let out_file = open_options
-- 
2.43.0

