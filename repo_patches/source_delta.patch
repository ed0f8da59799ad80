From 39b9f8f1cd77218616a96cef6e69bd2f5f4b7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:45 +0000
Subject: [PATCH 01/28] fix: compare the entry point length with the
 untruncated buffer length

A valid entry point was rejected with BadSize whenever the number of bytes
left in the buffer, modulo 256, was below the entry point length.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..d21024f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From d024b7ce56dd6f38ce675866d894461c8b94210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:45 +0000
Subject: [PATCH 02/28] fix: report structures that do not fit in the buffer
 instead of panicking

Structures::next read past the buffer, or panicked, when the buffer was
shorter than the declared table length or a header declared a length of
less than the header itself.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d21024f..82df3b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -526,11 +526,17 @@ impl<'buffer> Structures<'buffer> {
             return None;
         }
 
-        let working = &self.buffer[(self.idx as usize)..];
+        let working = self.buffer.get((self.idx as usize)..).unwrap_or(&[]);
+        if working.len() < mem::size_of::<HeaderPacked>() {
+            return Some(Err(MalformedStructureError::BadSize(self.idx, working.len() as u8)));
+        }
         let_as_struct!(header, HeaderPacked, working);
 
         let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        if strings_idx >= self.smbios_len
+            || header.len as usize > working.len()
+            || (header.len as usize) < mem::size_of::<HeaderPacked>()
+        {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-- 
2.43.0


From cd5b88ee3cfc7b36a02f5012c633436d87156006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:45 +0000
Subject: [PATCH 03/28] fix: a string that is not UTF-8 does not hide the
 strings after it

find_string gave up at the first string that is not valid UTF-8, so every
later index of the structure was reported as invalid.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 82df3b6..cadfa05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -630,8 +630,11 @@ impl<'buffer> RawStructure<'buffer> {
         if idx == 0 {
             Ok("")
         } else {
-            self.strings()
+            self.strings
+                .split(|elm| *elm == 0)
+                .take_while(|slice| !slice.is_empty())
                 .nth((idx - 1) as usize)
+                .and_then(|slice| str::from_utf8(slice).ok())
                 .ok_or(MalformedStructureError::InvalidStringIndex(self.info, self.handle, idx))
         }
     }
-- 
2.43.0


From 1757f69c70301f7dcd2497cded973904575278c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:45 +0000
Subject: [PATCH 04/28] fix: offsets inside the header or beyond usize are out
 of range, not a panic

RawStructure::get and get_slice overflowed for offsets below 4 and for
offset + size above usize::MAX.
---
 src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cadfa05..2ab9944 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -650,15 +650,13 @@ impl<'buffer> RawStructure<'buffer> {
     /// section* it may be ignored to return [None] value of structure field. In this case *Formatted
     /// section* length automatically hide non-existing values
     pub fn get<T: TryFromBytes<'buffer, T>>(&self, offset: usize) -> Result<T, MalformedStructureError> {
-        // Ignore header
-        let start = offset - 4;
-        let size = core::mem::size_of::<T>();
-        let slice = self.data.get(start..(start + size)).unwrap_or(&[]);
+        let slice = self.get_slice(offset, core::mem::size_of::<T>()).unwrap_or(&[]);
         TryFromBytes::try_from_bytes(slice).map_err(MalformedStructureError::InvalidSlice)
     }
     /// Wrapper to self.data.get(..) with header offset correction
     pub fn get_slice(&self, offset: usize, size: usize) -> Option<&'buffer [u8]> {
-        self.data.get(offset - 4..offset - 4 + size)
+        let start = offset.checked_sub(mem::size_of::<HeaderPacked>())?;
+        self.data.get(start..start.checked_add(size)?)
     }
     /// Get *STRING* by offset declared in SMBIOS Reference Specification
     pub fn get_string(&self, offset: usize) -> Result<&'buffer str, MalformedStructureError> {
-- 
2.43.0


From b3b8364734c07a3ee24813a5c64e5964debf63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:13 +0000
Subject: [PATCH 05/28] fix: do not read fields past the end of the formatted
 section

The packed layouts of the BIOS, system, baseboard, processor, cache, port
connector and BIOS language structures were read without checking that the
formatted section is that long, so a short structure exposed its strings,
the next structure or memory outside the buffer as field values. The layout
is now chosen by the version and by the length, and a structure too short
for the oldest layout is malformed. The cache layouts were also chosen one
minor version late, with a panic for version 2.0.
---
 src/lib.rs                           | 17 +++++++++++++++++
 src/structures/000_bios.rs           |  6 ++++--
 src/structures/001_system.rs         |  7 +++++--
 src/structures/002_baseboard.rs      |  7 ++++++-
 src/structures/004_processor.rs      | 12 +++++++-----
 src/structures/007_cache.rs          |  9 +++++----
 src/structures/008_port_connector.rs |  1 +
 src/structures/013_bios_language.rs  |  2 ++
 8 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ab9944..bba07a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -620,6 +620,23 @@ impl<'buffer> RawStructure<'buffer> {
         StructureStrings::new(self.strings)
     }
 
+    /// Check that the *Formatted section* holds at least `size` bytes after the header.
+    ///
+    /// # Errors
+    /// Returns a `MalformedStructureError::InvalidFormattedSectionLength` if it does not.
+    pub(crate) fn ensure_data_len(&self, size: usize) -> Result<(), MalformedStructureError> {
+        lib_ensure!(
+            self.data.len() >= size,
+            MalformedStructureError::InvalidFormattedSectionLength(
+                self.info,
+                self.handle,
+                "minimum of ",
+                (mem::size_of::<HeaderPacked>() + size) as u8
+            )
+        );
+        Ok(())
+    }
+
     /// Find a string in the strings table by the string index.
     /// If the string index is 0, the empty string is returned. Otherwise, the string corresponding
     /// to that string index in the strings table is returned.
diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..96bcfc6 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -3,6 +3,7 @@
 //! BIOS Information structure
 
 use core::fmt;
+use core::mem;
 
 use crate::bitfield::{BitField, FlagType, Layout};
 use crate::{MalformedStructureError, RawStructure};
@@ -126,7 +127,7 @@ impl<'buffer> Bios<'buffer> {
         }
 
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= mem::size_of::<BiosPacked3_1>() => {
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -155,7 +156,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            v if v >= (2, 4).into() => {
+            v if v >= (2, 4).into() && structure.data.len() >= mem::size_of::<BiosPacked2_4>() => {
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -185,6 +186,7 @@ impl<'buffer> Bios<'buffer> {
                 })
             }
             _ => {
+                structure.ensure_data_len(mem::size_of::<BiosPacked2_0>())?;
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..a73d912 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -5,6 +5,8 @@
 //! associated with a single system instance and contains one and only one System Information
 //! (Type 1) structure.
 
+use core::mem;
+
 use crate::{MalformedStructureError, RawStructure};
 
 /// The wakeup type defined in the SMBIOS specification.
@@ -107,7 +109,8 @@ impl<'buffer> System<'buffer> {
             family: u8,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.version < (2, 1).into() || structure.data.len() < mem::size_of::<SystemPacked2_1>() {
+            structure.ensure_data_len(mem::size_of::<SystemPacked2_0>())?;
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -121,7 +124,7 @@ impl<'buffer> System<'buffer> {
                 sku: None,
                 family: None,
             })
-        } else if structure.version < (2, 4).into() {
+        } else if structure.version < (2, 4).into() || structure.data.len() < mem::size_of::<SystemPacked2_4>() {
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..5d40665 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -117,7 +117,12 @@ impl<'buffer> BaseBoard<'buffer> {
             board_type: u8,
         }
 
-        let_as_struct!(packed, BaseBoardPacked, structure.data);
+        // The fields after the serial number are optional: read the missing ones from zeroes
+        structure.ensure_data_len(4)?;
+        let mut data = [0u8; core::mem::size_of::<BaseBoardPacked>()];
+        let len = structure.data.len().min(data.len());
+        data[..len].copy_from_slice(&structure.data[..len]);
+        let_as_struct!(packed, BaseBoardPacked, data);
 
         let asset = if structure.data.len() > 4 {
             Some(structure.find_string(packed.asset)?)
diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..38ea144 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -7,6 +7,7 @@
 //! describe the 80487 co1021 processor.
 
 use core::fmt;
+use core::mem;
 
 use bitflags::bitflags;
 
@@ -615,7 +616,8 @@ impl<'buffer> Processor<'buffer> {
             thread_count_2: u16,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.version < (2, 1).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_1>() {
+            structure.ensure_data_len(mem::size_of::<ProcessorPacked2_0>())?;
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -643,7 +645,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 3).into() {
+        } else if structure.version < (2, 3).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_3>() {
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -671,7 +673,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 5).into() {
+        } else if structure.version < (2, 5).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_5>() {
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -699,7 +701,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 6).into() {
+        } else if structure.version < (2, 6).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_6>() {
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -727,7 +729,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: Some(packed.thread_count as u16),
                 processor_characteristics: None,
             })
-        } else if structure.version < (3, 0).into() {
+        } else if structure.version < (3, 0).into() || structure.data.len() < mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..3e725ed 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -6,6 +6,7 @@
 //! depending on the SMBIOS version.
 
 use core::fmt;
+use core::mem;
 
 use bitflags::bitflags;
 
@@ -212,7 +213,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= mem::size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +231,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v >= (2, 1).into() && structure.data.len() >= mem::size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -248,7 +249,8 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ => {
+                structure.ensure_data_len(mem::size_of::<CachePacked2_0>())?;
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -266,7 +268,6 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
         }
     }
 }
diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..1b375e3 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -136,6 +136,7 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+        structure.ensure_data_len(core::mem::size_of::<PortConnectorPacked>())?;
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..9986aa4 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -50,6 +50,7 @@ impl<'a> BiosLanguage<'a> {
 
         match structure.version {
             v if v >= (2, 1).into() => {
+                structure.ensure_data_len(core::mem::size_of::<BiosLanguagePacked2_1>())?;
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
@@ -59,6 +60,7 @@ impl<'a> BiosLanguage<'a> {
                 })
             }
             _ => {
+                structure.ensure_data_len(core::mem::size_of::<BiosLanguagePacked2_0>())?;
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
-- 
2.43.0


From be94603ad8fe4f7d7a2b6833e9b91e8e5f2ecea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 06/28] fix: BIOS characteristics extension byte 1 is defined
 from version 2.1

It was only decoded for version 2.4 and later.
---
 src/structures/000_bios.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 96bcfc6..f516fe1 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -199,8 +199,16 @@ impl<'buffer> Bios<'buffer> {
                         extended: None,
                     },
                     bios_characteristics: Characteristics(packed.bios_characteristics),
-                    bios_characteristics_exttension_1: None,
-                    bios_characteristics_exttension_2: None,
+                    bios_characteristics_exttension_1: structure
+                        .get::<u8>(0x12)
+                        .ok()
+                        .filter(|_| structure.version >= (2, 1).into())
+                        .map(CharacteristicsExtension1),
+                    bios_characteristics_exttension_2: structure
+                        .get::<u8>(0x13)
+                        .ok()
+                        .filter(|_| structure.version >= (2, 4).into())
+                        .map(CharacteristicsExtension2),
                     bios_revision: None,
                     firmware_revision: None,
                 })
-- 
2.43.0


From 22e2043e730e255fa63455c6bdc58439962d50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 07/28] fix: a BIOS ROM of 16 MB or more has a size when the
 extended size is absent

Converting such a RomSize to bytes panicked.
---
 src/structures/000_bios.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index f516fe1..bdc76c7 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -338,7 +338,8 @@ impl From<RomSize> for u64 {
                 _ => unimplemented!(),
             }
         } else {
-            unreachable!();
+            // No extended size before 3.1: the basic formula gives the documented 16 MB
+            16 << 20
         }
     }
 }
-- 
2.43.0


From b4fe658d634ac8ff6351949423c14f34dd48dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:59 +0000
Subject: [PATCH 08/28] fix: the baseboard chassis handle needs both of its
 bytes

With one byte present the other half came from beyond the section.
---
 src/structures/002_baseboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index 5d40665..4fd2344 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -139,7 +139,7 @@ impl<'buffer> BaseBoard<'buffer> {
         } else {
             None
         };
-        let chassis_handle = if structure.data.len() > 7 {
+        let chassis_handle = if structure.data.len() > 8 {
             Some(packed.chassis_handle)
         } else {
             None
-- 
2.43.0


From b7f955d38693c00eec448ca714d623fbcc43c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:01 +0000
Subject: [PATCH 09/28] fix: contained elements of any count and record length

The size of the element list overflowed a byte, and records of less than
three bytes were read past their end.
---
 src/structures/003_enclosure.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..14f03e7 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -421,7 +421,7 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
+        let length = count as usize * record_length as usize;
         let chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
         Some(Self {
@@ -468,7 +468,11 @@ impl From<&[u8]> for ContainedElement {
             minimum: u8,
             maximum: u8,
         }
-        let_as_struct!(packed, ContainedElement2_3, data);
+        // Records shorter than the layout lack their last fields: read them from zeroes
+        let mut record = [0u8; core::mem::size_of::<ContainedElement2_3>()];
+        let len = data.len().min(record.len());
+        record[..len].copy_from_slice(&data[..len]);
+        let_as_struct!(packed, ContainedElement2_3, record);
         ContainedElement {
             type_: packed.type_.into(),
             minimum: packed.minimum,
-- 
2.43.0


From d4c8ba95bcb75261c881925c5c353925424c46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:04 +0000
Subject: [PATCH 10/28] fix: processor characteristics are defined from version
 2.5

The 2.5 layout read them and then reported None.
---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 38ea144..39686e3 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -727,7 +727,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() || structure.data.len() < mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
-- 
2.43.0


From 2ebb614acfcfb0ccb2347722b1467e6d2ce46a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:06 +0000
Subject: [PATCH 11/28] fix: installable languages end after 255 strings

The string number overflowed: a panic with overflow checks, an endless
sequence without them.
---
 src/structures/013_bios_language.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 9986aa4..9b497f8 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -83,7 +83,11 @@ impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index;
-        self.index += 1;
+        if index == 0 {
+            // Wrapped around: all 255 string numbers are used up
+            return None;
+        }
+        self.index = index.wrapping_add(1);
         self.structure.find_string(index).ok()
     }
 }
-- 
2.43.0


From a5428c6e6ef72b01a9e9b9e73639ea4c16040e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:08 +0000
Subject: [PATCH 12/28] fix: group associations without a name byte are
 malformed, not a panic

---
 src/structures/014_group_associations.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..5eee4d7 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -41,15 +41,14 @@ pub struct GroupItem {
 impl<'a> GroupAssociations<'a> {
     pub(crate) fn try_from(structure: RawStructure<'a>) -> Result<Self, MalformedStructureError> {
         let handle = structure.handle;
-        let slice =
-            structure
-                .get_slice(0x05, structure.length as usize - 0x05)
-                .ok_or(InvalidFormattedSectionLength(
-                    InfoType::GroupAssociations,
-                    handle,
-                    "",
-                    structure.length,
-                ))?;
+        let slice = structure
+            .get_slice(0x05, (structure.length as usize).saturating_sub(0x05))
+            .ok_or(InvalidFormattedSectionLength(
+                InfoType::GroupAssociations,
+                handle,
+                "",
+                structure.length,
+            ))?;
         Ok(GroupAssociations {
             handle,
             group_name: structure.get_string(0x04)?,
-- 
2.43.0


From 77987cb44d80b54d93d5ab7bd504cf6023d72751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:10 +0000
Subject: [PATCH 13/28] fix: event log type descriptors of length zero form an
 empty list, not a panic

---
 src/structures/015_system_event_log/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..4cde15d 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,7 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From 874b243f7ca489eebad00f2839d7e30c15ccbb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:12 +0000
Subject: [PATCH 14/28] fix: physical memory arrays of versions 2.1 and 2.7 and
 short ones

The fields were decoded one minor version late, the handle was lost for
2.0 and 2.1, and a short structure panicked.
---
 src/structures/016_physical_memory_array.rs | 23 ++++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..a5ec1da 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -198,21 +198,21 @@ impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
         let mut pma = PhysicalMemoryArray::default();
         let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
+        pma.handle = structure.handle;
+        if structure.version >= (2, 1).into() {
+            pma.location = MemoryArrayLocation::from(structure.get::<u8>(0x04)?);
             mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
+            pma.r#use = MemoryArrayUse::from(structure.get::<u8>(0x05)?);
             mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
+            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.get::<u8>(0x06)?);
             mem_pointer += 1;
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
         }
-        if structure.version > (2, 7).into() {
+        if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
-                get_optional_qword(&mut mem_pointer, structure.data, 0)?
+                get_optional_qword(&mut mem_pointer, structure.data, 0).unwrap_or(None)
             } else {
                 None
             };
@@ -250,7 +250,8 @@ fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<
 
 fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
     let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
+        data.get(*pointer..(*pointer + 2))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -260,7 +261,8 @@ fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureE
 
 fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
     let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
+        data.get(*pointer..(*pointer + 4))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -270,7 +272,8 @@ fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructure
 
 fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
     let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
+        data.get(*pointer..(*pointer + 8))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
-- 
2.43.0


From ba283037459a72c7ce60cd04941dacfb864cc247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:15 +0000
Subject: [PATCH 15/28] fix: memory device form factors 1 to 8 were off by one

---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From e3efc763e9fa6316a179a4a62abf5746cf37eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 16/28] fix: decode memory devices of the 2.1 to 2.6 lengths

The check accepts the 2.1 minimum of 15h bytes and calls the rest optional,
but any structure shorter than 20h bytes was rejected with InvalidSlice.
---
 src/structures/017_memory_device.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 1774b77..e15fe11 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -389,6 +389,9 @@ impl<'a> MemoryDevice<'a> {
             ));
         }
 
+        // A string number beyond the formatted section is like the number 0: no string
+        let optional_string = |offset| structure.find_string(structure.get::<u8>(offset).unwrap_or(0));
+
         Ok(MemoryDevice {
             handle,
             physical_memory_handle: structure.get::<u16>(0x04)?,
@@ -403,12 +406,12 @@ impl<'a> MemoryDevice<'a> {
             memory_type: structure.get::<u8>(0x12)?.into(),
             type_detail: Detail::from_bits_truncate(structure.get::<u16>(0x13)?),
             speed: structure.get::<u16>(0x15).ok().filter(|v| v != &0x0000),
-            manufacturer: structure.get_string(0x17)?,
-            serial: structure.get_string(0x18)?,
-            asset_tag: structure.get_string(0x19)?,
-            part_number: structure.get_string(0x1A)?,
-            attributes: structure.get::<u8>(0x1B)?,
-            extended_size: structure.get::<u32>(0x1C)?,
+            manufacturer: optional_string(0x17)?,
+            serial: optional_string(0x18)?,
+            asset_tag: optional_string(0x19)?,
+            part_number: optional_string(0x1A)?,
+            attributes: structure.get::<u8>(0x1B).unwrap_or(0),
+            extended_size: structure.get::<u32>(0x1C).unwrap_or(0),
             configured_memory_speed: structure.get::<u16>(0x20).ok().filter(|v| v != &0x0000),
             minimum_voltage: structure.get::<u16>(0x22).ok().filter(|v| v != &0x0000),
             maximum_voltage: structure.get::<u16>(0x24).ok().filter(|v| v != &0x0000),
-- 
2.43.0


From ab3bc94a6117bcea644627db18e079b41880dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:19 +0000
Subject: [PATCH 17/28] fix: battery design capacities above 65535 mWh

The product overflowed 16 bits.
---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..21676a5 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => value as u64 * multiplier as u64,
         }
     }
 }
-- 
2.43.0


From 15b1c143cb8d5b1dd65f1c43a00bdc4a55222f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:21 +0000
Subject: [PATCH 18/28] fix: reserved ranges of a single bit after another
 reserved range

Their end was reported as bit 0.
---
 src/bitfield.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..823a144 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,8 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        // The range in progress, if any, has reached at least its first bit
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From 7fd0bdf6824718412b240813ffbda76dfdfd77f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:20 +0000
Subject: [PATCH 19/28] fix: the slot pitch is in units of 1/100 mm

A pitch of 1250, 12.5 mm in the documentation of the type, was shown as
125.0 mm.
---
 src/structures/009_system_slots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..c958acb 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -877,7 +877,7 @@ impl fmt::Display for SlotPitch {
         if self.0 == 0 {
             write!(f, "Not given or is unknown")
         } else {
-            write!(f, "{:.1} mm", (self.0 as f32) / 10.0)
+            write!(f, "{:.2} mm", (self.0 as f32) / 100.0)
         }
     }
 }
-- 
2.43.0


From a86d2a5175794bc775eb8d06f5bd38742ba3f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:22 +0000
Subject: [PATCH 20/28] fix: a peer device converted from a short slice is not
 read past its end

Device and PeerDevices can be made from any slice in safe code.
---
 src/structures/009_system_slots.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index c958acb..6bbf1a5 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -797,7 +797,11 @@ impl From<u8> for SlotCharacteristics2 {
 
 impl<'a> From<&'a [u8]> for Device {
     fn from(data: &'a [u8]) -> Device {
-        let_as_struct!(packed, DevicePacked, data);
+        // Records shorter than the layout lack their last fields: read them from zeroes
+        let mut record = [0u8; core::mem::size_of::<DevicePacked>()];
+        let len = data.len().min(record.len());
+        record[..len].copy_from_slice(&data[..len]);
+        let_as_struct!(packed, DevicePacked, record);
         Device {
             segment_group_number: packed.segment_group_number,
             bus_number: packed.bus_number,
-- 
2.43.0


From 18580f8e30e8e39952ec84ead626f88574a5e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 21/28] fix: U.2 slot types decode to their own variants

---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 6bbf1a5..75603a0 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -437,13 +437,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From 53a3a0a6532638ae7b2653923d56c3f74d439a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:22 +0000
Subject: [PATCH 22/28] fix: memory array locations A0h to A4h

---
 src/structures/016_physical_memory_array.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index a5ec1da..78cf686 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -42,11 +42,11 @@ impl From<u8> for MemoryArrayLocation {
             8 => Self::PcmciaAddOnCard,
             9 => Self::ProprietaryAddOnCard,
             10 => Self::NuBus,
-            11 => Self::Pc98c20AddOnCard,
-            12 => Self::Pc98c24AddOnCard,
-            13 => Self::Pc98eAddOnCard,
-            14 => Self::Pc98LocalBusAddOnCard,
-            15 => Self::CxlAddOnCard,
+            0xA0 => Self::Pc98c20AddOnCard,
+            0xA1 => Self::Pc98c24AddOnCard,
+            0xA2 => Self::Pc98eAddOnCard,
+            0xA3 => Self::Pc98LocalBusAddOnCard,
+            0xA4 => Self::CxlAddOnCard,
             t => Self::Undefined(t),
         }
     }
-- 
2.43.0


From 82186caeed1bd3cce97623cf83d1b579636558b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:27 +0000
Subject: [PATCH 23/28] fix: separate the text and the number in the length
 error of a memory device

---
 src/structures/017_memory_device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index e15fe11..3067e6d 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -384,7 +384,7 @@ impl<'a> MemoryDevice<'a> {
             return Err(InvalidFormattedSectionLength(
                 InfoType::MemoryDevice,
                 handle,
-                "at least",
+                "at least ",
                 0x15,
             ));
         }
-- 
2.43.0


From 64b42c3c0c026f3d6c14a82a2a523367a2b0d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 24/28] fix: name the required length, not the actual one, in
 the length error of group associations

---
 src/structures/014_group_associations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index 5eee4d7..dc89e85 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -46,8 +46,8 @@ impl<'a> GroupAssociations<'a> {
             .ok_or(InvalidFormattedSectionLength(
                 InfoType::GroupAssociations,
                 handle,
-                "",
-                structure.length,
+                "minimum of ",
+                0x05,
             ))?;
         Ok(GroupAssociations {
             handle,
-- 
2.43.0


From 11e61b625f7eac8ed7ac318933d2d0f3b35e7a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 25/28] fix: name the required length in the length error of a
 truncated system event log

---
 src/structures/015_system_event_log/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 4cde15d..75a38d2 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -181,7 +181,7 @@ impl<'a> SystemEventLog<'a> {
                         InfoType::SystemEventLog,
                         handle,
                         "minimum of ",
-                        0,
+                        0x17,
                     ))
                 }
             }
-- 
2.43.0


From 597049e41ff907096b90ac8ca0065543992d5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 26/28] fix: count the header in the minimum length an
 enclosure error names

---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 14f03e7..467ca06 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -197,7 +197,7 @@ impl<'buffer> Enclosure<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<EnclosurePacked2_0>() as u8,
+                core::mem::size_of::<EnclosurePacked2_0>() as u8 + 4,
             ));
         }
 
-- 
2.43.0


From 8cd16da22fccecc77ab864326d10173dcb9139b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 27/28] fix: iterate correctly when offsets pass 4 GiB

With a buffer of 4 GiB and more the 32-bit offset arithmetic of
Structures overflowed: a panic with overflow checks, and without them an
iteration that started over.
---
 src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bba07a5..9163103 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -522,7 +522,7 @@ impl<'buffer> Iterator for Structures<'buffer> {
 
 impl<'buffer> Structures<'buffer> {
     fn next_raw(&mut self) -> Option<Result<RawStructure<'buffer>, MalformedStructureError>> {
-        if (self.idx + mem::size_of::<HeaderPacked>() as u32) > self.smbios_len {
+        if self.smbios_len.saturating_sub(self.idx) < mem::size_of::<HeaderPacked>() as u32 {
             return None;
         }
 
@@ -532,7 +532,7 @@ impl<'buffer> Structures<'buffer> {
         }
         let_as_struct!(header, HeaderPacked, working);
 
-        let strings_idx: u32 = self.idx + header.len as u32;
+        let strings_idx: u32 = self.idx.saturating_add(header.len as u32);
         if strings_idx >= self.smbios_len
             || header.len as usize > working.len()
             || (header.len as usize) < mem::size_of::<HeaderPacked>()
@@ -541,8 +541,8 @@ impl<'buffer> Structures<'buffer> {
         }
 
         let term = find_nulnul(&self.buffer[(strings_idx as usize)..]);
-        let strings_len = match term {
-            Some(terminator) => (terminator + 1) as u32,
+        let strings_end = match term {
+            Some(terminator) => strings_idx as usize + terminator + 1,
             None => {
                 return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx)));
             }
@@ -553,11 +553,12 @@ impl<'buffer> Structures<'buffer> {
             info: header.kind.into(),
             length: header.len,
             handle: header.handle,
-            data: &self.buffer[(self.idx + mem::size_of::<HeaderPacked>() as u32) as usize..strings_idx as usize],
-            strings: &self.buffer[strings_idx as usize..(strings_idx + strings_len) as usize],
+            data: &self.buffer[self.idx as usize + mem::size_of::<HeaderPacked>()..strings_idx as usize],
+            strings: &self.buffer[strings_idx as usize..strings_end],
         };
 
-        self.idx = strings_idx + strings_len;
+        // what lies beyond the range of `u32` lies beyond `smbios_len`, too
+        self.idx = u32::try_from(strings_end).unwrap_or(u32::MAX);
 
         Some(Ok(structure))
     }
-- 
2.43.0


From fc46b5b1432734c4bbdd5f42f9b846a63b2ccd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 28/28] fix: bit-fields with a layout shorter than their width

Iterating a BitField whose LAYOUT describes fewer bits than the value
has, such as the default empty one, panicked. Bits that the layout does
not describe are of unknown type.
---
 src/bitfield.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 823a144..f9b74b8 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -179,7 +179,7 @@ impl<'a, T: Into<u128> + Copy> Iterator for Iter<'a, T> {
     type Item = Flag<'a>;
     fn next(&mut self) -> Option<Self::Item> {
         let len = core::mem::size_of::<T>() * 8;
-        if self.index == len {
+        if self.index >= len {
             None
         } else {
             let is_set = (self.value.into() & (1 << self.index)) != 0;
@@ -188,7 +188,7 @@ impl<'a, T: Into<u128> + Copy> Iterator for Iter<'a, T> {
             Some(Flag {
                 position: Position(p),
                 is_set,
-                type_: self.layout[p],
+                type_: self.layout.get(p).copied().unwrap_or_default(),
             })
         }
     }
-- 
2.43.0

