From 9ae93e5c4d62bf00cd4438f932614772ff26ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 01/37] fix: honour the end of the range for cached strings in
 ReadCache

The string cache is keyed on the start and delimiter only, so a string that
was cached for a larger range was returned for a range that does not contain
the delimiter.
---
 src/read/read_cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index bfb9bf7..2666d8b 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -158,6 +158,10 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
                 }
             }
         };
+        // A cached string may have been read using a range with a larger end.
+        if buf.len() as u64 >= range.end - range.start {
+            return Err(());
+        }
         // Extend the lifetime to that of self.
         // This is OK because we never mutate or remove entries.
         Ok(unsafe { mem::transmute::<&[u8], &[u8]>(buf) })
-- 
2.43.0


From 63961cb9c30e52e4f33e653bf5705f48df51020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 02/37] fix: restrict delimited reads in ReadCacheRange to the
 range

A read whose end was past the end of the range was accepted, and could
return a string whose delimiter is outside of the range.
---
 src/read/read_cache.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index 2666d8b..f20dc70 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -205,15 +205,12 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for ReadCacheRange<'a, R> {
     }
 
     fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
-        let r_start = self.offset.checked_add(range.start).ok_or(())?;
-        let r_end = self.offset.checked_add(range.end).ok_or(())?;
-        let bytes = self.r.read_bytes_at_until(r_start..r_end, delimiter)?;
-        let size = bytes.len().try_into().map_err(|_| ())?;
-        let end = range.start.checked_add(size).ok_or(())?;
-        if end > self.size {
+        if range.end > self.size {
             return Err(());
         }
-        Ok(bytes)
+        let r_start = self.offset.checked_add(range.start).ok_or(())?;
+        let r_end = self.offset.checked_add(range.end).ok_or(())?;
+        self.r.read_bytes_at_until(r_start..r_end, delimiter)
     }
 }
 
-- 
2.43.0


From 9b1ce828b7a95249efb5697ea969a82af4cb4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 03/37] fix: avoid shift overflow for large bloom_shift in
 GnuHashTable::find

---
 src/read/elf/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 68803d9..21a2e4c 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -211,7 +211,7 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if filter & (1 << (hash % word_bits)) == 0 {
             return None;
         }
-        if filter & (1 << ((hash >> self.bloom_shift) % word_bits)) == 0 {
+        if filter & (1 << (hash.checked_shr(self.bloom_shift)? % word_bits)) == 0 {
             return None;
         }
 
-- 
2.43.0


From de5031cf12c745c6397d40a2db4b06c3adf3d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 04/37] fix: keep the symbol number when packing big-endian
 Mach-O relocations

---
 src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macho.rs b/src/macho.rs
index c5b7718..b7df492 100644
--- a/src/macho.rs
+++ b/src/macho.rs
@@ -3953,7 +3953,7 @@ impl RelocationInfo {
                     | u32::from(self.r_extern) << 27
                     | u32::from(self.r_type.0) << 28
             } else {
-                self.r_symbolnum >> 8
+                self.r_symbolnum << 8
                     | u32::from(self.r_pcrel) << 7
                     | u32::from(self.r_length & 0x3) << 5
                     | u32::from(self.r_extern) << 4
-- 
2.43.0


From b6c97d4934e30e374199f32798e1b735554b239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 05/37] fix: don't end PE import lists at an import of ordinal
 0

---
 src/read/pe/import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/pe/import.rs b/src/read/pe/import.rs
index b94b989..e2ccbbd 100644
--- a/src/read/pe/import.rs
+++ b/src/read/pe/import.rs
@@ -218,7 +218,7 @@ impl<'data> ImportThunkList<'data> {
             self.null = true;
             return Err(Error("Missing PE null import thunk"));
         };
-        if thunk.address() == 0 {
+        if thunk.raw() == 0 {
             self.null = true;
             Ok(None)
         } else {
-- 
2.43.0


From ad8cb4824c70b09dde92832e2c3f05c72d98673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 06/37] fix: XCOFF section alignments in the auxiliary header
 are base 2 logarithms

---
 src/read/xcoff/section.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 50ed71d..a33db9c 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -117,14 +117,17 @@ where
 
     fn align(&self) -> u64 {
         // The default section alignment is 4.
+        let default = 4;
         if let Some(aux_header) = self.file.aux_header {
-            match self.kind() {
-                SectionKind::Text => aux_header.o_algntext().into(),
-                SectionKind::Data => aux_header.o_algndata().into(),
-                _ => 4,
-            }
+            // These fields are the log (base 2) of the alignment.
+            let log = match self.kind() {
+                SectionKind::Text => aux_header.o_algntext(),
+                SectionKind::Data => aux_header.o_algndata(),
+                _ => return default,
+            };
+            1u64.checked_shl(log.into()).unwrap_or(default)
         } else {
-            4
+            default
         }
     }
 
-- 
2.43.0


From 64389d61936423691c8fd0071a79c7950857d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 07/37] fix: uninitialized XCOFF sections have no data in the
 file

---
 src/read/xcoff/section.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index a33db9c..980fd7f 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -316,7 +316,16 @@ pub trait SectionHeader: Debug + Pod + read::private::Sealed {
     }
 
     /// Return the offset and size of the section in the file.
+    ///
+    /// Returns `None` for sections that have no data in the file.
     fn file_range(&self) -> Option<(u64, u64)> {
+        if self
+            .s_flags()
+            .typ()
+            .intersects(xcoff::STYP_BSS | xcoff::STYP_TBSS)
+        {
+            return None;
+        }
         Some((self.s_scnptr().into(), self.s_size().into()))
     }
 
-- 
2.43.0


From 1b77b52fe4ee011a0136ebd2a821d67bd3547af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 08/37] fix: write the size of uninitialized XCOFF sections

---
 src/write/xcoff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index db2e3fb..633b1c6 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -257,7 +257,7 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += len;
+                address += section.size;
                 address = align(address, 4);
             } else {
                 section_offsets[index].address = 0;
@@ -407,7 +407,7 @@ impl<'a> Object<'a> {
                     s_paddr: section_offsets[index].address.into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: section_offsets[index].address.into(),
-                    s_size: (section.data.len() as u64).into(),
+                    s_size: section.size.into(),
                     s_scnptr: (section_offsets[index].data_offset as u64).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u64).into(),
                     s_lnnoptr: 0.into(),
@@ -423,7 +423,7 @@ impl<'a> Object<'a> {
                     s_paddr: (section_offsets[index].address as u32).into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: (section_offsets[index].address as u32).into(),
-                    s_size: (section.data.len() as u32).into(),
+                    s_size: (section.size as u32).into(),
                     s_scnptr: (section_offsets[index].data_offset as u32).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u32).into(),
                     s_lnnoptr: 0.into(),
-- 
2.43.0


From f69c3003740125eb22abe70b61bbbbd50e59e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 09/37] fix: write empty XCOFF64 symbol names as string table
 offset 0

---
 src/write/xcoff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 633b1c6..a85a1b2 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -318,7 +318,7 @@ impl<'a> Object<'a> {
                 if symbol.name.len() > 8 {
                     symbol_offsets[index].str_id = Some(strtab.add(&symbol.name));
                 }
-            } else if is_64 || symbol.name.len() > 8 {
+            } else if (is_64 && !symbol.name.is_empty()) || symbol.name.len() > 8 {
                 symbol_offsets[index].str_id = Some(strtab.add(&symbol.name));
             }
 
@@ -502,13 +502,13 @@ impl<'a> Object<'a> {
             let n_numaux = symbol_offsets[index].aux_count;
             if is_64 {
                 let str_id = if n_sclass == xcoff::C_FILE {
-                    file_str_id.unwrap()
+                    file_str_id
                 } else {
-                    symbol_offsets[index].str_id.unwrap()
+                    symbol_offsets[index].str_id
                 };
                 let xcoff_sym = xcoff::Symbol64 {
                     n_value: n_value.into(),
-                    n_offset: strtab.get_offset(str_id).into(),
+                    n_offset: strtab.maybe_get_offset(str_id).into(),
                     n_scnum: n_scnum.into(),
                     n_type: n_type.into(),
                     n_sclass,
-- 
2.43.0


From ffdb13cd311e3654d4ce5f4f2334b012f3fb4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:00 +0000
Subject: [PATCH 10/37] fix: XCOFF relocation addresses are virtual, not
 section offsets

---
 src/read/xcoff/relocation.rs | 5 ++++-
 src/read/xcoff/section.rs    | 1 +
 src/write/xcoff.rs           | 6 ++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/read/xcoff/relocation.rs b/src/read/xcoff/relocation.rs
index 6ce3879..430ee40 100644
--- a/src/read/xcoff/relocation.rs
+++ b/src/read/xcoff/relocation.rs
@@ -27,6 +27,7 @@ where
 {
     #[allow(unused)]
     pub(super) file: &'file XcoffFile<'data, Xcoff, R>,
+    pub(super) section_address: u64,
     pub(super) relocations:
         slice::Iter<'data, <<Xcoff as FileHeader>::SectionHeader as SectionHeader>::Rel>,
 }
@@ -39,6 +40,7 @@ where
     type Item = (u64, Relocation);
 
     fn next(&mut self) -> Option<Self::Item> {
+        let section_address = self.section_address;
         self.relocations.next().map(|relocation| {
             let r_rtype = relocation.r_rtype();
             let r_rsize = relocation.r_rsize();
@@ -58,7 +60,8 @@ where
             let size = (r_rsize & 0x3F) + 1;
             let target = RelocationTarget::Symbol(relocation.symbol());
             (
-                relocation.r_vaddr().into(),
+                // Return the offset in the section.
+                relocation.r_vaddr().into().wrapping_sub(section_address),
                 Relocation {
                     kind,
                     encoding,
diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 980fd7f..50acf36 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -204,6 +204,7 @@ where
         let rel = self.xcoff_relocations().unwrap_or(&[]);
         XcoffRelocationIterator {
             file: self.file,
+            section_address: self.section.s_vaddr().into(),
             relocations: rel.iter(),
         }
     }
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index a85a1b2..9ef4e25 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -459,9 +459,11 @@ impl<'a> Object<'a> {
                         } else {
                             return Err(Error("invalid relocation flags".into()));
                         };
+                    // Relocations are identified by virtual address.
+                    let r_vaddr = section_offsets[index].address.wrapping_add(reloc.offset);
                     if is_64 {
                         let xcoff_rel = xcoff::Rel64 {
-                            r_vaddr: reloc.offset.into(),
+                            r_vaddr: r_vaddr.into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
@@ -469,7 +471,7 @@ impl<'a> Object<'a> {
                         buffer.write_pod(&xcoff_rel);
                     } else {
                         let xcoff_rel = xcoff::Rel32 {
-                            r_vaddr: (reloc.offset as u32).into(),
+                            r_vaddr: (r_vaddr as u32).into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
-- 
2.43.0


From 346600c9224054e72e0db51f3a4fe2589165082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 11/37] fix: include the page offset in dyld cache v2
 relocation offsets

---
 src/read/macho/dyld_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index a5de2ac..27aa158 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -704,7 +704,7 @@ where
                     let value = pointer & !self.delta_mask;
                     if value != 0 {
                         return Ok(Some(DyldRelocation {
-                            offset,
+                            offset: self.page_offset + offset,
                             value: value.wrapping_add(self.value_add),
                             auth: None,
                         }));
-- 
2.43.0


From 1e2304994343689be2e0df0f2daa88a10c118785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 12/37] fix: avoid shift overflow for a zero dyld cache slide
 delta mask

---
 src/read/macho/dyld_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 27aa158..41ec936 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -687,7 +687,10 @@ where
                         .read_error("Invalid dyld cache slide pointer offset")?
                         .get(self.endian);
 
-                    let next = (pointer & self.delta_mask) >> self.delta_shift;
+                    // The shift overflows if the mask is zero.
+                    let next = (pointer & self.delta_mask)
+                        .checked_shr(self.delta_shift)
+                        .unwrap_or(0);
                     if next == 0 {
                         if self.state == RelocationStateV2::PageExtra {
                             self.state = RelocationStateV2::Extra
-- 
2.43.0


From 9902f883eb524b397d8bd6d11689752175d6f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 13/37] fix: end dyld cache relocation iteration after an error

---
 src/read/macho/dyld_cache.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 41ec936..46f7fc7 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -578,13 +578,16 @@ where
     type Item = Result<DyldRelocation>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.version {
+        let result = match &mut self.version {
             DyldCacheRelocationIteratorVersion::None => Ok(None),
             DyldCacheRelocationIteratorVersion::V2(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V3(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V5(iter) => iter.next(),
+        };
+        if result.is_err() {
+            self.version = DyldCacheRelocationIteratorVersion::None;
         }
-        .transpose()
+        result.transpose()
     }
 }
 
-- 
2.43.0


From 2e5f6e0e535c989d3ef207b8a9d26853cbc0056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 14/37] fix: end Mach-O exports trie iteration after an error

---
 src/read/macho/exports_trie.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 181f18f..1ce950c 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -55,6 +55,14 @@ impl<'data> ExportsTrieIterator<'data> {
     // All the heavy lifting is done by NodeIterator. This just skips over the internal nodes
     // with no terminal data.
     pub fn next(&mut self) -> Result<Option<ExportSymbol<'data>>> {
+        let result = self.next_inner();
+        if result.is_err() {
+            self.node_iter.stack.clear();
+        }
+        result
+    }
+
+    fn next_inner(&mut self) -> Result<Option<ExportSymbol<'data>>> {
         for node in &mut self.node_iter {
             if let Some(export_symbol) = node? {
                 return Ok(Some(export_symbol));
-- 
2.43.0


From 5615e5bac44c769dbad0b5d622261ee485f7e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 15/37] fix: keep a symbol at the last address in the symbol
 map

---
 src/read/symbol_map.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/read/symbol_map.rs b/src/read/symbol_map.rs
index 3ec270a..4e0bd88 100644
--- a/src/read/symbol_map.rs
+++ b/src/read/symbol_map.rs
@@ -354,11 +354,11 @@ impl SymbolMapBuilder {
             // Unstable sort is okay because tuple includes index.
             all_symbols.sort_unstable();
 
-            let mut previous_address = !0;
+            let mut previous_address = None;
             for (address, _priority, _index, size, name) in all_symbols {
-                if address != previous_address {
+                if previous_address != Some(address) {
                     symbols.push(SymbolMapName::new(address, size, name));
-                    previous_address = address;
+                    previous_address = Some(address);
                 }
             }
 
-- 
2.43.0


From f9f92320837bc53b1d70d4f61464f93b8c985afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 16/37] fix: write/elf: use SHT_RELR for relative relocation
 section headers

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 2b8c37b..656e0c7 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -865,7 +865,7 @@ impl<E: Endian> Encoder<E> {
     /// The caller must set `sh_name`, `sh_offset`, and `sh_size`.
     pub fn relative_relocation_section_header(self) -> SectionHeader {
         SectionHeader {
-            sh_type: elf::SHT_RELA,
+            sh_type: elf::SHT_RELR,
             sh_addralign: self.address_size(),
             sh_entsize: self.relr_size(),
             ..SectionHeader::default()
-- 
2.43.0


From d8ada8b52011d2123c804a2cbaa5d0178bbc0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 17/37] fix: write/elf: terminate the list of version
 definition auxiliary entries

---
 src/write/elf/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/elf/writer.rs b/src/write/elf/writer.rs
index bf35572..2f24a23 100644
--- a/src/write/elf/writer.rs
+++ b/src/write/elf/writer.rs
@@ -849,7 +849,8 @@ impl<'a, M: Mode> Writer<'a, M> {
         self.gnu_verdef_remaining -= 1;
 
         debug_assert_ne!(verdef.aux_count, 0);
-        self.gnu_verdaux_remaining = verdef.aux_count;
+        // The first auxiliary entry is written with the definition.
+        self.gnu_verdaux_remaining = verdef.aux_count - 1;
         self.written_verdaux_count += usize::from(verdef.aux_count);
         M::set_count(&mut self.gnu_verdaux_count, self.written_verdaux_count);
 
-- 
2.43.0


From 05c14ac86f527900f20058b524eb8585677f6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 18/37] fix: build/elf: handle an alignment of 0

---
 src/build/elf.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index d82789d..26ff6c7 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -763,7 +763,8 @@ impl<'data> Builder<'data> {
         struct Offset(u64);
         impl Offset {
             fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
-                self.0 = write::align(self.0, align);
+                // An alignment of 0 is the same as an alignment of 1.
+                self.0 = write::align(self.0, align.max(1));
                 let offset = self.0;
                 self.0 += size;
                 (offset, size)
@@ -2399,7 +2400,7 @@ impl<'data> Segment<'data> {
     pub fn append_section(&mut self, section: &mut Section<'_>) {
         debug_assert_eq!(self.p_filesz, self.p_memsz);
         if self.p_type == elf::PT_LOAD {
-            let align = section.sh_addralign;
+            let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
             let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
@@ -2523,7 +2524,9 @@ impl<'data> Segments<'data> {
         // will add their alignment to the file offset when they are added.
         let offset = max_offset;
         // The address must be chosen so that addr % align == offset % align.
-        let addr = ((max_addr + (align - 1)) & !(align - 1)) + (offset & (align - 1));
+        // An alignment of 0 is the same as an alignment of 1.
+        let mask = align.max(1) - 1;
+        let addr = ((max_addr + mask) & !mask) + (offset & mask);
 
         let segment = self.add();
         segment.p_type = elf::PT_LOAD;
-- 
2.43.0


From 40906aadda1a6511eb3fd80acdaad8dba13f4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 19/37] fix: build/elf: use the virtual address of the segment
 in append_section

---
 src/build/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 26ff6c7..5088c0d 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2402,7 +2402,7 @@ impl<'data> Segment<'data> {
         if self.p_type == elf::PT_LOAD {
             let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
-            let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
+            let addr = (self.p_vaddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
             section.sh_addr = addr;
         }
-- 
2.43.0


From a6ec34cc1d11b49d3be1e2c624917f0d25eef12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 20/37] fix: build/elf: count defined symbols in the same way
 as writing the hash table

---
 src/build/elf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 5088c0d..06c2442 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2069,7 +2069,13 @@ impl<'data> Builder<'data> {
     /// To get an accurate result, you may need to first call
     /// [`Self::delete_orphan_symbols`].
     pub fn gnu_hash_size(&self) -> u64 {
-        let symbol_count = self.dynamic_symbols.count_defined();
+        // Only defined symbols that are named and not local are in the hash table.
+        let symbol_count = self
+            .dynamic_symbols
+            .iter()
+            .filter(|symbol| symbol.section.is_some() || symbol.st_shndx != elf::SHN_UNDEF)
+            .filter(|symbol| symbol.st_bind() != elf::STB_LOCAL && !symbol.name.is_empty())
+            .count();
         self.encoder().gnu_hash_size(
             self.gnu_hash_bloom_count,
             self.gnu_hash_bucket_count,
@@ -2869,7 +2875,7 @@ impl<'data, const DYNAMIC: bool> Symbols<'data, DYNAMIC> {
     /// Number of defined symbols.
     pub fn count_defined(&self) -> usize {
         self.into_iter()
-            .filter(|symbol| symbol.st_shndx != elf::SHN_UNDEF)
+            .filter(|symbol| symbol.section.is_some() || symbol.st_shndx != elf::SHN_UNDEF)
             .count()
     }
 
-- 
2.43.0


From 89dc200eaab265dd219368e317475646ca0c3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 21/37] fix: build/macho: use the output index of segments when
 writing

The layout of the segments is in the order of the load commands, but was
indexed by the id of the segment.
---
 src/build/macho.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index ee37745..6e5a208 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -621,7 +621,10 @@ impl<'data> Builder<'data> {
         let command_offset = offset.0;
         for command in &self.commands {
             let size = match command {
-                LoadCommand::Segment(id) => encoder.segment_command_size(out_segments[id.0].nsects),
+                LoadCommand::Segment(id) => {
+                    let segment_index = out_segments_index[id.0].unwrap();
+                    encoder.segment_command_size(out_segments[segment_index].nsects)
+                }
                 LoadCommand::Symtab => encoder.symtab_command_size(),
                 LoadCommand::Dysymtab => encoder.dysymtab_command_size(),
                 LoadCommand::Dylib(id) => {
@@ -807,7 +810,8 @@ impl<'data> Builder<'data> {
             if let LoadCommand::Segment(id) = command {
                 let segment = self.segments.get(*id);
                 if segment.segname() == b"__LINKEDIT" {
-                    let out_segment = &mut out_segments[id.0];
+                    let segment_index = out_segments_index[id.0].unwrap();
+                    let out_segment = &mut out_segments[segment_index];
                     out_segment.offset = linkedit_offset;
                     out_segment.size = linkedit_filesize;
                     out_segment.vmsize = linkedit_vmsize;
@@ -845,7 +849,8 @@ impl<'data> Builder<'data> {
             match *command {
                 LoadCommand::Segment(id) => {
                     let segment = self.segments.get(id);
-                    let out_segment = &out_segments[id.0];
+                    let segment_index = out_segments_index[id.0].unwrap();
+                    let out_segment = &out_segments[segment_index];
                     let cmd = &write::macho::SegmentCommand {
                         segname: segment.segname,
                         vmaddr: segment.vmaddr,
-- 
2.43.0


From 25bf39af727f171dd7baee644732df082152bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 22/37] fix: build/macho: include deleted sections when
 deleting relocations

Iterating the section table skips deleted sections, so the deletion
flags were missing or at the wrong index.
---
 src/build/macho.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 6e5a208..8bfd82d 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1156,10 +1156,8 @@ impl<'data> Builder<'data> {
     /// Delete relocations that refer to deleted symbols.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
-        let sections = self
-            .sections
-            .iter()
-            .map(|section| section.delete)
+        let sections = (0..self.sections.len())
+            .map(|index| self.sections.get(SectionId(index)).delete)
             .collect::<Vec<bool>>();
         for section in &mut self.sections {
             section
-- 
2.43.0


From 2807d921df59a06a3f41a5c936347e895a52eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 23/37] fix: build/macho: reject zerofill sections that are too
 large when reading

The size was silently truncated.
---
 src/build/macho.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 8bfd82d..392bc08 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -336,11 +336,17 @@ impl<'data> Builder<'data> {
         R: ReadRef<'data>,
     {
         let id = self.sections.next_id();
-        let size = section.size(endian).into();
         let section_data = if section.file_size(endian).is_some() {
             SectionData::Data(section.data(endian, data, offset)?.into())
         } else {
-            SectionData::UninitializedData(size as u32)
+            let size: u64 = section.size(endian).into();
+            let size = u32::try_from(size).map_err(|_| {
+                Error(format!(
+                    "Unsupported size {size:#x} for section at index {}",
+                    self.sections.len(),
+                ))
+            })?;
+            SectionData::UninitializedData(size)
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
-- 
2.43.0


From c3a83cb902d302cc755dcfe199ec27e8839df6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 24/37] fix: build/macho: reject indirect symbols that refer to
 a deleted symbol

These were silently written as a reference to the first symbol.
---
 src/build/macho.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 392bc08..4f487ec 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -524,6 +524,13 @@ impl<'data> Builder<'data> {
                 } else {
                     indirect_symbols_count
                 };
+                for indirect_symbol in &section.indirect_symbols {
+                    if let IndirectSymbol::Symbol(symbol_id) = indirect_symbol {
+                        if self.symbols.get(*symbol_id).delete {
+                            return Err(Error::new("Indirect symbol refers to a deleted symbol"));
+                        }
+                    }
+                }
                 indirect_symbols_count += section.indirect_symbols.len();
                 out_sections_index[section_id.0] = Some(out_sections.len() + 1);
                 out_sections.push(SectionOut {
-- 
2.43.0


From d16116e501d100fda74ed8fd8adb71bebd704525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 25/37] fix: build/macho: write the dylib ordinal of symbols

`Symbol::dylib` is documented to set the ordinal, but was ignored.
---
 src/build/macho.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 4f487ec..b92adf8 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -606,11 +606,16 @@ impl<'data> Builder<'data> {
             }
         }
         let mut have_symtab = false;
-        let mut dylib_referenced = vec![false; self.dylibs.len()];
+        let mut dylib_count = 0u32;
+        let mut out_dylibs_index = vec![None; self.dylibs.len()];
         for command in &self.commands {
             match command {
                 LoadCommand::Symtab => have_symtab = true,
-                LoadCommand::Dylib(id) => dylib_referenced[id.index()] = true,
+                LoadCommand::Dylib(id) => {
+                    dylib_count += 1;
+                    let ordinal = u8::try_from(dylib_count).unwrap_or(u8::MAX);
+                    out_dylibs_index[id.index()] = Some(macho::SymbolLibrary(ordinal));
+                }
                 _ => {}
             }
         }
@@ -619,11 +624,18 @@ impl<'data> Builder<'data> {
                 "Symbols are present but there is no symtab load command",
             ));
         }
-        for (index, referenced) in dylib_referenced.iter().enumerate() {
-            if !referenced && !self.dylibs.get(DylibId(index)).delete {
+        for (index, out_index) in out_dylibs_index.iter().enumerate() {
+            if out_index.is_none() && !self.dylibs.get(DylibId(index)).delete {
                 return Err(Error::new("Dylib is not referenced by a load command"));
             }
         }
+        for symbol in &self.symbols {
+            if let Some(id) = symbol.dylib {
+                if out_dylibs_index[id.0].is_none_or(macho::SymbolLibrary::is_reserved) {
+                    return Err(Error::new("Symbol refers to an unsupported dylib"));
+                }
+            }
+        }
 
         // Start calculating offsets of everything.
         let encoder = self.encoder();
@@ -1086,11 +1098,18 @@ impl<'data> Builder<'data> {
                 symbol.n_sect
             };
             let n_strx = out_symbol.name.map(|id| strtab.get_offset(id)).unwrap_or(0);
+            let n_desc = if let Some(id) = symbol.dylib {
+                symbol
+                    .n_desc
+                    .with_library(out_dylibs_index[id.0].unwrap_or_default())
+            } else {
+                symbol.n_desc
+            };
             let nlist = &write::macho::Nlist {
                 n_strx,
                 n_type: symbol.n_type,
                 n_sect,
-                n_desc: symbol.n_desc,
+                n_desc,
                 n_value: symbol.n_value,
             };
             encoder.nlist(buffer, nlist);
-- 
2.43.0


From 439e422756c17992b445f736c2da7c8ede063878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 26/37] fix: build/macho: reject multiple symbol tables when
 reading

The symbol indices were checked against the last symbol table only, and
referred to the first.
---
 src/build/macho.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index b92adf8..836d27c 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -136,6 +136,7 @@ impl<'data> Builder<'data> {
             dylibs_len: 0,
             indirect_symbols: &[][..],
         };
+        let mut have_symtab = false;
         let mut page_size_bits = builder.page_size.trailing_zeros();
         let mut commands = header.load_commands(endian, data, 0)?;
         while let Some(command) = commands.next()? {
@@ -152,6 +153,10 @@ impl<'data> Builder<'data> {
                     page_size_bits = page_size_bits.min(fileoff.trailing_zeros());
                 }
                 LoadCommandVariant::Symtab(symtab) => {
+                    if have_symtab {
+                        return Err(Error::new("Unsupported multiple LC_SYMTAB"));
+                    }
+                    have_symtab = true;
                     state.symbols_len = symtab.nsyms.get(endian) as usize;
                 }
                 LoadCommandVariant::Dysymtab(dysymtab) => {
-- 
2.43.0


From ecd7bddcaf58a5dddd9577547f949ef919971900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 27/37] fix: write/coff: write the number of line numbers of
 sections

---
 src/write/coff/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index a2797c3..e9138bd 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -174,7 +174,7 @@ impl<'a> Writer<'a> {
             } else {
                 (section.number_of_relocations as u16).into()
             },
-            number_of_linenumbers: 0.into(),
+            number_of_linenumbers: section.number_of_linenumbers.into(),
             characteristics: section.characteristics.into(),
         };
         match section.name {
-- 
2.43.0


From 16a4e0fb0bb287c9ebcf6f071e9582665230a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 28/37] fix: read/coff: return an empty name for symbols with
 no name

---
 src/read/coff/symbol.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/coff/symbol.rs b/src/read/coff/symbol.rs
index 0cc1da9..c30db9c 100644
--- a/src/read/coff/symbol.rs
+++ b/src/read/coff/symbol.rs
@@ -554,6 +554,10 @@ pub trait Symbol: Debug + Pod + read::private::Sealed {
         if name[0] == 0 {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
             let offset = u32::from_le_bytes(name[4..8].try_into().unwrap());
+            if offset == 0 {
+                // An empty name. Offset 0 is the length of the string table.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid COFF symbol name offset")
-- 
2.43.0


From 2edeb88d96e43cfdd5e9172831bb81c2ec04a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:16 +0000
Subject: [PATCH 29/37] fix: write/coff: reject file names that are too long

---
 src/write/coff/object.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 0dc6bf7..431c64f 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -570,6 +570,9 @@ impl<'a> Object<'a> {
                 }
                 SymbolKind::File => {
                     // Name goes in auxiliary symbol records.
+                    if symbol.name.len() > usize::from(u8::MAX) * coff::IMAGE_SIZEOF_SYMBOL {
+                        return Err(Error("file name is too long".into()));
+                    }
                     symbol_offsets[index].aux_count = writer.reserve_aux_file_name(&symbol.name);
                     name = b".file";
                 }
-- 
2.43.0


From 98a867daf41280a284aeb24463b4d78d44e74fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:27 +0000
Subject: [PATCH 30/37] fix: write/coff: reject files with too many sections

---
 src/write/coff/object.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 431c64f..2b6ffc9 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -427,6 +427,10 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn coff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
+        if self.sections.len() > usize::from(coff::IMAGE_SYM_SECTION_MAX) {
+            return Err(Error(format!("too many sections: {}", self.sections.len())));
+        }
+
         let mut writer = writer::Writer::new(buffer);
 
         // Add section strings to strtab.
-- 
2.43.0


From a26a5bd50cb2b9d38b89530fe73c83b4169c02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:48 +0000
Subject: [PATCH 31/37] fix: write/xcoff: ignore the flags in r_rsize when
 writing addends

---
 src/write/xcoff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 9ef4e25..120d1a2 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -210,7 +210,8 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("unexpected relocation {:?}", reloc)));
         };
-        Ok(r_rsize + 1)
+        // The high bits are flags.
+        Ok((r_rsize & 0x3f) + 1)
     }
 
     pub(crate) fn xcoff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
-- 
2.43.0


From 70974191529624c32121175aa1fb6d446aa5e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:48 +0000
Subject: [PATCH 32/37] fix: write/xcoff: reject numbers of sections and
 relocations that overflow

---
 src/write/xcoff.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 120d1a2..a0eab87 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -236,6 +236,21 @@ impl<'a> Object<'a> {
             )
         };
 
+        // Section numbers are signed 16-bit values.
+        if i16::try_from(self.sections.len()).is_err() {
+            return Err(Error(format!("too many sections: {}", self.sections.len())));
+        }
+        // 65535 would refer to an overflow section header, which is unsupported.
+        for section in &self.sections {
+            if !is_64 && section.relocations.len() >= 0xffff {
+                return Err(Error(format!(
+                    "too many relocations in section `{}`: {}",
+                    section.name().unwrap_or(""),
+                    section.relocations.len()
+                )));
+            }
+        }
+
         // Calculate offsets and build strtab.
         let mut offset = 0;
         let mut strtab = StringTable::default();
-- 
2.43.0


From bb2b1e0563f968fb0d7fb8eedb045076c5e0ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:24 +0000
Subject: [PATCH 33/37] fix: rewrite: don't look for overlaps in files without
 segments

---
 crates/rewrite/src/elf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 4b7131f..8f898e0 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -651,6 +651,11 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     builder.delete_unused_versions();
     builder.set_section_sizes();
 
+    if builder.segments.is_empty() {
+        // Sections in relocatable files don't have addresses, so they can't overlap.
+        return Ok(());
+    }
+
     let mut added_p_flags = Vec::new();
     let mut added_segments = 0;
 
-- 
2.43.0


From f1ee05e57591dff9526ab1703b528b2d832ea5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:02 +0000
Subject: [PATCH 34/37] fix: rewrite: update PT_INTERP, PT_DYNAMIC and PT_PHDR
 when their contents change size

---
 crates/rewrite/src/elf.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 8f898e0..f554d37 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -656,6 +656,14 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
         return Ok(());
     }
 
+    // The sizes of these sections may have changed.
+    for segment in &mut builder.segments {
+        if matches!(segment.p_type, elf::PT_INTERP | elf::PT_DYNAMIC) && !segment.sections.is_empty()
+        {
+            segment.recalculate_ranges(&builder.sections);
+        }
+    }
+
     let mut added_p_flags = Vec::new();
     let mut added_segments = 0;
 
@@ -663,7 +671,7 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     loop {
         let mut move_sections = find_move_sections(builder, added_segments)?;
         if move_sections.is_empty() {
-            return Ok(());
+            break;
         }
 
         // Calculate the number of additional PT_LOAD segments needed.
@@ -803,17 +811,19 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             );
         }
 
-        // Update the PT_PHDR segment to include the new program headers.
-        let size = builder.program_headers_size();
-        for segment in &mut builder.segments {
-            if segment.p_type != elf::PT_PHDR {
-                continue;
-            }
-            segment.p_filesz = size;
-            segment.p_memsz = size;
+        break;
+    }
+
+    // Update the PT_PHDR segment to include the new program headers.
+    let size = builder.program_headers_size();
+    for segment in &mut builder.segments {
+        if segment.p_type != elf::PT_PHDR {
+            continue;
         }
-        return Ok(());
+        segment.p_filesz = size;
+        segment.p_memsz = size;
     }
+    Ok(())
 }
 
 fn find_move_sections(
-- 
2.43.0


From 366fa00679a6067cf8141b769af831cd6eddece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:41 +0000
Subject: [PATCH 35/37] fix: read: reject zlib data that does not end at the
 recorded size

---
 src/read/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/read/mod.rs b/src/read/mod.rs
index fdb4ae1..3aca922 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -1336,7 +1336,7 @@ impl<'data> CompressedData<'data> {
                 match self.format {
                     CompressionFormat::Zlib => {
                         let mut decompress = flate2::Decompress::new(true);
-                        decompress
+                        let status = decompress
                             .decompress_vec(
                                 self.data,
                                 &mut decompressed,
@@ -1344,6 +1344,10 @@ impl<'data> CompressedData<'data> {
                             )
                             .ok()
                             .read_error("Invalid zlib compressed data")?;
+                        // The output is limited to `size`, so a longer stream does not end.
+                        if status != flate2::Status::StreamEnd {
+                            return Err(Error("Incomplete zlib compressed data"));
+                        }
                     }
                     CompressionFormat::Zstandard => {
                         let mut decoder = ruzstd::decoding::FrameDecoder::new();
-- 
2.43.0


From 72c0c28e60fc04d338309ed2e13a395b98552566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:12 +0000
Subject: [PATCH 36/37] fix: write/macho: reject addends that overflow
 ARM64_RELOC_ADDEND

---
 src/write/macho/object.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index bb2efe5..0de66c4 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -811,6 +811,11 @@ impl<'a> Object<'a> {
                             }
                         };
 
+                        // The addend is a signed 24-bit field.
+                        if !(-0x80_0000..=0x7f_ffff).contains(&reloc.addend) {
+                            return Err(Error(format!("relocation addend overflow {:?}", reloc)));
+                        }
+
                         let reloc_info = macho::RelocationInfo {
                             r_address: reloc.offset as u32,
                             r_symbolnum: reloc.addend as u32,
-- 
2.43.0


From efd6ee53183880b84cb06cfd8d1f3cfccef53dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:05 +0000
Subject: [PATCH 37/37] fix: write/macho: treat ILP32 branches like 64-bit ARM
 ones

---
 src/write/macho/object.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 0de66c4..80f4785 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -319,7 +319,11 @@ impl<'a> Object<'a> {
             return Ok(());
         };
         // Aarch64 relocs of these sizes act as if they are double-word length
-        if self.architecture == Architecture::Aarch64 && matches!(size, 12 | 21 | 26) {
+        if matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        ) && matches!(size, 12 | 21 | 26)
+        {
             size = 32;
         }
         let r_length = match size {
@@ -417,7 +421,10 @@ impl<'a> Object<'a> {
             relocation.addend += pcrel_offset;
         }
         // Determine if addend is implicit.
-        let implicit = if self.architecture == Architecture::Aarch64 {
+        let implicit = if matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        ) {
             match r_type {
                 macho::ARM64_RELOC_BRANCH26
                 | macho::ARM64_RELOC_PAGE21
-- 
2.43.0

