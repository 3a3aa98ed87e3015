From 2b3cfd764477fa4a2cb50ce7e66e8ff98b0bb989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 01/21] fix: align_end overflowed for already aligned addresses
 in the last block

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..b057330 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,13 +18,12 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
         addr
     } else {
-        next_aligned
+        (addr + alignment) & !mask
     }
 }
 
-- 
2.43.0


From 031266ee85a26e1b1ee39765795936b42c166eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 02/21] fix: 16-bit address arithmetic panicked instead of
 wrapping around

---
 src/blf4/isa/handlers.rs | 18 +++++++++---------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..28de171 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -428,7 +428,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -437,7 +437,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -450,7 +450,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -459,7 +459,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -472,7 +472,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -481,7 +481,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -495,7 +495,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -505,7 +505,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -519,7 +519,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..eef794e 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -473,7 +473,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = addr.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -491,7 +491,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -500,7 +500,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -515,24 +515,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From 2d3e50c707b847f4e1839eba5a1942c3c87fa932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 03/21] fix: shifting by the operand width or more panicked

---
 src/blf4/isa/handlers.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 28de171..5d36592 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,45 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
-- 
2.43.0


From 7f3cfe9b55ba5585ce66f65766411bd5e77a69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 04/21] fix: writing through a dirty level 1 entry overwrote it
 with the level 2 entry

---
 src/blf4/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index eef794e..0f212a1 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -374,14 +374,16 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
-
-            for (addr, undirty_byte) in dirty_iter {
+            let entries = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ];
+
+            for (addr, byte_with_dirty_flag) in entries {
+                let Some(undirty_byte) = byte_with_dirty_flag else {
+                    // already marked as dirty
+                    continue;
+                };
                 // set dirty flag
                 let new_dirty_byte = undirty_byte | 0b0001_0000;
                 // convert to byte because the dirty flag is in the first byte
-- 
2.43.0


From bf0ba029504facf460ef2d78ee6aed303d4cf79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 05/21] fix: faults while fetching an opcode bypassed the trap
 handler

---
 src/blf4/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 0f212a1..ee925ba 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,9 +234,11 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
+        let res = ctx
+            .fetch()
+            .and_then(|opcode| OP_HANDLERS[opcode as usize](&mut ctx));
 
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match res {
             Ok(()) => (),
             Err(tm) => {
                 ctx.cpu.flags.trap = true;
-- 
2.43.0


From 1bbaa33f55e0adcda032a6cf263acf01bdcb2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 06/21] fix: ROM images smaller than the ROM panicked

---
 src/mem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..c984f7b 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,7 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        self.rom = Some(std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0)));
         self
     }
 }
-- 
2.43.0


From f7a3b2e0ab37dd2ea14c8c31affeb392801218dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 07/21] fix: stack size section had the same name as the heap
 size section

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From 5ea585eda99c20b781d3f6a44c4ca45848d02b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 08/21] fix: reading a global symbol with an empty name
 panicked

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..7efa1b7 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
-- 
2.43.0


From 704e33c7d548ee22ca62dd596bc931d3aa819b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 09/21] fix: objects with unknown reserved sections panicked
 instead of being rejected

---
 src/aalv/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..e15942c 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected section",
+            ))
         } else {
             Ok(obj)
         }
-- 
2.43.0


From 3ff2ed1c81ddcd4bb6a316a6fa2213c3ac1b866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 10/21] fix: lengths of sections too big for their header were
 silently truncated

---
 src/aalv/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..5cce1b2 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -208,8 +208,12 @@ impl<F: Write + Seek> AalvWriter<F> {
         segment.write(&mut w)?;
         let CountedWriter { writer: _, length } = w;
 
+        let section_length = u16::try_from(length).map_err(|_| {
+            io::Error::new(ErrorKind::InvalidInput, "section is bigger than 64 KiB")
+        })?;
+
         self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
-        self.file.write_all(&(length as u16).to_le_bytes())?;
+        self.file.write_all(&section_length.to_le_bytes())?;
         self.file.seek(SeekFrom::Current(length as i64))?;
 
         Ok(())
-- 
2.43.0


From 4ce7a5d6194444502a9c7c2b64ad4356e9c61013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 11/21] fix: magic was missed right after a partial occurence
 of it

---
 src/aalv/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 5cce1b2..87fc840 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -91,6 +91,9 @@ impl<F: BufRead + Seek> AalvReader<F> {
             if magic_buf == AALV_MAGIC.as_bytes() {
                 break;
             }
+
+            // the bytes just read might contain the start of the magic
+            self.file.seek(SeekFrom::Start(self.file_offset + 1))?;
         }
 
         Ok(())
-- 
2.43.0


From 63fc7408e7ad014bf3d60e755e26d5e1fb839b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 12/21] fix: unfinished hexadecimal escapes panicked the
 assembler

---
 src/source/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..c9a089c 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -316,8 +316,11 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
             b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
+                s.get(2..4)
+                    .and_then(|hex| {
+                        u8::from_str_radix(String::from_utf8_lossy(hex).as_ref(), 16).ok()
+                    })
+                    .ok_or(InvalidEscapeSequence)?,
                 &s[4..],
             ),
             c => return Err(InvalidEscapeCharacter(*c)),
-- 
2.43.0


From 373edcbb12dc355eb67436cc203a77ae71403db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 13/21] fix: relocations of wide directives had the segment
 start added twice

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..1e2e311 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From a61ee2e8a3a2e107bbc9d97731976a4a8d721cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 14/21] fix: disassembly of mul and div was missing the last
 operand

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..c286db7 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -198,10 +198,10 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => quadop("div", ByteRegister, &mut c, f)?,
+        DIV_W => quadop("div", WideRegister, &mut c, f)?,
+        MUL_B => quadop("mul", ByteRegister, &mut c, f)?,
+        MUL_W => quadop("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -262,6 +262,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn quadop<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From c847b28b16dc1339681474dd571060795b89a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 15/21] fix: disassembling an instruction at the end of the
 address space panicked

---
 src/disassemble.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index c286db7..82218a5 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -213,14 +213,16 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     let mut annotated_source = String::with_capacity(op.len() + 21);
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
+    let length = next_instruction_location.wrapping_sub(addr);
+
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    for _ in 0..length {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
     // restore rpc
     c.cpu.program_counter = addr;
 
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - length) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From dcb7ac041b59531f1ae1858cdb18d90837a6f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 16/21] fix: segments reaching the end of the address space
 were not mapped

---
 src/blf4/std_kernel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index be554ec..c82ccb0 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -140,8 +140,10 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // let mut bytes = bytes;
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
-        let range = start_vpage..offset + bytes.len() as u16;
+        // the end might be one past the last address
+        let range = start_vpage as usize..offset as usize + bytes.len();
         for vaddr in range.step_by(PAGE_SIZE as usize) {
+            let vaddr = vaddr as u16;
             let paddr = self.map(vaddr, perm_bits);
 
             // write page to memory
-- 
2.43.0


From 604dfea5c197e28066aba1a36d6707f9b2fe4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 17/21] fix: heap was mapped from the start of its initial data
 instead of the end

---
 src/blf4/std_kernel/load_user_binary.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..7e26504 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -47,8 +47,9 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
+                let len = bytes.len() as u16;
+                let heap = align_end(offset + len, PAGE_SIZE);
+                let size = heap_size.saturating_sub(len);
                 mmbuilder.map_wr_pages(heap, size);
             }
         }
-- 
2.43.0


From 2792fb6df5e9d7ccaea28ebba1a04ad424e25cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 18/21] hooks: open private parts to the verification harness
 under cfg(telda_verif)

---
 src/aalv/mod.rs        |  9 +++++++++
 src/blf4/mod.rs        |  3 +++
 src/blf4/std_kernel.rs | 18 ++++++++++++++++++
 src/lib.rs             |  2 ++
 src/source/mod.rs      | 43 ++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 75 insertions(+)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 87fc840..4934641 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -278,3 +278,12 @@ pub mod sample {
         }
     }
 }
+
+#[cfg(telda_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn window<R: Read>(reader: R, length: usize) -> impl Read {
+        ReadWindow { reader, length }
+    }
+}
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index ee925ba..e3ea0aa 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -11,7 +11,10 @@ use crate::{
 pub mod isa;
 
 mod register_type;
+#[cfg(not(telda_verif))]
 mod std_kernel;
+#[cfg(telda_verif)]
+pub mod std_kernel;
 
 pub use self::register_type::*;
 use isa::OP_HANDLERS;
diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index c82ccb0..27f300e 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -212,3 +212,21 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         self.kernel.allocate_page(self.mem)
     }
 }
+
+#[cfg(telda_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn kernel(error_handler: u16, page_bumper: u32, next_free: Option<u32>) -> EKernel {
+        EKernel { error_handler, page_bumper, next_free }
+    }
+    pub fn parts(k: &EKernel) -> (u16, u32, Option<u32>) {
+        (k.error_handler, k.page_bumper, k.next_free)
+    }
+    pub fn mmapper<'a, M: MainMemory>(k: &'a mut EKernel, mem: &'a mut M, page_table1: u32) -> MmapBuilder<'a, M> {
+        k.mmapper(mem, page_table1)
+    }
+    pub fn map<M: MainMemory>(b: &mut MmapBuilder<'_, M>, virt: u16, flags_byte: u8) -> u32 {
+        b.map(virt, flags_byte)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index b057330..bb530cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+// `telda_verif` opens private parts to the verification harness
+#![allow(unexpected_cfgs)]
 pub mod aalv;
 pub mod blf4;
 pub mod disassemble;
diff --git a/src/source/mod.rs b/src/source/mod.rs
index c9a089c..7ff8300 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -1126,3 +1126,46 @@ impl DataOperand {
         }
     }
 }
+
+#[cfg(telda_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn number(arg: &str) -> StdResult<SourceOperand, ErrorType> {
+        parse_number(arg)
+    }
+    pub fn bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
+        parse_bytechar(s)
+    }
+    pub fn size(d: &DataOperand) -> u16 {
+        d.size()
+    }
+    pub struct Syms(Symbols);
+    impl Syms {
+        pub fn new() -> Self {
+            Syms(Symbols::new())
+        }
+        pub fn ins(
+            &mut self,
+            s: &str,
+            ops: Vec<SourceOperand>,
+        ) -> StdResult<Option<(u8, DataOperand)>, &'static str> {
+            parse_ins(s, ops, &mut self.0, SourceLocation::new("", 1))
+        }
+        pub fn get_label(&mut self, lbl: &str) -> usize {
+            self.0.get_label(lbl, SourceLocation::new("", 1))
+        }
+        pub fn set_label(&mut self, lbl: &str, st: SegmentType, at: u16) -> bool {
+            self.0.set_label(lbl, Address(st, at), SourceLocation::new("", 1)).is_ok()
+        }
+        pub fn set_global(&mut self, id: usize) {
+            self.0.set_global(id)
+        }
+        pub fn set_reference(&mut self, id: usize) {
+            self.0.set_reference(id)
+        }
+        pub fn into_iter(self) -> impl Iterator<Item = (Box<str>, SymbolType, Option<(SegmentType, u16)>)> {
+            self.0.into_iter().map(|(l, t, r)| (l, t, r.ok().map(|a| (a.0, a.1))))
+        }
+    }
+}
-- 
2.43.0


From fa88220b2c1ad44e1de5c1e0446e678672dc32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 19/21] fix: loading a heap whose initial data ends at the end
 of the address space panicked

---
 src/blf4/std_kernel/load_user_binary.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 7e26504..86a4a69 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,10 +47,13 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let len = bytes.len() as u16;
-                let heap = align_end(offset + len, PAGE_SIZE);
-                let size = heap_size.saturating_sub(len);
-                mmbuilder.map_wr_pages(heap, size);
+                // the rest of the heap is the pages after its initial data, if there are any
+                let end = offset as usize + bytes.len();
+                let heap = end.next_multiple_of(PAGE_SIZE as usize);
+                if let Ok(heap) = u16::try_from(heap) {
+                    let size = heap_size.saturating_sub(bytes.len() as u16);
+                    mmbuilder.map_wr_pages(heap, size);
+                }
             }
         }
 
-- 
2.43.0


From 7403bcb211c24d9ecb8aec8080071d90f7c2636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 20/21] hooks: a contract for Symbols::get_label under
 cfg(telda_verif)

---
 src/source/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 7ff8300..1892c9d 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -1140,6 +1140,12 @@ pub mod verif {
     pub fn size(d: &DataOperand) -> u16 {
         d.size()
     }
+    pub static mut ID: usize = 0;
+    /// A contract for `Symbols::get_label`: any id
+    #[allow(private_interfaces)]
+    pub fn any_label(_: &mut Symbols, _: &str, _: SourceLocation) -> usize {
+        unsafe { ID }
+    }
     pub struct Syms(Symbols);
     impl Syms {
         pub fn new() -> Self {
-- 
2.43.0


From 476241285686d8bc31f3c8a11ce2618fe4ef3513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:55 +0000
Subject: [PATCH 21/21] fix: a segment or program that does not fit in the
 address space was assembled with wrapped addresses

---
 src/source/mod.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 1892c9d..63e1713 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -379,10 +379,16 @@ impl ProcessState {
     fn get_size(&self, st: SegmentType) -> u16 {
         self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    /// Gives whether the line fits in the segment
+    #[must_use]
+    fn add_line(&mut self, st: SegmentType, line: DataLine, size: usize) -> bool {
         let dls = self.dls.entry(st).or_default();
+        if size > (u16::MAX - dls.size) as usize {
+            return false;
+        }
         dls.lines.push(line);
-        dls.size += size;
+        dls.size += size as u16;
+        true
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -401,6 +407,16 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
+        if last_end > u16::MAX - (PAGE_SIZE - 1)
+            || s.size > u16::MAX - align_end(last_end, PAGE_SIZE)
+        {
+            let error = "segments do not fit in the address space".into();
+            add_error_opt(
+                &mut errors,
+                Error::new(src.clone(), 0, ErrorType::Other(error)),
+            );
+            break;
+        }
         s.start = align_end(last_end, PAGE_SIZE);
         last_end = s.start + s.size;
     }
@@ -488,6 +504,7 @@ fn inner_process<B: BufRead>(
         state: &mut ProcessState,
         symbols: &mut Symbols,
     ) -> Result<()> {
+        let mut fits = true;
         match line {
             SourceLine::DirSeg(seg) => {
                 let new_seg = match &*seg {
@@ -521,25 +538,25 @@ fn inner_process<B: BufRead>(
                         ErrorType::UnknownInstruction(s.into_boxed_str()),
                     ));
                 };
-                state.add_line(
+                fits = state.add_line(
                     *current_segment,
                     DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
+                    1 + dat_op.size() as usize,
                 );
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                fits = state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                fits = state.add_line(*current_segment, DataLine::Wide(wide), 2);
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                fits = state.add_line(*current_segment, DataLine::Raw(s), size);
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
@@ -567,6 +584,14 @@ fn inner_process<B: BufRead>(
             SourceLine::Comment => (),
         }
 
+        if !fits {
+            return Err(Error::new(
+                src,
+                ln,
+                ErrorType::Other("segment is too big".into()),
+            ));
+        }
+
         if state.unknown_defined() {
             return Err(Error::new(
                 src,
-- 
2.43.0

