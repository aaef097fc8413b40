From 076d6c40037e748f9aebc9a68d9616cb814c641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:42 +0000
Subject: [PATCH 1/4] fix: include() answers for both code pages whichever page
 is selected

include() took the start of the currently selected page as the start of the
code area. With page 1 selected it denied all of page 0 and claimed the data
page.
---
 monoasm/src/jit_memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..68306b7 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,8 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        let top = self.pages[0].contents();
+        top <= ptr && ptr < unsafe { top.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0


From 014198b8b741e80028eacf048b4fcec07ebbb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:11 +0000
Subject: [PATCH 2/4] fix: roundpd with a rip-relative operand refers to its
 label

The immediate was emitted behind the operand without being counted in the
displacement, so roundpd xmm, [rip + label], imm read one byte below the
label.
---
 monoasm/src/jit_memory.rs | 5 +++++
 monoasm_macro/src/asm.rs  | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 68306b7..238a374 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -630,6 +630,11 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// REX Op ModRM imm
+    pub fn enc_mr_imm(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: Imm) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, imm);
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..26365a4 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -239,8 +239,8 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                let imm: u8 = #op3;
+                jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, Imm::B(imm as i8));
             }
         }
 
-- 
2.43.0


From a500ffb7149d91ecbb0a05ecf3d924243de44111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 3/4] fix: a reference that does not fit in the page is not
 recorded for finalize()

---
 monoasm/src/jit_memory.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 238a374..adadf9d 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -412,6 +412,10 @@ impl JitMemory {
     pub fn save_reloc(&mut self, dest: DestLabel, offset: u8) {
         let page = self.page;
         let pos = self.counter;
+        // A slot which does not fit in the page can not be filled by `finalize()`.
+        if pos.0 + 4 > PAGE_SIZE {
+            panic!("Page size overflow")
+        }
         self.labels[dest]
             .target
             .push(TargetType::Rel { page, offset, pos });
@@ -420,6 +424,9 @@ impl JitMemory {
     /// Save relocaton slot for `DestLabel`.
     fn save_absolute_reloc(&mut self, page: Page, dest: DestLabel) {
         let pos = self[page].counter;
+        if pos.0 + 8 > PAGE_SIZE {
+            panic!("Page size overflow")
+        }
         self.labels[dest].target.push(TargetType::Abs { page, pos });
     }
 
-- 
2.43.0


From fa3b81667f51f58b81eb8c5875e953bd50cf2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:16 +0000
Subject: [PATCH 4/4] fix: dump_code() returns an error instead of panicking or
 listing nothing

---
 monoasm/src/jit_memory.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index adadf9d..4f19bbf 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -900,11 +900,18 @@ impl JitMemory {
 impl JitMemory {
     /// Dump generated code.
     pub fn dump_code(&self) -> Result<String, std::io::Error> {
+        use std::io::{Error, ErrorKind};
         use std::process::Command;
         let asm = self.as_slice();
+        let Some((start_pos, code_end, _end_pos)) = self.code_block.last() else {
+            return Ok(String::new());
+        };
+        if start_pos == code_end {
+            // objdump fails on an empty file.
+            return Ok(String::new());
+        }
         let mut file = tempfile::NamedTempFile::new()?;
-        let (start_pos, code_end, _end_pos) = self.code_block.last().unwrap();
-        file.write_all(&asm[start_pos.0..code_end.0]).unwrap();
+        file.write_all(&asm[start_pos.0..code_end.0])?;
 
         Command::new("objdump")
             .args([
@@ -914,12 +921,15 @@ impl JitMemory {
                 "binary",
                 "-m",
                 "i386",
-                file.path().to_str().unwrap(),
             ])
+            .arg(file.path())
             .output()
-            .map(|o| {
-                std::str::from_utf8(&o.stdout)
-                    .unwrap()
+            .and_then(|o| {
+                if !o.status.success() {
+                    return Err(Error::other(format!("objdump failed: {}", o.status)));
+                }
+                Ok(std::str::from_utf8(&o.stdout)
+                    .map_err(|err| Error::new(ErrorKind::InvalidData, err))?
                     .to_string()
                     .split_inclusive('\n')
                     .filter(|s| {
@@ -928,7 +938,7 @@ impl JitMemory {
                             && !s.contains("Disassembly of section")
                             && !s.contains("<.data>")
                     })
-                    .collect()
+                    .collect())
             })
     }
 }
-- 
2.43.0

