From 5c105afb2c516318a99953ba2adea432c07c72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 01/19] fix: save the address of the offending instruction for
 illegal, privilege and line A/F exceptions

---
 m68000/src/exception.rs                |  9 +++++++++
 m68000/src/interpreter_disassembler.rs |  9 +++++++--
 m68000/src/interpreter_fast.rs         | 10 ++++++++--
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index f66be65..2f156cc 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -98,6 +98,15 @@ const fn is_interrupt(vector: u8) -> bool {
     vector >= Vector::Level1OnChipInterrupt as u8 && vector <= Vector::Level7OnChipInterrupt as u8
 }
 
+/// Returns true if the program counter saved by the exception is the address of the instruction that caused it,
+/// and not the address of the next one (MC68000UM 6.3.6 and 6.3.7).
+pub(super) const fn saves_instruction_pc(vector: u8) -> bool {
+    vector == Vector::IllegalInstruction as u8 ||
+    vector == Vector::PrivilegeViolation as u8 ||
+    vector == Vector::LineAEmulator as u8 ||
+    vector == Vector::LineFEmulator as u8
+}
+
 /// M68000 exception, with a vector number and a priority.
 ///
 /// This struct implements `From<u8>` and `From<Vector>`, to create an
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 865a433..2fc0d83 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{saves_instruction_pc, Exception, Vector};
 use crate::instruction::Instruction;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -72,7 +72,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if saves_instruction_pc(e) {
+                    self.regs.pc.0 = instruction.pc;
+                }
+                Some(e)
+            },
         };
 
         (instruction.pc, dis, cycle_count, exception)
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index a8f0672..77ef539 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{saves_instruction_pc, Exception, Vector};
 use crate::instruction::*;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -102,6 +102,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             cycle_count += self.process_pending_exceptions(memory);
         }
 
+        let pc = self.regs.pc;
         let opcode = match self.get_next_word(memory) {
             Ok(op) => op,
             Err(e) => return (cycle_count, Some(e)),
@@ -119,7 +120,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if saves_instruction_pc(e) {
+                    self.regs.pc = pc;
+                }
+                Some(e)
+            },
         };
 
         (cycle_count, exception)
-- 
2.43.0


From 1b7d03125a4a33eadc9f220569d37e27b7057ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 02/19] fix: ORI/EORI to CCR must not change the upper byte of
 SR

---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 77a498b..15044f9 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -992,7 +992,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_eoriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr ^= imm;
+        self.regs.sr ^= imm & CCR_MASK;
 
         Ok(CPU::EORICCR)
     }
@@ -1700,7 +1700,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_oriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr |= imm;
+        self.regs.sr |= imm & CCR_MASK;
 
         Ok(CPU::ORICCR)
     }
-- 
2.43.0


From a5b1cbfeae03e3d05a51b5041615e2374c57fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 03/19] fix: EXT.W sets N and Z from the extended word

---
 m68000/src/interpreter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 15044f9..c138b3c 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1025,12 +1025,16 @@ impl<CPU: CpuDetails> M68000<CPU> {
         if mode == 0b010 {
             let d = self.regs.d[reg as usize].0 as i8 as u16;
             self.regs.d_word(reg, d);
+
+            self.regs.sr.n = d & SIGN_BIT_16 != 0;
+            self.regs.sr.z = d == 0;
         } else {
             self.regs.d[reg as usize].0 = self.regs.d[reg as usize].0 as i16 as u32;
+
+            self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
+            self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         }
 
-        self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
-        self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         self.regs.sr.v = false;
         self.regs.sr.c = false;
 
-- 
2.43.0


From b63fc3852732456d6ea5e2e4dc9dba21b43b7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 04/19] fix: JSR computes its target before pushing the return
 address

---
 m68000/src/interpreter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index c138b3c..9a292d6 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1067,8 +1067,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut ea = EffectiveAddress::new(am, None);
 
         let mut exec_time = 0;
+        let addr = self.get_effective_address(&mut ea, &mut exec_time);
         self.push_long(memory, self.regs.pc.0)?;
-        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);
+        self.regs.pc.0 = addr;
 
         Ok(match am {
             AddressingMode::Ari(_) => CPU::JSR_ARI,
-- 
2.43.0


From 7812f3074ae2dff55c1da919488a574f4482b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 05/19] fix: LINK A7 pushes the decremented stack pointer

---
 m68000/src/interpreter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 9a292d6..31e8bea 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1102,8 +1102,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_link<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, reg: u8, disp: i16) -> InterpreterResult {
-        self.push_long(memory, self.regs.a(reg))?;
-        self.regs.a_mut(reg).0 = self.regs.sp();
+        let addr = self.ariwpr(7, Size::Long);
+        memory.set_long(addr.even()?, self.regs.a(reg)).ok_or(ACCESS_ERROR)?;
+        self.regs.a_mut(reg).0 = addr;
         *self.regs.sp_mut() += disp as u32;
 
         Ok(CPU::LINK)
-- 
2.43.0


From 0229c40a21e8fa2b9d55bcdc362c3f880499a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 06/19] fix: CHK sets N according to the bound that was crossed

---
 m68000/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 31e8bea..0444124 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -687,6 +687,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let data = self.regs.d[reg as usize].0 as i16;
 
         if data < 0 || data > src {
+            self.regs.sr.n = data < 0;
             Err(Vector::ChkInstruction as u8)
         } else {
             Ok(CPU::CHK_NO_TRAP + exec_time)
-- 
2.43.0


From 8e2aee1e45d119952d09f139c32568992f1b041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 07/19] fix: DIVS quotient -32768 is not an overflow

---
 m68000/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 0444124..68d0f47 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -861,7 +861,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.
         self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.
-        self.regs.sr.v = quot <= i16::MIN as i32 || quot > i16::MAX as i32;
+        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;
 
         if !self.regs.sr.v {
             self.regs.d[reg as usize].0 = (rem as u16 as u32) << 16 | (quot as u16 as u32);
-- 
2.43.0


From 8cd7fee39650a62da4577e6434b5bfe25dc55657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 08/19] fix: MOVEM to (An)+ and MOVEM from -(An) are not 68000
 instructions

---
 m68000/src/bin/decoder.rs | 6 ++++--
 m68000/src/decoder.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/m68000/src/bin/decoder.rs b/m68000/src/bin/decoder.rs
index 21c1bbc..12579d4 100644
--- a/m68000/src/bin/decoder.rs
+++ b/m68000/src/bin/decoder.rs
@@ -219,9 +219,11 @@ fn generate_isa(opcodes: &mut [Isa; 65536]) {
 
     generate_opcodes(opcodes, "010011100110abbb", &[&V0_1, &V0_7], Isa::Moveusp);
 
-    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2__5_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001b100ddd", &[&V0_1, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010010001b111ddd", &[&V0_1, &V0_1], Isa::Movem);
-    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2__5_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001b011ddd", &[&V0_1, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010011001b111ddd", &[&V0_1, &V0_3], Isa::Movem);
 
     generate_opcodes(opcodes, "0000aaabbb001ccc", &[&V0_7, &V4_7, &V0_7], Isa::Movep);
diff --git a/m68000/src/decoder.rs b/m68000/src/decoder.rs
index 2b086a7..8d052b3 100644
--- a/m68000/src/decoder.rs
+++ b/m68000/src/decoder.rs
@@ -1178,11 +1178,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea,
     Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
@@ -1243,11 +1243,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-- 
2.43.0


From 9ff182236a77271cdc20d5d79723ab53d166f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 09/19] fix: distinct exceptions of the same priority can be
 pending together

Exception::cmp only compared priorities, so the pending set dropped every
second interrupt or trap. Interrupts are now ordered by level, and the on-chip
interrupts have the priority of interrupts.
---
 m68000/src/exception.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 2f156cc..b2399a8 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -83,6 +83,7 @@ const fn get_vector_priority(vector: u8) -> u8 {
         2 => 1, // Access Error.
         9 => 2, // Trace.
         24..=31 => 3, // Interrupt.
+        57..=63 => 3, // On-chip Interrupt.
         64..=255 => 3, // User Interrupt.
         4 => 4, // Illegal.
         8 => 5, // Privilege.
@@ -146,12 +147,13 @@ impl PartialOrd for Exception {
 
 impl Ord for Exception {
     /// For BTreeSet, compare by actual priority and not by the value itself, so higher number means less priority.
+    ///
+    /// Interrupts are then ordered by level, and distinct vectors are never equal so that all of them can be pending.
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.priority.cmp(&other.priority) {
-            Ordering::Greater => Ordering::Less,
-            Ordering::Less => Ordering::Greater,
-            Ordering::Equal => Ordering::Equal,
-        }
+        let level = |ex: &Self| if ex.is_interrupt() { ex.vector & 0x7 } else { 0 };
+        other.priority.cmp(&self.priority)
+            .then(level(self).cmp(&level(other)))
+            .then(self.vector.cmp(&other.vector))
     }
 }
 
-- 
2.43.0


From f53e77fde8504231c22f932c1290c45b8312dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 10/19] fix: a masked interrupt request does not end the
 stopped state

---
 m68000/src/exception.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index b2399a8..7a0c45d 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -162,13 +162,19 @@ impl<CPU: CpuDetails> M68000<CPU> {
     pub fn exception(&mut self, ex: Exception) {
         if ex.vector == Vector::ResetSspPc as u8 ||
            ex.vector == Vector::Trace as u8 ||
-           ex.is_interrupt() {
+           ex.is_interrupt() && !self.is_masked(&ex) {
             self.stop = false;
         }
 
         self.exceptions.insert(ex);
     }
 
+    /// Returns true if the given exception is an interrupt masked by the current interrupt mask.
+    fn is_masked(&self, ex: &Exception) -> bool {
+        let level = ex.vector & 0x7;
+        ex.is_interrupt() && level != 7 && level <= self.regs.sr.interrupt_mask
+    }
+
     /// Resets the CPU by fetching the reset vectors.
     fn reset<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");
-- 
2.43.0


From 7fb89280f6717496e916677844595622036dd148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 11/19] fix: STOP does not wait when an unmasked interrupt is
 already pending

---
 m68000/src/exception.rs   | 5 +++++
 m68000/src/interpreter.rs | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 7a0c45d..2c0074f 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -175,6 +175,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
         ex.is_interrupt() && level != 7 && level <= self.regs.sr.interrupt_mask
     }
 
+    /// Returns true if an interrupt that is not masked is pending.
+    pub(super) fn is_interrupt_pending(&self) -> bool {
+        self.exceptions.iter().any(|ex| ex.is_interrupt() && !self.is_masked(ex))
+    }
+
     /// Resets the CPU by fetching the reset vectors.
     fn reset<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");
diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 68d0f47..369d9be 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -2025,7 +2025,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
         self.check_supervisor()?;
 
         self.regs.sr = imm.into();
-        self.stop = true;
+        // An interrupt that is already pending and no longer masked resumes the execution immediately.
+        self.stop = !self.is_interrupt_pending();
         Ok(CPU::STOP)
     }
 
-- 
2.43.0


From 366606405c0d9076f3e817171728e3ef5e5b3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:20 +0000
Subject: [PATCH 12/19] fix: the disassembling interpreter advances PC past a
 refused opcode fetch like the plain one

---
 m68000/src/interpreter_disassembler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 2fc0d83..9b45ae4 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -14,9 +14,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// If an error occurs when reading the next instruction, the Err variant contains the exception vector.
     fn get_next_instruction<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> Result<Instruction, u8> {
         let mut iter = self.iter_from_pc(memory);
-        let instruction = Instruction::from_memory(&mut iter)?;
+        let instruction = Instruction::from_memory(&mut iter);
         self.regs.pc.0 = iter.next_addr;
-        Ok(instruction)
+        instruction
     }
 
     /// Runs the interpreter loop once and disassembles the next instruction if any.
-- 
2.43.0


From d976540c13589dec4cb79bf1199779a39f349a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 13/19] fix: cycle returns the cycles actually executed when
 they exceed the request and the CPU stops

---
 m68000/src/interpreter_fast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index 77ef539..2917d6a 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -22,7 +22,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             total += self.interpreter(memory);
 
             if self.stop {
-                return cycles;
+                return total.max(cycles);
             }
         }
 
-- 
2.43.0


From 2e46758deb66c6e8945061d3b67d55a15dc46b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 14/19] fix: long read-modify-write counts the address
 calculation time once

---
 m68000/src/memory_access.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 28cf90f..01bc975 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -162,9 +162,13 @@ impl<CPU: CpuDetails> M68000<CPU> {
             AddressingMode::Drd(reg) => { self.regs.d[reg as usize].0 = value; Ok(()) },
             AddressingMode::Ard(reg) => { self.regs.a_mut(reg).0 = value; Ok(()) },
             _ => {
+                // The address calculation time is only counted once when the operand is read then written.
+                let calculated = ea.address.is_some();
                 let addr = self.get_effective_address(ea, exec_time).even()?;
                 let r = memory.set_long(addr, value).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
+                if !calculated {
+                    *exec_time += 4;
+                }
                 r
             },
         }
-- 
2.43.0


From e163c95748a5044907177578677508c416a79471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 15/19] fix: a word access on the last byte of a byte slice is
 out of range

---
 m68000/src/memory_access.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 01bc975..9484916 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -244,7 +244,7 @@ impl MemoryAccess for [u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len().saturating_sub(1) {
             Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
         } else {
             None
@@ -263,7 +263,7 @@ impl MemoryAccess for [u8] {
 
     fn set_word(&mut self, addr: u32, data: u16) -> Option<()> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len().saturating_sub(1) {
             self[addr] = (data >> 8) as u8;
             self[addr.wrapping_add(1)] = data as u8;
             Some(())
@@ -287,7 +287,7 @@ impl MemoryAccess for &[u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len().saturating_sub(1) {
             Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
         } else {
             None
-- 
2.43.0


From 56c307fb04776f302a8cade66b724c0e291240d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 16/19] fix: the assembler refuses invalid registers in ADDA,
 CMPA, SUBA, MOVE and MOVEA operands

---
 m68000/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/m68000/src/assembler.rs b/m68000/src/assembler.rs
index 99aed82..64f5405 100644
--- a/m68000/src/assembler.rs
+++ b/m68000/src/assembler.rs
@@ -302,6 +302,7 @@ pub fn add(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn adda(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "ADDA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1101, reg, size, am)
 }
 
@@ -448,6 +449,7 @@ pub fn cmp(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
 pub fn cmpa(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "CMPA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1011, reg, size, am)
 }
 
@@ -562,12 +564,14 @@ pub fn lsr(count_reg: u16, dir: Direction, size: Size, reg_shift: bool, reg: u16
 pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16> {
     assert!(dst.verify(&MODES_0234567, &[0, 1]), "Invalid destination addressing mode.");
     assert!(!(src.is_ard() && size.is_byte()), "Byte size cannot be used with Address Register Direct source operand.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, dst, src)
 }
 
 pub fn movea(size: Size, dst_reg: u8, src: AddressingMode) -> Vec<u16> {
     assert!(dst_reg <= 7, "Invalid address register.");
     assert!(size != Size::Byte, "MOVEA cannot be byte sized.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, AddressingMode::Ard(dst_reg), src)
 }
 
@@ -801,6 +805,7 @@ pub fn sub(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn suba(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "SUBA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1001, reg, size, am)
 }
 
-- 
2.43.0


From dbf0234e93c86a8bacfba97ef3368adb9b70e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 17/19] fix: m68000-ffi.h includes stddef.h, which declares the
 size_t it uses

---
 include/m68000/m68000-ffi.h  | 1 +
 m68000-ffi/cbindgen-ffi.toml | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/m68000/m68000-ffi.h b/include/m68000/m68000-ffi.h
index 6c6396d..82396c4 100644
--- a/include/m68000/m68000-ffi.h
+++ b/include/m68000/m68000-ffi.h
@@ -1,6 +1,7 @@
 #ifndef M68000_FFI_H
 #define M68000_FFI_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include "m68000.h"
 
diff --git a/m68000-ffi/cbindgen-ffi.toml b/m68000-ffi/cbindgen-ffi.toml
index 50d55dd..d600165 100644
--- a/m68000-ffi/cbindgen-ffi.toml
+++ b/m68000-ffi/cbindgen-ffi.toml
@@ -2,7 +2,7 @@ language = "C"
 include_guard = "M68000_FFI_H"
 
 include_version = false
-sys_includes = ["stdint.h"]
+sys_includes = ["stddef.h", "stdint.h"]
 includes = ["m68000.h"]
 no_includes = true
 cpp_compat = true
-- 
2.43.0


From cb80a61d1dcf0e18108cd51eaeaf144a41d17349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 18/19] fix: the C disassembling functions write nothing in an
 empty buffer

---
 m68000-ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000-ffi/src/lib.rs b/m68000-ffi/src/lib.rs
index 9b6ade9..af194e8 100644
--- a/m68000-ffi/src/lib.rs
+++ b/m68000-ffi/src/lib.rs
@@ -345,7 +345,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len != 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
@@ -375,7 +375,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len != 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
-- 
2.43.0


From 271e812c7cd5cc65b31d7179ae6b252c7b3ff179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:39 +0000
Subject: [PATCH 19/19] fix: bits() with the whole word as field

The documented range [0, 15] shifted a 16 bits 1 by 16, which panics in debug builds and returns 0 in release builds.
---
 m68000/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/utils.rs b/m68000/src/utils.rs
index f34bc17..87a7dcc 100644
--- a/m68000/src/utils.rs
+++ b/m68000/src/utils.rs
@@ -19,7 +19,7 @@ pub const fn bit(data: u16, bit: u16) -> bool {
 /// Returns bits `[beg, end]` inclusive, starting at 0.
 #[inline(always)]
 pub const fn bits(d: u16, beg: u16, end: u16) -> u16 {
-    let mask = (1 << (end + 1 - beg)) - 1;
+    let mask = ((1u32 << (end + 1 - beg)) - 1) as u16;
     d >> beg & mask
 }
 
-- 
2.43.0

