From 34fad95b35127043cff152f7d92c50eb54c70793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:19 +0000
Subject: [PATCH 1/9] verif: decrypting accessors and plain-interpreter hooks
 (cfg phantom_verif)

---
 fhevm/src/lib.rs         |   3 ++
 fhevm/src/verif_hooks.rs | 113 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 116 insertions(+)
 create mode 100644 fhevm/src/verif_hooks.rs

diff --git a/fhevm/src/lib.rs b/fhevm/src/lib.rs
index 50c83bd..2064594 100644
--- a/fhevm/src/lib.rs
+++ b/fhevm/src/lib.rs
@@ -18,5 +18,8 @@ pub use interpreter::*;
 pub(crate) use measurements::*;
 pub(crate) use pc_update::*;
 
+#[cfg(phantom_verif)]
+pub mod verif_hooks;
+
 #[cfg(test)]
 mod tests;
diff --git a/fhevm/src/verif_hooks.rs b/fhevm/src/verif_hooks.rs
new file mode 100644
index 0000000..4fc870a
--- /dev/null
+++ b/fhevm/src/verif_hooks.rs
@@ -0,0 +1,113 @@
+//! Read-only accessors for the out-of-tree verification harnesses.
+//! Compiled only with `--cfg phantom_verif`.
+
+use poulpy_core::{
+    layouts::{GLWEInfos, GLWESecretPreparedToRef},
+    GLWEDecrypt, ScratchTakeCore,
+};
+use poulpy_hal::{
+    api::{ModuleLogN, ModuleN},
+    layouts::{Backend, Scratch},
+};
+
+use crate::{
+    debug::InterpreterDebug, Instruction, InstructionsParser, Interpreter,
+    RD_UPDATE_RV32I_OP_LIST,
+};
+
+impl<BE: Backend> Interpreter<BE> {
+    /// Decrypts the 32 registers.
+    pub fn verif_registers<M, S>(&self, module: &M, sk: &S, scratch: &mut Scratch<BE>) -> Vec<u32>
+    where
+        S: GLWESecretPreparedToRef<BE> + GLWEInfos,
+        M: ModuleN + GLWEDecrypt<BE>,
+        Scratch<BE>: ScratchTakeCore<BE>,
+    {
+        let mut data: Vec<u32> = vec![0u32; 32];
+        self.registers.decrypt(module, &mut data, sk, scratch);
+        data
+    }
+
+    /// Decrypts the program counter.
+    pub fn verif_pc<M, S>(&self, module: &M, sk: &S, scratch: &mut Scratch<BE>) -> u32
+    where
+        S: GLWESecretPreparedToRef<BE> + GLWEInfos,
+        M: ModuleLogN + GLWEDecrypt<BE>,
+        Scratch<BE>: ScratchTakeCore<BE>,
+    {
+        self.pc_fhe_uint.decrypt(module, sk, scratch)
+    }
+}
+
+/// The fields a decoded instruction word puts in the ROMs: imm, rs1, rs2, rd, rdu, mu, pcu.
+pub fn decode(word: u32) -> [u32; 7] {
+    let i: Instruction = Instruction::new(word);
+    let (rs2, rs1, rd) = i.get_registers();
+    let (rdu, mu, pcu) = i.get_opid();
+    [
+        i.get_imm(),
+        rs1,
+        rs2,
+        rd,
+        rdu as u32,
+        mu as u32,
+        pcu as u32,
+    ]
+}
+
+/// `InstructionsParser::get`: imm, rs2, rs1, rd, rdu, mu, pcu.
+pub fn parser_get(parser: &InstructionsParser, idx: usize) -> (i64, i64, i64, i64, i64, i64, i64) {
+    parser.get(idx)
+}
+
+/// Stores `imm` in the immediate field of `word`.
+pub fn set_imm(word: u32, imm: u32) -> u32 {
+    Instruction::new(word).set_imm(imm).0
+}
+
+/// Stores the register fields that the format of `word` has.
+pub fn set_rs1(word: u32, rs1: u32) -> u32 {
+    Instruction::new(word).set_rs1(rs1).0
+}
+pub fn set_rs2(word: u32, rs2: u32) -> u32 {
+    Instruction::new(word).set_rs2(rs2).0
+}
+pub fn set_rd(word: u32, rd: u32) -> u32 {
+    Instruction::new(word).set_rd(rd).0
+}
+
+/// One instance of the plaintext mirror interpreter.
+pub struct DebugVm(InterpreterDebug);
+
+impl DebugVm {
+    pub fn new(rom_size: usize, ram: &[u32]) -> Self {
+        let mut vm: InterpreterDebug = InterpreterDebug::new(rom_size, ram.len());
+        vm.set_ram(ram);
+        DebugVm(vm)
+    }
+    pub fn set_instructions(&mut self, instructions: &InstructionsParser) {
+        self.0.set_instructions(instructions)
+    }
+    pub fn set_state(&mut self, registers: &[u32; 32], pc: u32) {
+        self.0.registers = *registers;
+        self.0.pc = pc;
+    }
+    pub fn registers(&self) -> [u32; 32] {
+        self.0.registers
+    }
+    pub fn pc(&self) -> u32 {
+        self.0.pc
+    }
+    pub fn ram(&self) -> &[u32] {
+        &self.0.ram
+    }
+    /// One cycle, in the order in which the interpreter drives it.
+    pub fn step(&mut self) {
+        self.0.read_instructions();
+        self.0.read_registers();
+        self.0.read_ram();
+        self.0.update_registers(RD_UPDATE_RV32I_OP_LIST);
+        self.0.update_ram();
+        self.0.update_pc();
+    }
+}
-- 
2.43.0


From 4b14747abec4b006bd44024ab2b8321da397b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:19 +0000
Subject: [PATCH 2/9] fix: sign-extend the loaded byte in LB

---
 fhevm/src/rd_update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhevm/src/rd_update.rs b/fhevm/src/rd_update.rs
index 4375ad6..1f29d49 100644
--- a/fhevm/src/rd_update.rs
+++ b/fhevm/src/rd_update.rs
@@ -136,7 +136,7 @@ impl<BE: Backend> Evaluate<u32, BE> for RD_UPDATE {
                 res.zero_byte(module, 1, keys, scratch);
                 res.zero_byte(module, 2, keys, scratch);
                 res.zero_byte(module, 3, keys, scratch);
-                //res.sext(module, 0, keys, scratch);
+                res.sext(module, 0, keys, scratch);
             }
             Self::LBU => {
                 module.glwe_copy(res, ram);
-- 
2.43.0


From dd3e7ef1241904af27adffb351d8fc55ff2c4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:06 +0000
Subject: [PATCH 3/9] fix: sub-word loads read the addressed byte/half-word of
 the word

---
 fhevm/src/debug.rs            |  6 ++++-
 fhevm/src/instructions/mod.rs |  8 ++++++
 fhevm/src/interpreter.rs      | 24 +++++++++++++++---
 fhevm/src/rd_update.rs        | 48 +++++++++++++++++++++++++++++++++--
 4 files changed, 80 insertions(+), 6 deletions(-)

diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index a5f1f80..5fc7d69 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -107,10 +107,14 @@ impl InterpreterDebug {
         let imm: u32 = self.imm;
         let rs1: u32 = self.rs1_val;
         let rs2: u32 = self.rs2_val;
-        let ram: u32 = self.ram_val;
         let pc: u32 = self.pc;
 
         for op in ops {
+            let ram: u32 = if op.is_sub_word_load() {
+                self.ram_val >> ((self.ram_addr & 0x3) << 3)
+            } else {
+                self.ram_val
+            };
             rd_map.insert(op.id(), op.eval_plain(imm, rs1, rs2, pc, ram));
         }
 
diff --git a/fhevm/src/instructions/mod.rs b/fhevm/src/instructions/mod.rs
index 8243517..985f1d4 100644
--- a/fhevm/src/instructions/mod.rs
+++ b/fhevm/src/instructions/mod.rs
@@ -326,6 +326,14 @@ impl RD_UPDATE {
         *self as u32
     }
 
+    /// Loads that read less than a word, at an offset inside of it.
+    pub(crate) fn is_sub_word_load(&self) -> bool {
+        matches!(
+            self,
+            RD_UPDATE::LB | RD_UPDATE::LBU | RD_UPDATE::LH | RD_UPDATE::LHU
+        )
+    }
+
     pub(crate) fn eval_plain(&self, imm: u32, rs1: u32, rs2: u32, pc: u32, ram: u32) -> u32 {
         match self {
             RD_UPDATE::NONE => 0,
diff --git a/fhevm/src/interpreter.rs b/fhevm/src/interpreter.rs
index 132ed8d..8726315 100644
--- a/fhevm/src/interpreter.rs
+++ b/fhevm/src/interpreter.rs
@@ -2,8 +2,9 @@ use std::{collections::HashMap, time::Instant};
 
 use crate::{
     debug::InterpreterDebug, measure_duration, memory::Memory, parameters::CryptographicParameters,
-    prepare::PrepareMultiple, ram_offset::ram_offset, ram_update::Store, rd_update::Evaluate,
-    update_pc, Measurement, Measurements, RAM_UPDATE_OP_LIST, RD_UPDATE, RD_UPDATE_RV32I_OP_LIST,
+    prepare::PrepareMultiple, ram_offset::ram_offset, ram_update::Store, rd_update::align_loaded,
+    rd_update::Evaluate, update_pc, Measurement, Measurements, RAM_UPDATE_OP_LIST, RD_UPDATE,
+    RD_UPDATE_RV32I_OP_LIST,
 };
 
 use poulpy_hal::{
@@ -1136,12 +1137,29 @@ impl<BE: Backend> Interpreter<BE> {
             let mut rd_map: HashMap<u32, FheUint<Vec<u8>, u32>> = HashMap::new();
 
             this_cycle_measurement.time_evaluate_rd_ops = measure_duration(|| {
+                // Aligns the addressed byte/half-word of the loaded word for the sub-word loads
+                let mut ram_val_aligned: FheUint<Vec<u8>, u32> =
+                    FheUint::alloc_from_infos(&self.imm_val_fhe_uint);
+                align_loaded(
+                    module,
+                    &mut ram_val_aligned,
+                    ram_val,
+                    &self.ram_addr_fhe_uint_prepared, // offset is the 2 LSB of [rs1 + imm]
+                    keys,
+                    scratch,
+                );
+
                 // Evaluates arithmetic operations & store in map with respective op ID
                 for op in ops {
                     let mut tmp: FheUint<Vec<u8>, u32> =
                         FheUint::alloc_from_infos(&self.imm_val_fhe_uint);
+                    let ram: &FheUint<Vec<u8>, u32> = if op.is_sub_word_load() {
+                        &ram_val_aligned
+                    } else {
+                        ram_val
+                    };
                     op.eval_enc(
-                        threads, module, &mut tmp, rs1, rs2, imm, pc, ram_val, keys, scratch,
+                        threads, module, &mut tmp, rs1, rs2, imm, pc, ram, keys, scratch,
                     );
                     rd_map.insert(op.id(), tmp);
                 }
diff --git a/fhevm/src/rd_update.rs b/fhevm/src/rd_update.rs
index 1f29d49..04dca0a 100644
--- a/fhevm/src/rd_update.rs
+++ b/fhevm/src/rd_update.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use poulpy_core::{
     layouts::{GGLWEInfos, GGLWEPreparedToRef, GLWEAutomorphismKeyHelper, GetGaloisElement},
     GLWEAdd, GLWECopy, GLWERotate, GLWESub, GLWETrace, ScratchTakeCore,
@@ -8,8 +10,8 @@ use poulpy_hal::{
 };
 use poulpy_schemes::{
     bin_fhe::bdd_arithmetic::{
-        Add, And, ExecuteBDDCircuit2WTo1W, FheUint, FheUintPrepared, Or, Sll, Slt, Sltu, Sra, Srl,
-        Sub, UnsignedInteger, Xor,
+        Add, And, ExecuteBDDCircuit2WTo1W, FheUint, FheUintPrepared, GLWEBlinSelection, Or, Sll,
+        Slt, Sltu, Sra, Srl, Sub, UnsignedInteger, Xor,
     },
     define_bdd_2w_to_1w_trait, impl_bdd_2w_to_1w_trait,
 };
@@ -164,3 +166,45 @@ impl<BE: Backend> Evaluate<u32, BE> for RD_UPDATE {
         }
     }
 }
+
+/// Moves the byte (or half-word) that a sub-word load addresses to the low end of the word:
+/// res <- loaded >> (8 * offset), as far as LB, LBU (any offset) and LH, LHU (even offsets) need it,
+/// where offset is the 2 LSB of the address.
+pub(crate) fn align_loaded<R, A, D, H, K, M, BE: Backend>(
+    module: &M,
+    res: &mut FheUint<R, u32>,
+    loaded: &FheUint<A, u32>,
+    offset: &FheUintPrepared<D, u32, BE>,
+    keys: &H,
+    scratch: &mut Scratch<BE>,
+) where
+    R: DataMut,
+    A: DataRef,
+    D: DataRef,
+    H: GLWEAutomorphismKeyHelper<K, BE>,
+    K: GGLWEPreparedToRef<BE> + GGLWEInfos + GetGaloisElement,
+    M: ModuleLogN
+        + GLWEBlinSelection<u32, BE>
+        + GLWERotate<BE>
+        + GLWETrace<BE>
+        + GLWESub
+        + GLWEAdd
+        + GLWECopy,
+    Scratch<BE>: ScratchTakeCore<BE>,
+{
+    let mut cts: HashMap<usize, FheUint<Vec<u8>, u32>> = HashMap::new();
+    for i in 0..4 {
+        let mut tmp: FheUint<Vec<u8>, u32> = FheUint::alloc_from_infos(res);
+        match i {
+            0 => module.glwe_copy(&mut tmp, loaded),
+            2 => tmp.splice_u16(module, 0, 1, loaded, loaded, keys, scratch),
+            _ => tmp.splice_u8(module, 0, i, loaded, loaded, keys, scratch),
+        }
+        cts.insert(i, tmp);
+    }
+    let mut cts_ref: HashMap<usize, &mut FheUint<Vec<u8>, u32>> = HashMap::new();
+    for (key, object) in cts.iter_mut() {
+        cts_ref.insert(*key, object);
+    }
+    module.glwe_blind_selection(res, cts_ref, offset, 0, 2, scratch);
+}
-- 
2.43.0


From 3c271f4e194b45e0fdcdf9c922848ffa008b0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 4/9] fix: division by zero in the plain evaluation follows
 RISC-V (M extension)

---
 fhevm/src/instructions/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fhevm/src/instructions/mod.rs b/fhevm/src/instructions/mod.rs
index 985f1d4..091c99c 100644
--- a/fhevm/src/instructions/mod.rs
+++ b/fhevm/src/instructions/mod.rs
@@ -395,7 +395,7 @@ impl RD_UPDATE {
             RD_UPDATE::MULHU => ((rs1 as i64).wrapping_mul(rs2 as i64) >> 32) as u32,
             RD_UPDATE::DIV => {
                 if rs2 == 0 {
-                    return i32::MAX as u32;
+                    return u32::MAX;
                 } else if (rs1 as i32 == i32::MIN) && (rs2 as i32 == -1) {
                     return i32::MIN as u32;
                 }
@@ -403,12 +403,12 @@ impl RD_UPDATE {
             }
             RD_UPDATE::DIVU => {
                 if rs2 == 0 {
-                    return rs1;
+                    return u32::MAX;
                 }
                 rs1 / rs2
             }
             RD_UPDATE::REM => {
-                if rs1 == 0 {
+                if rs2 == 0 {
                     rs1
                 } else if rs1 as i32 == i32::MIN && rs2 as i32 == -1 {
                     0
-- 
2.43.0


From cb7fbcdca94ded5426ea16417dc8f8507c521ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 5/9] fix: TestVM follows RISC-V on division by zero and signed
 overflow

---
 compiler/src/interpreter/testvm.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index dcd042c..e20c82a 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -1075,8 +1075,12 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    ((self.register(rs1) as i32) / (self.register(rs2) as i32)) as u32;
+                // division by zero: all ones, overflow: the dividend
+                *self.register_mut(rd) = if self.register(rs2) == 0 {
+                    u32::MAX
+                } else {
+                    (self.register(rs1) as i32).wrapping_div(self.register(rs2) as i32) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1091,7 +1095,10 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) / self.register(rs2);
+                *self.register_mut(rd) = self
+                    .register(rs1)
+                    .checked_div(self.register(rs2))
+                    .unwrap_or(u32::MAX);
 
                 self.pc += 4;
             }
@@ -1106,8 +1113,12 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    (self.register(rs1) as i32 % self.register(rs2) as i32) as u32;
+                // division by zero: the dividend, overflow: zero
+                *self.register_mut(rd) = if self.register(rs2) == 0 {
+                    self.register(rs1)
+                } else {
+                    (self.register(rs1) as i32).wrapping_rem(self.register(rs2) as i32) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1122,7 +1133,10 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) % self.register(rs2);
+                *self.register_mut(rd) = self
+                    .register(rs1)
+                    .checked_rem(self.register(rs2))
+                    .unwrap_or(self.register(rs1));
 
                 self.pc += 4;
             } // Inst::ECALL => {
-- 
2.43.0


From 7ea23aba16b27934fa024bd1541286daf7e785bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:43 +0000
Subject: [PATCH 6/9] fix: load the initialised part of data segments that also
 hold .bss

---
 compiler/src/interpreter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 03dcc49..98d1214 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -218,16 +218,13 @@ impl Phantom {
             ram_offset = hdrs[0].p_vaddr as usize;
             // load ram with .inpdata,.rodata,.data.,etc.
             hdrs.iter().for_each(|ph| {
-                // assert!(
-                //     ph.p_filesz == ph.p_memsz,
-                //     "Header contains uninitialised values (most probably .bss exists)"
-                // );
-                if ph.p_memsz > 0 && ph.p_filesz == ph.p_memsz {
+                // bytes past p_filesz (.bss) stay zero
+                if ph.p_filesz > 0 {
                     let vaddr = ph.p_vaddr as usize;
                     boot_ram_data
-                        [(vaddr - ram_offset)..(vaddr + (ph.p_memsz as usize) - ram_offset)]
+                        [(vaddr - ram_offset)..(vaddr + (ph.p_filesz as usize) - ram_offset)]
                         .copy_from_slice(
-                            &elf_bytes[ph.p_offset as usize..(ph.p_memsz + ph.p_offset) as usize],
+                            &elf_bytes[ph.p_offset as usize..(ph.p_filesz + ph.p_offset) as usize],
                         );
                 }
             });
-- 
2.43.0


From 9e0e08da90095eb2f59699004bc35d0dce961329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:23 +0000
Subject: [PATCH 7/9] verif: constructors and accessors for the plain machine
 (cfg phantom_verif)

---
 compiler/src/interpreter.rs             |  2 ++
 compiler/src/interpreter/testvm.rs      |  4 +++
 compiler/src/interpreter/verif_hooks.rs | 44 +++++++++++++++++++++++++
 fhevm/src/verif_hooks.rs                |  7 ++++
 4 files changed, 57 insertions(+)
 create mode 100644 compiler/src/interpreter/verif_hooks.rs

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 98d1214..95ff109 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -35,6 +35,8 @@ use poulpy_schemes::bin_fhe::blind_rotation::CGGI;
 use testvm::TestVM;
 
 mod testvm;
+#[cfg(phantom_verif)]
+pub use testvm::verif_hooks;
 
 // RAM size default to 4KB
 const RAM_SIZE: usize = 4 * 1024;
diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index e20c82a..c787851 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -2,6 +2,10 @@ use super::{macros::verbose_println, BootMemory, InputInfo, OutputInfo};
 use std::fmt;
 use utils::{extract_bits, sign_extend};
 
+#[cfg(phantom_verif)]
+#[path = "verif_hooks.rs"]
+pub mod verif_hooks;
+
 struct Memory {
     data: Vec<u8>,
     offset: usize,
diff --git a/compiler/src/interpreter/verif_hooks.rs b/compiler/src/interpreter/verif_hooks.rs
new file mode 100644
index 0000000..2b896a2
--- /dev/null
+++ b/compiler/src/interpreter/verif_hooks.rs
@@ -0,0 +1,44 @@
+//! Constructors and accessors for the out-of-tree verification harnesses.
+//! Compiled only with `--cfg phantom_verif`.
+
+use super::TestVM;
+use crate::interpreter::{BootMemory, InputInfo, OutputInfo, Phantom};
+
+/// An image from its parts, without an ELF file.
+pub fn phantom(
+    rom: Vec<u8>,
+    ram_offset: usize,
+    ram: Vec<u8>,
+    input: (usize, usize),
+    output: (usize, usize),
+) -> Phantom {
+    Phantom {
+        boot_rom: BootMemory::new(0, rom.len(), rom),
+        boot_ram: BootMemory::new(ram_offset, ram.len(), ram),
+        output_info: OutputInfo {
+            start_addr: output.0,
+            size: output.1,
+        },
+        input_info: InputInfo {
+            start_addr: input.0,
+            size: input.1,
+        },
+        _elf_bytes: None,
+    }
+}
+
+impl TestVM {
+    pub fn verif_set_state(&mut self, registers: &[u32; 32], pc: u32) {
+        self.registers = *registers;
+        self.pc = pc;
+    }
+    pub fn verif_registers(&self) -> [u32; 32] {
+        self.registers
+    }
+    pub fn verif_pc(&self) -> u32 {
+        self.pc
+    }
+    pub fn verif_ram(&self) -> &[u8] {
+        &self.ram.data
+    }
+}
diff --git a/fhevm/src/verif_hooks.rs b/fhevm/src/verif_hooks.rs
index 4fc870a..09aa6c3 100644
--- a/fhevm/src/verif_hooks.rs
+++ b/fhevm/src/verif_hooks.rs
@@ -76,6 +76,13 @@ pub fn set_rd(word: u32, rd: u32) -> u32 {
     Instruction::new(word).set_rd(rd).0
 }
 
+/// Plain evaluation of the operation that `word` selects for its destination register,
+/// M extension included.
+pub fn eval_rd(word: u32, rs1: u32, rs2: u32, pc: u32, ram: u32) -> u32 {
+    let i: Instruction = Instruction::new(word);
+    i.get_opid().0.eval_plain(i.get_imm(), rs1, rs2, pc, ram)
+}
+
 /// One instance of the plaintext mirror interpreter.
 pub struct DebugVm(InterpreterDebug);
 
-- 
2.43.0


From 36792709244f0c5740b65c2d4c1c65cff1694dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:17 +0000
Subject: [PATCH 8/9] verif: small RAM for the front-end harnesses (cfg
 phantom_verif_small_ram)

---
 compiler/src/interpreter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 95ff109..96fcce0 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -39,7 +39,10 @@ mod testvm;
 pub use testvm::verif_hooks;
 
 // RAM size default to 4KB
+#[cfg(not(phantom_verif_small_ram))]
 const RAM_SIZE: usize = 4 * 1024;
+#[cfg(phantom_verif_small_ram)]
+const RAM_SIZE: usize = 32;
 
 mod macros {
     macro_rules! verbose_println {
-- 
2.43.0


From d117da32fe3846b809de9125c1f5eb1af8bdcb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:55 +0000
Subject: [PATCH 9/9] verif: a second RAM size for the front-end harnesses (cfg
 phantom_verif_mid_ram)

---
 compiler/src/interpreter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 96fcce0..cd2ac5e 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -39,10 +39,12 @@ mod testvm;
 pub use testvm::verif_hooks;
 
 // RAM size default to 4KB
-#[cfg(not(phantom_verif_small_ram))]
+#[cfg(not(any(phantom_verif_small_ram, phantom_verif_mid_ram)))]
 const RAM_SIZE: usize = 4 * 1024;
 #[cfg(phantom_verif_small_ram)]
 const RAM_SIZE: usize = 32;
+#[cfg(phantom_verif_mid_ram)]
+const RAM_SIZE: usize = 128;
 
 mod macros {
     macro_rules! verbose_println {
-- 
2.43.0

