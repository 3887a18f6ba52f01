From a00840a56831ee602096c6c4323b72a12110e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 01/19] fix: ISA simulator reports bad addresses and function
 codes as errors

Fetches, loads, stores, pushes and pops outside memory panicked with an
index or overflow error, and undefined cmov/jump function codes were
executed.
---
 sim/src/isa.rs | 64 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index cb8d718..153fc74 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -204,6 +204,17 @@ impl std::fmt::Display for Stat {
     }
 }
 
+/// Number of bytes of an instruction (1 for unknown instruction codes).
+pub fn inst_len(icode: u8) -> usize {
+    use inst_code::*;
+    match icode {
+        CMOVX | OPQ | PUSHQ | POPQ => 2,
+        JX | CALL => 9,
+        IRMOVQ | RMMOVQ | MRMOVQ | IOPQ => 10,
+        _ => 1,
+    }
+}
+
 /// Simulation result of the Y86 machine code on the standard ISA.
 pub struct StandardResult {
     pub bin: [u8; BIN_SIZE],
@@ -242,6 +253,23 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
         Ok(())
     }
 
+    #[inline]
+    fn check_cond_fn(inst: u8, ifun: u8) -> anyhow::Result<()> {
+        if ifun > cond_fn::G {
+            anyhow::bail!("invalid ifun for {}: {:#x}", inst_code::name_of(inst), ifun);
+        }
+        Ok(())
+    }
+
+    /// The 8 bytes at `addr`, or an error if any of them is out of memory.
+    #[inline]
+    fn check_mem(addr: u64) -> anyhow::Result<std::ops::Range<usize>> {
+        match addr.checked_add(8) {
+            Some(end) if end <= BIN_SIZE as u64 => Ok(addr as usize..end as usize),
+            _ => anyhow::bail!("invalid memory address: {:#x}", addr),
+        }
+    }
+
     // Condition code register
     let mut reg_cc = ConditionCode::default();
     let mut reg_file = [0u64; 16];
@@ -257,8 +285,14 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     loop {
         n_insts += 1;
+        if pc >= BIN_SIZE {
+            anyhow::bail!("invalid instruction address: {:#x}", pc);
+        }
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
+        if pc + inst_len(icode) > BIN_SIZE {
+            anyhow::bail!("instruction exceeds memory: {:#x}", pc);
+        }
 
         use crate::utils::GRAY;
 
@@ -314,6 +348,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
             }
             inst_code::CMOVX => {
                 let nex_pc = checked_add_pc(pc, 2)?;
+                check_cond_fn(inst_code::CMOVX, ifun)?;
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 printi!(inst, reg, end);
@@ -348,11 +383,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
-                put_u64(&mut bin[addr..(addr + 8)], reg_file[ra]);
+                let addr = check_mem(reg_file[rb].wrapping_add(v))?;
+                put_u64(&mut bin[addr], reg_file[ra]);
 
                 nex_pc
             }
@@ -365,11 +397,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
-                reg_file[ra] = get_u64(&bin[addr..(addr + 8)]);
+                let addr = check_mem(reg_file[rb].wrapping_add(v))?;
+                reg_file[ra] = get_u64(&bin[addr]);
 
                 nex_pc
             }
@@ -392,6 +421,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
             }
             inst_code::JX => {
                 let nex_pc = checked_add_pc(pc, 9)?;
+                check_cond_fn(inst_code::JX, ifun)?;
                 let v = get_u64(&bin[(pc + 1)..(pc + 9)]);
                 printi!(inst, v, end);
 
@@ -409,10 +439,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                put_u64(
-                    &mut bin[(*rsp as usize)..(*rsp as usize + 8)],
-                    pc as u64 + 9,
-                );
+                put_u64(&mut bin[check_mem(*rsp)?], pc as u64 + 9);
 
                 v as usize
             }
@@ -421,7 +448,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 printi!(inst, end);
 
                 let rsp = get_rsp(&mut reg_file);
-                let v = get_u64(&bin[(*rsp as usize)..(*rsp as usize + 8)]);
+                let v = get_u64(&bin[check_mem(*rsp)?]);
 
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
 
@@ -437,8 +464,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                let new_rsp = *rsp as usize;
-                put_u64(&mut bin[new_rsp..(new_rsp + 8)], va);
+                put_u64(&mut bin[check_mem(*rsp)?], va);
 
                 nex_pc
             }
@@ -450,9 +476,9 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
 
                 let rsp = get_rsp(&mut reg_file);
-                let old_rsp = *rsp as usize;
+                let old_rsp = *rsp;
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);
+                reg_file[ra] = get_u64(&bin[check_mem(old_rsp)?]);
 
                 nex_pc
             }
-- 
2.43.0


From 714287756bdd7a9b3a83d75f593f6fb39f7fb90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 02/19] fix: memory units handle every address

Instruction memory refused instructions in the last 9 bytes, kept its error
signal once it was set and overflowed near 2^64; data memory refused the
last word and overflowed near 2^64; so did the PC increment.
---
 sim/src/architectures/hardware_pipe.rs | 31 +++++++++++++-------------
 sim/src/architectures/hardware_seq.rs  | 31 +++++++++++++-------------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 980fc67..249e492 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -9,7 +9,7 @@ use crate::{
     define_units,
     framework::{HardwareUnits, MemData, MEM_SIZE},
     isa::{
-        inst_code,
+        inst_code, inst_len,
         reg_code::{self, *},
         RegFile,
     },
@@ -34,15 +34,16 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
-        }
+        // An instruction may end before the 10 bytes read here do. Bytes out of
+        // the memory are read as 0.
+        let rest = binary.get(pc.min(MEM_SIZE as u64) as usize..).unwrap_or_default();
+        let len = rest.len().min(10);
+        let mut bytes = [0u8; 10];
+        bytes[..len].copy_from_slice(&rest[..len]);
+        *icode = bytes[0] >> 4;
+        *ifun = bytes[0] & 0xf;
+        *align = bytes[1..].try_into().expect("fail to load 9 bytes from imem");
+        *error = len < inst_len(*icode);
 
         if *icode == inst_code::CALL {
             tracing::info!("CALL instruction fetched");
@@ -80,10 +81,10 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
-        *new_pc = x;
+        let mut len = 1;
+        if need_regids { len += 1; }
+        if need_valC { len += 8; }
+        *new_pc = old_pc.wrapping_add(len);
     }
 
     /// The register file perform two tasks:
@@ -165,7 +166,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > (MEM_SIZE - 8) as u64 {
             *dataout = 0;
             *error = true;
             return
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 47467d6..e0a5125 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -6,7 +6,7 @@ use crate::{
     define_units,
     framework::{HardwareUnits, MemData, MEM_SIZE},
     isa::{
-        inst_code,
+        inst_code, inst_len,
         reg_code::{self, *},
         RegFile,
     },
@@ -31,15 +31,16 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
-        }
+        // An instruction may end before the 10 bytes read here do. Bytes out of
+        // the memory are read as 0.
+        let rest = binary.get(pc.min(MEM_SIZE as u64) as usize..).unwrap_or_default();
+        let len = rest.len().min(10);
+        let mut bytes = [0u8; 10];
+        bytes[..len].copy_from_slice(&rest[..len]);
+        *icode = bytes[0] >> 4;
+        *ifun = bytes[0] & 0xf;
+        *align = bytes[1..].try_into().expect("fail to load 9 bytes from imem");
+        *error = len < inst_len(*icode);
 
         if *icode == inst_code::CALL {
             tracing::info!("CALL instruction fetched");
@@ -77,10 +78,10 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
-        *new_pc = x;
+        let mut len = 1;
+        if need_regids { len += 1; }
+        if need_valC { len += 8; }
+        *new_pc = old_pc.wrapping_add(len);
     }
 
     RegisterFileRead reg_read {
@@ -152,7 +153,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > (MEM_SIZE - 8) as u64 {
             *dataout = 0;
             *error = true;
             return
-- 
2.43.0


From 92f1f42a4fa701bad50413e06047d7c3e4603c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 03/19] fix: propagation order is the same in every build

Nodes were visited in hash order, so units on one level (instruction and
data memory in pipe_std) ran in an order that changed from run to run.
---
 sim/src/framework/propagate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 99dc5e1..6fb170e 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -172,7 +172,11 @@ impl PropOrderBuilder {
             panic!("unit input {} has no source", e.0)
         }
 
-        let levels = topo(self.nodes.iter(), self.edges.iter().map(|(a, b)| (a, b)));
+        // iterate in a fixed order so that every build gives the same order
+        let mut nodes = self.nodes.iter().collect::<Vec<_>>();
+        nodes.sort();
+
+        let levels = topo(nodes.into_iter(), self.edges.iter().map(|(a, b)| (a, b)));
         let order: Vec<(bool, &'static str)> = levels
             .iter()
             .filter_map(|node| self.runnable_nodes.iter().find(|(_, p)| p == node).copied())
-- 
2.43.0


From bd5054fedc6873c458125e8b28f55fbc6cc80bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 04/19] fix: assembler rejects bad numbers and addresses
 instead of crashing

Negative hexadecimal numbers, numbers out of range, bytes placed outside the
memory and address overflow made it panic.
---
 sim/src/asm/mod.rs | 67 +++++++++++++++++++++++++---------------------
 sim/src/object.rs  | 10 +++++++
 sim/src/utils.rs   | 11 ++++----
 3 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 78c100d..c507e4a 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -5,7 +5,7 @@ use pest_derive::Parser;
 
 use crate::{
     isa::{self, reg_code},
-    object::{LineInfo, Object, ObjectExt},
+    object::{LineInfo, Object, ObjectExt, BIN_SIZE},
     utils, SourceInfo,
 };
 
@@ -135,23 +135,28 @@ impl OpFn {
     }
 }
 
+fn parse_number(s: &str) -> Result<u64> {
+    utils::parse_literal(s).with_context(|| format!("number out of range: {s}"))
+}
+
 /// Address mode expression with optional displacement
 #[derive(Debug, Clone, Copy)]
 pub struct Addr(pub Option<u64>, pub Reg);
 
-impl From<ParseInput<'_>> for Addr {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Addr {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         let mut it = value.into_iter();
         let num_or_reg = it.next().expect("expect number or register");
         if num_or_reg.as_rule() == Rule::reg {
             // no displacement
             let reg = Reg::from(num_or_reg.pair);
-            Self(None, reg)
+            Ok(Self(None, reg))
         } else {
-            let s = num_or_reg.as_str();
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
+            let num = parse_number(num_or_reg.as_str())?;
             let reg = it.next_reg();
-            Self(Some(num as u64), reg)
+            Ok(Self(Some(num), reg))
         }
     }
 }
@@ -163,15 +168,16 @@ pub enum Imm {
     Label(String),
 }
 
-impl From<ParseInput<'_>> for Imm {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Imm {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         if value.as_rule() == Rule::label {
-            Self::Label(value.as_str().to_string())
+            Ok(Self::Label(value.as_str().to_string()))
         } else {
             let s = value.as_str();
             let s = s.strip_prefix('$').unwrap_or(s);
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
-            Self::Num(num)
+            Ok(Self::Num(parse_number(s)? as i64))
         }
     }
 }
@@ -297,13 +303,13 @@ impl<'a> ParseInputs<'a> {
     }
 
     /// Parse next token as address
-    fn next_addr(&mut self) -> Addr {
-        Addr::from(self.next().expect("expect address token"))
+    fn next_addr(&mut self) -> Result<Addr> {
+        Addr::try_from(self.next().expect("expect address token"))
     }
 
     /// Parse next token as immediate
-    fn next_imm(&mut self) -> Imm {
-        Imm::from(self.next().expect("expect immediate number token"))
+    fn next_imm(&mut self) -> Result<Imm> {
+        Imm::try_from(self.next().expect("expect immediate number token"))
     }
 }
 
@@ -347,6 +353,9 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
             verbo!(&pair);
             let tok2 = pair.clone();
             let mut it = pair.into_iter();
+            if !matches!(tok2.as_rule(), Rule::d_pos | Rule::d_align) {
+                anyhow::ensure!(cur_addr < BIN_SIZE as u64, "address out of memory");
+            }
             match tok2.as_rule() {
                 Rule::label => bail!("unexpected label"),
                 Rule::i_single => {
@@ -366,19 +375,19 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_mrmovq => {
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
                     cur_addr += 10
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
                     cur_addr += 10
                 }
                 Rule::i_irmovq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
                     cur_addr += 10
@@ -391,7 +400,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_iopq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
@@ -399,12 +408,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
                     cur_addr += 9
                 }
                 Rule::i_call => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
                     cur_addr += 9
                 }
@@ -419,13 +428,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::d_pos => {
-                    let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_number(it.next_str())?;
                     cur_addr = num;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
                         cur_addr += 8;
@@ -443,12 +451,11 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     }
                 }
                 Rule::d_align => {
-                    let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_number(it.next_str())?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
-                    if cur_addr % num > 0 {
-                        cur_addr = cur_addr / num * num + num // ceil
-                    }
+                    cur_addr = cur_addr
+                        .checked_next_multiple_of(num)
+                        .context("address out of range")?;
                     src_info.addr = Some(cur_addr) // override
                 }
                 _ => unimplemented!(),
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 42c869a..3f558c2 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -56,6 +56,16 @@ impl LineInfo {
     pub fn write_object(&self, obj: &mut Object) -> anyhow::Result<()> {
         if let Some(addr) = self.addr {
             let addr = addr as usize;
+            let size = match (&self.inst, &self.data) {
+                (Some(inst), _) => inst.len(),
+                (None, Some((size, _))) => *size as usize,
+                (None, None) => 0,
+            };
+            anyhow::ensure!(
+                size == 0 || addr + size <= BIN_SIZE,
+                "address out of memory: {:#x}",
+                addr
+            );
             if let Some(inst) = &self.inst {
                 match inst.desymbol(&obj.symbols)? {
                     asm::Inst::HALT => obj.binary[addr] = h2!(inst.icode(), 0),
diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 6d90d67..3d3bdbc 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -13,15 +13,14 @@ pub const B: Style = Style::new().bold();
 ///
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
+/// A "-" before the prefix negates it.
 pub fn parse_literal(s: &str) -> Option<u64> {
-    let (sign, s) = s.strip_suffix("-").map(|s| (-1, s)).unwrap_or((1, s));
     if let Ok(r) = s.parse::<i64>() {
-        return Some((r * sign) as u64);
+        return Some(r as u64);
     }
-    if let Ok(r) = u64::from_str_radix(s.strip_prefix("0x")?, 16) {
-        return Some((r as i64 * sign) as u64);
-    }
-    None
+    let (neg, s) = s.strip_prefix('-').map(|s| (true, s)).unwrap_or((false, s));
+    let r = u64::from_str_radix(s.strip_prefix("0x")?, 16).ok()?;
+    Some(if neg { r.wrapping_neg() } else { r })
 }
 
 /// Get 64-bit unsigned integer value in little endian order.
-- 
2.43.0


From eeb286abd70675c65d6bf36e7f86c984211df410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 05/19] fix: units without ports take part in the propagation
 order

---
 sim/src/framework/propagate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 6fb170e..24a2ebc 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -127,6 +127,7 @@ impl PropOrderBuilder {
             panic!("duplicate unit name: {}", unit_name)
         }
         self.runnable_nodes.push((true, unit_name));
+        self.nodes.insert(unit_name.to_string());
     }
 
     pub fn add_unit_input(&mut self, unit_name: &'static str, field_name: &'static str) {
-- 
2.43.0


From 72c074523edaf7d0fd92e21ca894d9be271f0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 06/19] fix: signals wait for the signal or unit whose field
 they read

---
 sim_macro/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sim_macro/src/lib.rs b/sim_macro/src/lib.rs
index 18038e6..2941243 100644
--- a/sim_macro/src/lib.rs
+++ b/sim_macro/src/lib.rs
@@ -366,11 +366,17 @@ impl HclData {
                     .source
                     .lvalues()
                     .into_iter()
-                    .filter(|lv| {
-                        // is intermediate signal or unit port
+                    .filter_map(|lv| {
+                        // is (a field of an) intermediate signal or unit port
                         // previous stage fields are not included
-                        lv.0.len() == 1 && inter_names.iter().any(|n| &lv.0[0] == *n)
-                            || lv.0.len() == 2 && stage_alias.iter().all(|(_, pre)| &lv.0[0] != pre)
+                        let len = if inter_names.iter().any(|n| &lv.0[0] == *n) {
+                            1
+                        } else if lv.0.len() >= 2 && stage_alias.iter().all(|(_, pre)| &lv.0[0] != pre) {
+                            2
+                        } else {
+                            return None;
+                        };
+                        Some(LValue(lv.0.into_iter().take(len).collect()))
                     })
                     .map(|lv| quote! {
                         g.add_edge(stringify!(#lv).to_string(), stringify!(#name).to_string());
-- 
2.43.0


From f327c1c8f55124bc331842a24fade70c8d37e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 07/19] fix: yis reports unusable listings as errors

---
 sim/src/bin/yis.rs | 4 +++-
 sim/src/utils.rs   | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sim/src/bin/yis.rs b/sim/src/bin/yis.rs
index 08c569b..0c37ff6 100644
--- a/sim/src/bin/yis.rs
+++ b/sim/src/bin/yis.rs
@@ -41,7 +41,9 @@ fn main() -> Result<()> {
                 let value = line[sep + 1..index].trim();
                 if !value.is_empty() {
                     let bytes = utils::decode_hex(value)?;
-                    bin[addr..addr + bytes.len()].copy_from_slice(&bytes);
+                    bin.get_mut(addr..addr.saturating_add(bytes.len()))
+                        .ok_or(anyhow::anyhow!("address out of memory: {:#x}", addr))?
+                        .copy_from_slice(&bytes);
                 }
             }
         }
diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 3d3bdbc..cd873f8 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -42,7 +42,8 @@ pub fn put_u64(binary: &mut [u8], val: u64) {
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, std::num::ParseIntError> {
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        // a missing or broken digit pair is reported as an empty number
+        .map(|i| u8::from_str_radix(s.get(i..i + 2).unwrap_or_default(), 16))
         .collect()
 }
 
-- 
2.43.0


From 35b6b829c8fc7157f2b391e729262df84c3d1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 08/19] fix: debugger answers disconnect before closing the
 session

---
 debugger/src/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index d4e3b6c..9f95a6f 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -404,6 +404,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
         };
 
         if let Command::Disconnect(_) = req.command {
+            self.server.respond(req.success(ResponseBody::Disconnect))?;
             bail!("disconnect command received");
         }
 
-- 
2.43.0


From a9006ad6073f9946d9e61ca843cdcbd8a5f4befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 09/19] fix: breakpoints on lines that do not exist are
 unverified instead of fatal

---
 debugger/src/server.rs | 9 +++------
 sim/src/object.rs      | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 9f95a6f..a26b2de 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -196,13 +196,10 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                     .iter()
                     .map(|b| {
                         let verified = true;
-                        let ln = inner
-                            .source_info
-                            .get_line(b.line)
-                            .expect("invalid breakpoint line");
-                        let message = ln.addr.map(|a| format!("addr: {:#x}", a));
+                        let addr = inner.source_info.get_line(b.line).and_then(|ln| ln.addr);
+                        let message = addr.map(|a| format!("addr: {:#x}", a));
 
-                        let Some(addr) = ln.addr else {
+                        let Some(addr) = addr else {
                             return types::Breakpoint::default();
                         };
 
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 3f558c2..7b7aba3 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -187,8 +187,8 @@ impl From<Vec<LineInfo>> for SourceInfo {
 impl SourceInfo {
     /// Get the line info by line number (start from 1)
     pub fn get_line(&self, line: i64) -> Option<&LineInfo> {
-        assert!(line > 0);
-        self.0.get(line as usize - 1)
+        let index = usize::try_from(line).ok()?.checked_sub(1)?;
+        self.0.get(index)
     }
 
     pub fn get_line_number_by_addr(&self, addr: u64) -> Option<i64> {
-- 
2.43.0


From beaa91c8b4c70d0d3cd926094b68c65f1cfac6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 10/19] fix: breakpoints stop at every line placed at the
 program counter

---
 debugger/src/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index a26b2de..e41171d 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -479,11 +479,11 @@ impl<R: Read, W: Write> DebugServer<R, W> {
 
             if let Some(bp) = self.breakpoints.iter().find(|bp| {
                 let Some(bp_ln) = bp.line else { return false };
+                // several lines may be placed at the same address
                 inner
                     .source_info
-                    .get_line_number_by_addr(pc)
-                    .map(|ln| ln == bp_ln)
-                    .unwrap_or(false)
+                    .get_line(bp_ln)
+                    .is_some_and(|ln| ln.addr == Some(pc))
             }) {
                 let bp_id = bp.id.ok_or(anyhow::anyhow!("breakpoint id not set"))?;
                 tracing::trace!("hit breakpoint: line = {:?}", bp.line);
-- 
2.43.0


From 7a34a1bc0196be1c4acbd28928c2f6013900fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 11/19] fix: running before a program is launched is answered
 as a failure

---
 debugger/src/server.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index e41171d..174a947 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -171,10 +171,13 @@ impl<R: Read, W: Write> DebugServer<R, W> {
             Command::Disconnect(_) => {
                 bail!("can not handle disconnect command in the handler");
             }
-            Command::ConfigurationDone => Ok((
-                req.success(ResponseBody::ConfigurationDone),
-                ServerStatus::RunProg(RunProgKind::InitialRun),
-            )),
+            Command::ConfigurationDone => {
+                self.inner()?;
+                Ok((
+                    req.success(ResponseBody::ConfigurationDone),
+                    ServerStatus::RunProg(RunProgKind::InitialRun),
+                ))
+            }
             Command::SetBreakpoints(args) => {
                 let Some(breakpoints) = &args.breakpoints else {
                     bail!("missing breakpoints");
@@ -346,6 +349,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 // we do not care about the granularity
                 Ok((
                     req.success(ResponseBody::Next),
@@ -356,6 +360,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 Ok((
                     req.success(ResponseBody::Continue(responses::ContinueResponse {
                         // we have exactly one thread
-- 
2.43.0


From bd1b9ff43404b21217ddba68c56229e622b57ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 12/19] fix: very negative variable references are answered as
 failures

---
 debugger/src/server.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 174a947..5cec66c 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -319,10 +319,11 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         .collect()
                 } else {
                     // scopes of each stage
-                    let index = args.variables_reference - 2;
-                    if index < 0 {
-                        bail!("invalid variables reference {index}");
+                    let reference = args.variables_reference;
+                    if reference < 2 {
+                        bail!("invalid variables reference {reference}");
                     }
+                    let index = reference - 2;
                     let stage = inner
                         .stage_info
                         .get(index as usize)
-- 
2.43.0


From b3d55d34ffe8394aeae3aae98c07b4460ed9ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 13/19] fix: register scope names the launched program as its
 source

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 5cec66c..31384a4 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -123,7 +123,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 presentation_hint: Some(types::ScopePresentationhint::Registers),
                 variables_reference: REG_SCOPE_VAR_REF,
                 expensive: false,
-                source: Some(self.main_source()),
+                source: Some(main_source),
                 ..Default::default()
             },
         );
-- 
2.43.0


From 6751e993c953af72164b8676c6e67335156cf709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 14/19] fix: debug server survives a failed accept

---
 debugger/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/debugger/src/lib.rs b/debugger/src/lib.rs
index f1cdd38..8b31290 100644
--- a/debugger/src/lib.rs
+++ b/debugger/src/lib.rs
@@ -42,8 +42,9 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
                     })?;
             }
             Err(e) => {
+                // e.g. out of file descriptors until some session ends
                 tracing::error!("failed to accept connection: {:?}", e);
-                break;
+                std::thread::sleep(std::time::Duration::from_millis(50));
             }
         }
     }
-- 
2.43.0


From 2eaead6b2c28e038e14c48f26ae570867ffd0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 15/19] fix: operand labels do not change the operation of iopq
 instructions

---
 sim/src/asm/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index c507e4a..7f8ad11 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -120,14 +120,16 @@ impl From<&str> for CondFn {
 }
 
 impl OpFn {
+    /// only check prefix (an operand may be a label named like an instruction)
     fn from_instname(value: &str) -> Self {
-        if value.contains("andq") {
+        let value = value.strip_prefix('i').unwrap_or(value);
+        if value.starts_with("andq") {
             Self::AND
-        } else if value.contains("addq") {
+        } else if value.starts_with("addq") {
             Self::ADD
-        } else if value.contains("subq") {
+        } else if value.starts_with("subq") {
             Self::SUB
-        } else if value.contains("xorq") {
+        } else if value.starts_with("xorq") {
             Self::XOR
         } else {
             panic!("invalid")
-- 
2.43.0


From 91d7ffc7acddf9273be11951ad71d37114832a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 16/19] fix: data memory outputs zero when it is not read

---
 sim/src/architectures/hardware_pipe.rs | 2 ++
 sim/src/architectures/hardware_seq.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 249e492..27ec5b8 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -179,6 +179,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index e0a5125..34c145f 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -166,6 +166,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
-- 
2.43.0


From a2e90a9365bb2b56b2213b74a06d827f038abc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 17/19] fix: breakpoints do not outlive a launch of another
 program

---
 debugger/src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 31384a4..db212c6 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -130,6 +130,11 @@ impl<R: Read, W: Write> DebugServer<R, W> {
 
         let stage_info = sim.get_stage_info();
 
+        // breakpoints belong to the source file they were set in
+        if self.inner.as_ref().is_some_and(|i| i.source_path != source_path) {
+            self.breakpoints.clear();
+        }
+
         self.inner = Some(Inner {
             source_path,
             source_info,
-- 
2.43.0


From eef3fa2381d5a4246b5efbf529d2131352ec2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 18/19] fix: a sign in a listing's bytes is rejected

---
 sim/src/utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index cd873f8..ba76086 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -42,8 +42,10 @@ pub fn put_u64(binary: &mut [u8], val: u64) {
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, std::num::ParseIntError> {
     (0..s.len())
         .step_by(2)
-        // a missing or broken digit pair is reported as an empty number
-        .map(|i| u8::from_str_radix(s.get(i..i + 2).unwrap_or_default(), 16))
+        // a missing or broken digit pair is reported as an empty number, and a
+        // sign is no digit
+        .map(|i| s.get(i..i + 2).filter(|pair| !pair.contains('+')))
+        .map(|pair| u8::from_str_radix(pair.unwrap_or_default(), 16))
         .collect()
 }
 
-- 
2.43.0


From 829f384e4c7fdc792587dfc22231651e02696775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 19/19] fix: a session that cannot get a thread no longer ends
 the debug server

---
 debugger/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/debugger/src/lib.rs b/debugger/src/lib.rs
index 8b31290..46d1627 100644
--- a/debugger/src/lib.rs
+++ b/debugger/src/lib.rs
@@ -29,7 +29,7 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
         match s {
             Ok(s) => {
                 tracing::trace!("accepted connection");
-                std::thread::Builder::new()
+                let session = std::thread::Builder::new()
                     .stack_size(32 << 20)
                     .spawn(move || {
                         let server = server::DebugServer::new(
@@ -39,7 +39,11 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
                         );
                         let r = server.start();
                         tracing::trace!("connection closed, result: {:?}", r);
-                    })?;
+                    });
+                if let Err(e) = session {
+                    // e.g. out of threads until some session ends
+                    tracing::error!("failed to start a session: {:?}", e);
+                }
             }
             Err(e) => {
                 // e.g. out of file descriptors until some session ends
-- 
2.43.0

