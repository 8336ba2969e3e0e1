From c76e5b218e7ed62fc3f914d815872fa54ee7e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 01/20] fix: initialize reference-typed locals to null

---
 crates/parser/src/conversion.rs | 20 ++++++++++++++++++--
 crates/parser/src/visit.rs      |  9 +++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/conversion.rs b/crates/parser/src/conversion.rs
index 586cac5..3ef3188 100644
--- a/crates/parser/src/conversion.rs
+++ b/crates/parser/src/conversion.rs
@@ -129,6 +129,7 @@ pub(crate) fn convert_module_code(
     let pos = locals_reader.original_position();
     let signature = metadata.signature(ty_idx)?.clone();
     let mut local_types = signature.params.clone();
+    let mut ref_local_types = Vec::new();
 
     for (i, local) in locals_reader.into_iter().enumerate() {
         let local = local?;
@@ -138,6 +139,12 @@ pub(crate) fn convert_module_code(
         let size = crate::visit::OperandSize::from(local.1);
         let count = usize::try_from(local.0)
             .map_err(|_| crate::ParseError::Other("local declaration count is too large".into()))?;
+        if let wasmparser::ValType::Ref(ty) = local.1
+            && ty.is_nullable()
+        {
+            let ty = convert_reftype(ty).unwrap_or(WasmType::RefFunc);
+            ref_local_types.extend((local_types.len()..local_types.len() + count).map(|idx| (idx, ty)));
+        }
         local_types.reserve(count);
         local_types.extend(core::iter::repeat_n(size, count));
     }
@@ -156,8 +163,17 @@ pub(crate) fn convert_module_code(
         *count = count.checked_add(1).ok_or_else(|| crate::ParseError::Other(error.into()))?;
     }
 
-    let (body, data, validator_allocs, reader_allocs) =
-        process_operators_and_validate(validator, func, local_types, local_addr_map, metadata, ty_idx, reader_allocs)?;
+    let ref_locals = ref_local_types.into_iter().map(|(idx, ty)| (local_addr_map[idx], ty)).collect();
+    let (body, data, validator_allocs, reader_allocs) = process_operators_and_validate(
+        validator,
+        func,
+        local_types,
+        local_addr_map,
+        ref_locals,
+        metadata,
+        ty_idx,
+        reader_allocs,
+    )?;
     Ok((
         FunctionCode { instructions: body, data, locals: local_counts, uses_local_memory: false },
         validator_allocs,
diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index dae9ff2..38e782b 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -240,6 +240,7 @@ pub(crate) fn process_operators_and_validate(
     body: FunctionBody<'_>,
     local_types: Vec<OperandSize>,
     local_addr_map: Vec<u16>,
+    ref_locals: Vec<(u16, WasmType)>,
     metadata: &ModuleMetadata,
     ty_idx: u32,
     allocs: OperatorsReaderAllocations,
@@ -249,6 +250,7 @@ pub(crate) fn process_operators_and_validate(
     let mut reader = OperatorsReader::new_with_allocs(reader, allocs);
     let signature = metadata.signature(ty_idx)?.clone();
     let mut builder = FunctionBuilder::new(metadata, signature, local_types, local_addr_map, body_size);
+    builder.init_ref_locals(&ref_locals);
 
     while !reader.eof() {
         let position = reader.original_position();
@@ -916,6 +918,13 @@ impl FunctionBuilder<'_> {
         Ok((size, addr))
     }
 
+    /// Sets declared reference locals to null, as locals are otherwise zero-initialized.
+    fn init_ref_locals(&mut self, ref_locals: &[(u16, WasmType)]) {
+        for &(local_idx, ty) in ref_locals {
+            self.instructions.extend([Instruction::RefNull(ty), Instruction::LocalSet32(local_idx)]);
+        }
+    }
+
     /// Pushes logical operands while maintaining the lane counts used by `DropKeep`.
     fn push_sizes(&mut self, sizes: &[OperandSize]) -> Result<()> {
         for &size in sizes {
-- 
2.43.0


From e4f4f2223adeaff473ee2fa9749c15879814b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 02/20] fix: accept select with polymorphic operands in
 unreachable code

---
 crates/parser/src/visit.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 38e782b..78ceddc 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -436,9 +436,16 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     }
 
     fn visit_select(&mut self) -> Self::Output {
-        let size = self.operand_stack.iter().rev().nth(1).copied().unwrap_or(OperandSize::S32);
+        self.pop_expect(OperandSize::S32)?;
+        let frame_height = self.control_stack.last().map_or(0, |frame| frame.height);
+        if self.operand_stack.len() == frame_height && self.is_unreachable() {
+            // Both operands are polymorphic, so the result is too.
+            self.instructions.push(Instruction::Select32);
+            return Ok(());
+        }
+        let size = self.operand_stack.last().copied().unwrap_or(OperandSize::S32);
         let instruction = size.choose(Instruction::Select32, Instruction::Select64, Instruction::Select128);
-        self.emit(&[size, size, OperandSize::S32], &[size], instruction)
+        self.emit(&[size, size], &[size], instruction)
     }
 
     fn visit_local_get(&mut self, idx: u32) -> Self::Output {
-- 
2.43.0


From 58276e38678767c217b92860e607c774c2b1f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 03/20] fix: bulk memory operand widths, unsigned ranges and
 aliased memories

---
 crates/parser/src/visit.rs                  |  6 +-
 crates/tinywasm/src/interpreter/executor.rs | 74 ++++++++++-----------
 2 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 78ceddc..aff4b10 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -377,10 +377,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
         global [] => [Addr] { visit_global_get(global_index: u32) => GlobalGet }
         memory_index [] => [Addr] { visit_memory_size(memory: u32) => MemorySize }
         memory_index [Addr] => [Addr] { visit_memory_grow(memory: u32) => MemoryGrow }
-        memory_index [Addr, S32, Addr] => [] {
-            visit_memory_init(data_index: u32, memory: u32) => MemoryInit,
-            visit_memory_fill(memory: u32) => MemoryFill,
-        }
+        memory_index [Addr, S32, S32] => [] { visit_memory_init(data_index: u32, memory: u32) => MemoryInit }
+        memory_index [Addr, S32, Addr] => [] { visit_memory_fill(memory: u32) => MemoryFill }
         table [Addr] => [S32] { visit_table_get(table: u32) => TableGet }
         table [Addr, S32] => [] { visit_table_set(table: u32) => TableSet }
         table [] => [Addr] { visit_table_size(table: u32) => TableSize }
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 739c136..5b17915 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1291,78 +1291,78 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_copy(&mut self, dst_mem: u32, src_mem: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let src = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
         let dst_mem_addr = self.module.resolve_mem_addr(dst_mem);
-
-        if dst_mem == src_mem {
+        let src_mem_addr = self.module.resolve_mem_addr(src_mem);
+        let dst_64bit = self.store.state.get_mem(dst_mem_addr).is_64bit();
+        let src_64bit = self.store.state.get_mem(src_mem_addr).is_64bit();
+        let size = self.pop_memory_operand(dst_64bit && src_64bit)?;
+        let src = self.pop_memory_operand(src_64bit)?;
+        let dst = self.pop_memory_operand(dst_64bit)?;
+
+        if dst_mem_addr == src_mem_addr {
             // copy within the same memory
             let mem = self.store.state.get_mem_mut(dst_mem_addr);
-            mem.copy_within(dst as usize, src as usize, size as usize)?;
+            mem.copy_within(dst, src, size)?;
         } else {
             // copy between two memories
-            let src_mem_addr = self.module.resolve_mem_addr(src_mem);
             let (dst_memory, src_memory) = self.store.state.get_mems_mut(dst_mem_addr, src_mem_addr);
-            dst_memory.copy_from_memory(dst as usize, src_memory, src as usize, size as usize)?;
+            dst_memory.copy_from_memory(dst, src_memory, src, size)?;
         }
         Ok(())
     }
 
     fn exec_memory_fill(&mut self, addr: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
+        let is_64bit = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).is_64bit();
+        let size = self.pop_memory_operand(is_64bit)?;
         let val = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let dst = self.pop_memory_operand(is_64bit)?;
         self.exec_memory_fill_impl(addr, dst, val as u8, size)
     }
 
     fn exec_memory_fill_imm(&mut self, addr: u32, val: u8, size: i32) -> Result<(), Trap> {
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val, size)
+        let is_64bit = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).is_64bit();
+        let dst = self.pop_memory_operand(is_64bit)?;
+        self.exec_memory_fill_impl(addr, dst, val, size as u32 as usize)
     }
 
-    fn exec_memory_fill_impl(&mut self, addr: u32, dst: i32, val: u8, size: i32) -> Result<(), Trap> {
+    fn exec_memory_fill_impl(&mut self, addr: u32, dst: usize, val: u8, size: usize) -> Result<(), Trap> {
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(addr));
-        if mem.inner.fill(dst as usize, size as usize, val).is_none() {
+        if mem.inner.fill(dst, size, val).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds {
-                offset: dst as usize,
-                len: size as usize,
-                max: self.store.state.get_mem(self.module.resolve_mem_addr(addr)).inner.len(),
-            });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
     fn exec_memory_init(&mut self, data_index: u32, mem_index: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let offset = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let size = self.pop_memory_operand(false)?;
+        let offset = self.pop_memory_operand(false)?;
+        let mem_addr = self.module.resolve_mem_addr(mem_index);
+        let dst = self.pop_memory_operand(self.store.state.get_mem(mem_addr).is_64bit())?;
 
         let data = &self.store.state.data[self.module.resolve_data_addr(data_index) as usize];
-        let mem = &mut self.store.state.memories[self.module.resolve_mem_addr(mem_index) as usize];
-        let data_len = data.data.as_ref().map_or(0, |d| d.len());
-        if ((size + offset) as usize > data_len) || ((dst + size) as usize > mem.inner.len()) {
+        let mem = &mut self.store.state.memories[mem_addr as usize];
+        let data = data.data.as_deref().unwrap_or(&[]);
+        let Some(bytes) = offset.checked_add(size).and_then(|end| data.get(offset..end)) else {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: offset as usize, len: size as usize, max: data_len });
-        }
-
-        if size == 0 {
-            return Ok(());
-        }
-
-        let Some(data) = &data.data else {
-            cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: 0, len: 0, max: 0 });
+            return Err(Trap::MemoryOutOfBounds { offset, len: size, max: data.len() });
         };
 
-        if mem.inner.write_all(dst as usize, &data[offset as usize..((offset + size) as usize)]).is_none() {
+        if mem.inner.write_all(dst, bytes).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: dst as usize, len: size as usize, max: mem.inner.len() });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
+    fn pop_memory_operand(&mut self, is_64bit: bool) -> Result<usize, Trap> {
+        let value = match is_64bit {
+            true => <i64>::stack_pop(&mut self.store.value_stack) as u64,
+            false => u64::from(<i32>::stack_pop(&mut self.store.value_stack) as u32),
+        };
+        usize::try_from(value).map_err(|_| Trap::MemoryOutOfBounds { offset: usize::MAX, len: 1, max: usize::MAX })
+    }
+
     fn exec_table_copy(&mut self, dst_table: u32, src_table: u32) -> Result<(), Trap> {
         let dst_table_addr = self.module.resolve_table_addr(dst_table);
         let src_table_addr = self.module.resolve_table_addr(src_table);
-- 
2.43.0


From 93787633cf753b3f700e167f51af2825b8fbc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 04/20] fix: fused multiply-add store on 64-bit memories

---
 crates/tinywasm/src/interpreter/executor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 5b17915..a90241e 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1168,10 +1168,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let rhs = T::stack_pop(&mut self.store.value_stack);
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
-        let addr = i32::stack_pop(&mut self.store.value_stack);
         let fma = acc + lhs * rhs;
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
-        let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
+        let addr = Self::pop_memory_addr::<N>(&mut self.store.value_stack, mem, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
         Ok(())
     }
-- 
2.43.0


From aa36e4d3a691483117c664a49439261cecce4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 05/20] fix: shift amounts of sign-extension rewrites

---
 crates/parser/src/optimize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index 80dfa0d..b346234 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -105,7 +105,7 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet32(local), Const32(c)] => BinOpLocalConst32(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal32(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 8), Const32(8)] => [LocalGet32(local), I32Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 24), Const32(24)] => [LocalGet32(local), I32Extend8S]);
                     rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 16), Const32(16)] => [LocalGet32(local), I32Extend16S]);
                 }
             }
@@ -126,8 +126,8 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet64(local), Const64(c)] => BinOpLocalConst64(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal64(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 8), Const64(8)] => [LocalGet64(local), I64Extend8S]);
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 16), Const64(16)] => [LocalGet64(local), I64Extend16S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 56), Const64(56)] => [LocalGet64(local), I64Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 48), Const64(48)] => [LocalGet64(local), I64Extend16S]);
                     rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 32), Const64(32)] => [LocalGet64(local), I64Extend32S]);
                 }
             }
-- 
2.43.0


From cad927d01fca076cebb7920001396e926592a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 06/20] fix: memory.grow takes an unsigned page count

---
 crates/tinywasm/src/interpreter/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index a90241e..da6dfc1 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1277,7 +1277,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let is_64bit = mem.is_64bit();
         let pages_delta = match is_64bit {
             true => <i64>::stack_pop(&mut self.store.value_stack),
-            false => i64::from(<i32>::stack_pop(&mut self.store.value_stack)),
+            false => i64::from(<i32>::stack_pop(&mut self.store.value_stack) as u32),
         };
 
         let size = mem.grow(pages_delta, self.store.engine.config().trap_on_oom())?.unwrap_or(-1);
-- 
2.43.0


From e88ac10f4fb751ad515844797ccaed5acea37c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 07/20] fix: do not merge local.get and local.tee across a jump
 target

---
 crates/parser/src/visit.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index aff4b10..fb95363 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -108,6 +108,8 @@ pub(crate) struct FunctionBuilder<'a> {
     metadata: &'a ModuleMetadata,
     local_types: Vec<OperandSize>,
     local_addr_map: Vec<u16>,
+    /// Highest instruction index that a jump targets. Earlier instructions cannot be merged with later ones.
+    last_label: usize,
 }
 
 impl<'a> FunctionBuilder<'a> {
@@ -139,6 +141,7 @@ impl<'a> FunctionBuilder<'a> {
             }],
             operand_stack: Vec::new(),
             lane_counts: ValueCounts::default(),
+            last_label: 0,
         }
     }
 }
@@ -469,7 +472,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     fn visit_local_tee(&mut self, idx: u32) -> Self::Output {
         let (size, local_idx) = self.local(idx)?;
         self.apply_effect(&[size], &[size])?;
-        let src = match (size, self.instructions.last()) {
+        let last = self.instructions.last().filter(|_| self.instructions.len() > self.last_label);
+        let src = match (size, last) {
             (OperandSize::S32, Some(Instruction::LocalGet32(src))) => Some(*src),
             (OperandSize::S64, Some(Instruction::LocalGet64(src))) => Some(*src),
             (OperandSize::S128, Some(Instruction::LocalGet128(src))) => Some(*src),
@@ -1013,6 +1017,9 @@ impl FunctionBuilder<'_> {
         let base = self.lane_counts;
         self.push_sizes(&signature.params)?;
         let entry_unreachable = self.is_unreachable();
+        if matches!(kind, BlockKind::Loop) {
+            self.last_label = self.instructions.len();
+        }
         self.control_stack.push(ControlFrame {
             kind,
             has_else: false,
@@ -1039,6 +1046,7 @@ impl FunctionBuilder<'_> {
     }
 
     fn patch_jump(&mut self, jump_ip: usize, target: usize) {
+        self.last_label = self.last_label.max(target);
         match &mut self.instructions[jump_ip] {
             Instruction::Jump(ip) | Instruction::JumpIfZero32(ip) | Instruction::JumpIfNonZero32(ip) => {
                 *ip = target as u32;
-- 
2.43.0


From f894a75f2ec4b491c03a6e9ae78878b3b006c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 08/20] fix: return after a tail call to a host function

---
 crates/tinywasm/src/interpreter/executor.rs | 32 +++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index da6dfc1..b3bcf7a 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -225,9 +225,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             Call(v) => { self.exec_call_direct(*v)?; return Ok(None); }
             CallSelf => { self.exec_call_self()?; return Ok(None); }
             CallIndirect(ty, table) => { self.exec_call_indirect::<false>(*ty, *table)?; return Ok(None); }
-            ReturnCall(v) => { self.exec_return_call_direct(*v)?; return Ok(None); }
+            ReturnCall(v) => { if self.exec_return_call_direct(*v)? { return Ok(Some(())); } return Ok(None); }
             ReturnCallSelf => { self.exec_return_call_self()?; return Ok(None); }
-            ReturnCallIndirect(ty, table) => { self.exec_call_indirect::<true>(*ty, *table)?; return Ok(None); }
+            ReturnCallIndirect(ty, table) => { if self.exec_call_indirect::<true>(*ty, *table)? { return Ok(Some(())); } return Ok(None); }
             Jump(ip) => { self.cf.instr_ptr = *ip as usize; return Ok(None); }
             JumpIfZero32(ip) => if self.exec_jump_zero_32(*ip) { return Ok(None) },
             JumpIfNonZero32(ip) => if self.exec_jump_non_zero_32(*ip) { return Ok(None) },
@@ -985,12 +985,19 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         }
     }
 
-    fn exec_return_call_direct(&mut self, v: u32) -> Result<(), Trap> {
+    /// Returns `true` if the tail-called function already returned from the outermost frame.
+    fn exec_return_call_direct(&mut self, v: u32) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
         match self.store.state.get_func(addr) {
-            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr),
-            crate::FunctionInstance::Host(host_func) => self.exec_call_host(host_func.clone()),
+            crate::FunctionInstance::Wasm(wasm_func) => {
+                self.exec_return_call(wasm_func.clone(), addr)?;
+                Ok(false)
+            }
+            crate::FunctionInstance::Host(host_func) => {
+                self.exec_call_host(host_func.clone())?;
+                Ok(self.exec_return())
+            }
         }
     }
 
@@ -1019,7 +1026,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
-    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<(), Trap> {
+    /// Returns `true` if a tail-called function already returned from the outermost frame.
+    fn exec_call_indirect<const IS_RETURN_CALL: bool>(
+        &mut self,
+        type_addr: u32,
+        table_addr: u32,
+    ) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
 
         // verify that the table is of the right type, this should be validated by the parser already
@@ -1050,9 +1062,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                 }
 
                 match IS_RETURN_CALL {
-                    true => self.exec_return_call(wasm_func.clone(), func_ref),
-                    false => self.exec_call(wasm_func.clone(), func_ref),
+                    true => self.exec_return_call(wasm_func.clone(), func_ref)?,
+                    false => self.exec_call(wasm_func.clone(), func_ref)?,
                 }
+                Ok(false)
             }
             crate::FunctionInstance::Host(host_func) => {
                 if host_func.ty != *call_ty {
@@ -1063,7 +1076,8 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     });
                 }
 
-                self.exec_call_host(host_func.clone())
+                self.exec_call_host(host_func.clone())?;
+                Ok(IS_RETURN_CALL && self.exec_return())
             }
         }
     }
-- 
2.43.0


From 87ad7430ade8c1506eaac893018a57bd4aaab636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 09/20] fix: dynamic call stacks do not exceed their maximum
 size

---
 crates/tinywasm/src/interpreter/stack/call_stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index 62f1f8e..cc3782e 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -56,7 +56,7 @@ impl CallStack {
         }
 
         let target_capacity = required_len.max(self.stack.capacity().max(1).saturating_mul(2)).min(self.max_size);
-        let Ok(()) = self.stack.try_reserve(target_capacity.saturating_sub(self.stack.len())) else {
+        let Ok(()) = self.stack.try_reserve_exact(target_capacity.saturating_sub(self.stack.len())) else {
             cold_path();
             return Err(Trap::CallStackOverflow);
         };
-- 
2.43.0


From 3b885b3a57926177c1d59c4497e90a51d7100b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 10/20] fix: table.fill stores the given function reference

---
 crates/tinywasm/src/instance.rs             |  5 -----
 crates/tinywasm/src/interpreter/executor.rs |  2 +-
 crates/tinywasm/src/store/table.rs          | 20 +-------------------
 3 files changed, 2 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 8cff310..68397ba 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -77,11 +77,6 @@ impl ModuleInstance {
         *self.0.func_type_idxs.get(addr as usize).unwrap_or_else(|| unreachable!("invalid function address: {addr}"))
     }
 
-    #[inline]
-    pub(crate) fn func_addrs(&self) -> &[FuncAddr] {
-        &self.0.func_addrs
-    }
-
     /// resolve a function address to the global store address
     #[inline]
     pub(crate) fn resolve_func_addr(&self, addr: FuncAddr) -> FuncAddr {
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index b3bcf7a..4470f65 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1546,7 +1546,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let n = self.pop_table_operand(arch)?;
         let val = <ValueRef>::stack_pop(&mut self.store.value_stack);
         let i = self.pop_table_operand(arch)?;
-        self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
+        self.store.state.get_table_mut(table_addr).fill(i, n, val.addr().into())
     }
 
     fn pop_table_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index d5f1019..c044bf8 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -54,8 +54,7 @@ impl TableInstance {
         })
     }
 
-    pub(crate) fn fill(&mut self, func_addrs: &[u32], addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
-        let val = val.map(|addr| self.resolve_func_ref(func_addrs, addr));
+    pub(crate) fn fill(&mut self, addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
         let range = self.checked_range(addr, len)?;
         self.elements[range].fill(val);
         Ok(())
@@ -105,16 +104,6 @@ impl TableInstance {
         self.elements.len()
     }
 
-    fn resolve_func_ref(&self, func_addrs: &[u32], addr: Addr) -> Addr {
-        if self.kind.element_type != WasmType::RefFunc {
-            return addr;
-        }
-
-        *func_addrs
-            .get(addr as usize)
-            .expect("error initializing table: function not found. This should have been caught by the validator")
-    }
-
     pub(crate) fn init(&mut self, offset: usize, init: &[TableElement]) -> Result<(), Trap> {
         let range = self.checked_range(offset, init.len())?;
         self.elements[range].copy_from_slice(init);
@@ -145,13 +134,6 @@ impl TableElement {
             Self::Initialized(addr) => Some(*addr),
         }
     }
-
-    pub(crate) fn map(self, f: impl FnOnce(Addr) -> Addr) -> Self {
-        match self {
-            Self::Uninitialized => Self::Uninitialized,
-            Self::Initialized(addr) => Self::Initialized(f(addr)),
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9e1657da2c3553ab94114d035e4d2109ff13a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 11/20] fix: memory.init uses its memory

---
 crates/types/src/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/instructions.rs b/crates/types/src/instructions.rs
index a22279e..cf8a217 100644
--- a/crates/types/src/instructions.rs
+++ b/crates/types/src/instructions.rs
@@ -305,7 +305,7 @@ pub enum Instruction {
     TableFill(TableAddr),
 
     // > Bulk Memory Instructions
-    MemoryInit(MemAddr, DataAddr),
+    MemoryInit(DataAddr, MemAddr),
     MemoryCopy { dst_mem: MemAddr, src_mem: MemAddr },
     MemoryFill(MemAddr),
     MemoryFillImm(MemAddr, u8, i32),
@@ -468,7 +468,7 @@ impl Instruction {
             | Self::V128Store64Lane(arg, ..) => Some(arg.mem_addr()),
             Self::MemorySize(mem)
             | Self::MemoryGrow(mem)
-            | Self::MemoryInit(mem, ..)
+            | Self::MemoryInit(_, mem)
             | Self::MemoryFill(mem)
             | Self::MemoryFillImm(mem, ..) => Some(*mem),
             Self::MemoryCopy { dst_mem, src_mem } => Some(if *dst_mem >= *src_mem { *dst_mem } else { *src_mem }),
-- 
2.43.0


From 683a7ffcd2b2ec390b03e217cf1632762ddfbcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 12/20] fix: reject imported memories, tables and globals of
 another store

---
 crates/tinywasm/src/imports.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 056d706..d6e6c24 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -220,6 +220,12 @@ impl Imports {
 
         for import in &*module.imports {
             let (val, func_handle) = if let Some(defined) = self.take_defined(import) {
+                match &defined {
+                    Extern::Global(global) => global.0.validate_store(store)?,
+                    Extern::Table(table) => table.0.validate_store(store)?,
+                    Extern::Memory(memory) => memory.0.validate_store(store)?,
+                    Extern::Function(func) => func.item.validate_store(store)?,
+                }
                 match defined {
                     Extern::Global(global) => (ExternVal::Global(global.0.addr), None),
                     Extern::Table(table) => (ExternVal::Table(table.0.addr), None),
@@ -265,7 +271,6 @@ impl Imports {
                         .get(*ty as usize)
                         .ok_or_else(|| LinkingError::incompatible_import_type(import))?;
                     let actual_ty = if let Some(func) = &func_handle {
-                        func.item.validate_store(store)?;
                         &func.ty
                     } else {
                         store.state.get_func(func_addr).ty()
-- 
2.43.0


From c21b5f9b490c9b4039c5e259d51c2411b94f0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 13/20] fix: keep the remaining segments and memories as they
 are when an active segment traps

---
 crates/tinywasm/src/instance.rs  |  2 +-
 crates/tinywasm/src/store/mod.rs | 47 +++++++++++++++++---------------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 68397ba..bdea665 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -185,7 +185,7 @@ impl ModuleInstance {
         let (elem_addrs, elem_trapped) =
             store.init_elements(&addrs.tables, &addrs.funcs, &addrs.globals, &module.elements)?;
         let (data_addrs, data_trapped) =
-            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data)?;
+            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data, elem_trapped.is_some())?;
 
         let instance = ModuleInstanceInner {
             store_id: store.id(),
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 61b09ef..041ba70 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -355,6 +355,7 @@ impl Store {
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let elem_count = self.state.elements.len();
         let mut elem_addrs = Vec::with_capacity(elem_count);
+        let mut trapped = None;
         for (i, element) in elements.iter().enumerate() {
             let init = element
                 .items
@@ -369,6 +370,9 @@ impl Store {
                 // this one is not available to the runtime but needs to be initialized to declare references
                 ElementKind::Declared => None, // a. Execute the instruction elm.drop i
 
+                // the instance outlives the trap, so it needs its remaining segments
+                ElementKind::Active { .. } if trapped.is_some() => Some(init),
+
                 // this one is active, so we need to initialize it (essentially a `table.init` instruction)
                 ElementKind::Active { offset, table } => {
                     let offset = self.eval_size_const(offset, global_addrs, func_addrs)?;
@@ -386,19 +390,14 @@ impl Store {
                     // This isn't mentioned in the spec, but the "unofficial" testsuite has a test for it:
                     // https://github.com/WebAssembly/testsuite/blob/5a1a590603d81f40ef471abba70a90a9ae5f4627/linking.wast#L264-L276
                     // I have NO IDEA why this is allowed, but it is.
-                    let Ok(offset) = usize::try_from(offset) else {
-                        return Ok((
-                            elem_addrs.into_boxed_slice(),
-                            Some(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() }),
-                        ));
-                    };
-
-                    if let Err(trap) = table.init(offset, &init) {
-                        return Ok((elem_addrs.into_boxed_slice(), Some(trap)));
+                    match table.init(usize::try_from(offset).unwrap_or(usize::MAX), &init) {
+                        // f. Execute the instruction elm.drop i
+                        Ok(()) => None,
+                        Err(trap) => {
+                            trapped = Some(trap);
+                            Some(init)
+                        }
                     }
-
-                    // f. Execute the instruction elm.drop i
-                    None
                 }
             };
 
@@ -407,7 +406,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((elem_addrs.into_boxed_slice(), None))
+        Ok((elem_addrs.into_boxed_slice(), trapped))
     }
 
     /// Add data to the store, returning their addresses in the store
@@ -417,11 +416,17 @@ impl Store {
         global_addrs: &[Addr],
         func_addrs: &[FuncAddr],
         data: &[Data],
+        elem_trapped: bool,
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let data_count = self.state.data.len();
         let mut data_addrs = Vec::with_capacity(data_count);
+        let mut trapped = None;
         for (i, data) in data.iter().enumerate() {
             let data_val = match &data.kind {
+                // the instance outlives the trap, so it needs its remaining segments
+                tinywasm_types::DataKind::Active { .. } if elem_trapped || trapped.is_some() => {
+                    Some(data.data.to_vec())
+                }
                 tinywasm_types::DataKind::Active { mem: mem_addr, offset } => {
                     let Some(mem_addr) = mem_addrs.get(*mem_addr as usize) else {
                         return Err(Error::Other(format!("memory {mem_addr} not found for data segment {i}")));
@@ -436,14 +441,12 @@ impl Store {
                     match mem.inner.write_all(offset, &data.data) {
                         Some(()) => None,
                         None => {
-                            return Ok((
-                                data_addrs.into_boxed_slice(),
-                                Some(crate::Trap::MemoryOutOfBounds {
-                                    offset,
-                                    len: data.data.len(),
-                                    max: mem.inner.len(),
-                                }),
-                            ));
+                            trapped = Some(crate::Trap::MemoryOutOfBounds {
+                                offset,
+                                len: data.data.len(),
+                                max: mem.inner.len(),
+                            });
+                            Some(data.data.to_vec())
                         }
                     }
                 }
@@ -455,7 +458,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((data_addrs.into_boxed_slice(), None))
+        Ok((data_addrs.into_boxed_slice(), trapped))
     }
 
     pub(crate) fn add_func(&mut self, func: FunctionInstance) -> FuncAddr {
-- 
2.43.0


From 962736d7df4e29ec280311c2bfba07fd0c1b6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 14/20] fix: a trapped execution cannot be resumed

---
 crates/tinywasm/src/func.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 9777a47..e609e2b 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -439,7 +439,16 @@ impl<'store> FuncExecution<'store> {
         let result = run(self.store, callframe);
         self.store.exit_execution();
 
-        match result? {
+        let result = match result {
+            Ok(result) => result,
+            Err(trap) => {
+                // the frames of a trapped execution are gone, it cannot be resumed
+                self.state = FuncExecutionState::Completed { result: None };
+                return Err(trap.into());
+            }
+        };
+
+        match result {
             crate::interpreter::ExecState::Completed => {
                 let result_ty = self.store.state.get_func(root_func_addr).ty().clone();
                 self.state = FuncExecutionState::Completed { result: None };
-- 
2.43.0


From f00636fae579d55f3042ed4741b8c78c351a97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 15/20] verification hook: cfg(tinywasm_verif) modules
 including /verif's harness files (off by default)

---
 crates/tinywasm/src/instance.rs             |  8 ++++++++
 crates/tinywasm/src/interpreter/executor.rs |  8 ++++++++
 crates/tinywasm/src/lib.rs                  | 11 +++++++++++
 3 files changed, 27 insertions(+)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index bdea665..f69dbdf 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -629,3 +629,11 @@ impl ModuleInstance {
         }
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/instance.rs"));
+}
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 4470f65..e20572c 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1646,3 +1646,11 @@ fn cmp_i64(lhs: i64, rhs: i64, op: CmpOp) -> bool {
         CmpOp::GeU => (lhs as u64) >= (rhs as u64),
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/executor.rs"));
+}
diff --git a/crates/tinywasm/src/lib.rs b/crates/tinywasm/src/lib.rs
index a48d9d7..e0d730f 100644
--- a/crates/tinywasm/src/lib.rs
+++ b/crates/tinywasm/src/lib.rs
@@ -37,6 +37,7 @@
 //! a custom allocator and removes support for parsing from files and streams, but otherwise the API is the same.
 
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
 //!
 //! ## Getting Started
 //! The easiest way to get started is to use the [`crate::parse_bytes`] function to load a
@@ -145,3 +146,13 @@ pub mod types {
 }
 
 pub use tinywasm_types::Module;
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    pub use crate::instance::verif as instance;
+    pub use crate::interpreter::executor::verif as executor;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/lib.rs"));
+}
-- 
2.43.0


From 8d46ea6529570008fc831e0570bc3ba9c45a0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 16/20] verification hook: further cfg(tinywasm_verif) modules
 (off by default)

---
 crates/tinywasm/src/func.rs                          |  8 ++++++++
 crates/tinywasm/src/imports.rs                       |  8 ++++++++
 crates/tinywasm/src/interpreter/stack/call_stack.rs  |  8 ++++++++
 crates/tinywasm/src/interpreter/stack/mod.rs         |  6 ++++++
 crates/tinywasm/src/interpreter/stack/value_stack.rs |  8 ++++++++
 crates/tinywasm/src/lib.rs                           |  5 +++++
 crates/tinywasm/src/store/memory/lazy.rs             |  8 ++++++++
 crates/tinywasm/src/store/memory/mod.rs              |  5 +++++
 crates/tinywasm/src/store/memory/paged.rs            |  8 ++++++++
 crates/tinywasm/src/store/memory/vec.rs              |  8 ++++++++
 crates/tinywasm/src/store/mod.rs                     | 11 +++++++++++
 11 files changed, 83 insertions(+)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index e609e2b..e843f00 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -818,3 +818,11 @@ impl FromWasmValues for () {
         Ok(())
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/func.rs"));
+}
diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index d6e6c24..8a17769 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -285,3 +285,11 @@ impl Imports {
         Ok(imports)
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/imports.rs"));
+}
diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index cc3782e..edf2205 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -100,3 +100,11 @@ impl CallFrame {
         self.instr_ptr += 1;
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/call_stack.rs"));
+}
diff --git a/crates/tinywasm/src/interpreter/stack/mod.rs b/crates/tinywasm/src/interpreter/stack/mod.rs
index cc77c52..2795ad3 100644
--- a/crates/tinywasm/src/interpreter/stack/mod.rs
+++ b/crates/tinywasm/src/interpreter/stack/mod.rs
@@ -3,3 +3,9 @@ mod value_stack;
 
 pub(crate) use call_stack::{CallFrame, CallStack, StackBase};
 pub(crate) use value_stack::ValueStack;
+
+#[cfg(tinywasm_verif)]
+#[allow(unreachable_pub)]
+pub mod verif {
+    pub use super::{call_stack::verif as call_stack, value_stack::verif as value_stack};
+}
diff --git a/crates/tinywasm/src/interpreter/stack/value_stack.rs b/crates/tinywasm/src/interpreter/stack/value_stack.rs
index 2049f8d..adb9166 100644
--- a/crates/tinywasm/src/interpreter/stack/value_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/value_stack.rs
@@ -273,3 +273,11 @@ impl ValueStack {
         Ok(())
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/value_stack.rs"));
+}
diff --git a/crates/tinywasm/src/lib.rs b/crates/tinywasm/src/lib.rs
index e0d730f..54adc81 100644
--- a/crates/tinywasm/src/lib.rs
+++ b/crates/tinywasm/src/lib.rs
@@ -153,6 +153,11 @@ pub use tinywasm_types::Module;
 pub mod verif {
     use super::*;
     pub use crate::instance::verif as instance;
+    pub use crate::func::verif as func;
+    pub use crate::imports::verif as imports;
     pub use crate::interpreter::executor::verif as executor;
+    pub use crate::interpreter::stack::verif::{call_stack, value_stack};
+    pub use crate::store::verif as store;
+    pub use crate::store::memory_verif::{lazy, paged, vec_memory};
     include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/lib.rs"));
 }
diff --git a/crates/tinywasm/src/store/memory/lazy.rs b/crates/tinywasm/src/store/memory/lazy.rs
index ef6dace..4259a77 100644
--- a/crates/tinywasm/src/store/memory/lazy.rs
+++ b/crates/tinywasm/src/store/memory/lazy.rs
@@ -123,3 +123,11 @@ impl core::fmt::Debug for LazyLinearMemory {
         f.debug_struct("LazyLinearMemory").field("ty", &self.ty).field("materialized", &self.inner.is_some()).finish()
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/lazy.rs"));
+}
diff --git a/crates/tinywasm/src/store/memory/mod.rs b/crates/tinywasm/src/store/memory/mod.rs
index aeaf3ba..c089807 100644
--- a/crates/tinywasm/src/store/memory/mod.rs
+++ b/crates/tinywasm/src/store/memory/mod.rs
@@ -16,6 +16,11 @@ mod paged;
 mod vec_memory;
 
 pub(crate) use instance::MemoryInstance;
+#[cfg(tinywasm_verif)]
+#[allow(unreachable_pub)]
+pub mod verif {
+    pub use super::{lazy::verif as lazy, paged::verif as paged, vec_memory::verif as vec_memory};
+}
 pub use {lazy::LazyLinearMemory, paged::PagedMemory, vec_memory::VecMemory};
 
 /// Backend storage for a linear memory
diff --git a/crates/tinywasm/src/store/memory/paged.rs b/crates/tinywasm/src/store/memory/paged.rs
index 6ae65af..a93a5b7 100644
--- a/crates/tinywasm/src/store/memory/paged.rs
+++ b/crates/tinywasm/src/store/memory/paged.rs
@@ -342,3 +342,11 @@ mod tests {
         assert_eq!(dst, [1, 0, 0, 0]);
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/paged.rs"));
+}
diff --git a/crates/tinywasm/src/store/memory/vec.rs b/crates/tinywasm/src/store/memory/vec.rs
index 2737159..65a1943 100644
--- a/crates/tinywasm/src/store/memory/vec.rs
+++ b/crates/tinywasm/src/store/memory/vec.rs
@@ -188,3 +188,11 @@ impl LinearMemory for VecMemory {
         Ok(())
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/vec_memory.rs"));
+}
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 041ba70..5607453 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -17,6 +17,9 @@ mod table;
 
 pub use memory::{LazyLinearMemory, LinearMemory, MemoryBackend, PagedMemory, VecMemory};
 pub(crate) use memory::{MemValue, MemoryInstance};
+#[cfg(tinywasm_verif)]
+#[allow(unreachable_pub)]
+pub use memory::verif as memory_verif;
 pub(crate) use {data::*, element::*, function::*, global::*, table::*};
 
 // global store id counter
@@ -613,3 +616,11 @@ impl Store {
         Ok(value)
     }
 }
+
+/// Entry points for the contract checks, compiled only with `--cfg tinywasm_verif`.
+#[cfg(tinywasm_verif)]
+#[allow(missing_docs, unreachable_pub, dead_code, unused_imports, private_interfaces)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/store.rs"));
+}
-- 
2.43.0


From af52ea73165b65e5511f205a4e9cea4f03b8783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 17/20] fix: return an error instead of panicking for memories
 whose initial size exceeds the supported maximum

---
 crates/tinywasm/src/store/memory/instance.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/instance.rs b/crates/tinywasm/src/store/memory/instance.rs
index be0f3b4..b6736d6 100644
--- a/crates/tinywasm/src/store/memory/instance.rs
+++ b/crates/tinywasm/src/store/memory/instance.rs
@@ -57,7 +57,9 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            return Err(Error::UnsupportedFeature("memory size exceeds the supported maximum"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
@@ -80,7 +82,9 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new_lazy(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            return Err(Error::UnsupportedFeature("memory size exceeds the supported maximum"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
-- 
2.43.0


From 47ffa7bb8afbbba0d42a37f6cb47eb9063f449db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 18/20] fix: compute the byte size of 64-bit memory types
 without overflowing

---
 crates/types/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index fcac23c..2e1cfe5 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -574,12 +574,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn initial_size(&self) -> u64 {
-        self.page_count_initial * self.page_size()
+        self.page_count_initial.saturating_mul(self.page_size())
     }
 
     #[inline]
     pub const fn max_size(&self) -> u64 {
-        self.page_count_max() * self.page_size()
+        self.page_count_max().saturating_mul(self.page_size())
     }
 
     /// Set a different memory architecture.
-- 
2.43.0


From 0ef8e34a0dc286f4736d88783a17a1d29a418dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 19/20] fix: a memory import with a declared maximum is not
 satisfied by a memory without one

---
 crates/tinywasm/src/imports.rs | 5 +++++
 crates/types/src/lib.rs        | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 8a17769..604d00d 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,6 +195,11 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
+        // a memory that declares no maximum does not satisfy an import that requires one, whatever its value
+        if actual.declared_page_count_max().is_some() && expected.declared_page_count_max().is_none() {
+            return Err(LinkingError::incompatible_import_type(import).into());
+        }
+
         if expected.page_count_max() > actual.page_count_max() {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 2e1cfe5..47d5d35 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -567,6 +567,12 @@ impl MemoryType {
         if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
     }
 
+    /// The maximum page count the type declares, if it declares one.
+    #[inline]
+    pub const fn declared_page_count_max(&self) -> Option<u64> {
+        self.page_count_max
+    }
+
     #[inline]
     pub const fn page_size(&self) -> u64 {
         if let Some(page_size) = self.page_size { page_size } else { MEM_PAGE_SIZE }
-- 
2.43.0


From 1514b9f4aa43083541987dfbd0661234a3d6e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:20 +0000
Subject: [PATCH 20/20] fix: an import without a maximum accepts 64-bit
 memories that declare more than 4 GiB

---
 crates/tinywasm/src/imports.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 604d00d..bb61865 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,12 +195,10 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-        // a memory that declares no maximum does not satisfy an import that requires one, whatever its value
-        if actual.declared_page_count_max().is_some() && expected.declared_page_count_max().is_none() {
-            return Err(LinkingError::incompatible_import_type(import).into());
-        }
-
-        if expected.page_count_max() > actual.page_count_max() {
+        // an import that declares a maximum needs a memory that declares one at most as large; any other accepts all
+        if let Some(max) = actual.declared_page_count_max()
+            && expected.declared_page_count_max().is_none_or(|offered| offered > max)
+        {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-- 
2.43.0

