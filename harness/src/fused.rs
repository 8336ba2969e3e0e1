//! C11: the fused instructions against the sequences of instructions they stand for.
use crate::mach::*;
use crate::frame::*;
#[cfg(not(kani))] use crate::kani;
use spec::ops as S;
fn ok<T>(r: spec::R<T>) -> T { match r { Ok(v) => v, Err(_) => panic!("specification: unexpected trap") } }
pub fn int_op() -> BinOp { match kani::any::<u8>() { 0 => BinOp::IAdd, 1 => BinOp::ISub, 2 => BinOp::IAnd, 3 => BinOp::IOr, 4 => BinOp::IXor, 5 => BinOp::IShl, 6 => BinOp::IShrS, 7 => BinOp::IShrU, 8 => BinOp::IRotl, _ => BinOp::IRotr } }
pub fn op128() -> BinOp128 { match kani::any::<u8>() { 0 => BinOp128::And, 1 => BinOp128::AndNot, 2 => BinOp128::Or, 3 => BinOp128::Xor, _ => BinOp128::I64x2Add } }
pub fn bin32(op: BinOp, a: u32, b: u32) -> u32 { match op { BinOp::IAdd => ok(S::I32Add(a, b)), BinOp::ISub => ok(S::I32Sub(a, b)), BinOp::IAnd => ok(S::I32And(a, b)), BinOp::IOr => ok(S::I32Or(a, b)), BinOp::IXor => ok(S::I32Xor(a, b)),
    BinOp::IShl => ok(S::I32Shl(a, b)), BinOp::IShrS => ok(S::I32ShrS(a, b)), BinOp::IShrU => ok(S::I32ShrU(a, b)), BinOp::IRotl => ok(S::I32Rotl(a, b)), BinOp::IRotr => ok(S::I32Rotr(a, b)), _ => panic!() } }
pub fn bin64(op: BinOp, a: u64, b: u64) -> u64 { match op { BinOp::IAdd => ok(S::I64Add(a, b)), BinOp::ISub => ok(S::I64Sub(a, b)), BinOp::IAnd => ok(S::I64And(a, b)), BinOp::IOr => ok(S::I64Or(a, b)), BinOp::IXor => ok(S::I64Xor(a, b)),
    BinOp::IShl => ok(S::I64Shl(a, b)), BinOp::IShrS => ok(S::I64ShrS(a, b)), BinOp::IShrU => ok(S::I64ShrU(a, b)), BinOp::IRotl => ok(S::I64Rotl(a, b)), BinOp::IRotr => ok(S::I64Rotr(a, b)), _ => panic!() } }
pub fn bin128(op: BinOp128, a: [u8; 16], b: [u8; 16]) -> [u8; 16] { let (a, b) = (spec::V128(a), spec::V128(b)); match op { BinOp128::And => spec::simd::V128And(a, b), BinOp128::AndNot => spec::simd::V128AndNot(a, b), BinOp128::Or => spec::simd::V128Or(a, b), BinOp128::Xor => spec::simd::V128Xor(a, b), BinOp128::I64x2Add => spec::simd::I64x2Add(a, b), BinOp128::I64x2Mul => spec::simd::I64x2Mul(a, b) }.0 }
pub fn cmp_op() -> CmpOp { match kani::any::<u8>() { 0 => CmpOp::Eq, 1 => CmpOp::Ne, 2 => CmpOp::LtS, 3 => CmpOp::LtU, 4 => CmpOp::GtS, 5 => CmpOp::GtU, 6 => CmpOp::LeS, 7 => CmpOp::LeU, 8 => CmpOp::GeS, _ => CmpOp::GeU } }
pub fn cmp32(op: CmpOp, a: u32, b: u32) -> bool { ok(match op { CmpOp::Eq => S::I32Eq(a, b), CmpOp::Ne => S::I32Ne(a, b), CmpOp::LtS => S::I32LtS(a, b), CmpOp::LtU => S::I32LtU(a, b), CmpOp::GtS => S::I32GtS(a, b), CmpOp::GtU => S::I32GtU(a, b), CmpOp::LeS => S::I32LeS(a, b), CmpOp::LeU => S::I32LeU(a, b), CmpOp::GeS => S::I32GeS(a, b), CmpOp::GeU => S::I32GeU(a, b) }) != 0 }
pub fn cmp64(op: CmpOp, a: u64, b: u64) -> bool { ok(match op { CmpOp::Eq => S::I64Eq(a, b), CmpOp::Ne => S::I64Ne(a, b), CmpOp::LtS => S::I64LtS(a, b), CmpOp::LtU => S::I64LtU(a, b), CmpOp::GtS => S::I64GtS(a, b), CmpOp::GtU => S::I64GtU(a, b), CmpOp::LeS => S::I64LeS(a, b), CmpOp::LeU => S::I64LeU(a, b), CmpOp::GeS => S::I64GeS(a, b), CmpOp::GeU => S::I64GeU(a, b) }) != 0 }

group!(c11_BinOpLocalLocal32: BinOpLocalLocal32);
group!(c11_BinOpLocalLocalSet32: BinOpLocalLocalSet32);
group!(c11_BinOpLocalLocalTee32: BinOpLocalLocalTee32);
group!(c11_BinOpLocalConst32: BinOpLocalConst32);
group!(c11_BinOpLocalConstSet32: BinOpLocalConstSet32);
group!(c11_BinOpLocalConstTee32: BinOpLocalConstTee32);
group!(c11_LocalCopy32: LocalCopy32);
group!(c11_SetLocalConst32: SetLocalConst32);
group!(c11_IncLocal32: IncLocal32);
group!(c11_AndConstTee32: AndConstTee32);
group!(c11_SubConstTee32: SubConstTee32);
group!(c11_AddConst32: AddConst32 I32Add3);
group!(c11_JumpCmpStackConst32: JumpCmpStackConst32);
group!(c11_JumpCmpLocalConst32: JumpCmpLocalConst32);
group!(c11_JumpCmpLocalLocal32: JumpCmpLocalLocal32);
group!(c11_JumpLocal32: JumpIfLocalZero32 JumpIfLocalNonZero32);
group!(c11_BinOpLocalLocal64: BinOpLocalLocal64);
group!(c11_BinOpLocalLocalSet64: BinOpLocalLocalSet64);
group!(c11_BinOpLocalLocalTee64: BinOpLocalLocalTee64);
group!(c11_BinOpLocalConst64: BinOpLocalConst64);
group!(c11_BinOpLocalConstSet64: BinOpLocalConstSet64);
group!(c11_BinOpLocalConstTee64: BinOpLocalConstTee64);
group!(c11_LocalCopy64: LocalCopy64);
group!(c11_SetLocalConst64: SetLocalConst64);
group!(c11_IncLocal64: IncLocal64);
group!(c11_AndConstTee64: AndConstTee64);
group!(c11_SubConstTee64: SubConstTee64);
group!(c11_AddConst64: AddConst64 I64Add3);
group!(c11_JumpCmpStackConst64: JumpCmpStackConst64);
group!(c11_JumpCmpLocalConst64: JumpCmpLocalConst64);
group!(c11_JumpCmpLocalLocal64: JumpCmpLocalLocal64);
group!(c11_JumpLocal64: JumpIfLocalZero64 JumpIfLocalNonZero64);
group!(c11_BinOpLocalLocal128: BinOpLocalLocal128);
group!(c11_BinOpLocalLocalSet128: BinOpLocalLocalSet128);
group!(c11_BinOpLocalLocalTee128: BinOpLocalLocalTee128);
group!(c11_BinOpLocalConst128: BinOpLocalConst128);
group!(c11_BinOpLocalConstSet128: BinOpLocalConstSet128);
group!(c11_BinOpLocalConstTee128: BinOpLocalConstTee128);
group!(c11_LocalCopy128: LocalCopy128);
group!(c11_SetLocalConst128: SetLocalConst128);
entries! { C11 :
    c11_BinOpLocalLocal32_ => { let mut b = Big::new(0); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let y = kani::any::<u16>(); let j = b.ix(0, y, 0); b.set32(j); let want = bin32(op, b.r32(i), b.r32(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocal32>(Instruction::BinOpLocalLocal32(op, x, y)); b.next(out); b.frame([0; 3], [1, 0, 0], None); assert!(b.r32(b.len[0]) == want, "value pushed"); b.m.done(); };
    c11_BinOpLocalLocalSet32_ => { let mut b = Big::new(0); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let y = kani::any::<u16>(); let j = b.ix(0, y, 0); b.set32(j); let d = kani::any::<u16>(); let t = b.ix(0, d, 0); let want = bin32(op, b.r32(i), b.r32(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalSet32>(Instruction::BinOpLocalLocalSet32(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 0], Some((0, t))); assert!(b.r32(t) == want, "value of the target local"); b.m.done(); };
    c11_BinOpLocalLocalTee32_ => { let mut b = Big::new(0); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let y = kani::any::<u16>(); let j = b.ix(0, y, 0); b.set32(j); let d = kani::any::<u16>(); let t = b.ix(0, d, 0); let want = bin32(op, b.r32(i), b.r32(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalTee32>(Instruction::BinOpLocalLocalTee32(op, x, y, d)); b.next(out); b.frame([0; 3], [1, 0, 0], Some((0, t))); assert!(b.r32(b.len[0]) == want, "value pushed"); assert!(b.r32(t) == want, "value of the target local"); b.m.done(); };
    c11_BinOpLocalConst32_ => { let mut b = Big::new(0); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let y: i32 = kani::any(); let want = bin32(op, b.r32(i), y as u32); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConst32>(Instruction::BinOpLocalConst32(op, x, y)); b.next(out); b.frame([0; 3], [1, 0, 0], None); assert!(b.r32(b.len[0]) == want, "value pushed"); b.m.done(); };
    c11_BinOpLocalConstSet32_ => { let mut b = Big::new(0); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let y: i32 = kani::any(); let d = kani::any::<u16>(); let t = b.ix(0, d, 0); let want = bin32(op, b.r32(i), y as u32); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConstSet32>(Instruction::BinOpLocalConstSet32(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 0], Some((0, t))); assert!(b.r32(t) == want, "value of the target local"); b.m.done(); };
    c11_BinOpLocalConstTee32_ => { let mut b = Big::new(0); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let y: i32 = kani::any(); let d = kani::any::<u16>(); let t = b.ix(0, d, 0); let want = bin32(op, b.r32(i), y as u32); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConstTee32>(Instruction::BinOpLocalConstTee32(op, x, y, d)); b.next(out); b.frame([0; 3], [1, 0, 0], Some((0, t))); assert!(b.r32(b.len[0]) == want, "value pushed"); assert!(b.r32(t) == want, "value of the target local"); b.m.done(); };
    c11_LocalCopy32_ => { let mut b = Big::new(0); let (x, y) = (kani::any::<u16>(), kani::any::<u16>()); let (i, j) = (b.ix(0, x, 0), b.ix(0, y, 0)); b.set32(i); let want = b.r32(i); b.seal(); let out = b.m.exec::<x::c11_LocalCopy32>(Instruction::LocalCopy32(x, y)); b.next(out); b.frame([0; 3], [0; 3], Some((0, j))); assert!(b.r32(j) == want, "copied value"); b.m.done(); };
    c11_SetLocalConst32_ => { let mut b = Big::new(0); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); let k: i32 = kani::any(); let out = b.m.exec::<x::c11_SetLocalConst32>(Instruction::SetLocalConst32(x, k)); b.next(out); b.frame([0; 3], [0; 3], Some((0, i))); assert!(b.r32(i) == k as u32, "constant"); b.m.done(); };
    c11_IncLocal32_ => { let mut b = Big::new(0); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let k: i32 = kani::any(); let want = ok(S::I32Add(b.r32(i), k as u32)); b.seal(); let out = b.m.exec::<x::c11_IncLocal32>(Instruction::IncLocal32(x, k)); b.next(out); b.frame([0; 3], [0; 3], Some((0, i))); assert!(b.r32(i) == want, "incremented value"); b.m.done(); };
    c11_AndConstTee32_ => { let mut b = Big::new(0); let x = kani::any::<u16>(); let i = b.ix(0, x, 1); let v = b.op32(0); let k: i32 = kani::any(); let want = ok(S::I32And(v, k as u32)); b.seal(); let out = b.m.exec::<x::c11_AndConstTee32>(Instruction::AndConstTee32(k, x)); b.next(out); b.frame([1, 0, 0], [1, 0, 0], Some((0, i))); assert!(b.r32(i) == want && b.r32(b.len[0] - 1) == want, "value pushed and stored"); b.m.done(); };
    c11_SubConstTee32_ => { let mut b = Big::new(0); let x = kani::any::<u16>(); let i = b.ix(0, x, 1); let v = b.op32(0); let k: i32 = kani::any(); let want = ok(S::I32Sub(v, k as u32)); b.seal(); let out = b.m.exec::<x::c11_SubConstTee32>(Instruction::SubConstTee32(k, x)); b.next(out); b.frame([1, 0, 0], [1, 0, 0], Some((0, i))); assert!(b.r32(i) == want && b.r32(b.len[0] - 1) == want, "value pushed and stored"); b.m.done(); };
    c11_AddConst32_ => { let mut b = Big::new(0); let v = b.op32(0); let k: i32 = kani::any(); let want = ok(S::I32Add(v, k as u32)); b.seal(); let out = b.m.exec::<x::c11_AddConst32>(Instruction::AddConst32(k)); b.next(out); b.frame([1, 0, 0], [1, 0, 0], None); assert!(b.r32(b.len[0] - 1) == want, "sum"); b.m.done(); };
    c11_I32Add3_ => { let mut b = Big::new(0); let (r, q, p) = (b.op32(0), b.op32(1), b.op32(2)); let want = ok(S::I32Add(p, ok(S::I32Add(q, r)))); b.seal(); let out = b.m.exec::<x::c11_AddConst32>(Instruction::I32Add3); b.next(out); b.frame([3, 0, 0], [1, 0, 0], None); assert!(b.r32(b.len[0] - 3) == want, "sum"); b.m.done(); };
    c11_JumpCmpStackConst32_ => { let mut b = Big::new(0); let t: u32 = kani::any(); let v = b.op32(0); let imm: i32 = kani::any(); let op = cmp_op(); let want = cmp32(op, v, imm as u32); b.seal(); let out = b.m.exec::<x::c11_JumpCmpStackConst32>(Instruction::JumpCmpStackConst32 { target_ip: t, imm, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([1, 0, 0], [0; 3], None); b.m.done(); };
    c11_JumpCmpLocalConst32_ => { let mut b = Big::new(0); let t: u32 = kani::any(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let imm: i32 = kani::any(); let op = cmp_op(); let want = cmp32(op, b.r32(i), imm as u32); b.seal(); let out = b.m.exec::<x::c11_JumpCmpLocalConst32>(Instruction::JumpCmpLocalConst32 { target_ip: t, local: x, imm, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); };
    c11_JumpCmpLocalLocal32_ => { let mut b = Big::new(0); let t: u32 = kani::any(); let (x, y) = (kani::any::<u16>(), kani::any::<u16>()); let (i, j) = (b.ix(0, x, 0), b.ix(0, y, 0)); b.set32(i); b.set32(j); let op = cmp_op(); let want = cmp32(op, b.r32(i), b.r32(j)); b.seal(); let out = b.m.exec::<x::c11_JumpCmpLocalLocal32>(Instruction::JumpCmpLocalLocal32 { target_ip: t, left: x, right: y, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); };
    c11_JumpLocal32_ => { let mut b = Big::new(0); let t: u32 = kani::any(); let x = kani::any::<u16>(); let i = b.ix(0, x, 0); b.set32(i); let z: bool = kani::any(); let want = (b.r32(i) == 0) == z; b.seal(); let out = b.m.exec::<x::c11_JumpLocal32>(if z { Instruction::JumpIfLocalZero32 { target_ip: t, local: x } } else { Instruction::JumpIfLocalNonZero32 { target_ip: t, local: x } }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); };
    c11_BinOpLocalLocal64_ => { let mut b = Big::small(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y = kani::any::<u16>(); let j = b.ix(1, y, 0); b.set64(j); let want = bin64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocal64>(Instruction::BinOpLocalLocal64(op, x, y)); b.next(out); b.frame([0; 3], [0, 1, 0], None); assert!(b.r64(b.len[1]) == want, "value pushed"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalLocal64_any => { let mut b = Big::new(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y = kani::any::<u16>(); let j = b.ix(1, y, 0); b.set64(j); let want = bin64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocal64>(Instruction::BinOpLocalLocal64(op, x, y)); b.next(out); b.frame([0; 3], [0, 1, 0], None); assert!(b.r64(b.len[1]) == want, "value pushed"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_BinOpLocalLocalSet64_ => { let mut b = Big::small(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y = kani::any::<u16>(); let j = b.ix(1, y, 0); b.set64(j); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalSet64>(Instruction::BinOpLocalLocalSet64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 0], Some((1, t))); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalLocalSet64_any => { let mut b = Big::new(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y = kani::any::<u16>(); let j = b.ix(1, y, 0); b.set64(j); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalSet64>(Instruction::BinOpLocalLocalSet64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 0], Some((1, t))); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_BinOpLocalLocalTee64_ => { let mut b = Big::small(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y = kani::any::<u16>(); let j = b.ix(1, y, 0); b.set64(j); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalTee64>(Instruction::BinOpLocalLocalTee64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 1, 0], Some((1, t))); assert!(b.r64(b.len[1]) == want, "value pushed"); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalLocalTee64_any => { let mut b = Big::new(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y = kani::any::<u16>(); let j = b.ix(1, y, 0); b.set64(j); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalTee64>(Instruction::BinOpLocalLocalTee64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 1, 0], Some((1, t))); assert!(b.r64(b.len[1]) == want, "value pushed"); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_BinOpLocalConst64_ => { let mut b = Big::small(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y: i64 = kani::any(); let want = bin64(op, b.r64(i), y as u64); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConst64>(Instruction::BinOpLocalConst64(op, x, y)); b.next(out); b.frame([0; 3], [0, 1, 0], None); assert!(b.r64(b.len[1]) == want, "value pushed"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalConst64_any => { let mut b = Big::new(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y: i64 = kani::any(); let want = bin64(op, b.r64(i), y as u64); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConst64>(Instruction::BinOpLocalConst64(op, x, y)); b.next(out); b.frame([0; 3], [0, 1, 0], None); assert!(b.r64(b.len[1]) == want, "value pushed"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_BinOpLocalConstSet64_ => { let mut b = Big::small(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y: i64 = kani::any(); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), y as u64); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConstSet64>(Instruction::BinOpLocalConstSet64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 0], Some((1, t))); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalConstSet64_any => { let mut b = Big::new(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y: i64 = kani::any(); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), y as u64); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConstSet64>(Instruction::BinOpLocalConstSet64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 0], Some((1, t))); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_BinOpLocalConstTee64_ => { let mut b = Big::small(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y: i64 = kani::any(); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), y as u64); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConstTee64>(Instruction::BinOpLocalConstTee64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 1, 0], Some((1, t))); assert!(b.r64(b.len[1]) == want, "value pushed"); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalConstTee64_any => { let mut b = Big::new(1); let op = int_op(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let y: i64 = kani::any(); let d = kani::any::<u16>(); let t = b.ix(1, d, 0); let want = bin64(op, b.r64(i), y as u64); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalConstTee64>(Instruction::BinOpLocalConstTee64(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 1, 0], Some((1, t))); assert!(b.r64(b.len[1]) == want, "value pushed"); assert!(b.r64(t) == want, "value of the target local"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_LocalCopy64_ => { let mut b = Big::small(1); let (x, y) = (kani::any::<u16>(), kani::any::<u16>()); let (i, j) = (b.ix(1, x, 0), b.ix(1, y, 0)); b.set64(i); let want = b.r64(i); b.seal(); let out = b.m.exec::<x::c11_LocalCopy64>(Instruction::LocalCopy64(x, y)); b.next(out); b.frame([0; 3], [0; 3], Some((1, j))); assert!(b.r64(j) == want, "copied value"); b.m.done(); }; // @bounded=1
    c11_LocalCopy64_any => { let mut b = Big::new(1); let (x, y) = (kani::any::<u16>(), kani::any::<u16>()); let (i, j) = (b.ix(1, x, 0), b.ix(1, y, 0)); b.set64(i); let want = b.r64(i); b.seal(); let out = b.m.exec::<x::c11_LocalCopy64>(Instruction::LocalCopy64(x, y)); b.next(out); b.frame([0; 3], [0; 3], Some((1, j))); assert!(b.r64(j) == want, "copied value"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_SetLocalConst64_ => { let mut b = Big::small(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); let k: i64 = kani::any(); let out = b.m.exec::<x::c11_SetLocalConst64>(Instruction::SetLocalConst64(x, k)); b.next(out); b.frame([0; 3], [0; 3], Some((1, i))); assert!(b.r64(i) == k as u64, "constant"); b.m.done(); }; // @bounded=1
    c11_SetLocalConst64_any => { let mut b = Big::new(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); let k: i64 = kani::any(); let out = b.m.exec::<x::c11_SetLocalConst64>(Instruction::SetLocalConst64(x, k)); b.next(out); b.frame([0; 3], [0; 3], Some((1, i))); assert!(b.r64(i) == k as u64, "constant"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_IncLocal64_ => { let mut b = Big::small(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let k: i64 = kani::any(); let want = ok(S::I64Add(b.r64(i), k as u64)); b.seal(); let out = b.m.exec::<x::c11_IncLocal64>(Instruction::IncLocal64(x, k)); b.next(out); b.frame([0; 3], [0; 3], Some((1, i))); assert!(b.r64(i) == want, "incremented value"); b.m.done(); }; // @bounded=1
    c11_IncLocal64_any => { let mut b = Big::new(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let k: i64 = kani::any(); let want = ok(S::I64Add(b.r64(i), k as u64)); b.seal(); let out = b.m.exec::<x::c11_IncLocal64>(Instruction::IncLocal64(x, k)); b.next(out); b.frame([0; 3], [0; 3], Some((1, i))); assert!(b.r64(i) == want, "incremented value"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_AndConstTee64_ => { let mut b = Big::small(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 1); let v = b.op64(0); let k: i64 = kani::any(); let want = ok(S::I64And(v, k as u64)); b.seal(); let out = b.m.exec::<x::c11_AndConstTee64>(Instruction::AndConstTee64(k, x)); b.next(out); b.frame([0, 1, 0], [0, 1, 0], Some((1, i))); assert!(b.r64(i) == want && b.r64(b.len[1] - 1) == want, "value pushed and stored"); b.m.done(); }; // @bounded=1
    c11_AndConstTee64_any => { let mut b = Big::new(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 1); let v = b.op64(0); let k: i64 = kani::any(); let want = ok(S::I64And(v, k as u64)); b.seal(); let out = b.m.exec::<x::c11_AndConstTee64>(Instruction::AndConstTee64(k, x)); b.next(out); b.frame([0, 1, 0], [0, 1, 0], Some((1, i))); assert!(b.r64(i) == want && b.r64(b.len[1] - 1) == want, "value pushed and stored"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_SubConstTee64_ => { let mut b = Big::small(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 1); let v = b.op64(0); let k: i64 = kani::any(); let want = ok(S::I64Sub(v, k as u64)); b.seal(); let out = b.m.exec::<x::c11_SubConstTee64>(Instruction::SubConstTee64(k, x)); b.next(out); b.frame([0, 1, 0], [0, 1, 0], Some((1, i))); assert!(b.r64(i) == want && b.r64(b.len[1] - 1) == want, "value pushed and stored"); b.m.done(); }; // @bounded=1
    c11_SubConstTee64_any => { let mut b = Big::new(1); let x = kani::any::<u16>(); let i = b.ix(1, x, 1); let v = b.op64(0); let k: i64 = kani::any(); let want = ok(S::I64Sub(v, k as u64)); b.seal(); let out = b.m.exec::<x::c11_SubConstTee64>(Instruction::SubConstTee64(k, x)); b.next(out); b.frame([0, 1, 0], [0, 1, 0], Some((1, i))); assert!(b.r64(i) == want && b.r64(b.len[1] - 1) == want, "value pushed and stored"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_AddConst64_ => { let mut b = Big::small(1); let v = b.op64(0); let k: i64 = kani::any(); let want = ok(S::I64Add(v, k as u64)); b.seal(); let out = b.m.exec::<x::c11_AddConst64>(Instruction::AddConst64(k)); b.next(out); b.frame([0, 1, 0], [0, 1, 0], None); assert!(b.r64(b.len[1] - 1) == want, "sum"); b.m.done(); }; // @bounded=1
    c11_AddConst64_any => { let mut b = Big::new(1); let v = b.op64(0); let k: i64 = kani::any(); let want = ok(S::I64Add(v, k as u64)); b.seal(); let out = b.m.exec::<x::c11_AddConst64>(Instruction::AddConst64(k)); b.next(out); b.frame([0, 1, 0], [0, 1, 0], None); assert!(b.r64(b.len[1] - 1) == want, "sum"); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_I64Add3_ => { let mut b = Big::small(1); let (r, q, p) = (b.op64(0), b.op64(1), b.op64(2)); let want = ok(S::I64Add(p, ok(S::I64Add(q, r)))); b.seal(); let out = b.m.exec::<x::c11_AddConst64>(Instruction::I64Add3); b.next(out); b.frame([0, 3, 0], [0, 1, 0], None); assert!(b.r64(b.len[1] - 3) == want, "sum"); b.m.done(); }; // @bounded=1
    c11_JumpCmpStackConst64_ => { let mut b = Big::small(1); let t: u32 = kani::any(); let v = b.op64(0); let imm: i64 = kani::any(); let op = cmp_op(); let want = cmp64(op, v, imm as u64); b.seal(); let out = b.m.exec::<x::c11_JumpCmpStackConst64>(Instruction::JumpCmpStackConst64 { target_ip: t, imm, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0, 1, 0], [0; 3], None); b.m.done(); }; // @bounded=1
    c11_JumpCmpStackConst64_any => { let mut b = Big::new(1); let t: u32 = kani::any(); let v = b.op64(0); let imm: i64 = kani::any(); let op = cmp_op(); let want = cmp64(op, v, imm as u64); b.seal(); let out = b.m.exec::<x::c11_JumpCmpStackConst64>(Instruction::JumpCmpStackConst64 { target_ip: t, imm, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0, 1, 0], [0; 3], None); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_JumpCmpLocalConst64_ => { let mut b = Big::small(1); let t: u32 = kani::any(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let imm: i32 = kani::any(); let op = cmp_op(); let want = cmp64(op, b.r64(i), imm as i64 as u64); b.seal(); let out = b.m.exec::<x::c11_JumpCmpLocalConst64>(Instruction::JumpCmpLocalConst64 { target_ip: t, local: x, imm, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); }; // @bounded=1
    c11_JumpCmpLocalConst64_any => { let mut b = Big::new(1); let t: u32 = kani::any(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let imm: i32 = kani::any(); let op = cmp_op(); let want = cmp64(op, b.r64(i), imm as i64 as u64); b.seal(); let out = b.m.exec::<x::c11_JumpCmpLocalConst64>(Instruction::JumpCmpLocalConst64 { target_ip: t, local: x, imm, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_JumpCmpLocalLocal64_ => { let mut b = Big::small(1); let t: u32 = kani::any(); let (x, y) = (kani::any::<u16>(), kani::any::<u16>()); let (i, j) = (b.ix(1, x, 0), b.ix(1, y, 0)); b.set64(i); b.set64(j); let op = cmp_op(); let want = cmp64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_JumpCmpLocalLocal64>(Instruction::JumpCmpLocalLocal64 { target_ip: t, left: x, right: y, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); }; // @bounded=1
    c11_JumpCmpLocalLocal64_any => { let mut b = Big::new(1); let t: u32 = kani::any(); let (x, y) = (kani::any::<u16>(), kani::any::<u16>()); let (i, j) = (b.ix(1, x, 0), b.ix(1, y, 0)); b.set64(i); b.set64(j); let op = cmp_op(); let want = cmp64(op, b.r64(i), b.r64(j)); b.seal(); let out = b.m.exec::<x::c11_JumpCmpLocalLocal64>(Instruction::JumpCmpLocalLocal64 { target_ip: t, left: x, right: y, op }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_JumpLocal64_ => { let mut b = Big::small(1); let t: u32 = kani::any(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let z: bool = kani::any(); let want = (b.r64(i) == 0) == z; b.seal(); let out = b.m.exec::<x::c11_JumpLocal64>(if z { Instruction::JumpIfLocalZero64 { target_ip: t, local: x } } else { Instruction::JumpIfLocalNonZero64 { target_ip: t, local: x } }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); }; // @bounded=1
    c11_JumpLocal64_any => { let mut b = Big::new(1); let t: u32 = kani::any(); let x = kani::any::<u16>(); let i = b.ix(1, x, 0); b.set64(i); let z: bool = kani::any(); let want = (b.r64(i) == 0) == z; b.seal(); let out = b.m.exec::<x::c11_JumpLocal64>(if z { Instruction::JumpIfLocalZero64 { target_ip: t, local: x } } else { Instruction::JumpIfLocalNonZero64 { target_ip: t, local: x } }); assert!(out == Out::Next && b.m.r.ip == if want { t as usize } else { 1 }, "jumps exactly when the condition holds"); b.frame([0; 3], [0; 3], None); b.m.done(); }; // @tier=thorough cost=200 heavy=1
    c11_BinOpLocalLocal128_ => { let mut b = Big::small(2); let op = op128(); let x = kani::any::<u16>(); let i = b.ix(2, x, 0); b.set128(i); let y = kani::any::<u16>(); let j = b.ix(2, y, 0); b.set128(j); let want = bin128(op, b.r128(i), b.r128(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocal128>(Instruction::BinOpLocalLocal128(op, x, y)); b.next(out); b.frame([0; 3], [0, 0, 1], None); assert!(b.r128(b.len[2]) == want, "value pushed"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalLocalSet128_ => { let mut b = Big::small(2); let op = op128(); let x = kani::any::<u16>(); let i = b.ix(2, x, 0); b.set128(i); let y = kani::any::<u16>(); let j = b.ix(2, y, 0); b.set128(j); let d = kani::any::<u16>(); let t = b.ix(2, d, 0); let want = bin128(op, b.r128(i), b.r128(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalSet128>(Instruction::BinOpLocalLocalSet128(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 0], Some((2, t))); assert!(b.r128(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalLocalTee128_ => { let mut b = Big::small(2); let op = op128(); let x = kani::any::<u16>(); let i = b.ix(2, x, 0); b.set128(i); let y = kani::any::<u16>(); let j = b.ix(2, y, 0); b.set128(j); let d = kani::any::<u16>(); let t = b.ix(2, d, 0); let want = bin128(op, b.r128(i), b.r128(j)); b.seal(); let out = b.m.exec::<x::c11_BinOpLocalLocalTee128>(Instruction::BinOpLocalLocalTee128(op, x, y, d)); b.next(out); b.frame([0; 3], [0, 0, 1], Some((2, t))); assert!(b.r128(b.len[2]) == want, "value pushed"); assert!(b.r128(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalConst128_ => { let mut b = Big::small(2); let op = op128(); let x = kani::any::<u16>(); let i = b.ix(2, x, 0); b.set128(i); let k = any128(); let mut pool = [any128(), k, any128()]; let y = 1; let want = bin128(op, b.r128(i), k); b.seal(); let out = b.m.exec_data::<x::c11_BinOpLocalConst128>(Instruction::BinOpLocalConst128(op, x, y), &mut pool); b.next(out); b.frame([0; 3], [0, 0, 1], None); assert!(b.r128(b.len[2]) == want, "value pushed"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalConstSet128_ => { let mut b = Big::small(2); let op = op128(); let x = kani::any::<u16>(); let i = b.ix(2, x, 0); b.set128(i); let k = any128(); let mut pool = [any128(), k, any128()]; let y = 1; let d = kani::any::<u16>(); let t = b.ix(2, d, 0); let want = bin128(op, b.r128(i), k); b.seal(); let out = b.m.exec_data::<x::c11_BinOpLocalConstSet128>(Instruction::BinOpLocalConstSet128(op, x, y, d), &mut pool); b.next(out); b.frame([0; 3], [0, 0, 0], Some((2, t))); assert!(b.r128(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_BinOpLocalConstTee128_ => { let mut b = Big::small(2); let op = op128(); let x = kani::any::<u16>(); let i = b.ix(2, x, 0); b.set128(i); let k = any128(); let mut pool = [any128(), k, any128()]; let y = 1; let d = kani::any::<u16>(); let t = b.ix(2, d, 0); let want = bin128(op, b.r128(i), k); b.seal(); let out = b.m.exec_data::<x::c11_BinOpLocalConstTee128>(Instruction::BinOpLocalConstTee128(op, x, y, d), &mut pool); b.next(out); b.frame([0; 3], [0, 0, 1], Some((2, t))); assert!(b.r128(b.len[2]) == want, "value pushed"); assert!(b.r128(t) == want, "value of the target local"); b.m.done(); }; // @bounded=1
    c11_LocalCopy128_ => { let mut b = Big::small(2); let (x, y) = (kani::any::<u16>(), kani::any::<u16>()); let (i, j) = (b.ix(2, x, 0), b.ix(2, y, 0)); b.set128(i); let want = b.r128(i); b.seal(); let out = b.m.exec::<x::c11_LocalCopy128>(Instruction::LocalCopy128(x, y)); b.next(out); b.frame([0; 3], [0; 3], Some((2, j))); assert!(b.r128(j) == want, "copied value"); b.m.done(); }; // @bounded=1
    c11_SetLocalConst128_ => { let mut b = Big::small(2); let x = kani::any::<u16>(); let i = b.ix(2, x, 0); let k = any128(); let mut pool = [any128(), k]; let out = b.m.exec_data::<x::c11_SetLocalConst128>(Instruction::SetLocalConst128(x, 1), &mut pool); b.next(out); b.frame([0; 3], [0; 3], Some((2, i))); assert!(b.r128(i) == k, "constant"); b.m.done(); }; // @bounded=1
}
