//! C14: global.get and global.set for every type, and the fused global operand (C11).
use crate::mach::*;
use crate::ghost::{lens_are, low};
use crate::fused::*;
use vst::{Glob, Val};
#[cfg(not(kani))] use crate::kani;
fn any_ty() -> WasmType { match kani::any::<u8>() { 0 => WasmType::I32, 1 => WasmType::I64, 2 => WasmType::F32, 3 => WasmType::F64, 4 => WasmType::V128, 5 => WasmType::RefFunc, _ => WasmType::RefExtern } }
fn any_val(t: WasmType) -> Val { match t { WasmType::I32 | WasmType::F32 => Val::V32(kani::any()), WasmType::I64 | WasmType::F64 => Val::V64(kani::any()), WasmType::V128 => Val::V128(any128()), WasmType::RefFunc | WasmType::RefExtern => Val::Ref(kani::any()) } }
pub fn two(m: &mut M, t: WasmType, v: Val) -> Val { let o = any_ty(); let ov = any_val(o); core::mem::forget(core::mem::replace(&mut m.globs, [Glob::new(GlobalType::new(t, true), v), Glob::new(GlobalType::new(o, kani::any()), ov)])); ov }
pub fn get() {
    let t = any_ty(); let v = any_val(t);
    let mut m = M::new(4); let o = two(&mut m, t, v);
    let sent = Sent::put(&mut m);
    let out = m.exec::<x::c14_get>(Instruction::GlobalGet(1));
    assert!(out == Out::Next && m.r.ip == 1 && sent.intact(&m), "completes");
    match v {
        Val::V32(v) | Val::Ref(v) => { lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == v, "the global's value") }
        Val::V64(v) => { lens_are(&m, [1, 2, 1]); assert!(x::get64(&m.s, 1) == v, "the global's value") }
        Val::V128(v) => { lens_are(&m, [1, 1, 2]); assert!(x::get128(&m.s, 1) == v, "the global's value") }
    }
    same(&m, t, v, o);
    m.done();
}
fn same(m: &M, t: WasmType, v: Val, o: Val) { { let g = &m.globs; assert!(g[0].get() == v && g[0].ty() == GlobalType::new(t, true), "the global holds the value"); assert!(g[1].get() == o, "another global changed") } }
pub fn set(c: usize) {
    let t = any_ty(); let (old, v) = (any_val(t), any_val(t));
    let mut m = M::new(4); let o = two(&mut m, t, old);
    let sent = Sent::put(&mut m);
    let out = match v {
        Val::V32(v) | Val::Ref(v) => { kani::assume(c == 0); x::push32(&mut m.s, v); m.exec::<x::c14_set>(Instruction::GlobalSet32(1)) }
        Val::V64(v) => { kani::assume(c == 1); x::push64(&mut m.s, v); m.exec::<x::c14_set>(Instruction::GlobalSet64(1)) }
        Val::V128(v) => { kani::assume(c == 2); x::push128(&mut m.s, v); m.exec::<x::c14_set>(Instruction::GlobalSet128(1)) }
    };
    assert!(out == Out::Next && m.r.ip == 1 && sent.intact(&m), "completes"); lens_are(&m, [1; 3]);
    same(&m, t, v, o);
    m.done();
}
pub fn op32() {
    let t = if kani::any() { WasmType::I32 } else { WasmType::F32 }; let g: u32 = kani::any(); let a: u32 = kani::any(); let op = int_op();
    let mut m = M::new(4); let o = two(&mut m, t, Val::V32(g)); let sent = Sent::put(&mut m); x::push32(&mut m.s, a);
    let out = m.exec::<x::c14_op32>(Instruction::BinOpStackGlobal32(op, 1));
    assert!(out == Out::Next && m.r.ip == 1 && sent.intact(&m), "completes"); lens_are(&m, [2, 1, 1]);
    assert!(x::get32(&m.s, 1) == bin32(op, a, g), "result"); same(&m, t, Val::V32(g), o); m.done();
}
pub fn op64() {
    let t = if kani::any() { WasmType::I64 } else { WasmType::F64 }; let g: u64 = kani::any(); let a: u64 = kani::any(); let op = int_op();
    let mut m = M::new(4); let o = two(&mut m, t, Val::V64(g)); let sent = Sent::put(&mut m); x::push64(&mut m.s, a);
    let out = m.exec::<x::c14_op64>(Instruction::BinOpStackGlobal64(op, 1));
    assert!(out == Out::Next && m.r.ip == 1 && sent.intact(&m), "completes"); lens_are(&m, [1, 2, 1]);
    assert!(x::get64(&m.s, 1) == bin64(op, a, g), "result"); same(&m, t, Val::V64(g), o); m.done();
}
group!(c14_get: GlobalGet);
group!(c14_set: GlobalSet32 GlobalSet64 GlobalSet128);
group!(c14_op32: BinOpStackGlobal32);
group!(c14_op64: BinOpStackGlobal64);
entries! { C14 :
    c14_GlobalGet_ => get();
    c14_GlobalSet_32 => set(0);
    c14_GlobalSet_64 => set(1);
    c14_GlobalSet_128 => set(2);
    c14_BinOpStackGlobal32_ => op32();
    c14_BinOpStackGlobal64_ => op64();
}
