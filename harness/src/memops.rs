//! C04: loads and stores against a memory of any length and contents.
use crate::mach::*;
use crate::ghost::*;
#[cfg(not(kani))] use crate::kani;
type B = [u8; 16];
/// `n` low bytes as an unsigned, or sign-extended, integer
pub fn u(b: &B, n: usize) -> u128 { let mut r = 0u128; let mut i = 0; while i < n { r |= (b[i] as u128) << (8 * i); i += 1 } r }
pub fn s(b: &B, n: usize, to: usize) -> u128 { let v = u(b, n); let m = if to == 16 { u128::MAX } else { (1u128 << (8 * to)) - 1 }; if b[n - 1] & 0x80 != 0 { (v | (u128::MAX << (8 * n))) & m } else { v } }
/// lanes of `n` bytes extended to twice that
pub fn wide(b: &B, n: usize, signed: bool) -> u128 { let mut r = 0u128; let mut k = 0; while k < 8 / n { let mut l = [0; 16]; let mut i = 0; while i < n { l[i] = b[k * n + i]; i += 1 } r |= (if signed { s(&l, n, 2 * n) } else { u(&l, n) }) << (16 * n * k); k += 1 } r }
pub fn splat(b: &B, n: usize) -> u128 { let v = u(b, n); let mut r = 0; let mut k = 0; while k < 16 / n { r |= v << (8 * n * k); k += 1 } r }
pub fn load<G: x::Group>(mk: impl Fn(MemoryArg) -> Instruction, n: usize, cls: usize, f: impl Fn(&B) -> u128) {
    let is64: bool = kani::any();
    let (a, mut g) = Acc::any(n, is64);
    let mut m = M::new(4); m.mem(&mut g, is64);
    let sent = Sent::put(&mut m);
    a.push_base(&mut m);
    let out = m.exec::<G>(mk(a.arg));
    a.untouched(&g);
    match a.e {
        None => assert!(out == Out::Trap(x::T_MEMOOB), "an access out of bounds traps"),
        Some(_) => {
            assert!(out == Out::Next && m.r.ip == 1, "an access in bounds completes");
            let mut l = [1; 3]; l[cls] += 1; lens_are(&m, l);
            assert!(top(&m, cls, 1) == low(f(&a.b0)), "value loaded");
        }
    }
    if a.e.is_some() { assert!(sent.intact(&m), "cells below the operands"); }
    m.done(); core::mem::forget(g);
}
pub fn store<G: x::Group>(mk: impl Fn(MemoryArg) -> Instruction, n: usize, cls: usize, lane: usize) {
    let is64: bool = kani::any();
    let (a, mut g) = Acc::any(n, is64);
    let mut m = M::new(4); m.mem(&mut g, is64);
    let sent = Sent::put(&mut m);
    a.push_base(&mut m);
    let v = any128();
    match cls { 0 => x::push32(&mut m.s, u(&v, 4) as u32), 1 => x::push64(&mut m.s, u(&v, 8) as u64), _ => x::push128(&mut m.s, v) }
    let out = m.exec::<G>(mk(a.arg));
    match a.e {
        None => { a.untouched(&g); assert!(out == Out::Trap(x::T_MEMOOB), "an access out of bounds traps") }
        Some(_) => {
            assert!(out == Out::Next && m.r.ip == 1, "an access in bounds completes");
            lens_are(&m, [1; 3]);
            let mut w = [0; 16]; let mut i = 0; while i < n { w[i] = v[lane * n + i]; i += 1 }
            a.written(&g, n, &w);
            assert!(sent.intact(&m), "cells below the operands");
        }
    }
    m.done(); core::mem::forget(g);
}
/// a lane index valid for lanes of `n` bytes
pub fn lane(n: usize) -> u8 { let l: u8 = kani::any(); kani::assume((l as usize) < 16 / n); l }
pub fn load_lane<G: x::Group>(mk: impl Fn(MemoryArg, u8) -> Instruction, n: usize) {
    let is64: bool = kani::any();
    let (a, mut g) = Acc::any(n, is64);
    let mut m = M::new(4); m.mem(&mut g, is64);
    let sent = Sent::put(&mut m);
    a.push_base(&mut m);
    let v = any128(); x::push128(&mut m.s, v);
    let l = lane(n);
    let out = m.exec::<G>(mk(a.arg, l));
    a.untouched(&g);
    match a.e {
        None => assert!(out == Out::Trap(x::T_MEMOOB), "an access out of bounds traps"),
        Some(_) => {
            assert!(out == Out::Next && m.r.ip == 1, "an access in bounds completes");
            lens_are(&m, [1, 1, 2]);
            let r = x::get128(&m.s, 1); let mut i = 0;
            while i < 16 { assert!(r[i] == if i / n == l as usize { a.b0[i % n] } else { v[i] }, "lane loaded, the others kept"); i += 1 }
            assert!(sent.intact(&m), "cells below the operands");
        }
    }
    m.done(); core::mem::forget(g);
}
macro_rules! st_lane { ($g:ident, $i:ident, $n:literal) => { { let l = lane($n); store::<x::$g>(|m| Instruction::$i(m, l), $n, 2, l as usize) } } }
group!(c04_load32: I32Load F32Load I32Load8S I32Load8U I32Load16S I32Load16U);
group!(c04_load64: I64Load F64Load I64Load8S I64Load8U I64Load16S I64Load16U I64Load32S I64Load32U);
group!(c04_loadv: V128Load V128Load32Zero V128Load64Zero V128Load8Splat V128Load16Splat V128Load32Splat V128Load64Splat);
group!(c04_loadx: V128Load8x8S V128Load8x8U V128Load16x4S V128Load16x4U V128Load32x2S V128Load32x2U);
group!(c04_store: I32Store F32Store I32Store8 I32Store16 I64Store F64Store I64Store8 I64Store16 I64Store32 V128Store);
group!(c04_storel: V128Store8Lane V128Store16Lane V128Store32Lane V128Store64Lane);
group!(c04_loadl: V128Load8Lane V128Load16Lane V128Load32Lane V128Load64Lane);
entries! { C04 :
    c04_I32Load_ => load::<x::c04_load32>(Instruction::I32Load, 4, 0, |b| u(b, 4));
    c04_F32Load_ => load::<x::c04_load32>(Instruction::F32Load, 4, 0, |b| u(b, 4));
    c04_I32Load8S_ => load::<x::c04_load32>(Instruction::I32Load8S, 1, 0, |b| s(b, 1, 4));
    c04_I32Load8U_ => load::<x::c04_load32>(Instruction::I32Load8U, 1, 0, |b| u(b, 1));
    c04_I32Load16S_ => load::<x::c04_load32>(Instruction::I32Load16S, 2, 0, |b| s(b, 2, 4));
    c04_I32Load16U_ => load::<x::c04_load32>(Instruction::I32Load16U, 2, 0, |b| u(b, 2));
    c04_I64Load_ => load::<x::c04_load64>(Instruction::I64Load, 8, 1, |b| u(b, 8));
    c04_F64Load_ => load::<x::c04_load64>(Instruction::F64Load, 8, 1, |b| u(b, 8));
    c04_I64Load8S_ => load::<x::c04_load64>(Instruction::I64Load8S, 1, 1, |b| s(b, 1, 8));
    c04_I64Load8U_ => load::<x::c04_load64>(Instruction::I64Load8U, 1, 1, |b| u(b, 1));
    c04_I64Load16S_ => load::<x::c04_load64>(Instruction::I64Load16S, 2, 1, |b| s(b, 2, 8));
    c04_I64Load16U_ => load::<x::c04_load64>(Instruction::I64Load16U, 2, 1, |b| u(b, 2));
    c04_I64Load32S_ => load::<x::c04_load64>(Instruction::I64Load32S, 4, 1, |b| s(b, 4, 8));
    c04_I64Load32U_ => load::<x::c04_load64>(Instruction::I64Load32U, 4, 1, |b| u(b, 4));
    c04_V128Load_ => load::<x::c04_loadv>(Instruction::V128Load, 16, 2, |b| u(b, 16));
    c04_V128Load32Zero_ => load::<x::c04_loadv>(Instruction::V128Load32Zero, 4, 2, |b| u(b, 4));
    c04_V128Load64Zero_ => load::<x::c04_loadv>(Instruction::V128Load64Zero, 8, 2, |b| u(b, 8));
    c04_V128Load8Splat_ => load::<x::c04_loadv>(Instruction::V128Load8Splat, 1, 2, |b| splat(b, 1));
    c04_V128Load16Splat_ => load::<x::c04_loadv>(Instruction::V128Load16Splat, 2, 2, |b| splat(b, 2));
    c04_V128Load32Splat_ => load::<x::c04_loadv>(Instruction::V128Load32Splat, 4, 2, |b| splat(b, 4));
    c04_V128Load64Splat_ => load::<x::c04_loadv>(Instruction::V128Load64Splat, 8, 2, |b| splat(b, 8));
    c04_V128Load8x8S_ => load::<x::c04_loadx>(Instruction::V128Load8x8S, 8, 2, |b| wide(b, 1, true));
    c04_V128Load8x8U_ => load::<x::c04_loadx>(Instruction::V128Load8x8U, 8, 2, |b| wide(b, 1, false));
    c04_V128Load16x4S_ => load::<x::c04_loadx>(Instruction::V128Load16x4S, 8, 2, |b| wide(b, 2, true));
    c04_V128Load16x4U_ => load::<x::c04_loadx>(Instruction::V128Load16x4U, 8, 2, |b| wide(b, 2, false));
    c04_V128Load32x2S_ => load::<x::c04_loadx>(Instruction::V128Load32x2S, 8, 2, |b| wide(b, 4, true));
    c04_V128Load32x2U_ => load::<x::c04_loadx>(Instruction::V128Load32x2U, 8, 2, |b| wide(b, 4, false));
    c04_I32Store_ => store::<x::c04_store>(Instruction::I32Store, 4, 0, 0);
    c04_F32Store_ => store::<x::c04_store>(Instruction::F32Store, 4, 0, 0);
    c04_I32Store8_ => store::<x::c04_store>(Instruction::I32Store8, 1, 0, 0);
    c04_I32Store16_ => store::<x::c04_store>(Instruction::I32Store16, 2, 0, 0);
    c04_I64Store_ => store::<x::c04_store>(Instruction::I64Store, 8, 1, 0);
    c04_F64Store_ => store::<x::c04_store>(Instruction::F64Store, 8, 1, 0);
    c04_I64Store8_ => store::<x::c04_store>(Instruction::I64Store8, 1, 1, 0);
    c04_I64Store16_ => store::<x::c04_store>(Instruction::I64Store16, 2, 1, 0);
    c04_I64Store32_ => store::<x::c04_store>(Instruction::I64Store32, 4, 1, 0);
    c04_V128Store_ => store::<x::c04_store>(Instruction::V128Store, 16, 2, 0);
    c04_V128Store8Lane_ => st_lane!(c04_storel, V128Store8Lane, 1);
    c04_V128Load8Lane_ => load_lane::<x::c04_loadl>(Instruction::V128Load8Lane, 1);
    c04_V128Store16Lane_ => st_lane!(c04_storel, V128Store16Lane, 2);
    c04_V128Load16Lane_ => load_lane::<x::c04_loadl>(Instruction::V128Load16Lane, 2);
    c04_V128Store32Lane_ => st_lane!(c04_storel, V128Store32Lane, 4);
    c04_V128Load32Lane_ => load_lane::<x::c04_loadl>(Instruction::V128Load32Lane, 4);
    c04_V128Store64Lane_ => st_lane!(c04_storel, V128Store64Lane, 8);
    c04_V128Load64Lane_ => load_lane::<x::c04_loadl>(Instruction::V128Load64Lane, 8);
}
