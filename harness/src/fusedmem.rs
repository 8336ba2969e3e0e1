//! C11: the fused memory instructions, with the address (and the destination) in a local.
use crate::mach::*;
use crate::frame::*;
use crate::ghost::*;
use crate::memops::{u, s};
use Instruction as I;
use spec::ops as S;
#[cfg(not(kani))] use crate::kani;
type B16 = [u8; 16];
/// a frame at any depth of the 32-bit stack; the local that holds the address
fn start(n: usize, is64: bool, ops: usize) -> (Big, Acc, Ghost, u8) {
    let (a, g) = Acc::any(n, is64);
    let mut b = if is64 { Big::five(1) } else { Big::new(0) };
    let l: u8 = if is64 { 1 } else { kani::any() };
    if is64 { vs::set64(&mut b.m.s, 2, a.base) } else { let i = b.ix(0, l as u16, ops); vs::set32(&mut b.m.s, i, a.base as u32) }
    (b, a, g, l)
}
fn oob(b: &Big, out: Out) { assert!(out == Out::Trap(x::T_MEMOOB), "an access out of bounds traps"); b.frame([0; 3], [0; 3], None) }
#[derive(Clone, Copy, PartialEq)] enum To { Push, Set, Tee }
fn load<G: x::Group>(mk: impl Fn(MemoryArg, u8, u8) -> I, n: usize, is64: bool, cls: usize, to: To, f: impl Fn(&B16) -> u128) {
    let (mut b, a, mut g, l) = start(n, is64, 0);
    let d: u8 = if cls == 0 && !is64 { kani::any() } else { 0 };
    let t = if to == To::Push { 0 } else if cls == 0 && !is64 { b.ix(0, d as u16, 0) } else { 1 };
    b.seal(); b.m.mem(&mut g, is64);
    let out = b.m.exec::<G>(mk(a.arg, l, d));
    a.untouched(&g);
    if a.e.is_none() { oob(&b, out) } else {
        b.next(out); let want = f(&a.b0);
        let mut p = [0; 3]; if to != To::Set { p[cls] = 1 }
        b.frame([0; 3], p, if to == To::Push { None } else { Some((cls, t)) });
        if to != To::Set { assert!(b.val(cls, b.len[cls]) == want, "the value loaded") }
        if to != To::Push { assert!(b.val(cls, t) == want, "the local's value") }
    }
    b.m.done(); core::mem::forget(g)
}
fn store<G: x::Group>(mk: impl Fn(MemoryArg, u8, u8) -> I, n: usize, cls: usize) {
    let (mut b, a, mut g, l) = start(n, false, 0);
    let v: u8 = if cls == 0 { kani::any() } else { 0 };
    let t = if cls == 0 { b.ix(0, v as u16, 0) } else { b.any_at(cls, 1); 1 };
    let val = b.val(cls, t);
    b.seal(); b.m.mem(&mut g, false);
    let out = b.m.exec::<G>(mk(a.arg, l, v));
    if a.e.is_none() { a.untouched(&g); oob(&b, out) } else { b.next(out); b.frame([0; 3], [0; 3], None); a.written(&g, n, &low(val)) }
    b.m.done(); core::mem::forget(g)
}
fn inc<G: x::Group>(mk: impl Fn(MemoryArg, u8) -> I, n: usize, is64: bool) {
    let (mut b, a, mut g, l) = start(n, is64, 0);
    b.seal(); b.m.mem(&mut g, is64);
    let out = b.m.exec::<G>(mk(a.arg, l));
    if a.e.is_none() { a.untouched(&g); oob(&b, out) } else { b.next(out); b.frame([0; 3], [0; 3], None); a.written(&g, n, &low(u(&a.b0, n) + 1)) }
    b.m.done(); core::mem::forget(g)
}
fn fma<G: x::Group, T: Opd>(i: impl Fn(MemoryArg) -> I, f: impl Fn(T, T, T) -> T, n: usize, bits: impl Fn(T) -> (u64, bool)) where T: Copy {
    let (a, mut g) = Acc::any(n, false);
    let mut m = M::new(8); let sent = Sent::put(&mut m); m.mem(&mut g, false);
    a.push_base(&mut m); let (p, q, r) = (T::any(), T::any(), T::any()); p.push(&mut m); q.push(&mut m); r.push(&mut m);
    let out = m.exec::<G>(i(a.arg));
    match a.e {
        None => { a.untouched(&g); assert!(out == Out::Trap(x::T_MEMOOB), "an access out of bounds traps") }
        Some(_) => {
            assert!(out == Out::Next && m.r.ip == 1, "completes"); lens_are(&m, [1; 3]); assert!(sent.intact(&m), "cells below the operands");
            let (w, nan) = bits(f(p, q, r));
            if nan { let mut h = [0; 16]; let mut k = 0; while k < n { h[k] = g.b[k]; k += 1 } a.written(&g, n, &h); let e = if n == 4 { u(&h, 4) as u32 & 0x7fff_ffff > 0x7f80_0000 } else { u(&h, 8) as u64 & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000 }; assert!(e, "a NaN") }
            else { a.written(&g, n, &low(w as u128)) }
        }
    }
    m.done(); core::mem::forget(g)
}
fn ok<T>(r: spec::R<T>) -> T { match r { Ok(v) => v, Err(_) => panic!("specification: unexpected trap") } }
fn mul_acc32() {
    let mut b = Big::five(0); let l: u16 = 1; let i = 2; b.set32(i); let v = b.r32(i); let (r, q) = (b.op32(0), b.op32(1)); b.seal();
    let want = q.wrapping_mul(r).wrapping_add(v);
    let out = b.m.exec::<x::c11_mulacc>(I::MulAccLocal32(l)); b.next(out); b.frame([2, 0, 0], [0; 3], Some((0, i))); assert!(b.r32(i) == want, "accumulator"); b.m.done()
}
fn mul_acc64() {
    let mut b = Big::five(1); let l: u16 = 1; let i = 2; b.set64(i); let v = b.r64(i); let (r, q) = (b.op64(0), b.op64(1)); b.seal();
    let want = q.wrapping_mul(r).wrapping_add(v);
    let out = b.m.exec::<x::c11_mulacc>(I::MulAccLocal64(l)); b.next(out); b.frame([0, 2, 0], [0; 3], Some((1, i))); assert!(b.r64(i) == want, "accumulator"); b.m.done()
}
fn fmul_acc32() {
    let mut b = Big::five(0); let i = 2; b.set32(i); let v = b.r32(i); let (r, q) = (b.op32(0), b.op32(1)); b.seal();
    let want = S::F32Add(ok(S::F32Mul(F32(q), F32(r))), F32(v));
    let out = b.m.exec::<x::c11_fmulacc>(I::FMulAccLocal32(1)); b.next(out); b.frame([2, 0, 0], [0; 3], Some((0, i))); assert!(ok(want).allows_any_nan(F32(b.r32(i))), "accumulator"); b.m.done()
}
group!(c11_load: LoadLocal32 LoadLocal64 LoadLocal8S32 LoadLocal8U32 LoadLocal16S32 LoadLocal16U32);
group!(c11_loadtee: LoadLocalTee32 LoadLocalTee8S32 LoadLocalTee8U32 LoadLocalTee16S32 LoadLocalTee16U32 LoadLocalTee128);
group!(c11_loadset: LoadLocalSet32 LoadLocalSet8S32 LoadLocalSet8U32 LoadLocalSet16S32 LoadLocalSet16U32 LoadLocalSet128);
group!(c11_storelocal: StoreLocalLocal32 StoreLocalLocal64 StoreLocalLocal128);
group!(c11_inc: IncMemoryLocal32 IncMemoryLocal64);
group!(c11_fma: FMaStoreF32 FMaStoreF64);
group!(c11_mulacc: MulAccLocal32 MulAccLocal64);
group!(c11_fmulacc: FMulAccLocal32 FMulAccLocal64);
entries! { FMEM :
    c11_LoadLocal32_ => load::<x::c11_load>(|m, a, _| I::LoadLocal32(m, a), 4, false, 0, To::Push, |b| u(b, 4));
    c11_LoadLocal32_m64 => load::<x::c11_load>(|m, a, _| I::LoadLocal32(m, a), 4, true, 0, To::Push, |b| u(b, 4)); // @bounded=1
    c11_LoadLocal64_ => load::<x::c11_load>(|m, a, _| I::LoadLocal64(m, a), 8, false, 1, To::Push, |b| u(b, 8));
    c11_LoadLocal64_m64 => load::<x::c11_load>(|m, a, _| I::LoadLocal64(m, a), 8, true, 1, To::Push, |b| u(b, 8)); // @bounded=1
    c11_LoadLocal8S32_ => load::<x::c11_load>(|m, a, _| I::LoadLocal8S32(m, a), 1, false, 0, To::Push, |b| s(b, 1, 4));
    c11_LoadLocal8U32_ => load::<x::c11_load>(|m, a, _| I::LoadLocal8U32(m, a), 1, false, 0, To::Push, |b| u(b, 1));
    c11_LoadLocal16S32_ => load::<x::c11_load>(|m, a, _| I::LoadLocal16S32(m, a), 2, false, 0, To::Push, |b| s(b, 2, 4));
    c11_LoadLocal16U32_ => load::<x::c11_load>(|m, a, _| I::LoadLocal16U32(m, a), 2, false, 0, To::Push, |b| u(b, 2));
    c11_LoadLocalTee32_ => load::<x::c11_loadtee>(|m, a, d| I::LoadLocalTee32(m, a, d), 4, false, 0, To::Tee, |b| u(b, 4));
    c11_LoadLocalTee32_m64 => load::<x::c11_loadtee>(|m, a, d| I::LoadLocalTee32(m, a, d), 4, true, 0, To::Tee, |b| u(b, 4)); // @bounded=1
    c11_LoadLocalTee8S32_ => load::<x::c11_loadtee>(|m, a, d| I::LoadLocalTee8S32(m, a, d), 1, false, 0, To::Tee, |b| s(b, 1, 4));
    c11_LoadLocalTee8U32_ => load::<x::c11_loadtee>(|m, a, d| I::LoadLocalTee8U32(m, a, d), 1, false, 0, To::Tee, |b| u(b, 1));
    c11_LoadLocalTee16S32_ => load::<x::c11_loadtee>(|m, a, d| I::LoadLocalTee16S32(m, a, d), 2, false, 0, To::Tee, |b| s(b, 2, 4));
    c11_LoadLocalTee16U32_ => load::<x::c11_loadtee>(|m, a, d| I::LoadLocalTee16U32(m, a, d), 2, false, 0, To::Tee, |b| u(b, 2));
    c11_LoadLocalTee128_ => load::<x::c11_loadtee>(|m, a, d| I::LoadLocalTee128(m, a, d), 16, false, 2, To::Tee, |b| u(b, 16));
    c11_LoadLocalSet32_ => load::<x::c11_loadset>(|m, a, d| I::LoadLocalSet32(m, a, d), 4, false, 0, To::Set, |b| u(b, 4));
    c11_LoadLocalSet8S32_ => load::<x::c11_loadset>(|m, a, d| I::LoadLocalSet8S32(m, a, d), 1, false, 0, To::Set, |b| s(b, 1, 4));
    c11_LoadLocalSet8U32_ => load::<x::c11_loadset>(|m, a, d| I::LoadLocalSet8U32(m, a, d), 1, false, 0, To::Set, |b| u(b, 1));
    c11_LoadLocalSet16S32_ => load::<x::c11_loadset>(|m, a, d| I::LoadLocalSet16S32(m, a, d), 2, false, 0, To::Set, |b| s(b, 2, 4));
    c11_LoadLocalSet16U32_ => load::<x::c11_loadset>(|m, a, d| I::LoadLocalSet16U32(m, a, d), 2, false, 0, To::Set, |b| u(b, 2));
    c11_LoadLocalSet128_ => load::<x::c11_loadset>(|m, a, d| I::LoadLocalSet128(m, a, d), 16, false, 2, To::Set, |b| u(b, 16));
    c11_StoreLocalLocal32_ => store::<x::c11_storelocal>(|m, a, v| I::StoreLocalLocal32(m, a, v), 4, 0);
    c11_StoreLocalLocal64_ => store::<x::c11_storelocal>(|m, a, v| I::StoreLocalLocal64(m, a, v), 8, 1);
    c11_StoreLocalLocal128_ => store::<x::c11_storelocal>(|m, a, v| I::StoreLocalLocal128(m, a, v), 16, 2);
    c11_IncMemoryLocal32_ => inc::<x::c11_inc>(|m, a| I::IncMemoryLocal32(m, a), 4, false);
    c11_IncMemoryLocal32_m64 => inc::<x::c11_inc>(|m, a| I::IncMemoryLocal32(m, a), 4, true); // @bounded=1
    c11_IncMemoryLocal64_ => inc::<x::c11_inc>(|m, a| I::IncMemoryLocal64(m, a), 8, false);
    c11_IncMemoryLocal64_m64 => inc::<x::c11_inc>(|m, a| I::IncMemoryLocal64(m, a), 8, true); // @bounded=1
    c11_MulAccLocal32_ => mul_acc32(); // @bounded=1 backend=z3
    c11_MulAccLocal64_ => mul_acc64(); // @bounded=1 backend=z3
    c11_FMulAccLocal32_ => fmul_acc32(); // @bounded=1
    c11_FMaStoreF32_ => fma::<x::c11_fma, F32>(I::FMaStoreF32, |a, p, q| ok(S::F32Add(a, ok(S::F32Mul(p, q)))), 4, |v| (v.0 as u64, v.0 & 0x7fff_ffff > 0x7f80_0000)); // @cost=120
    c11_FMaStoreF64_ => fma::<x::c11_fma, F64>(I::FMaStoreF64, |a, p, q| ok(S::F64Add(a, ok(S::F64Mul(p, q)))), 8, |v| (v.0, v.0 & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000)); // @tier=thorough cost=300
}
