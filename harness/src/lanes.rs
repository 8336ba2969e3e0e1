//! C03: lanes, shuffles, relaxed instructions; C01, C03: constants; C09: locals; C10: unreachable.
use crate::mach::*;
use crate::frame::*;
use crate::ghost::lens_are;
use spec::simd as q;
use Instruction as I;
#[cfg(not(kani))] use crate::kani;
fn lane(n: u8) -> u8 { let l = kani::any::<u8>(); kani::assume(l < n); l }
fn le(b: &[u8; 16], at: usize, n: usize) -> u64 { let mut v = 0; let mut i = 0; while i < n { v |= (b[at + i] as u64) << (8 * i); i += 1 } v }
fn sx(v: u64, n: usize) -> u32 { if n == 1 { v as u8 as i8 as i32 as u32 } else { v as u16 as i16 as i32 as u32 } }
fn extract(n: usize, s: bool, wide: bool, f: impl Fn(u8) -> I) {
    let mut m = M::new(8); let sent = Sent::put(&mut m); let v = V128::any(); v.push(&mut m); let l = lane((16 / n) as u8);
    let out = m.exec::<x::c03_extract>(f(l));
    assert!(out == Out::Next && m.r.ip == 1, "completes"); assert!(sent.intact(&m), "cells below the operands");
    lens_are(&m, if wide { [1, 2, 1] } else { [2, 1, 1] });
    let w = le(&v.0, l as usize * n, n); let w = if s { sx(w, n) as u64 } else { w };
    assert!(if wide { x::get64(&m.s, 1) == w } else { x::get32(&m.s, 1) == w as u32 }, "the lane"); m.done()
}
fn replace(n: usize, wide: bool, f: impl Fn(u8) -> I) {
    let mut m = M::new(8); let sent = Sent::put(&mut m); let v = V128::any(); v.push(&mut m); let l = lane((16 / n) as u8);
    let w: u64 = kani::any(); if wide { x::push64(&mut m.s, w) } else { x::push32(&mut m.s, w as u32) }
    let out = m.exec::<x::c03_replace>(f(l));
    assert!(out == Out::Next && m.r.ip == 1, "completes"); assert!(sent.intact(&m), "cells below the operands"); lens_are(&m, [1, 1, 2]);
    let g = x::get128(&m.s, 1); let mut i = 0;
    while i < 16 { let in_ = i / n == l as usize; assert!(g[i] == if in_ { (w >> (8 * (i % n))) as u8 } else { v.0[i] }, "only the lane is replaced"); i += 1 }
    m.done()
}
fn shuffle() {
    let mut m = M::new(8); let sent = Sent::put(&mut m); let (a, b) = (V128::any(), V128::any()); a.push(&mut m); b.push(&mut m);
    let k = any128(); let mut i = 0; while i < 16 { kani::assume(k[i] < 32); i += 1 }
    let mut cs = [any128(), k];
    let out = m.exec_data::<x::c03_shuffle>(I::I8x16Shuffle(1), &mut cs);
    assert!(out == Out::Next && m.r.ip == 1, "completes"); assert!(sent.intact(&m), "cells below the operands"); lens_are(&m, [1, 1, 2]);
    assert!(x::get128(&m.s, 1) == q::shuffle(a, b, k).0, "the lanes selected"); m.done()
}
fn relaxed<G: x::Group>(i: I, n: usize, p: impl Fn(V128, V128, V128, V128) -> bool) {
    let mut m = M::new(8); let sent = Sent::put(&mut m); let (a, b, c) = (V128::any(), V128::any(), V128::any());
    a.push(&mut m); if n > 1 { b.push(&mut m) } if n > 2 { c.push(&mut m) }
    let out = m.exec::<G>(i);
    assert!(out == Out::Next && m.r.ip == 1, "completes"); assert!(sent.intact(&m), "cells below the operands"); lens_are(&m, [1, 1, 2]);
    assert!(p(a, b, c, V128(x::get128(&m.s, 1))), "one of the results permitted"); m.done()
}
fn constant(c: usize) {
    let mut m = M::new(8); let sent = Sent::put(&mut m); let v = kani::any::<u128>();
    let mut cs = [any128(), v.to_le_bytes()];
    let out = match c { 0 => m.exec::<x::c01_const>(I::Const32(v as i32)), 1 => m.exec::<x::c01_const>(I::Const64(v as i64)), _ => m.exec_data::<x::c03_const>(I::Const128(1), &mut cs) };
    assert!(out == Out::Next && m.r.ip == 1, "completes"); assert!(sent.intact(&m), "cells below"); let mut n = [1; 3]; n[c] = 2; lens_are(&m, n);
    assert!(match c { 0 => x::get32(&m.s, 1) == v as u32, 1 => x::get64(&m.s, 1) == v as u64, _ => x::get128(&m.s, 1) == v.to_le_bytes() }, "the constant"); m.done()
}
fn unreachable() {
    let mut m = M::new(8); let sent = Sent::put(&mut m);
    let out = m.exec::<x::c10_unreachable>(I::Unreachable);
    assert!(out == Out::Trap(x::T_UNREACHABLE), "traps"); assert!(sent.intact(&m), "the stack is untouched"); m.done()
}
#[derive(Clone, Copy, PartialEq)] enum L { Get, Set, Tee }
fn local(mut b: Big, c: usize, k: L) {
    let l: u16 = kani::any(); let i = b.ix(c, l, (k != L::Get) as usize); b.any_at(c, i);
    let n = b.len[c]; if k != L::Get { b.any_at(c, n - 1) }
    let want = if k == L::Get { b.val(c, i) } else { b.val(c, n - 1) };
    b.seal();
    let out = b.m.exec::<x::c09_local>(match (k, c) {
        (L::Get, 0) => I::LocalGet32(l), (L::Get, 1) => I::LocalGet64(l), (L::Get, _) => I::LocalGet128(l),
        (L::Set, 0) => I::LocalSet32(l), (L::Set, 1) => I::LocalSet64(l), (L::Set, _) => I::LocalSet128(l),
        (L::Tee, 0) => I::LocalTee32(l), (L::Tee, 1) => I::LocalTee64(l), (L::Tee, _) => I::LocalTee128(l) });
    b.next(out); let (mut pop, mut push) = ([0; 3], [0; 3]);
    match k { L::Get => push[c] = 1, L::Set => pop[c] = 1, L::Tee => () }
    b.frame(pop, push, if k == L::Get { None } else { Some((c, i)) });
    assert!(b.val(c, i) == want && (k != L::Get || b.val(c, n) == want) && (k != L::Tee || b.val(c, n - 1) == want), "the local's value"); b.m.done()
}
group!(c03_extract: I8x16ExtractLaneS I8x16ExtractLaneU I16x8ExtractLaneS I16x8ExtractLaneU I32x4ExtractLane I64x2ExtractLane F32x4ExtractLane F64x2ExtractLane);
group!(c03_replace: I8x16ReplaceLane I16x8ReplaceLane I32x4ReplaceLane I64x2ReplaceLane F32x4ReplaceLane F64x2ReplaceLane);
group!(c03_shuffle: I8x16Shuffle);
group!(c03_const: Const128);
group!(c01_const: Const32 Const64);
group!(c10_unreachable: Unreachable);
group!(c09_local: LocalGet32 LocalGet64 LocalGet128 LocalSet32 LocalSet64 LocalSet128 LocalTee32 LocalTee64 LocalTee128);
group!(c03_I32x4RelaxedTruncF32x4S_g: I32x4RelaxedTruncF32x4S);
group!(c03_I32x4RelaxedTruncF32x4U_g: I32x4RelaxedTruncF32x4U);
group!(c03_I32x4RelaxedTruncF64x2SZero_g: I32x4RelaxedTruncF64x2SZero);
group!(c03_I32x4RelaxedTruncF64x2UZero_g: I32x4RelaxedTruncF64x2UZero);
group!(c03_I8x16RelaxedSwizzle_g: I8x16RelaxedSwizzle);
group!(c03_F32x4RelaxedMin_g: F32x4RelaxedMin);
group!(c03_F32x4RelaxedMax_g: F32x4RelaxedMax);
group!(c03_F64x2RelaxedMin_g: F64x2RelaxedMin);
group!(c03_F64x2RelaxedMax_g: F64x2RelaxedMax);
group!(c03_I16x8RelaxedQ15mulrS_g: I16x8RelaxedQ15mulrS);
group!(c03_I16x8RelaxedDotI8x16I7x16S_g: I16x8RelaxedDotI8x16I7x16S);
group!(c03_I8x16RelaxedLaneselect_g: I8x16RelaxedLaneselect);
group!(c03_I16x8RelaxedLaneselect_g: I16x8RelaxedLaneselect);
group!(c03_I32x4RelaxedLaneselect_g: I32x4RelaxedLaneselect);
group!(c03_I64x2RelaxedLaneselect_g: I64x2RelaxedLaneselect);
group!(c03_I32x4RelaxedDotI8x16I7x16AddS_g: I32x4RelaxedDotI8x16I7x16AddS);
entries! { LANES :
    c03_I8x16ExtractLaneS_ => extract(1, true, false, I::I8x16ExtractLaneS);
    c03_I8x16ExtractLaneU_ => extract(1, false, false, I::I8x16ExtractLaneU);
    c03_I16x8ExtractLaneS_ => extract(2, true, false, I::I16x8ExtractLaneS);
    c03_I16x8ExtractLaneU_ => extract(2, false, false, I::I16x8ExtractLaneU);
    c03_I32x4ExtractLane_ => extract(4, false, false, I::I32x4ExtractLane);
    c03_I64x2ExtractLane_ => extract(8, false, true, I::I64x2ExtractLane);
    c03_F32x4ExtractLane_ => extract(4, false, false, I::F32x4ExtractLane);
    c03_F64x2ExtractLane_ => extract(8, false, true, I::F64x2ExtractLane);
    c03_I8x16ReplaceLane_ => replace(1, false, I::I8x16ReplaceLane);
    c03_I16x8ReplaceLane_ => replace(2, false, I::I16x8ReplaceLane);
    c03_I32x4ReplaceLane_ => replace(4, false, I::I32x4ReplaceLane);
    c03_I64x2ReplaceLane_ => replace(8, true, I::I64x2ReplaceLane);
    c03_F32x4ReplaceLane_ => replace(4, false, I::F32x4ReplaceLane);
    c03_F64x2ReplaceLane_ => replace(8, true, I::F64x2ReplaceLane);
    c03_I8x16Shuffle_ => shuffle();
    c03_Const128_ => constant(2);
    c01_Const32_ => constant(0);
    c01_Const64_ => constant(1);
    c10_Unreachable_ => unreachable();
    c03_I32x4RelaxedTruncF32x4S_ => relaxed::<x::c03_I32x4RelaxedTruncF32x4S_g>(I::I32x4RelaxedTruncF32x4S, 1, |a, b, c, g| q::relaxed::I32x4RelaxedTruncF32x4S(a, g));
    c03_I32x4RelaxedTruncF32x4U_ => relaxed::<x::c03_I32x4RelaxedTruncF32x4U_g>(I::I32x4RelaxedTruncF32x4U, 1, |a, b, c, g| q::relaxed::I32x4RelaxedTruncF32x4U(a, g));
    c03_I32x4RelaxedTruncF64x2SZero_ => relaxed::<x::c03_I32x4RelaxedTruncF64x2SZero_g>(I::I32x4RelaxedTruncF64x2SZero, 1, |a, b, c, g| q::relaxed::I32x4RelaxedTruncF64x2SZero(a, g));
    c03_I32x4RelaxedTruncF64x2UZero_ => relaxed::<x::c03_I32x4RelaxedTruncF64x2UZero_g>(I::I32x4RelaxedTruncF64x2UZero, 1, |a, b, c, g| q::relaxed::I32x4RelaxedTruncF64x2UZero(a, g));
    c03_I8x16RelaxedSwizzle_ => relaxed::<x::c03_I8x16RelaxedSwizzle_g>(I::I8x16RelaxedSwizzle, 2, |a, b, c, g| q::relaxed::I8x16RelaxedSwizzle(a, b, g));
    c03_F32x4RelaxedMin_ => relaxed::<x::c03_F32x4RelaxedMin_g>(I::F32x4RelaxedMin, 2, |a, b, c, g| q::relaxed::F32x4RelaxedMin(a, b, g));
    c03_F32x4RelaxedMax_ => relaxed::<x::c03_F32x4RelaxedMax_g>(I::F32x4RelaxedMax, 2, |a, b, c, g| q::relaxed::F32x4RelaxedMax(a, b, g));
    c03_F64x2RelaxedMin_ => relaxed::<x::c03_F64x2RelaxedMin_g>(I::F64x2RelaxedMin, 2, |a, b, c, g| q::relaxed::F64x2RelaxedMin(a, b, g));
    c03_F64x2RelaxedMax_ => relaxed::<x::c03_F64x2RelaxedMax_g>(I::F64x2RelaxedMax, 2, |a, b, c, g| q::relaxed::F64x2RelaxedMax(a, b, g));
    c03_I16x8RelaxedQ15mulrS_ => relaxed::<x::c03_I16x8RelaxedQ15mulrS_g>(I::I16x8RelaxedQ15mulrS, 2, |a, b, c, g| q::relaxed::I16x8RelaxedQ15mulrS(a, b, g)); // @tier=thorough cost=300
    c03_I16x8RelaxedDotI8x16I7x16S_ => relaxed::<x::c03_I16x8RelaxedDotI8x16I7x16S_g>(I::I16x8RelaxedDotI8x16I7x16S, 2, |a, b, c, g| q::relaxed::I16x8RelaxedDotI8x16I7x16S(a, b, g)); // @cost=65
    c03_I8x16RelaxedLaneselect_ => relaxed::<x::c03_I8x16RelaxedLaneselect_g>(I::I8x16RelaxedLaneselect, 3, |a, b, c, g| q::relaxed::I8x16RelaxedLaneselect(a, b, c, g));
    c03_I16x8RelaxedLaneselect_ => relaxed::<x::c03_I16x8RelaxedLaneselect_g>(I::I16x8RelaxedLaneselect, 3, |a, b, c, g| q::relaxed::I16x8RelaxedLaneselect(a, b, c, g));
    c03_I32x4RelaxedLaneselect_ => relaxed::<x::c03_I32x4RelaxedLaneselect_g>(I::I32x4RelaxedLaneselect, 3, |a, b, c, g| q::relaxed::I32x4RelaxedLaneselect(a, b, c, g));
    c03_I64x2RelaxedLaneselect_ => relaxed::<x::c03_I64x2RelaxedLaneselect_g>(I::I64x2RelaxedLaneselect, 3, |a, b, c, g| q::relaxed::I64x2RelaxedLaneselect(a, b, c, g));
    c03_I32x4RelaxedDotI8x16I7x16AddS_ => relaxed::<x::c03_I32x4RelaxedDotI8x16I7x16AddS_g>(I::I32x4RelaxedDotI8x16I7x16AddS, 3, |a, b, c, g| q::relaxed::I32x4RelaxedDotI8x16I7x16AddS(a, b, c, g)); // @tier=thorough cost=150
    c09_LocalGet32_ => local(Big::new(0), 0, L::Get);
    c09_LocalGet64_ => local(Big::small(1), 1, L::Get); // @bounded=1
    c09_LocalGet64_any => local(Big::new(1), 1, L::Get); // @tier=thorough cost=200 heavy=1
    c09_LocalGet128_ => local(Big::small(2), 2, L::Get); // @bounded=1
    c09_LocalGet128_any => local(Big::new(2), 2, L::Get); // @tier=thorough cost=200 heavy=1
    c09_LocalSet32_ => local(Big::new(0), 0, L::Set);
    c09_LocalSet64_ => local(Big::small(1), 1, L::Set); // @bounded=1
    c09_LocalSet64_any => local(Big::new(1), 1, L::Set); // @tier=thorough cost=200 heavy=1
    c09_LocalSet128_ => local(Big::small(2), 2, L::Set); // @bounded=1
    c09_LocalSet128_any => local(Big::new(2), 2, L::Set); // @tier=thorough cost=200 heavy=1
    c09_LocalTee32_ => local(Big::new(0), 0, L::Tee);
    c09_LocalTee64_ => local(Big::small(1), 1, L::Tee); // @bounded=1
    c09_LocalTee64_any => local(Big::new(1), 1, L::Tee); // @tier=thorough cost=200 heavy=1
    c09_LocalTee128_ => local(Big::small(2), 2, L::Tee); // @bounded=1
    c09_LocalTee128_any => local(Big::new(2), 2, L::Tee); // @tier=thorough cost=200 heavy=1
}
