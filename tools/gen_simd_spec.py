#!/usr/bin/env python3
# Writes /verif/spec/src/simd.rs (run by hand when the table changes).
import os
out=[]
out.append('''//! Vector instructions: name, operands, how results are compared, specification.
//! Generated by tools/gen_simd_spec.py; committed.
use crate::{F32, F64, V128, fl};

pub fn u8x16(v: V128) -> [u8; 16] { v.0 }
pub fn u16x8(v: V128) -> [u16; 8] { let mut r = [0; 8]; let mut i = 0; while i < 8 { r[i] = u16::from_le_bytes([v.0[2 * i], v.0[2 * i + 1]]); i += 1; } r }
pub fn u32x4(v: V128) -> [u32; 4] { let mut r = [0; 4]; let mut i = 0; while i < 4 { r[i] = u32::from_le_bytes([v.0[4 * i], v.0[4 * i + 1], v.0[4 * i + 2], v.0[4 * i + 3]]); i += 1; } r }
pub fn u64x2(v: V128) -> [u64; 2] { let x = u128::from_le_bytes(v.0); [x as u64, (x >> 64) as u64] }
pub fn of8(a: [u8; 16]) -> V128 { V128(a) }
pub fn of16(a: [u16; 8]) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 8 { let b = a[i].to_le_bytes(); r[2 * i] = b[0]; r[2 * i + 1] = b[1]; i += 1; } V128(r) }
pub fn of32(a: [u32; 4]) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 4 { let b = a[i].to_le_bytes(); let mut j = 0; while j < 4 { r[4 * i + j] = b[j]; j += 1; } i += 1; } V128(r) }
pub fn of64(a: [u64; 2]) -> V128 { V128((a[0] as u128 | (a[1] as u128) << 64).to_le_bytes()) }

macro_rules! lanes { ($map1:ident, $map2:ident, $get:ident, $of:ident, $u:ty, $n:expr) => {
    pub fn $map1(a: V128, f: impl Fn($u) -> $u) -> V128 { let a = $get(a); let mut r = [0; $n]; let mut i = 0; while i < $n { r[i] = f(a[i]); i += 1; } $of(r) }
    pub fn $map2(a: V128, b: V128, f: impl Fn($u, $u) -> $u) -> V128 { let a = $get(a); let b = $get(b); let mut r = [0; $n]; let mut i = 0; while i < $n { r[i] = f(a[i], b[i]); i += 1; } $of(r) }
} }
lanes!(m8, z8, u8x16, of8, u8, 16);
lanes!(m16, z16, u16x8, of16, u16, 8);
lanes!(m32, z32, u32x4, of32, u32, 4);
lanes!(m64, z64, u64x2, of64, u64, 2);
fn k8(b: bool) -> u8 { if b { 0xff } else { 0 } }
fn k16(b: bool) -> u16 { if b { 0xffff } else { 0 } }
fn k32(b: bool) -> u32 { if b { u32::MAX } else { 0 } }
fn k64(b: bool) -> u64 { if b { u64::MAX } else { 0 } }
fn clamp(x: i64, lo: i64, hi: i64) -> i64 { if x < lo { lo } else if x > hi { hi } else { x } }
fn bits(a: V128, w: usize) -> u32 { let mut r = 0; let mut i = 0; while i < 16 / w { if a.0[i * w + w - 1] & 0x80 != 0 { r |= 1 << i; } i += 1; } r }
fn alltrue(a: V128, w: usize) -> u32 { let mut i = 0; while i < 16 / w { let mut j = 0; let mut nz = false; while j < w { nz |= a.0[i * w + j] != 0; j += 1; } if !nz { return 0; } i += 1; } 1 }
fn pop8(x: u8) -> u8 { let mut n = 0; let mut i = 0; while i < 8 { n += (x >> i) & 1; i += 1; } n }
// lane i of a, as a mathematical integer
fn s8(a: V128, i: usize) -> i64 { a.0[i] as i8 as i64 }
fn q8(a: V128, i: usize) -> i64 { a.0[i] as i64 }
fn s16(a: V128, i: usize) -> i64 { u16x8(a)[i] as i16 as i64 }
fn h16(a: V128, i: usize) -> i32 { u16x8(a)[i] as i16 as i32 }
fn q16(a: V128, i: usize) -> i64 { u16x8(a)[i] as i64 }
fn s32(a: V128, i: usize) -> i64 { u32x4(a)[i] as i32 as i64 }
fn q32(a: V128, i: usize) -> i64 { u32x4(a)[i] as i64 }
fn g8(f: impl Fn(usize) -> i64) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 16 { r[i] = f(i) as u8; i += 1; } V128(r) }
fn g16(f: impl Fn(usize) -> i64) -> V128 { let mut r = [0; 8]; let mut i = 0; while i < 8 { r[i] = f(i) as u16; i += 1; } of16(r) }
fn g32(f: impl Fn(usize) -> i64) -> V128 { let mut r = [0; 4]; let mut i = 0; while i < 4 { r[i] = f(i) as u32; i += 1; } of32(r) }
fn g64(f: impl Fn(usize) -> i64) -> V128 { of64([f(0) as u64, f(1) as u64]) }
fn mf(a: V128, f: impl Fn(F32) -> F32) -> V128 { m32(a, |x| f(F32(x)).0) }
fn zf(a: V128, b: V128, f: impl Fn(F32, F32) -> F32) -> V128 { z32(a, b, |x, y| f(F32(x), F32(y)).0) }
fn md(a: V128, f: impl Fn(F64) -> F64) -> V128 { m64(a, |x| f(F64(x)).0) }
fn zd(a: V128, b: V128, f: impl Fn(F64, F64) -> F64) -> V128 { z64(a, b, |x, y| f(F64(x), F64(y)).0) }
fn swz(a: V128, s: V128) -> V128 { g8(|i| if s.0[i] < 16 { a.0[s.0[i] as usize] as i64 } else { 0 }) }
fn bsel(a: V128, b: V128, c: V128) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 16 { r[i] = (a.0[i] & c.0[i]) | (b.0[i] & !c.0[i]); i += 1; } V128(r) }
pub fn shuffle(a: V128, b: V128, idx: [u8; 16]) -> V128 { g8(|i| { let k = idx[i] as usize; if k < 16 { a.0[k] as i64 } else { b.0[k - 16] as i64 } }) }
macro_rules! def { ($($name:ident ($($a:ident : $t:ty),*) -> $r:ty [$k:ident] = $e:expr;)*) => {
    $( pub fn $name($($a: $t),*) -> $r { $e } )* } }
''')
def op(n,args,ret,kind,e): return f"    {n}({', '.join(args)}) -> {ret} [{kind}] = {e};"
V='V128'
A=['a: V128']; AB=['a: V128','c: V128']; ABC=['a: V128','c: V128','m: V128']
cheap=[];mul=[];flo=[];farith=[]
c=cheap.append
c(op('V128Not',A,V,'Bits','m8(a, |x| !x)'))
c(op('V128And',AB,V,'Bits','z8(a, c, |x, y| x & y)'))
c(op('V128AndNot',AB,V,'Bits','z8(a, c, |x, y| x & !y)'))
c(op('V128Or',AB,V,'Bits','z8(a, c, |x, y| x | y)'))
c(op('V128Xor',AB,V,'Bits','z8(a, c, |x, y| x ^ y)'))
c(op('V128Bitselect',ABC,V,'Bits','bsel(a, c, m)'))
c(op('V128AnyTrue',A,'u32','Bits','(u128::from_le_bytes(a.0) != 0) as u32'))
c(op('I8x16Swizzle',AB,V,'Bits','swz(a, c)'))
for (nm,w,by) in (('I8x16',8,1),('I16x8',16,2),('I32x4',32,4),('I64x2',64,8)):
    it=f'i{w}'
    c(op(nm+'Splat',['x: u64' if w==64 else 'x: u32'],V,'Bits',f'm{w}(V128([0; 16]), |_| x as u{w})'))
    for k,e in (('Eq','x == y'),('Ne','x != y')): c(op(nm+k,AB,V,'Bits',f'z{w}(a, c, |x, y| k{w}({e}))'))
    for k,o in (('Lt','<'),('Gt','>'),('Le','<='),('Ge','>=')):
        c(op(nm+k+'S',AB,V,'Bits',f'z{w}(a, c, |x, y| k{w}((x as {it}) {o} (y as {it})))'))
        if w!=64: c(op(nm+k+'U',AB,V,'Bits',f'z{w}(a, c, |x, y| k{w}(x {o} y))'))
    c(op(nm+'Abs',A,V,'Bits',f'm{w}(a, |x| if (x as {it}) < 0 {{ (!x).wrapping_add(1) }} else {{ x }})'))
    c(op(nm+'Neg',A,V,'Bits',f'm{w}(a, |x| (!x).wrapping_add(1))'))
    c(op(nm+'AllTrue',A,'u32','Bits',f'alltrue(a, {by})'))
    c(op(nm+'Bitmask',A,'u32','Bits',f'bits(a, {by})'))
    c(op(nm+'Shl',['a: V128','k: u32'],V,'Bits',f'm{w}(a, |x| x << (k & {w-1}))'))
    c(op(nm+'ShrS',['a: V128','k: u32'],V,'Bits',f'm{w}(a, |x| ((x as {it}) >> (k & {w-1})) as u{w})'))
    c(op(nm+'ShrU',['a: V128','k: u32'],V,'Bits',f'm{w}(a, |x| x >> (k & {w-1}))'))
    c(op(nm+'Add',AB,V,'Bits',f'z{w}(a, c, |x, y| x.wrapping_add(y))'))
    c(op(nm+'Sub',AB,V,'Bits',f'z{w}(a, c, |x, y| x.wrapping_sub(y))'))
    if w!=64:
        c(op(nm+'MinS',AB,V,'Bits',f'z{w}(a, c, |x, y| if (x as {it}) < (y as {it}) {{ x }} else {{ y }})'))
        c(op(nm+'MinU',AB,V,'Bits',f'z{w}(a, c, |x, y| if x < y {{ x }} else {{ y }})'))
        c(op(nm+'MaxS',AB,V,'Bits',f'z{w}(a, c, |x, y| if (x as {it}) > (y as {it}) {{ x }} else {{ y }})'))
        c(op(nm+'MaxU',AB,V,'Bits',f'z{w}(a, c, |x, y| if x > y {{ x }} else {{ y }})'))
    if w<=16:
        lo,hi,um=-(1<<(w-1)),(1<<(w-1))-1,(1<<w)-1
        for k,o in (('Add','+'),('Sub','-')):
            c(op(nm+k+'SatS',AB,V,'Bits',f'g{w}(|i| clamp(s{w}(a, i) {o} s{w}(c, i), {lo}, {hi}))'))
            c(op(nm+k+'SatU',AB,V,'Bits',f'g{w}(|i| clamp(q{w}(a, i) {o} q{w}(c, i), 0, {um}))'))
        c(op(nm+'AvgrU',AB,V,'Bits',f'g{w}(|i| (q{w}(a, i) + q{w}(c, i) + 1) / 2)'))
c(op('I8x16Popcnt',A,V,'Bits','m8(a, pop8)'))
for nm,src,w,sw,n in (('I8x16','I16x8',8,16,8),('I16x8','I32x4',16,32,4)):
    lo,hi,um=-(1<<(w-1)),(1<<(w-1))-1,(1<<w)-1
    c(op(f'{nm}Narrow{src}S',AB,V,'Bits',f'g{w}(|i| clamp(if i < {n} {{ s{sw}(a, i) }} else {{ s{sw}(c, i - {n}) }}, {lo}, {hi}))'))
    c(op(f'{nm}Narrow{src}U',AB,V,'Bits',f'g{w}(|i| clamp(if i < {n} {{ s{sw}(a, i) }} else {{ s{sw}(c, i - {n}) }}, 0, {um}))'))
for nm,src,w,sw,n in (('I16x8','I8x16',16,8,8),('I32x4','I16x8',32,16,4),('I64x2','I32x4',64,32,2)):
    for sg,p in (('S','s'),('U','q')):
        c(op(f'{nm}ExtendLow{src}{sg}',A,V,'Bits',f'g{w}(|i| {p}{sw}(a, i))'))
        c(op(f'{nm}ExtendHigh{src}{sg}',A,V,'Bits',f'g{w}(|i| {p}{sw}(a, i + {n}))'))
        mul.append(op(f'{nm}ExtMulLow{src}{sg}',AB,V,'Bits',f'g{w}(|i| {p}{sw}(a, i).wrapping_mul({p}{sw}(c, i)))'))
        mul.append(op(f'{nm}ExtMulHigh{src}{sg}',AB,V,'Bits',f'g{w}(|i| {p}{sw}(a, i + {n}).wrapping_mul({p}{sw}(c, i + {n})))'))
        if w<64: c(op(f'{nm}ExtAddPairwise{src}{sg}',A,V,'Bits',f'g{w}(|i| {p}{sw}(a, 2 * i) + {p}{sw}(a, 2 * i + 1))'))
for nm,w in (('I16x8',16),('I32x4',32),('I64x2',64)):
    mul.append(op(nm+'Mul',AB,V,'Bits',f'z{w}(a, c, |x, y| x.wrapping_mul(y))'))
mul.append(op('I16x8Q15MulrSatS',AB,V,'Bits','g16(|i| clamp(((h16(a, i).wrapping_mul(h16(c, i)) + 0x4000) >> 15) as i64, -32768, 32767))'))
mul.append(op('I32x4DotI16x8S',AB,V,'Bits','g32(|i| h16(a, 2 * i).wrapping_mul(h16(c, 2 * i)).wrapping_add(h16(a, 2 * i + 1).wrapping_mul(h16(c, 2 * i + 1))) as i64)'))
f=flo.append
for nm,mm,zz,fm,k,w,F in (('F32x4','mf','zf','s','F32x4',32,'F32'),('F64x2','md','zd','d','F64x2',64,'F64')):
    f(op(nm+'Splat',[f'x: {F}'],V,'Bits',f'm{w}(V128([0; 16]), |_| x.0)'))
    X,Y=f'{F}(x)',f'{F}(y)'
    for kk,e in (('Eq',f'fl::{fm}::eq({X}, {Y})'),('Ne',f'!fl::{fm}::eq({X}, {Y})'),('Lt',f'fl::{fm}::lt({X}, {Y})'),('Gt',f'fl::{fm}::lt({Y}, {X})'),('Le',f'fl::{fm}::le({X}, {Y})'),('Ge',f'fl::{fm}::le({Y}, {X})')):
        f(op(nm+kk,AB,V,'Bits',f'z{w}(a, c, |x, y| k{w}({e}))'))
    for kk in ('Abs','Neg'): f(op(nm+kk,A,V,'Bits',f'{mm}(a, fl::{fm}::{kk.lower()})'))
    for kk in ('Ceil','Floor','Trunc','Nearest'): f(op(nm+kk,A,V,k,f'{mm}(a, fl::{fm}::{kk.lower()})'))
    for kk in ('Min','Max'): f(op(nm+kk,AB,V,k,f'{zz}(a, c, fl::{fm}::{kk.lower()})'))
    f(op(nm+'PMin',AB,V,'Bits',f'{zz}(a, c, fl::{fm}::pmin)'))
    f(op(nm+'PMax',AB,V,'Bits',f'{zz}(a, c, fl::{fm}::pmax)'))
    for kk in ('Add','Sub','Mul','Div'): farith.append(op(nm+kk,AB,V,k,f'{zz}(a, c, fl::{fm}::{kk.lower()})'))
    farith.append(op(nm+'Sqrt',A,V,k,f'{mm}(a, fl::{fm}::sqrt)'))
f(op('I32x4TruncSatF32x4S',A,V,'Bits','m32(a, |x| fl::s::sat_i32(F32(x)))'))
f(op('I32x4TruncSatF32x4U',A,V,'Bits','m32(a, |x| fl::s::sat_u32(F32(x)))'))
f(op('F32x4ConvertI32x4S',A,V,'F32x4','m32(a, |x| fl::s::of_i32(x).0)'))
f(op('F32x4ConvertI32x4U',A,V,'F32x4','m32(a, |x| fl::s::of_u32(x).0)'))
f(op('I32x4TruncSatF64x2SZero',A,V,'Bits','{ let x = u64x2(a); of32([fl::d::sat_i32(F64(x[0])), fl::d::sat_i32(F64(x[1])), 0, 0]) }'))
f(op('I32x4TruncSatF64x2UZero',A,V,'Bits','{ let x = u64x2(a); of32([fl::d::sat_u32(F64(x[0])), fl::d::sat_u32(F64(x[1])), 0, 0]) }'))
f(op('F64x2ConvertLowI32x4S',A,V,'F64x2','{ let x = u32x4(a); of64([fl::d::of_i32(x[0]).0, fl::d::of_i32(x[1]).0]) }'))
f(op('F64x2ConvertLowI32x4U',A,V,'F64x2','{ let x = u32x4(a); of64([fl::d::of_u32(x[0]).0, fl::d::of_u32(x[1]).0]) }'))
f(op('F32x4DemoteF64x2Zero',A,V,'F32x4','{ let x = u64x2(a); of32([fl::demote(F64(x[0])).0, fl::demote(F64(x[1])).0, 0, 0]) }'))
f(op('F64x2PromoteLowF32x4',A,V,'F64x2','{ let x = u32x4(a); of64([fl::promote(F32(x[0])).0, fl::promote(F32(x[1])).0]) }'))
for g,d,rows in (('simd_int_ops','integer, bitwise, shift, narrow/widen: no wide multiplication',cheap),('simd_mul_ops','multiplying',mul),('simd_float_ops','float, bit-level',flo),('simd_farith_ops','float arithmetic',farith)):
    out.append(f'/// {d}\n#[macro_export]\nmacro_rules! {g} {{ ($cb:ident) => {{ $cb! {{\n'+'\n'.join(rows)+'\n} } }\n')
for g in ('simd_int_ops','simd_mul_ops','simd_float_ops','simd_farith_ops'): out.append(f'{g}!(def);\n')
out.append('''
/// Relaxed instructions: the set of results the specification permits, given as a predicate.
pub mod relaxed {
    use super::*;
    fn lanes32(got: V128, f: impl Fn(usize, u32) -> bool) -> bool { let g = u32x4(got); (0..4).all(|i| f(i, g[i])) }
    fn okf(w: f32, g: u32) -> bool { if w.is_nan() { F32(g).nan() } else { w.to_bits() == g } }
    fn okd(w: f64, g: u64) -> bool { if w.is_nan() { F64(g).nan() } else { w.to_bits() == g } }
    pub fn I8x16RelaxedSwizzle(a: V128, s: V128, got: V128) -> bool {
        (0..16).all(|i| { let k = s.0[i]; if k < 16 { got.0[i] == a.0[k as usize] } else if k >= 128 { got.0[i] == 0 } else { got.0[i] == 0 || got.0[i] == a.0[(k & 15) as usize] } }) }
    pub fn I32x4RelaxedTruncF32x4S(a: V128, got: V128) -> bool { let x = u32x4(a); lanes32(got, |i, g| match fl::s::to_i32(F32(x[i])) { Ok(v) => g == v, Err(_) => g == fl::s::sat_i32(F32(x[i])) || g == 1 << 31 }) }
    pub fn I32x4RelaxedTruncF32x4U(a: V128, got: V128) -> bool { let x = u32x4(a); lanes32(got, |i, g| match fl::s::to_u32(F32(x[i])) { Ok(v) => g == v, Err(_) => g == fl::s::sat_u32(F32(x[i])) || g == u32::MAX }) }
    pub fn I32x4RelaxedTruncF64x2SZero(a: V128, got: V128) -> bool { let x = u64x2(a); lanes32(got, |i, g| if i > 1 { g == 0 } else { match fl::d::to_i32(F64(x[i])) { Ok(v) => g == v, Err(_) => g == fl::d::sat_i32(F64(x[i])) || g == 1 << 31 } }) }
    pub fn I32x4RelaxedTruncF64x2UZero(a: V128, got: V128) -> bool { let x = u64x2(a); lanes32(got, |i, g| if i > 1 { g == 0 } else { match fl::d::to_u32(F64(x[i])) { Ok(v) => g == v, Err(_) => g == fl::d::sat_u32(F64(x[i])) || g == u32::MAX } }) }
    pub fn F32x4RelaxedMadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c) = (u32x4(a), u32x4(b), u32x4(c)); lanes32(got, |i, g| { let (x, y, z) = (f32::from_bits(a[i]), f32::from_bits(b[i]), f32::from_bits(c[i])); okf(x * y + z, g) || okf(x.mul_add(y, z), g) }) }
    pub fn F32x4RelaxedNmadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c) = (u32x4(a), u32x4(b), u32x4(c)); lanes32(got, |i, g| { let (x, y, z) = (f32::from_bits(a[i]), f32::from_bits(b[i]), f32::from_bits(c[i])); okf(-(x * y) + z, g) || okf((-x).mul_add(y, z), g) }) }
    pub fn F64x2RelaxedMadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c, g) = (u64x2(a), u64x2(b), u64x2(c), u64x2(got)); (0..2).all(|i| { let (x, y, z) = (f64::from_bits(a[i]), f64::from_bits(b[i]), f64::from_bits(c[i])); okd(x * y + z, g[i]) || okd(x.mul_add(y, z), g[i]) }) }
    pub fn F64x2RelaxedNmadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c, g) = (u64x2(a), u64x2(b), u64x2(c), u64x2(got)); (0..2).all(|i| { let (x, y, z) = (f64::from_bits(a[i]), f64::from_bits(b[i]), f64::from_bits(c[i])); okd(-(x * y) + z, g[i]) || okd((-x).mul_add(y, z), g[i]) }) }
    fn lsel(a: V128, b: V128, m: V128, got: V128, w: usize) -> bool {
        let bs = bsel(a, b, m);
        (0..16 / w).all(|l| { let r = l * w..l * w + w; let top = m.0[l * w + w - 1] & 0x80 != 0;
            let pick = if top { a } else { b }; got.0[r.clone()] == bs.0[r.clone()] || got.0[r.clone()] == pick.0[r] }) }
    pub fn I8x16RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 1) }
    pub fn I16x8RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 2) }
    pub fn I32x4RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 4) }
    pub fn I64x2RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 8) }
    // relaxed min/max: the IEEE result, or either operand when one is NaN or both are zeros
    fn mm32(a: V128, b: V128, got: V128, max: bool) -> bool { let (a, b) = (u32x4(a), u32x4(b)); lanes32(got, |i, g| { let (x, y) = (F32(a[i]), F32(b[i]));
        let w = if max { fl::s::max(x, y) } else { fl::s::min(x, y) };
        if x.nan() || y.nan() { F32(g).nan() || g == x.0 || g == y.0 } else if (x.0 | y.0) << 1 == 0 { g == x.0 || g == y.0 } else { g == w.0 } }) }
    fn mm64(a: V128, b: V128, got: V128, max: bool) -> bool { let (a, b, g) = (u64x2(a), u64x2(b), u64x2(got)); (0..2).all(|i| { let (x, y) = (F64(a[i]), F64(b[i]));
        let w = if max { fl::d::max(x, y) } else { fl::d::min(x, y) };
        if x.nan() || y.nan() { F64(g[i]).nan() || g[i] == x.0 || g[i] == y.0 } else if (x.0 | y.0) << 1 == 0 { g[i] == x.0 || g[i] == y.0 } else { g[i] == w.0 } }) }
    pub fn F32x4RelaxedMin(a: V128, b: V128, got: V128) -> bool { mm32(a, b, got, false) }
    pub fn F32x4RelaxedMax(a: V128, b: V128, got: V128) -> bool { mm32(a, b, got, true) }
    pub fn F64x2RelaxedMin(a: V128, b: V128, got: V128) -> bool { mm64(a, b, got, false) }
    pub fn F64x2RelaxedMax(a: V128, b: V128, got: V128) -> bool { mm64(a, b, got, true) }
    pub fn I16x8RelaxedQ15mulrS(a: V128, b: V128, got: V128) -> bool { let (a, b, g) = (u16x8(a), u16x8(b), u16x8(got));
        (0..8).all(|i| if a[i] == 0x8000 && b[i] == 0x8000 { g[i] == 0x7fff || g[i] == 0x8000 } else { g[i] == (((a[i] as i16 as i64 * b[i] as i16 as i64) + 0x4000) >> 15) as u16 }) }
    // b is 7-bit: where its top bit is set, it may count as signed or unsigned (per implementation, here per product)
    fn dots(a: V128, b: V128, i: usize, j: usize) -> Vec<i64> {
        let mut r = vec![];
        for m in 0..4 { let f = |k: usize, u: bool| a.0[k] as i8 as i64 * if u { b.0[k] as i64 } else { b.0[k] as i8 as i64 };
            let s = f(i, m & 1 == 1) + f(j, m & 2 == 2);
            r.push(s as i16 as i64); r.push(clamp(s, -32768, 32767)); }
        r }
    pub fn I16x8RelaxedDotI8x16I7x16S(a: V128, b: V128, got: V128) -> bool { let g = u16x8(got); (0..8).all(|i| dots(a, b, 2 * i, 2 * i + 1).iter().any(|s| *s as u16 == g[i])) }
    pub fn I32x4RelaxedDotI8x16I7x16AddS(a: V128, b: V128, c: V128, got: V128) -> bool { let (g, c) = (u32x4(got), u32x4(c));
        (0..4).all(|i| { let p = dots(a, b, 4 * i, 4 * i + 1); let q = dots(a, b, 4 * i + 2, 4 * i + 3);
            p.iter().any(|x| q.iter().any(|y| ((x + y) as u32).wrapping_add(c[i]) == g[i])) }) }
}
#[macro_export]
macro_rules! relaxed2_ops { ($cb:ident) => { $cb! { I8x16RelaxedSwizzle F32x4RelaxedMin F32x4RelaxedMax F64x2RelaxedMin F64x2RelaxedMax I16x8RelaxedQ15mulrS I16x8RelaxedDotI8x16I7x16S } } }
#[macro_export]
macro_rules! relaxed1_ops { ($cb:ident) => { $cb! { I32x4RelaxedTruncF32x4S I32x4RelaxedTruncF32x4U I32x4RelaxedTruncF64x2SZero I32x4RelaxedTruncF64x2UZero } } }
#[macro_export]
macro_rules! relaxed3_ops { ($cb:ident) => { $cb! { F32x4RelaxedMadd F32x4RelaxedNmadd F64x2RelaxedMadd F64x2RelaxedNmadd I8x16RelaxedLaneselect I16x8RelaxedLaneselect I32x4RelaxedLaneselect I64x2RelaxedLaneselect I32x4RelaxedDotI8x16I7x16AddS } } }
''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','spec','src','simd.rs'),'w').write('\n'.join(out))
