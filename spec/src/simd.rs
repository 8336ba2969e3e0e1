//! Vector instructions: name, operands, how results are compared, specification.
//! Generated by tools/gen_simd_spec.py; committed.
use crate::{F32, F64, V128, fl};

pub fn u8x16(v: V128) -> [u8; 16] { v.0 }
pub fn u16x8(v: V128) -> [u16; 8] { let mut r = [0; 8]; let mut i = 0; while i < 8 { r[i] = u16::from_le_bytes([v.0[2 * i], v.0[2 * i + 1]]); i += 1; } r }
pub fn u32x4(v: V128) -> [u32; 4] { let mut r = [0; 4]; let mut i = 0; while i < 4 { r[i] = u32::from_le_bytes([v.0[4 * i], v.0[4 * i + 1], v.0[4 * i + 2], v.0[4 * i + 3]]); i += 1; } r }
pub fn u64x2(v: V128) -> [u64; 2] { let x = u128::from_le_bytes(v.0); [x as u64, (x >> 64) as u64] }
pub fn of8(a: [u8; 16]) -> V128 { V128(a) }
pub fn of16(a: [u16; 8]) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 8 { let b = a[i].to_le_bytes(); r[2 * i] = b[0]; r[2 * i + 1] = b[1]; i += 1; } V128(r) }
pub fn of32(a: [u32; 4]) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 4 { let b = a[i].to_le_bytes(); let mut j = 0; while j < 4 { r[4 * i + j] = b[j]; j += 1; } i += 1; } V128(r) }
pub fn of64(a: [u64; 2]) -> V128 { V128((a[0] as u128 | (a[1] as u128) << 64).to_le_bytes()) }

macro_rules! lanes { ($map1:ident, $map2:ident, $get:ident, $of:ident, $u:ty, $n:expr) => {
    pub fn $map1(a: V128, f: impl Fn($u) -> $u) -> V128 { let a = $get(a); let mut r = [0; $n]; let mut i = 0; while i < $n { r[i] = f(a[i]); i += 1; } $of(r) }
    pub fn $map2(a: V128, b: V128, f: impl Fn($u, $u) -> $u) -> V128 { let a = $get(a); let b = $get(b); let mut r = [0; $n]; let mut i = 0; while i < $n { r[i] = f(a[i], b[i]); i += 1; } $of(r) }
} }
lanes!(m8, z8, u8x16, of8, u8, 16);
lanes!(m16, z16, u16x8, of16, u16, 8);
lanes!(m32, z32, u32x4, of32, u32, 4);
lanes!(m64, z64, u64x2, of64, u64, 2);
fn k8(b: bool) -> u8 { if b { 0xff } else { 0 } }
fn k16(b: bool) -> u16 { if b { 0xffff } else { 0 } }
fn k32(b: bool) -> u32 { if b { u32::MAX } else { 0 } }
fn k64(b: bool) -> u64 { if b { u64::MAX } else { 0 } }
fn clamp(x: i64, lo: i64, hi: i64) -> i64 { if x < lo { lo } else if x > hi { hi } else { x } }
fn bits(a: V128, w: usize) -> u32 { let mut r = 0; let mut i = 0; while i < 16 / w { if a.0[i * w + w - 1] & 0x80 != 0 { r |= 1 << i; } i += 1; } r }
fn alltrue(a: V128, w: usize) -> u32 { let mut i = 0; while i < 16 / w { let mut j = 0; let mut nz = false; while j < w { nz |= a.0[i * w + j] != 0; j += 1; } if !nz { return 0; } i += 1; } 1 }
fn pop8(x: u8) -> u8 { let mut n = 0; let mut i = 0; while i < 8 { n += (x >> i) & 1; i += 1; } n }
// lane i of a, as a mathematical integer
fn s8(a: V128, i: usize) -> i64 { a.0[i] as i8 as i64 }
fn q8(a: V128, i: usize) -> i64 { a.0[i] as i64 }
fn s16(a: V128, i: usize) -> i64 { u16x8(a)[i] as i16 as i64 }
fn h16(a: V128, i: usize) -> i32 { u16x8(a)[i] as i16 as i32 }
fn q16(a: V128, i: usize) -> i64 { u16x8(a)[i] as i64 }
fn s32(a: V128, i: usize) -> i64 { u32x4(a)[i] as i32 as i64 }
fn q32(a: V128, i: usize) -> i64 { u32x4(a)[i] as i64 }
fn g8(f: impl Fn(usize) -> i64) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 16 { r[i] = f(i) as u8; i += 1; } V128(r) }
fn g16(f: impl Fn(usize) -> i64) -> V128 { let mut r = [0; 8]; let mut i = 0; while i < 8 { r[i] = f(i) as u16; i += 1; } of16(r) }
fn g32(f: impl Fn(usize) -> i64) -> V128 { let mut r = [0; 4]; let mut i = 0; while i < 4 { r[i] = f(i) as u32; i += 1; } of32(r) }
fn g64(f: impl Fn(usize) -> i64) -> V128 { of64([f(0) as u64, f(1) as u64]) }
fn mf(a: V128, f: impl Fn(F32) -> F32) -> V128 { m32(a, |x| f(F32(x)).0) }
fn zf(a: V128, b: V128, f: impl Fn(F32, F32) -> F32) -> V128 { z32(a, b, |x, y| f(F32(x), F32(y)).0) }
fn md(a: V128, f: impl Fn(F64) -> F64) -> V128 { m64(a, |x| f(F64(x)).0) }
fn zd(a: V128, b: V128, f: impl Fn(F64, F64) -> F64) -> V128 { z64(a, b, |x, y| f(F64(x), F64(y)).0) }
fn swz(a: V128, s: V128) -> V128 { g8(|i| if s.0[i] < 16 { a.0[s.0[i] as usize] as i64 } else { 0 }) }
fn bsel(a: V128, b: V128, c: V128) -> V128 { let mut r = [0; 16]; let mut i = 0; while i < 16 { r[i] = (a.0[i] & c.0[i]) | (b.0[i] & !c.0[i]); i += 1; } V128(r) }
pub fn shuffle(a: V128, b: V128, idx: [u8; 16]) -> V128 { g8(|i| { let k = idx[i] as usize; if k < 16 { a.0[k] as i64 } else { b.0[k - 16] as i64 } }) }
macro_rules! def { ($($name:ident ($($a:ident : $t:ty),*) -> $r:ty [$k:ident] = $e:expr;)*) => {
    $( pub fn $name($($a: $t),*) -> $r { $e } )* } }

/// integer, bitwise, shift, narrow/widen: no wide multiplication
#[macro_export]
macro_rules! simd_int_ops { ($cb:ident) => { $cb! {
    V128Not(a: V128) -> V128 [Bits] = m8(a, |x| !x);
    V128And(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| x & y);
    V128AndNot(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| x & !y);
    V128Or(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| x | y);
    V128Xor(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| x ^ y);
    V128Bitselect(a: V128, c: V128, m: V128) -> V128 [Bits] = bsel(a, c, m);
    V128AnyTrue(a: V128) -> u32 [Bits] = (u128::from_le_bytes(a.0) != 0) as u32;
    I8x16Swizzle(a: V128, c: V128) -> V128 [Bits] = swz(a, c);
    I8x16Splat(x: u32) -> V128 [Bits] = m8(V128([0; 16]), |_| x as u8);
    I8x16Eq(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8(x == y));
    I8x16Ne(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8(x != y));
    I8x16LtS(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8((x as i8) < (y as i8)));
    I8x16LtU(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8(x < y));
    I8x16GtS(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8((x as i8) > (y as i8)));
    I8x16GtU(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8(x > y));
    I8x16LeS(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8((x as i8) <= (y as i8)));
    I8x16LeU(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8(x <= y));
    I8x16GeS(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8((x as i8) >= (y as i8)));
    I8x16GeU(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| k8(x >= y));
    I8x16Abs(a: V128) -> V128 [Bits] = m8(a, |x| if (x as i8) < 0 { (!x).wrapping_add(1) } else { x });
    I8x16Neg(a: V128) -> V128 [Bits] = m8(a, |x| (!x).wrapping_add(1));
    I8x16AllTrue(a: V128) -> u32 [Bits] = alltrue(a, 1);
    I8x16Bitmask(a: V128) -> u32 [Bits] = bits(a, 1);
    I8x16Shl(a: V128, k: u32) -> V128 [Bits] = m8(a, |x| x << (k & 7));
    I8x16ShrS(a: V128, k: u32) -> V128 [Bits] = m8(a, |x| ((x as i8) >> (k & 7)) as u8);
    I8x16ShrU(a: V128, k: u32) -> V128 [Bits] = m8(a, |x| x >> (k & 7));
    I8x16Add(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| x.wrapping_add(y));
    I8x16Sub(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| x.wrapping_sub(y));
    I8x16MinS(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| if (x as i8) < (y as i8) { x } else { y });
    I8x16MinU(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| if x < y { x } else { y });
    I8x16MaxS(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| if (x as i8) > (y as i8) { x } else { y });
    I8x16MaxU(a: V128, c: V128) -> V128 [Bits] = z8(a, c, |x, y| if x > y { x } else { y });
    I8x16AddSatS(a: V128, c: V128) -> V128 [Bits] = g8(|i| clamp(s8(a, i) + s8(c, i), -128, 127));
    I8x16AddSatU(a: V128, c: V128) -> V128 [Bits] = g8(|i| clamp(q8(a, i) + q8(c, i), 0, 255));
    I8x16SubSatS(a: V128, c: V128) -> V128 [Bits] = g8(|i| clamp(s8(a, i) - s8(c, i), -128, 127));
    I8x16SubSatU(a: V128, c: V128) -> V128 [Bits] = g8(|i| clamp(q8(a, i) - q8(c, i), 0, 255));
    I8x16AvgrU(a: V128, c: V128) -> V128 [Bits] = g8(|i| (q8(a, i) + q8(c, i) + 1) / 2);
    I16x8Splat(x: u32) -> V128 [Bits] = m16(V128([0; 16]), |_| x as u16);
    I16x8Eq(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16(x == y));
    I16x8Ne(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16(x != y));
    I16x8LtS(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16((x as i16) < (y as i16)));
    I16x8LtU(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16(x < y));
    I16x8GtS(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16((x as i16) > (y as i16)));
    I16x8GtU(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16(x > y));
    I16x8LeS(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16((x as i16) <= (y as i16)));
    I16x8LeU(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16(x <= y));
    I16x8GeS(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16((x as i16) >= (y as i16)));
    I16x8GeU(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| k16(x >= y));
    I16x8Abs(a: V128) -> V128 [Bits] = m16(a, |x| if (x as i16) < 0 { (!x).wrapping_add(1) } else { x });
    I16x8Neg(a: V128) -> V128 [Bits] = m16(a, |x| (!x).wrapping_add(1));
    I16x8AllTrue(a: V128) -> u32 [Bits] = alltrue(a, 2);
    I16x8Bitmask(a: V128) -> u32 [Bits] = bits(a, 2);
    I16x8Shl(a: V128, k: u32) -> V128 [Bits] = m16(a, |x| x << (k & 15));
    I16x8ShrS(a: V128, k: u32) -> V128 [Bits] = m16(a, |x| ((x as i16) >> (k & 15)) as u16);
    I16x8ShrU(a: V128, k: u32) -> V128 [Bits] = m16(a, |x| x >> (k & 15));
    I16x8Add(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| x.wrapping_add(y));
    I16x8Sub(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| x.wrapping_sub(y));
    I16x8MinS(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| if (x as i16) < (y as i16) { x } else { y });
    I16x8MinU(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| if x < y { x } else { y });
    I16x8MaxS(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| if (x as i16) > (y as i16) { x } else { y });
    I16x8MaxU(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| if x > y { x } else { y });
    I16x8AddSatS(a: V128, c: V128) -> V128 [Bits] = g16(|i| clamp(s16(a, i) + s16(c, i), -32768, 32767));
    I16x8AddSatU(a: V128, c: V128) -> V128 [Bits] = g16(|i| clamp(q16(a, i) + q16(c, i), 0, 65535));
    I16x8SubSatS(a: V128, c: V128) -> V128 [Bits] = g16(|i| clamp(s16(a, i) - s16(c, i), -32768, 32767));
    I16x8SubSatU(a: V128, c: V128) -> V128 [Bits] = g16(|i| clamp(q16(a, i) - q16(c, i), 0, 65535));
    I16x8AvgrU(a: V128, c: V128) -> V128 [Bits] = g16(|i| (q16(a, i) + q16(c, i) + 1) / 2);
    I32x4Splat(x: u32) -> V128 [Bits] = m32(V128([0; 16]), |_| x as u32);
    I32x4Eq(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(x == y));
    I32x4Ne(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(x != y));
    I32x4LtS(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32((x as i32) < (y as i32)));
    I32x4LtU(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(x < y));
    I32x4GtS(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32((x as i32) > (y as i32)));
    I32x4GtU(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(x > y));
    I32x4LeS(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32((x as i32) <= (y as i32)));
    I32x4LeU(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(x <= y));
    I32x4GeS(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32((x as i32) >= (y as i32)));
    I32x4GeU(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(x >= y));
    I32x4Abs(a: V128) -> V128 [Bits] = m32(a, |x| if (x as i32) < 0 { (!x).wrapping_add(1) } else { x });
    I32x4Neg(a: V128) -> V128 [Bits] = m32(a, |x| (!x).wrapping_add(1));
    I32x4AllTrue(a: V128) -> u32 [Bits] = alltrue(a, 4);
    I32x4Bitmask(a: V128) -> u32 [Bits] = bits(a, 4);
    I32x4Shl(a: V128, k: u32) -> V128 [Bits] = m32(a, |x| x << (k & 31));
    I32x4ShrS(a: V128, k: u32) -> V128 [Bits] = m32(a, |x| ((x as i32) >> (k & 31)) as u32);
    I32x4ShrU(a: V128, k: u32) -> V128 [Bits] = m32(a, |x| x >> (k & 31));
    I32x4Add(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| x.wrapping_add(y));
    I32x4Sub(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| x.wrapping_sub(y));
    I32x4MinS(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| if (x as i32) < (y as i32) { x } else { y });
    I32x4MinU(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| if x < y { x } else { y });
    I32x4MaxS(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| if (x as i32) > (y as i32) { x } else { y });
    I32x4MaxU(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| if x > y { x } else { y });
    I64x2Splat(x: u64) -> V128 [Bits] = m64(V128([0; 16]), |_| x as u64);
    I64x2Eq(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(x == y));
    I64x2Ne(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(x != y));
    I64x2LtS(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64((x as i64) < (y as i64)));
    I64x2GtS(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64((x as i64) > (y as i64)));
    I64x2LeS(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64((x as i64) <= (y as i64)));
    I64x2GeS(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64((x as i64) >= (y as i64)));
    I64x2Abs(a: V128) -> V128 [Bits] = m64(a, |x| if (x as i64) < 0 { (!x).wrapping_add(1) } else { x });
    I64x2Neg(a: V128) -> V128 [Bits] = m64(a, |x| (!x).wrapping_add(1));
    I64x2AllTrue(a: V128) -> u32 [Bits] = alltrue(a, 8);
    I64x2Bitmask(a: V128) -> u32 [Bits] = bits(a, 8);
    I64x2Shl(a: V128, k: u32) -> V128 [Bits] = m64(a, |x| x << (k & 63));
    I64x2ShrS(a: V128, k: u32) -> V128 [Bits] = m64(a, |x| ((x as i64) >> (k & 63)) as u64);
    I64x2ShrU(a: V128, k: u32) -> V128 [Bits] = m64(a, |x| x >> (k & 63));
    I64x2Add(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| x.wrapping_add(y));
    I64x2Sub(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| x.wrapping_sub(y));
    I8x16Popcnt(a: V128) -> V128 [Bits] = m8(a, pop8);
    I8x16NarrowI16x8S(a: V128, c: V128) -> V128 [Bits] = g8(|i| clamp(if i < 8 { s16(a, i) } else { s16(c, i - 8) }, -128, 127));
    I8x16NarrowI16x8U(a: V128, c: V128) -> V128 [Bits] = g8(|i| clamp(if i < 8 { s16(a, i) } else { s16(c, i - 8) }, 0, 255));
    I16x8NarrowI32x4S(a: V128, c: V128) -> V128 [Bits] = g16(|i| clamp(if i < 4 { s32(a, i) } else { s32(c, i - 4) }, -32768, 32767));
    I16x8NarrowI32x4U(a: V128, c: V128) -> V128 [Bits] = g16(|i| clamp(if i < 4 { s32(a, i) } else { s32(c, i - 4) }, 0, 65535));
    I16x8ExtendLowI8x16S(a: V128) -> V128 [Bits] = g16(|i| s8(a, i));
    I16x8ExtendHighI8x16S(a: V128) -> V128 [Bits] = g16(|i| s8(a, i + 8));
    I16x8ExtAddPairwiseI8x16S(a: V128) -> V128 [Bits] = g16(|i| s8(a, 2 * i) + s8(a, 2 * i + 1));
    I16x8ExtendLowI8x16U(a: V128) -> V128 [Bits] = g16(|i| q8(a, i));
    I16x8ExtendHighI8x16U(a: V128) -> V128 [Bits] = g16(|i| q8(a, i + 8));
    I16x8ExtAddPairwiseI8x16U(a: V128) -> V128 [Bits] = g16(|i| q8(a, 2 * i) + q8(a, 2 * i + 1));
    I32x4ExtendLowI16x8S(a: V128) -> V128 [Bits] = g32(|i| s16(a, i));
    I32x4ExtendHighI16x8S(a: V128) -> V128 [Bits] = g32(|i| s16(a, i + 4));
    I32x4ExtAddPairwiseI16x8S(a: V128) -> V128 [Bits] = g32(|i| s16(a, 2 * i) + s16(a, 2 * i + 1));
    I32x4ExtendLowI16x8U(a: V128) -> V128 [Bits] = g32(|i| q16(a, i));
    I32x4ExtendHighI16x8U(a: V128) -> V128 [Bits] = g32(|i| q16(a, i + 4));
    I32x4ExtAddPairwiseI16x8U(a: V128) -> V128 [Bits] = g32(|i| q16(a, 2 * i) + q16(a, 2 * i + 1));
    I64x2ExtendLowI32x4S(a: V128) -> V128 [Bits] = g64(|i| s32(a, i));
    I64x2ExtendHighI32x4S(a: V128) -> V128 [Bits] = g64(|i| s32(a, i + 2));
    I64x2ExtendLowI32x4U(a: V128) -> V128 [Bits] = g64(|i| q32(a, i));
    I64x2ExtendHighI32x4U(a: V128) -> V128 [Bits] = g64(|i| q32(a, i + 2));
} } }

/// multiplying
#[macro_export]
macro_rules! simd_mul_ops { ($cb:ident) => { $cb! {
    I16x8ExtMulLowI8x16S(a: V128, c: V128) -> V128 [Bits] = g16(|i| s8(a, i).wrapping_mul(s8(c, i)));
    I16x8ExtMulHighI8x16S(a: V128, c: V128) -> V128 [Bits] = g16(|i| s8(a, i + 8).wrapping_mul(s8(c, i + 8)));
    I16x8ExtMulLowI8x16U(a: V128, c: V128) -> V128 [Bits] = g16(|i| q8(a, i).wrapping_mul(q8(c, i)));
    I16x8ExtMulHighI8x16U(a: V128, c: V128) -> V128 [Bits] = g16(|i| q8(a, i + 8).wrapping_mul(q8(c, i + 8)));
    I32x4ExtMulLowI16x8S(a: V128, c: V128) -> V128 [Bits] = g32(|i| s16(a, i).wrapping_mul(s16(c, i)));
    I32x4ExtMulHighI16x8S(a: V128, c: V128) -> V128 [Bits] = g32(|i| s16(a, i + 4).wrapping_mul(s16(c, i + 4)));
    I32x4ExtMulLowI16x8U(a: V128, c: V128) -> V128 [Bits] = g32(|i| q16(a, i).wrapping_mul(q16(c, i)));
    I32x4ExtMulHighI16x8U(a: V128, c: V128) -> V128 [Bits] = g32(|i| q16(a, i + 4).wrapping_mul(q16(c, i + 4)));
    I64x2ExtMulLowI32x4S(a: V128, c: V128) -> V128 [Bits] = g64(|i| s32(a, i).wrapping_mul(s32(c, i)));
    I64x2ExtMulHighI32x4S(a: V128, c: V128) -> V128 [Bits] = g64(|i| s32(a, i + 2).wrapping_mul(s32(c, i + 2)));
    I64x2ExtMulLowI32x4U(a: V128, c: V128) -> V128 [Bits] = g64(|i| q32(a, i).wrapping_mul(q32(c, i)));
    I64x2ExtMulHighI32x4U(a: V128, c: V128) -> V128 [Bits] = g64(|i| q32(a, i + 2).wrapping_mul(q32(c, i + 2)));
    I16x8Mul(a: V128, c: V128) -> V128 [Bits] = z16(a, c, |x, y| x.wrapping_mul(y));
    I32x4Mul(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| x.wrapping_mul(y));
    I64x2Mul(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| x.wrapping_mul(y));
    I16x8Q15MulrSatS(a: V128, c: V128) -> V128 [Bits] = g16(|i| clamp(((h16(a, i).wrapping_mul(h16(c, i)) + 0x4000) >> 15) as i64, -32768, 32767));
    I32x4DotI16x8S(a: V128, c: V128) -> V128 [Bits] = g32(|i| h16(a, 2 * i).wrapping_mul(h16(c, 2 * i)).wrapping_add(h16(a, 2 * i + 1).wrapping_mul(h16(c, 2 * i + 1))) as i64);
} } }

/// float, bit-level
#[macro_export]
macro_rules! simd_float_ops { ($cb:ident) => { $cb! {
    F32x4Splat(x: F32) -> V128 [Bits] = m32(V128([0; 16]), |_| x.0);
    F32x4Eq(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(fl::s::eq(F32(x), F32(y))));
    F32x4Ne(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(!fl::s::eq(F32(x), F32(y))));
    F32x4Lt(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(fl::s::lt(F32(x), F32(y))));
    F32x4Gt(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(fl::s::lt(F32(y), F32(x))));
    F32x4Le(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(fl::s::le(F32(x), F32(y))));
    F32x4Ge(a: V128, c: V128) -> V128 [Bits] = z32(a, c, |x, y| k32(fl::s::le(F32(y), F32(x))));
    F32x4Abs(a: V128) -> V128 [Bits] = mf(a, fl::s::abs);
    F32x4Neg(a: V128) -> V128 [Bits] = mf(a, fl::s::neg);
    F32x4Ceil(a: V128) -> V128 [F32x4] = mf(a, fl::s::ceil);
    F32x4Floor(a: V128) -> V128 [F32x4] = mf(a, fl::s::floor);
    F32x4Trunc(a: V128) -> V128 [F32x4] = mf(a, fl::s::trunc);
    F32x4Nearest(a: V128) -> V128 [F32x4] = mf(a, fl::s::nearest);
    F32x4Min(a: V128, c: V128) -> V128 [F32x4] = zf(a, c, fl::s::min);
    F32x4Max(a: V128, c: V128) -> V128 [F32x4] = zf(a, c, fl::s::max);
    F32x4PMin(a: V128, c: V128) -> V128 [Bits] = zf(a, c, fl::s::pmin);
    F32x4PMax(a: V128, c: V128) -> V128 [Bits] = zf(a, c, fl::s::pmax);
    F64x2Splat(x: F64) -> V128 [Bits] = m64(V128([0; 16]), |_| x.0);
    F64x2Eq(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(fl::d::eq(F64(x), F64(y))));
    F64x2Ne(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(!fl::d::eq(F64(x), F64(y))));
    F64x2Lt(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(fl::d::lt(F64(x), F64(y))));
    F64x2Gt(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(fl::d::lt(F64(y), F64(x))));
    F64x2Le(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(fl::d::le(F64(x), F64(y))));
    F64x2Ge(a: V128, c: V128) -> V128 [Bits] = z64(a, c, |x, y| k64(fl::d::le(F64(y), F64(x))));
    F64x2Abs(a: V128) -> V128 [Bits] = md(a, fl::d::abs);
    F64x2Neg(a: V128) -> V128 [Bits] = md(a, fl::d::neg);
    F64x2Ceil(a: V128) -> V128 [F64x2] = md(a, fl::d::ceil);
    F64x2Floor(a: V128) -> V128 [F64x2] = md(a, fl::d::floor);
    F64x2Trunc(a: V128) -> V128 [F64x2] = md(a, fl::d::trunc);
    F64x2Nearest(a: V128) -> V128 [F64x2] = md(a, fl::d::nearest);
    F64x2Min(a: V128, c: V128) -> V128 [F64x2] = zd(a, c, fl::d::min);
    F64x2Max(a: V128, c: V128) -> V128 [F64x2] = zd(a, c, fl::d::max);
    F64x2PMin(a: V128, c: V128) -> V128 [Bits] = zd(a, c, fl::d::pmin);
    F64x2PMax(a: V128, c: V128) -> V128 [Bits] = zd(a, c, fl::d::pmax);
    I32x4TruncSatF32x4S(a: V128) -> V128 [Bits] = m32(a, |x| fl::s::sat_i32(F32(x)));
    I32x4TruncSatF32x4U(a: V128) -> V128 [Bits] = m32(a, |x| fl::s::sat_u32(F32(x)));
    F32x4ConvertI32x4S(a: V128) -> V128 [F32x4] = m32(a, |x| fl::s::of_i32(x).0);
    F32x4ConvertI32x4U(a: V128) -> V128 [F32x4] = m32(a, |x| fl::s::of_u32(x).0);
    I32x4TruncSatF64x2SZero(a: V128) -> V128 [Bits] = { let x = u64x2(a); of32([fl::d::sat_i32(F64(x[0])), fl::d::sat_i32(F64(x[1])), 0, 0]) };
    I32x4TruncSatF64x2UZero(a: V128) -> V128 [Bits] = { let x = u64x2(a); of32([fl::d::sat_u32(F64(x[0])), fl::d::sat_u32(F64(x[1])), 0, 0]) };
    F64x2ConvertLowI32x4S(a: V128) -> V128 [F64x2] = { let x = u32x4(a); of64([fl::d::of_i32(x[0]).0, fl::d::of_i32(x[1]).0]) };
    F64x2ConvertLowI32x4U(a: V128) -> V128 [F64x2] = { let x = u32x4(a); of64([fl::d::of_u32(x[0]).0, fl::d::of_u32(x[1]).0]) };
    F32x4DemoteF64x2Zero(a: V128) -> V128 [F32x4] = { let x = u64x2(a); of32([fl::demote(F64(x[0])).0, fl::demote(F64(x[1])).0, 0, 0]) };
    F64x2PromoteLowF32x4(a: V128) -> V128 [F64x2] = { let x = u32x4(a); of64([fl::promote(F32(x[0])).0, fl::promote(F32(x[1])).0]) };
} } }

/// float arithmetic
#[macro_export]
macro_rules! simd_farith_ops { ($cb:ident) => { $cb! {
    F32x4Add(a: V128, c: V128) -> V128 [F32x4] = zf(a, c, fl::s::add);
    F32x4Sub(a: V128, c: V128) -> V128 [F32x4] = zf(a, c, fl::s::sub);
    F32x4Mul(a: V128, c: V128) -> V128 [F32x4] = zf(a, c, fl::s::mul);
    F32x4Div(a: V128, c: V128) -> V128 [F32x4] = zf(a, c, fl::s::div);
    F32x4Sqrt(a: V128) -> V128 [F32x4] = mf(a, fl::s::sqrt);
    F64x2Add(a: V128, c: V128) -> V128 [F64x2] = zd(a, c, fl::d::add);
    F64x2Sub(a: V128, c: V128) -> V128 [F64x2] = zd(a, c, fl::d::sub);
    F64x2Mul(a: V128, c: V128) -> V128 [F64x2] = zd(a, c, fl::d::mul);
    F64x2Div(a: V128, c: V128) -> V128 [F64x2] = zd(a, c, fl::d::div);
    F64x2Sqrt(a: V128) -> V128 [F64x2] = md(a, fl::d::sqrt);
} } }

simd_int_ops!(def);

simd_mul_ops!(def);

simd_float_ops!(def);

simd_farith_ops!(def);


/// Relaxed instructions: the set of results the specification permits, given as a predicate.
pub mod relaxed {
    use super::*;
    fn lanes32(got: V128, f: impl Fn(usize, u32) -> bool) -> bool { let g = u32x4(got); (0..4).all(|i| f(i, g[i])) }
    fn okf(w: f32, g: u32) -> bool { if w.is_nan() { F32(g).nan() } else { w.to_bits() == g } }
    fn okd(w: f64, g: u64) -> bool { if w.is_nan() { F64(g).nan() } else { w.to_bits() == g } }
    pub fn I8x16RelaxedSwizzle(a: V128, s: V128, got: V128) -> bool {
        (0..16).all(|i| { let k = s.0[i]; if k < 16 { got.0[i] == a.0[k as usize] } else if k >= 128 { got.0[i] == 0 } else { got.0[i] == 0 || got.0[i] == a.0[(k & 15) as usize] } }) }
    pub fn I32x4RelaxedTruncF32x4S(a: V128, got: V128) -> bool { let x = u32x4(a); lanes32(got, |i, g| match fl::s::to_i32(F32(x[i])) { Ok(v) => g == v, Err(_) => g == fl::s::sat_i32(F32(x[i])) || g == 1 << 31 }) }
    pub fn I32x4RelaxedTruncF32x4U(a: V128, got: V128) -> bool { let x = u32x4(a); lanes32(got, |i, g| match fl::s::to_u32(F32(x[i])) { Ok(v) => g == v, Err(_) => g == fl::s::sat_u32(F32(x[i])) || g == u32::MAX }) }
    pub fn I32x4RelaxedTruncF64x2SZero(a: V128, got: V128) -> bool { let x = u64x2(a); lanes32(got, |i, g| if i > 1 { g == 0 } else { match fl::d::to_i32(F64(x[i])) { Ok(v) => g == v, Err(_) => g == fl::d::sat_i32(F64(x[i])) || g == 1 << 31 } }) }
    pub fn I32x4RelaxedTruncF64x2UZero(a: V128, got: V128) -> bool { let x = u64x2(a); lanes32(got, |i, g| if i > 1 { g == 0 } else { match fl::d::to_u32(F64(x[i])) { Ok(v) => g == v, Err(_) => g == fl::d::sat_u32(F64(x[i])) || g == u32::MAX } }) }
    pub fn F32x4RelaxedMadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c) = (u32x4(a), u32x4(b), u32x4(c)); lanes32(got, |i, g| { let (x, y, z) = (f32::from_bits(a[i]), f32::from_bits(b[i]), f32::from_bits(c[i])); okf(x * y + z, g) || okf(x.mul_add(y, z), g) }) }
    pub fn F32x4RelaxedNmadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c) = (u32x4(a), u32x4(b), u32x4(c)); lanes32(got, |i, g| { let (x, y, z) = (f32::from_bits(a[i]), f32::from_bits(b[i]), f32::from_bits(c[i])); okf(-(x * y) + z, g) || okf((-x).mul_add(y, z), g) }) }
    pub fn F64x2RelaxedMadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c, g) = (u64x2(a), u64x2(b), u64x2(c), u64x2(got)); (0..2).all(|i| { let (x, y, z) = (f64::from_bits(a[i]), f64::from_bits(b[i]), f64::from_bits(c[i])); okd(x * y + z, g[i]) || okd(x.mul_add(y, z), g[i]) }) }
    pub fn F64x2RelaxedNmadd(a: V128, b: V128, c: V128, got: V128) -> bool { let (a, b, c, g) = (u64x2(a), u64x2(b), u64x2(c), u64x2(got)); (0..2).all(|i| { let (x, y, z) = (f64::from_bits(a[i]), f64::from_bits(b[i]), f64::from_bits(c[i])); okd(-(x * y) + z, g[i]) || okd((-x).mul_add(y, z), g[i]) }) }
    fn lsel(a: V128, b: V128, m: V128, got: V128, w: usize) -> bool {
        let bs = bsel(a, b, m);
        (0..16 / w).all(|l| { let r = l * w..l * w + w; let top = m.0[l * w + w - 1] & 0x80 != 0;
            let pick = if top { a } else { b }; got.0[r.clone()] == bs.0[r.clone()] || got.0[r.clone()] == pick.0[r] }) }
    pub fn I8x16RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 1) }
    pub fn I16x8RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 2) }
    pub fn I32x4RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 4) }
    pub fn I64x2RelaxedLaneselect(a: V128, b: V128, m: V128, got: V128) -> bool { lsel(a, b, m, got, 8) }
    // relaxed min/max: the IEEE result, or either operand when one is NaN or both are zeros
    fn mm32(a: V128, b: V128, got: V128, max: bool) -> bool { let (a, b) = (u32x4(a), u32x4(b)); lanes32(got, |i, g| { let (x, y) = (F32(a[i]), F32(b[i]));
        let w = if max { fl::s::max(x, y) } else { fl::s::min(x, y) };
        if x.nan() || y.nan() { F32(g).nan() || g == x.0 || g == y.0 } else if (x.0 | y.0) << 1 == 0 { g == x.0 || g == y.0 } else { g == w.0 } }) }
    fn mm64(a: V128, b: V128, got: V128, max: bool) -> bool { let (a, b, g) = (u64x2(a), u64x2(b), u64x2(got)); (0..2).all(|i| { let (x, y) = (F64(a[i]), F64(b[i]));
        let w = if max { fl::d::max(x, y) } else { fl::d::min(x, y) };
        if x.nan() || y.nan() { F64(g[i]).nan() || g[i] == x.0 || g[i] == y.0 } else if (x.0 | y.0) << 1 == 0 { g[i] == x.0 || g[i] == y.0 } else { g[i] == w.0 } }) }
    pub fn F32x4RelaxedMin(a: V128, b: V128, got: V128) -> bool { mm32(a, b, got, false) }
    pub fn F32x4RelaxedMax(a: V128, b: V128, got: V128) -> bool { mm32(a, b, got, true) }
    pub fn F64x2RelaxedMin(a: V128, b: V128, got: V128) -> bool { mm64(a, b, got, false) }
    pub fn F64x2RelaxedMax(a: V128, b: V128, got: V128) -> bool { mm64(a, b, got, true) }
    pub fn I16x8RelaxedQ15mulrS(a: V128, b: V128, got: V128) -> bool { let (a, b, g) = (u16x8(a), u16x8(b), u16x8(got));
        (0..8).all(|i| if a[i] == 0x8000 && b[i] == 0x8000 { g[i] == 0x7fff || g[i] == 0x8000 } else { g[i] == (((a[i] as i16 as i64 * b[i] as i16 as i64) + 0x4000) >> 15) as u16 }) }
    // b is 7-bit: where its top bit is set, it may count as signed or unsigned (and then a as either); the sum of
    // two products may wrap or saturate at 16 bits (and not be cut at all, in the 32-bit form)
    fn prod(a: V128, b: V128, k: usize, m: u8) -> i64 { (if m == 2 { a.0[k] as i64 } else { a.0[k] as i8 as i64 }) * if m > 0 { b.0[k] as i64 } else { b.0[k] as i8 as i64 } }
    fn cut(s: i64, how: u8) -> i64 { match how { 0 => s as i16 as i64, 1 => clamp(s, -32768, 32767), _ => s } }
    pub fn I16x8RelaxedDotI8x16I7x16S(a: V128, b: V128, got: V128) -> bool { let g = u16x8(got); (0..8).all(|i| (0..3).any(|m| { let s = prod(a, b, 2 * i, m) + prod(a, b, 2 * i + 1, m); (0..2).any(|h| cut(s, h) as u16 == g[i]) })) }
    pub fn I32x4RelaxedDotI8x16I7x16AddS(a: V128, b: V128, c: V128, got: V128) -> bool { let (g, c) = (u32x4(got), u32x4(c));
        (0..4).all(|i| (0..3).any(|m| { let p = |k| prod(a, b, 4 * i + k, m); let (x, y) = (p(0) + p(1), p(2) + p(3));
            (0..3).any(|h| ((cut(x, h) + cut(y, h)) as u32).wrapping_add(c[i]) == g[i]) })) }
}
#[macro_export]
macro_rules! relaxed2_ops { ($cb:ident) => { $cb! { I8x16RelaxedSwizzle F32x4RelaxedMin F32x4RelaxedMax F64x2RelaxedMin F64x2RelaxedMax I16x8RelaxedQ15mulrS I16x8RelaxedDotI8x16I7x16S } } }
#[macro_export]
macro_rules! relaxed1_ops { ($cb:ident) => { $cb! { I32x4RelaxedTruncF32x4S I32x4RelaxedTruncF32x4U I32x4RelaxedTruncF64x2SZero I32x4RelaxedTruncF64x2UZero } } }
#[macro_export]
macro_rules! relaxed3_ops { ($cb:ident) => { $cb! { F32x4RelaxedMadd F32x4RelaxedNmadd F64x2RelaxedMadd F64x2RelaxedNmadd I8x16RelaxedLaneselect I16x8RelaxedLaneselect I32x4RelaxedLaneselect I64x2RelaxedLaneselect I32x4RelaxedDotI8x16I7x16AddS } } }
