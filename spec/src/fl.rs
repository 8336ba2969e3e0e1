//! Bit-level float specification functions.
use crate::{F32, F64, R, Tr, f32b, f64b};

macro_rules! fl {
    ($m:ident, $F:ident, $f:ty, $u:ty, $mant:expr, $ebits:expr, $b:ident) => {
        pub mod $m {
            use super::*;
            pub const MANT: u32 = $mant;
            pub const BIAS: i32 = (1 << ($ebits - 1)) - 1;
            pub const SIGN: $u = 1 << ($mant + $ebits);
            pub const QNAN: $F = $F((((1 << ($ebits + 1)) - 1) as $u) << ($mant - 1));
            pub fn exp(x: $F) -> i32 { ((x.0 >> MANT) & ((1 << $ebits) - 1)) as i32 - BIAS }
            pub fn neg_sign(x: $F) -> bool { x.0 & SIGN != 0 }
            /// magnitude truncated to an integer (bits), for non-NaN
            pub fn trunc(x: $F) -> $F {
                if x.nan() { return QNAN; }
                let e = exp(x);
                if e < 0 { $F(x.0 & SIGN) } else if e >= MANT as i32 { x } else {
                    $F(x.0 & !(((1 as $u) << (MANT as i32 - e) as u32) - 1)) }
            }
            pub fn is_int(x: $F) -> bool { trunc(x).0 == x.0 }
            pub fn floor(x: $F) -> $F {
                if x.nan() { return QNAN; }
                let t = trunc(x);
                if neg_sign(x) && t.0 != x.0 && !(x.0 == SIGN) { $b(t.f() - 1.0) } else { t }
            }
            pub fn ceil(x: $F) -> $F {
                if x.nan() { return QNAN; }
                let t = trunc(x);
                if !neg_sign(x) && t.0 != x.0 { $b(t.f() + 1.0) } else { t }
            }
            /// round to nearest integer, ties to even
            pub fn nearest(x: $F) -> $F {
                if x.nan() { return QNAN; }
                let e = exp(x);
                let s = x.0 & SIGN;
                if e >= MANT as i32 { return x; }
                if e < -1 { return $F(s); }
                if e == -1 { // [0.5, 1)
                    let one = (BIAS as $u) << MANT;
                    let half = ((BIAS - 1) as $u) << MANT;
                    return if x.0 & !SIGN == half { $F(s) } else { $F(s | one) };
                }
                let sh = (MANT as i32 - e) as u32; // fraction bits, 1..=MANT
                let unit = (1 as $u) << sh;
                let frac = x.0 & (unit - 1);
                let t = x.0 & !(unit - 1);
                let half = unit >> 1;
                // adding a unit carries into the exponent exactly as the real sum does
                let odd = if sh == MANT { true /* e == 0: integer part is 1 */ } else { t & unit != 0 };
                if frac > half || (frac == half && odd) { $F(t + unit) } else { $F(t) }
            }
            pub fn abs(x: $F) -> $F { $F(x.0 & !SIGN) }
            pub fn neg(x: $F) -> $F { $F(x.0 ^ SIGN) }
            pub fn copysign(x: $F, y: $F) -> $F { $F((x.0 & !SIGN) | (y.0 & SIGN)) }
            fn key(x: $F) -> $u { if neg_sign(x) { !x.0 } else { x.0 | SIGN } } // total order on non-NaN
            pub fn eq(x: $F, y: $F) -> bool { !x.nan() && !y.nan() && (x.0 == y.0 || (x.0 | y.0) & !SIGN == 0) }
            pub fn lt(x: $F, y: $F) -> bool { !x.nan() && !y.nan() && !eq(x, y) && key(x) < key(y) }
            pub fn le(x: $F, y: $F) -> bool { eq(x, y) || lt(x, y) }
            pub fn min(x: $F, y: $F) -> $F { if x.nan() || y.nan() { QNAN } else if key(x) <= key(y) { x } else { y } }
            pub fn max(x: $F, y: $F) -> $F { if x.nan() || y.nan() { QNAN } else if key(x) >= key(y) { x } else { y } }
            pub fn pmin(x: $F, y: $F) -> $F { if lt(y, x) { y } else { x } }
            pub fn pmax(x: $F, y: $F) -> $F { if lt(x, y) { y } else { x } }
            pub fn add(x: $F, y: $F) -> $F { $b(x.f() + y.f()) }
            pub fn sub(x: $F, y: $F) -> $F { $b(x.f() - y.f()) }
            pub fn mul(x: $F, y: $F) -> $F { $b(x.f() * y.f()) }
            pub fn div(x: $F, y: $F) -> $F { $b(x.f() / y.f()) }
            pub fn sqrt(x: $F) -> $F { $b(x.f().sqrt()) }
            /// (negative, magnitude) of the truncation; None: NaN, Some with sat=true: does not fit 64 bits
            fn to_int(x: $F) -> Option<(bool, u64, bool)> {
                if x.nan() { return None; }
                let e = exp(x);
                let s = neg_sign(x);
                if e < 0 { return Some((s, 0, false)); }
                if e > 63 { return Some((s, u64::MAX, true)); }
                let m = ((x.0 & (((1 as $u) << MANT) - 1)) | ((1 as $u) << MANT)) as u64;
                let v = if e >= MANT as i32 { m << (e - MANT as i32) as u32 } else { m >> (MANT as i32 - e) as u32 };
                Some((s, v, false))
            }
            pub fn to_u64(x: $F) -> R<u64> { match to_int(x) { None => Err(Tr::BadConv), Some((s, v, sat)) => if sat || (s && v != 0) { Err(Tr::Overflow) } else { Ok(v) } } }
            pub fn to_u32(x: $F) -> R<u32> { match to_u64(x) { Ok(v) => if v > u32::MAX as u64 { Err(Tr::Overflow) } else { Ok(v as u32) }, Err(e) => Err(e) } }
            pub fn to_i64(x: $F) -> R<u64> { match to_int(x) { None => Err(Tr::BadConv), Some((s, v, sat)) =>
                if sat || v > (1 << 63) || (!s && v == 1 << 63) { Err(Tr::Overflow) } else { Ok(if s { v.wrapping_neg() } else { v }) } } }
            pub fn to_i32(x: $F) -> R<u32> { match to_int(x) { None => Err(Tr::BadConv), Some((s, v, sat)) =>
                if sat || v > (1 << 31) || (!s && v == 1 << 31) { Err(Tr::Overflow) } else { Ok(if s { (v as u32).wrapping_neg() } else { v as u32 }) } } }
            pub fn sat_u32(x: $F) -> u32 { match to_u32(x) { Ok(v) => v, Err(Tr::BadConv) => 0, Err(_) => if neg_sign(x) { 0 } else { u32::MAX } } }
            pub fn sat_u64(x: $F) -> u64 { match to_u64(x) { Ok(v) => v, Err(Tr::BadConv) => 0, Err(_) => if neg_sign(x) { 0 } else { u64::MAX } } }
            pub fn sat_i32(x: $F) -> u32 { match to_i32(x) { Ok(v) => v, Err(Tr::BadConv) => 0, Err(_) => if neg_sign(x) { 1 << 31 } else { (1 << 31) - 1 } } }
            pub fn sat_i64(x: $F) -> u64 { match to_i64(x) { Ok(v) => v, Err(Tr::BadConv) => 0, Err(_) => if neg_sign(x) { 1 << 63 } else { (1 << 63) - 1 } } }
            /// integer (sign, magnitude) to float, round to nearest even
            pub fn of_int(s: bool, v: u64) -> $F {
                if v == 0 { return $F(0); }
                let sign = if s { SIGN } else { 0 };
                let top = 63 - v.leading_zeros(); // value in [2^top, 2^(top+1))
                let mut e = top as i32;
                let mut m: u64; // mantissa with hidden bit
                if top <= MANT { m = v << (MANT - top); } else {
                    let sh = top - MANT;
                    m = v >> sh;
                    let rest = v & ((1u64 << sh) - 1);
                    let half = 1u64 << (sh - 1);
                    if rest > half || (rest == half && m & 1 == 1) { m += 1; }
                    if m >> (MANT + 1) != 0 { m >>= 1; e += 1; }
                }
                $F(sign | (((e + BIAS) as $u) << MANT) | ((m & ((1u64 << MANT) - 1)) as $u))
            }
            pub fn of_u32(v: u32) -> $F { of_int(false, v as u64) }
            pub fn of_u64(v: u64) -> $F { of_int(false, v) }
            pub fn of_i32(v: u32) -> $F { let v = v as i32; of_int(v < 0, (v as i64).unsigned_abs()) }
            pub fn of_i64(v: u64) -> $F { let v = v as i64; of_int(v < 0, v.unsigned_abs()) }
        }
    };
}
fl!(s, F32, f32, u32, 23, 8, f32b);
fl!(d, F64, f64, u64, 52, 11, f64b);

/// f32 -> f64, exact
pub fn promote(x: F32) -> F64 {
    if x.nan() { return d::QNAN; }
    let sign = ((x.0 >> 31) as u64) << 63;
    let e = ((x.0 >> 23) & 0xff) as u64;
    let m = (x.0 & 0x7f_ffff) as u64;
    if e == 0xff { return F64(sign | 0x7ff0_0000_0000_0000); }
    if e == 0 {
        if m == 0 { return F64(sign); }
        let top = 63 - m.leading_zeros() as u64; // 0..=22
        return F64(sign | ((top + 1023 - 149) << 52) | ((m << (52 - top)) & 0xf_ffff_ffff_ffff));
    }
    F64(sign | ((e + 1023 - 127) << 52) | (m << 29))
}
/// f64 -> f32, round to nearest even
pub fn demote(x: F64) -> F32 {
    if x.nan() { return s::QNAN; }
    let sign = ((x.0 >> 63) as u32) << 31;
    let e = d::exp(x);
    if e == 1024 || e > 127 { return F32(sign | 0x7f80_0000); }
    if e < -150 { return F32(sign); }
    let m = (x.0 & 0xf_ffff_ffff_ffff) | (1 << 52);
    let (sh, base) = if e >= -126 { (29u32, ((e + 126) as u32) << 23) } else { (29 + (-126 - e) as u32, 0) };
    let q = (m >> sh) as u32; // for normal results has the hidden bit, which adds 1 to the exponent field
    let rest = m & ((1u64 << sh) - 1);
    let half = 1u64 << (sh - 1);
    let up = rest > half || (rest == half && q & 1 == 1);
    F32(sign | (base + q + up as u32)) // overflow of the rounding carries to infinity
}
