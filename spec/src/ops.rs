//! Scalar numeric instructions: name, operand types, result types, specification.
//! `int_ops!(cb)` etc. hand the table to a macro.
use crate::{F32, F64, R, Tr, fl};
fn b(x: bool) -> u32 { x as u32 }

macro_rules! def { ($($name:ident ($($a:ident : $t:ty),*) -> ($($r:ty),*) = $e:expr;)*) => {
    $( #[allow(unused_parens)] pub fn $name($($a: $t),*) -> R<($($r),*)> { $e } )* } }

#[macro_export]
macro_rules! int_ops { ($cb:ident) => { $cb! {
    I32Eqz(a: u32) -> (u32) = Ok(b(a == 0));
    I32Eq(a: u32, c: u32) -> (u32) = Ok(b(a == c));
    I32Ne(a: u32, c: u32) -> (u32) = Ok(b(a != c));
    I32LtS(a: u32, c: u32) -> (u32) = Ok(b((a as i32) < c as i32));
    I32LtU(a: u32, c: u32) -> (u32) = Ok(b(a < c));
    I32GtS(a: u32, c: u32) -> (u32) = Ok(b((a as i32) > c as i32));
    I32GtU(a: u32, c: u32) -> (u32) = Ok(b(a > c));
    I32LeS(a: u32, c: u32) -> (u32) = Ok(b((a as i32) <= c as i32));
    I32LeU(a: u32, c: u32) -> (u32) = Ok(b(a <= c));
    I32GeS(a: u32, c: u32) -> (u32) = Ok(b((a as i32) >= c as i32));
    I32GeU(a: u32, c: u32) -> (u32) = Ok(b(a >= c));
    I64Eqz(a: u64) -> (u32) = Ok(b(a == 0));
    I64Eq(a: u64, c: u64) -> (u32) = Ok(b(a == c));
    I64Ne(a: u64, c: u64) -> (u32) = Ok(b(a != c));
    I64LtS(a: u64, c: u64) -> (u32) = Ok(b((a as i64) < c as i64));
    I64LtU(a: u64, c: u64) -> (u32) = Ok(b(a < c));
    I64GtS(a: u64, c: u64) -> (u32) = Ok(b((a as i64) > c as i64));
    I64GtU(a: u64, c: u64) -> (u32) = Ok(b(a > c));
    I64LeS(a: u64, c: u64) -> (u32) = Ok(b((a as i64) <= c as i64));
    I64LeU(a: u64, c: u64) -> (u32) = Ok(b(a <= c));
    I64GeS(a: u64, c: u64) -> (u32) = Ok(b((a as i64) >= c as i64));
    I64GeU(a: u64, c: u64) -> (u32) = Ok(b(a >= c));
    I32Clz(a: u32) -> (u32) = Ok(clz(a as u64, 32) as u32);
    I32Ctz(a: u32) -> (u32) = Ok(ctz(a as u64, 32) as u32);
    I32Popcnt(a: u32) -> (u32) = Ok(pop(a as u64) as u32);
    I64Clz(a: u64) -> (u64) = Ok(clz(a, 64));
    I64Ctz(a: u64) -> (u64) = Ok(ctz(a, 64));
    I64Popcnt(a: u64) -> (u64) = Ok(pop(a));
    I32Add(a: u32, c: u32) -> (u32) = Ok(a.wrapping_add(c));
    I32Sub(a: u32, c: u32) -> (u32) = Ok(a.wrapping_sub(c));
    I32And(a: u32, c: u32) -> (u32) = Ok(a & c);
    I32Or(a: u32, c: u32) -> (u32) = Ok(a | c);
    I32Xor(a: u32, c: u32) -> (u32) = Ok(a ^ c);
    I32Shl(a: u32, c: u32) -> (u32) = Ok(a << (c & 31));
    I32ShrS(a: u32, c: u32) -> (u32) = Ok(((a as i32) >> (c & 31)) as u32);
    I32ShrU(a: u32, c: u32) -> (u32) = Ok(a >> (c & 31));
    I32Rotl(a: u32, c: u32) -> (u32) = Ok(rot32(a, c & 31));
    I32Rotr(a: u32, c: u32) -> (u32) = Ok(rot32(a, 32 - (c & 31)));
    I64Add(a: u64, c: u64) -> (u64) = Ok(a.wrapping_add(c));
    I64Sub(a: u64, c: u64) -> (u64) = Ok(a.wrapping_sub(c));
    I64And(a: u64, c: u64) -> (u64) = Ok(a & c);
    I64Or(a: u64, c: u64) -> (u64) = Ok(a | c);
    I64Xor(a: u64, c: u64) -> (u64) = Ok(a ^ c);
    I64Shl(a: u64, c: u64) -> (u64) = Ok(a << (c & 63));
    I64ShrS(a: u64, c: u64) -> (u64) = Ok(((a as i64) >> (c & 63)) as u64);
    I64ShrU(a: u64, c: u64) -> (u64) = Ok(a >> (c & 63));
    I64Rotl(a: u64, c: u64) -> (u64) = Ok(rot64(a, (c & 63) as u32));
    I64Rotr(a: u64, c: u64) -> (u64) = Ok(rot64(a, 64 - (c & 63) as u32));
    I32WrapI64(a: u64) -> (u32) = Ok((a & 0xffff_ffff) as u32);
    I64ExtendI32S(a: u32) -> (u64) = Ok(sx(a as u64, 32));
    I64ExtendI32U(a: u32) -> (u64) = Ok(a as u64);
    I32Extend8S(a: u32) -> (u32) = Ok(sx(a as u64, 8) as u32);
    I32Extend16S(a: u32) -> (u32) = Ok(sx(a as u64, 16) as u32);
    I64Extend8S(a: u64) -> (u64) = Ok(sx(a, 8));
    I64Extend16S(a: u64) -> (u64) = Ok(sx(a, 16));
    I64Extend32S(a: u64) -> (u64) = Ok(sx(a, 32));
    I64Add128(al: u64, ah: u64, bl: u64, bh: u64) -> (u64, u64) = Ok(split(join(al, ah).wrapping_add(join(bl, bh))));
    I64Sub128(al: u64, ah: u64, bl: u64, bh: u64) -> (u64, u64) = Ok(split(join(al, ah).wrapping_sub(join(bl, bh))));
} } }
/// Multiplications and divisions: separate because they are the expensive ones for a SAT back end.
#[macro_export]
macro_rules! intmul_ops { ($cb:ident) => { $cb! {
    I32Mul(a: u32, c: u32) -> (u32) = Ok((a as i32).wrapping_mul(c as i32) as u32);
    I64Mul(a: u64, c: u64) -> (u64) = Ok((a as i64).wrapping_mul(c as i64) as u64);
    I64MulWideS(a: u64, c: u64) -> (u64, u64) = Ok(split(((a as i64 as i128).wrapping_mul(c as i64 as i128)) as u128));
    I64MulWideU(a: u64, c: u64) -> (u64, u64) = Ok(split((a as u128).wrapping_mul(c as u128)));
    I32DivS(a: u32, c: u32) -> (u32) = if c == 0 { Err(Tr::DivZero) } else if a == 1 << 31 && c == u32::MAX { Err(Tr::Overflow) } else { Ok(((a as i32) / (c as i32)) as u32) };
    I32DivU(a: u32, c: u32) -> (u32) = if c == 0 { Err(Tr::DivZero) } else { Ok(a / c) };
    I32RemS(a: u32, c: u32) -> (u32) = if c == 0 { Err(Tr::DivZero) } else if c == u32::MAX { Ok(0) } else { Ok(((a as i32) % (c as i32)) as u32) };
    I32RemU(a: u32, c: u32) -> (u32) = if c == 0 { Err(Tr::DivZero) } else { Ok(a % c) };
    I64DivS(a: u64, c: u64) -> (u64) = if c == 0 { Err(Tr::DivZero) } else if a == 1 << 63 && c == u64::MAX { Err(Tr::Overflow) } else { Ok(((a as i64) / (c as i64)) as u64) };
    I64DivU(a: u64, c: u64) -> (u64) = if c == 0 { Err(Tr::DivZero) } else { Ok(a / c) };
    I64RemS(a: u64, c: u64) -> (u64) = if c == 0 { Err(Tr::DivZero) } else if c == u64::MAX { Ok(0) } else { Ok(((a as i64) % (c as i64)) as u64) };
    I64RemU(a: u64, c: u64) -> (u64) = if c == 0 { Err(Tr::DivZero) } else { Ok(a % c) };
} } }
/// Float instructions that are bit-level (cheap for CBMC).
#[macro_export]
macro_rules! float_ops { ($cb:ident) => { $cb! {
    F32Eq(a: F32, c: F32) -> (u32) = Ok(b(fl::s::eq(a, c)));
    F32Ne(a: F32, c: F32) -> (u32) = Ok(b(!fl::s::eq(a, c)));
    F32Lt(a: F32, c: F32) -> (u32) = Ok(b(fl::s::lt(a, c)));
    F32Gt(a: F32, c: F32) -> (u32) = Ok(b(fl::s::lt(c, a)));
    F32Le(a: F32, c: F32) -> (u32) = Ok(b(fl::s::le(a, c)));
    F32Ge(a: F32, c: F32) -> (u32) = Ok(b(fl::s::le(c, a)));
    F64Eq(a: F64, c: F64) -> (u32) = Ok(b(fl::d::eq(a, c)));
    F64Ne(a: F64, c: F64) -> (u32) = Ok(b(!fl::d::eq(a, c)));
    F64Lt(a: F64, c: F64) -> (u32) = Ok(b(fl::d::lt(a, c)));
    F64Gt(a: F64, c: F64) -> (u32) = Ok(b(fl::d::lt(c, a)));
    F64Le(a: F64, c: F64) -> (u32) = Ok(b(fl::d::le(a, c)));
    F64Ge(a: F64, c: F64) -> (u32) = Ok(b(fl::d::le(c, a)));
    F32Ceil(a: F32) -> (F32) = Ok(fl::s::ceil(a));
    F32Floor(a: F32) -> (F32) = Ok(fl::s::floor(a));
    F32Trunc(a: F32) -> (F32) = Ok(fl::s::trunc(a));
    F32Nearest(a: F32) -> (F32) = Ok(fl::s::nearest(a));
    F64Ceil(a: F64) -> (F64) = Ok(fl::d::ceil(a));
    F64Floor(a: F64) -> (F64) = Ok(fl::d::floor(a));
    F64Trunc(a: F64) -> (F64) = Ok(fl::d::trunc(a));
    F64Nearest(a: F64) -> (F64) = Ok(fl::d::nearest(a));
    F32Min(a: F32, c: F32) -> (F32) = Ok(fl::s::min(a, c));
    F32Max(a: F32, c: F32) -> (F32) = Ok(fl::s::max(a, c));
    F64Min(a: F64, c: F64) -> (F64) = Ok(fl::d::min(a, c));
    F64Max(a: F64, c: F64) -> (F64) = Ok(fl::d::max(a, c));
} } }
/// Sign-bit operations: every bit of the result is specified, also for NaN.
#[macro_export]
macro_rules! fsign_ops { ($cb:ident) => { $cb! {
    F32Abs(a: F32) -> (F32) = Ok(fl::s::abs(a));
    F32Neg(a: F32) -> (F32) = Ok(fl::s::neg(a));
    F32Copysign(a: F32, c: F32) -> (F32) = Ok(fl::s::copysign(a, c));
    F64Abs(a: F64) -> (F64) = Ok(fl::d::abs(a));
    F64Neg(a: F64) -> (F64) = Ok(fl::d::neg(a));
    F64Copysign(a: F64, c: F64) -> (F64) = Ok(fl::d::copysign(a, c));
} } }
#[macro_export]
macro_rules! conv_ops { ($cb:ident) => { $cb! {
    I32TruncF32S(a: F32) -> (u32) = fl::s::to_i32(a);
    I32TruncF32U(a: F32) -> (u32) = fl::s::to_u32(a);
    I32TruncF64S(a: F64) -> (u32) = fl::d::to_i32(a);
    I32TruncF64U(a: F64) -> (u32) = fl::d::to_u32(a);
    I64TruncF32S(a: F32) -> (u64) = fl::s::to_i64(a);
    I64TruncF32U(a: F32) -> (u64) = fl::s::to_u64(a);
    I64TruncF64S(a: F64) -> (u64) = fl::d::to_i64(a);
    I64TruncF64U(a: F64) -> (u64) = fl::d::to_u64(a);
    I32TruncSatF32S(a: F32) -> (u32) = Ok(fl::s::sat_i32(a));
    I32TruncSatF32U(a: F32) -> (u32) = Ok(fl::s::sat_u32(a));
    I32TruncSatF64S(a: F64) -> (u32) = Ok(fl::d::sat_i32(a));
    I32TruncSatF64U(a: F64) -> (u32) = Ok(fl::d::sat_u32(a));
    I64TruncSatF32S(a: F32) -> (u64) = Ok(fl::s::sat_i64(a));
    I64TruncSatF32U(a: F32) -> (u64) = Ok(fl::s::sat_u64(a));
    I64TruncSatF64S(a: F64) -> (u64) = Ok(fl::d::sat_i64(a));
    I64TruncSatF64U(a: F64) -> (u64) = Ok(fl::d::sat_u64(a));
    F32ConvertI32S(a: u32) -> (F32) = Ok(fl::s::of_i32(a));
    F32ConvertI32U(a: u32) -> (F32) = Ok(fl::s::of_u32(a));
    F32ConvertI64S(a: u64) -> (F32) = Ok(fl::s::of_i64(a));
    F32ConvertI64U(a: u64) -> (F32) = Ok(fl::s::of_u64(a));
    F64ConvertI32S(a: u32) -> (F64) = Ok(fl::d::of_i32(a));
    F64ConvertI32U(a: u32) -> (F64) = Ok(fl::d::of_u32(a));
    F64ConvertI64S(a: u64) -> (F64) = Ok(fl::d::of_i64(a));
    F64ConvertI64U(a: u64) -> (F64) = Ok(fl::d::of_u64(a));
    F32DemoteF64(a: F64) -> (F32) = Ok(fl::demote(a));
    F64PromoteF32(a: F32) -> (F64) = Ok(fl::promote(a));
} } }
#[macro_export]
macro_rules! farith_ops { ($cb:ident) => { $cb! {
    F32Add(a: F32, c: F32) -> (F32) = Ok(fl::s::add(a, c));
    F32Sub(a: F32, c: F32) -> (F32) = Ok(fl::s::sub(a, c));
    F32Mul(a: F32, c: F32) -> (F32) = Ok(fl::s::mul(a, c));
    F32Div(a: F32, c: F32) -> (F32) = Ok(fl::s::div(a, c));
    F64Add(a: F64, c: F64) -> (F64) = Ok(fl::d::add(a, c));
    F64Sub(a: F64, c: F64) -> (F64) = Ok(fl::d::sub(a, c));
    F64Mul(a: F64, c: F64) -> (F64) = Ok(fl::d::mul(a, c));
    F64Div(a: F64, c: F64) -> (F64) = Ok(fl::d::div(a, c));
    F32Sqrt(a: F32) -> (F32) = Ok(fl::s::sqrt(a));
    F64Sqrt(a: F64) -> (F64) = Ok(fl::d::sqrt(a));
} } }
/// Reinterpretations have no internal instruction (they are lowered away); only the public path sees them.
#[macro_export]
macro_rules! reinterpret_ops { ($cb:ident) => { $cb! {
    I32ReinterpretF32(a: F32) -> (u32) = Ok(a.0);
    I64ReinterpretF64(a: F64) -> (u64) = Ok(a.0);
    F32ReinterpretI32(a: u32) -> (F32) = Ok(F32(a));
    F64ReinterpretI64(a: u64) -> (F64) = Ok(F64(a));
} } }
int_ops!(def);
intmul_ops!(def);
float_ops!(def);
fsign_ops!(def);
conv_ops!(def);
farith_ops!(def);
reinterpret_ops!(def);

fn clz(x: u64, w: u32) -> u64 { let mut n = 0; let mut i = w; while i > 0 { i -= 1; if (x >> i) & 1 == 1 { break; } n += 1; } n }
fn ctz(x: u64, w: u32) -> u64 { let mut n = 0; let mut i = 0; while i < w { if (x >> i) & 1 == 1 { break; } n += 1; i += 1; } n }
fn pop(x: u64) -> u64 { let mut n = 0; let mut i = 0; while i < 64 { n += (x >> i) & 1; i += 1; } n }
fn rot32(x: u32, k: u32) -> u32 { (((x as u64) << 32 | x as u64) << (k & 31) >> 32) as u32 }
fn rot64(x: u64, k: u32) -> u64 { (((x as u128) << 64 | x as u128) << (k & 63) >> 64) as u64 }
/// sign-extend the low n bits
pub fn sx(x: u64, n: u32) -> u64 { let m = x & (((1u128 << n) - 1) as u64); if (m >> (n - 1)) & 1 == 1 { m | !(((1u128 << n) - 1) as u64) } else { m } }
fn join(lo: u64, hi: u64) -> u128 { (hi as u128) << 64 | lo as u128 }
fn split(x: u128) -> (u64, u64) { (x as u64, (x >> 64) as u64) }
