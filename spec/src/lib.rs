//! Specification functions: the WebAssembly core specification's numeric and vector operators,
//! written independently of the code under verification (own bit-level definitions wherever the
//! implementation uses a library routine).  Every contract and the reference semantics use these.
#![allow(non_snake_case)]
pub mod fl;
pub mod ops;
pub mod simd;

/// Why a numeric instruction traps.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tr { DivZero, Overflow, BadConv }
pub type R<T> = Result<T, Tr>;

/// 128-bit vector, little-endian lane order (byte 0 first).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct V128(pub [u8; 16]);

/// A typed operand or result of an instruction, as its bits.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val { I32(u32), I64(u64), F32(u32), F64(u64), V(V128), FuncRef(Option<u32>), ExternRef(Option<u32>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { I32, I64, F32, F64, V128, FuncRef, ExternRef }

impl Val {
    pub fn ty(&self) -> Ty {
        match self { Val::I32(_) => Ty::I32, Val::I64(_) => Ty::I64, Val::F32(_) => Ty::F32, Val::F64(_) => Ty::F64,
            Val::V(_) => Ty::V128, Val::FuncRef(_) => Ty::FuncRef, Val::ExternRef(_) => Ty::ExternRef }
    }
    pub fn default(t: Ty) -> Val {
        match t { Ty::I32 => Val::I32(0), Ty::I64 => Val::I64(0), Ty::F32 => Val::F32(0), Ty::F64 => Val::F64(0),
            Ty::V128 => Val::V(V128([0; 16])), Ty::FuncRef => Val::FuncRef(None), Ty::ExternRef => Val::ExternRef(None) }
    }
}

/// A scalar operand type of the specification.
pub trait Lane: Copy {
    const TY: Ty;
    fn to_val(self) -> Val;
    fn of_val(v: Val) -> Self;
    /// May an implementation return `got` where the specification's function yields `self`?
    fn allows(self, got: Self) -> bool;
    /// As `allows`, for CBMC: its float model fixes one NaN, so any NaN stands for all of them.
    fn allows_any_nan(self, got: Self) -> bool;
}
impl Lane for u32 {
    const TY: Ty = Ty::I32;
    fn to_val(self) -> Val { Val::I32(self) }
    fn of_val(v: Val) -> Self { match v { Val::I32(x) => x, _ => panic!("type") } }
    fn allows(self, got: Self) -> bool { self == got }
    fn allows_any_nan(self, got: Self) -> bool { self == got }
}
impl Lane for u64 {
    const TY: Ty = Ty::I64;
    fn to_val(self) -> Val { Val::I64(self) }
    fn of_val(v: Val) -> Self { match v { Val::I64(x) => x, _ => panic!("type") } }
    fn allows(self, got: Self) -> bool { self == got }
    fn allows_any_nan(self, got: Self) -> bool { self == got }
}
impl Lane for V128 {
    const TY: Ty = Ty::V128;
    fn to_val(self) -> Val { Val::V(self) }
    fn of_val(v: Val) -> Self { match v { Val::V(x) => x, _ => panic!("type") } }
    fn allows(self, got: Self) -> bool { self.0 == got.0 }
    fn allows_any_nan(self, got: Self) -> bool { u128::from_le_bytes(self.0) == u128::from_le_bytes(got.0) }
}
/// Floats travel as bits, so that no NaN payload is lost on the way.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F32(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F64(pub u64);
impl F32 { pub fn nan(self) -> bool { self.0 & 0x7fff_ffff > 0x7f80_0000 } pub fn f(self) -> f32 { f32::from_bits(self.0) } }
impl F64 { pub fn nan(self) -> bool { self.0 & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000 } pub fn f(self) -> f64 { f64::from_bits(self.0) } }
pub fn f32b(x: f32) -> F32 { F32(x.to_bits()) }
pub fn f64b(x: f64) -> F64 { F64(x.to_bits()) }
// a NaN the specification's function returns stands for every arithmetic NaN (quiet bit set)
impl Lane for F32 {
    const TY: Ty = Ty::F32;
    fn to_val(self) -> Val { Val::F32(self.0) }
    fn of_val(v: Val) -> Self { match v { Val::F32(x) => F32(x), _ => panic!("type") } }
    fn allows(self, got: Self) -> bool { if self.nan() { got.nan() && got.0 & 0x0040_0000 != 0 } else { self.0 == got.0 } }
    fn allows_any_nan(self, got: Self) -> bool { if self.nan() { got.nan() } else { self.0 == got.0 } }
}
impl Lane for F64 {
    const TY: Ty = Ty::F64;
    fn to_val(self) -> Val { Val::F64(self.0) }
    fn of_val(v: Val) -> Self { match v { Val::F64(x) => F64(x), _ => panic!("type") } }
    fn allows(self, got: Self) -> bool { if self.nan() { got.nan() && got.0 & 0x0008_0000_0000_0000 != 0 } else { self.0 == got.0 } }
    fn allows_any_nan(self, got: Self) -> bool { if self.nan() { got.nan() } else { self.0 == got.0 } }
}

/// Comparison of two observed values where NaN payloads of float type are left open.
pub fn same_val(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::F32(x), Val::F32(y)) => x == y || (F32(x).nan() && F32(y).nan()),
        (Val::F64(x), Val::F64(y)) => x == y || (F64(x).nan() && F64(y).nan()),
        _ => a == b,
    }
}

/// How the lanes of a vector result are compared.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VK { Bits, F32x4, F64x2 }
pub fn v_allows(kind: VK, want: V128, got: V128) -> bool {
    match kind {
        VK::Bits => want.0 == got.0,
        VK::F32x4 => { let (w, g) = (simd::u32x4(want), simd::u32x4(got)); (0..4).all(|i| F32(w[i]).allows(F32(g[i]))) }
        VK::F64x2 => { let (w, g) = (simd::u64x2(want), simd::u64x2(got)); (0..2).all(|i| F64(w[i]).allows(F64(g[i]))) }
    }
}
